//go:build go1.22

package main

import (
	"fmt"
	"math"
	"net/netip"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzv/s/expvar"
	"github.com/crimist/trakx/zzv/vnet"
	"github.com/crimist/trakx/zzv/vs"
)

// ---- C25 ----

// tally is what requests count as.
type tally struct{ hits, connects, announces, scrapes, cerr, serr int64 }

func (t tally) add(o tally) tally {
	return tally{t.hits + o.hits, t.connects + o.connects, t.announces + o.announces, t.scrapes + o.scrapes, t.cerr + o.cerr, t.serr + o.serr}
}

// published is the current value of a metric, as a client that asks for it sees it.
func published(name string) int64 {
	n := int64(math.MinInt64)
	vs.Quiet(func() {
		if v := expvar.Get(name); v != nil {
			if x, err := strconv.ParseInt(v.String(), 10, 64); err == nil {
				n = x
			}
		}
	})
	return n
}

// take is what the last interval was published as; nothing may be in flight.
func take() tally {
	return tally{
		published("trakx.requests.hits"), published("trakx.requests.connects"),
		published("trakx.requests.announces"), published("trakx.requests.scrapes"),
		published("trakx.errors.client"), published("trakx.errors.server"),
	}
}

// mreq is one request kind and what it counts as.
type mreq struct {
	name string
	t    tally
	send func(e *menv, n int)
}

type menv struct {
	db    storage.Database
	s     *vnet.USock
	l     *vnet.Lst
	model model
	conns map[netip.AddrPort]uint64
	ucs   map[netip.AddrPort]bool
}

const interval = 10 * time.Second

func startMetrics() *menv {
	setup(func(c *config.Configuration) {
		c.ExpvarInterval = interval
		c.HTTP.Timeout.Read, c.HTTP.Timeout.Write = time.Hour, time.Hour // ticks fire while requests wait
	})
	db := openDB()
	e := &menv{db: db, model: model{}, conns: map[netip.AddrPort]uint64{}, ucs: map[netip.AddrPort]bool{}}
	e.l = startHTTP(db)
	u, s := startUDP(db)
	e.s = s
	vs.Quiet(func() {
		for i := 1; i < 4; i++ {
			s.Send(cli(i), false, udpReq(udpMagic, 0, uint32(i)))
			vs.WaitIdle()
			for _, r := range s.TakeOut() {
				var x uint64
				for _, b := range r.Data[8:16] {
					x = x<<8 | uint64(b)
				}
				e.conns[cli(i)] = x
			}
			e.ucs[cli(i)] = true
		}
		resetStats()
	})
	vs.GoNamed("publisher", func() { stats.Publish(db, func() int64 { return int64(u.Connections()) }) })
	vs.WaitIdle()
	return e
}

func (e *menv) udp(n int, d []byte)  { e.s.Send(cli(n), false, d) }
func (e *menv) http(n int, d []byte) { e.l.Connect(vnet.NewConn(cli(n), true, d)) }

func metricReqs() []mreq {
	h, h2 := hashN(0), hashN(1)
	rs := []mreq{
		{"udp connect", tally{hits: 1, connects: 1}, func(e *menv, n int) {
			e.udp(n+10, udpReq(udpMagic, 0, 1))
			e.ucs[cli(n+10)] = true
		}},
		{"udp announce", tally{hits: 1, announces: 1}, func(e *menv, n int) {
			e.udp(n, annReq{connid: e.conns[cli(n)], txid: 3, hash: h, id: idN(n), port: 8}.bytes())
			e.model.save(h, idN(n), mpeer{cli(n).Addr(), 8, true, nowSec()})
		}},
		{"http announce", tally{hits: 1, announces: 1}, func(e *menv, n int) {
			e.http(n, get(annURL(h2, idN(n), 80, "compact=1", "left=5")))
			e.model.save(h2, idN(n), mpeer{cli(n).Addr(), 80, false, nowSec()})
		}},
		{"udp scrape", tally{hits: 1, scrapes: 1}, func(e *menv, n int) { e.udp(n, scrapeReq(e.conns[cli(n)], 4, h, h2)) }},
		{"http scrape", tally{hits: 1, scrapes: 1}, func(e *menv, n int) { e.http(n, get("/scrape?info_hash="+escAll(h[:]))) }},
		{"udp announce of port 0", tally{hits: 1, announces: 1, cerr: 1}, func(e *menv, n int) {
			e.udp(n, annReq{connid: e.conns[cli(n)], txid: 3, hash: h, id: idN(n)}.bytes())
		}},
		{"http announce without hash", tally{hits: 1, announces: 1, cerr: 1}, func(e *menv, n int) { e.http(n, get("/announce?port=1")) }},
		{"broken base64", tally{hits: 1}, func(e *menv, n int) { e.http(n, []byte("R0VU!")) }},
		// only in histories:
		{"udp announce with a bad connection id", tally{hits: 1, cerr: 1}, func(e *menv, n int) {
			e.udp(n, annReq{connid: 77, txid: 3, hash: h, id: idN(n), port: 8}.bytes())
		}},
		{"udp stop", tally{hits: 1, announces: 1}, func(e *menv, n int) {
			e.udp(n, annReq{connid: e.conns[cli(n)], txid: 3, hash: h, id: idN(n), port: 8, event: 3}.bytes())
			e.model.drop(h, idN(n))
		}},
		{"short udp announce", tally{hits: 1, cerr: 1}, func(e *menv, n int) { e.udp(n, udpReq(e.conns[cli(n)], 1, 1)) }},
		{"unknown action", tally{hits: 1, cerr: 1}, func(e *menv, n int) { e.udp(n, udpReq(1, 9, 1)) }},
		{"udp heartbeat", tally{hits: 1}, func(e *menv, n int) { e.udp(n, udpReq(1, 4, 1)) }},
		{"short datagram", tally{}, func(e *menv, n int) { e.udp(n, make([]byte, 15)) }},
		{"http stop", tally{hits: 1, announces: 1}, func(e *menv, n int) {
			e.http(n, get(annURL(h2, idN(n), 80, "event=stopped")))
			e.model.drop(h2, idN(n))
		}},
		{"http scrape without hash", tally{hits: 1, cerr: 1}, func(e *menv, n int) { e.http(n, get("/scrape")) }},
		{"http scrape with a short hash", tally{hits: 1, scrapes: 1, cerr: 1}, func(e *menv, n int) { e.http(n, get("/scrape?info_hash=aaaa")) }},
		{"heartbeat", tally{hits: 1}, func(e *menv, n int) { e.http(n, get("/heartbeat")) }},
		{"stats", tally{hits: 1}, func(e *menv, n int) { e.http(n, get("/stats")) }},
		{"page", tally{hits: 1}, func(e *menv, n int) { e.http(n, get("/")) }},
		{"no page", tally{hits: 1}, func(e *menv, n int) { e.http(n, get("/nope")) }},
		{"long request", tally{hits: 1}, func(e *menv, n int) {
			e.http(n, get("/heartbeat", "Pad: "+strings.Repeat("x", 70_000)+"\r\n"))
		}},
		{"long udp connect", tally{hits: 1, connects: 1}, func(e *menv, n int) {
			e.udp(n+10, append(udpReq(udpMagic, 0, 1), make([]byte, 1500-16)...))
			e.ucs[cli(n+10)] = true
		}},
		{"garbage", tally{hits: 1}, func(e *menv, n int) { e.http(n, []byte("garbage\r\n\r\n")) }},
		{"closed without request", tally{}, func(e *menv, n int) { e.l.Connect(vnet.NewConn(cli(n), true)) }},
		{"failed accept", tally{serr: 1}, func(e *menv, n int) { e.l.FailAccept(syscall.ECONNABORTED) }},
	}
	if appengine {
		rs = append(rs,
			mreq{"forwarded http announce", tally{hits: 1, announces: 1}, func(e *menv, n int) {
				e.http(n, get(annURL(h2, idN(n), 80, "left=5"), "X-Forwarded-For: 1.2.3.4, 7.7.7.7\r\n"))
				e.model.save(h2, idN(n), mpeer{netip.MustParseAddr("7.7.7.7"), 80, false, nowSec()})
			}},
			mreq{"http announce forwarded for no address", tally{hits: 1, cerr: 1}, func(e *menv, n int) {
				e.http(n, get(annURL(h2, idN(n), 80), "X-Forwarded-For: unknown\r\n"))
			}},
			mreq{"http announce with half a header", tally{hits: 1, cerr: 1}, func(e *menv, n int) {
				e.http(n, []byte("GET "+annURL(h2, idN(n), 80)+" HTTP/1.1\r\nX-Forwarded-For: 7.7"))
			}},
		)
	}
	return rs
}

// gauges compares the published gauges with the content; nothing may be in flight.
func (e *menv) gauges() string {
	s, l, ips := e.model.global()
	hashes := 0
	for _, sw := range e.model {
		_ = sw
		hashes++ // a swarm stays until the next sweep
	}
	for n, w := range map[string]int{"seeds": s, "leeches": l, "peers": s + l, "ips": ips, "hashes": hashes, "udpconnections": len(e.ucs)} {
		if g := published("trakx.database." + n); g != int64(w) {
			return fmt.Sprintf("published trakx.database.%s is %d, there are %d", n, g, w)
		}
	}
	return ""
}

// metricRaces: up to n requests, handled while the publisher runs.
func metricRaces(n, kinds int) func() {
	return func() {
		e := startMetrics()
		rs := metricReqs()[:kinds]
		var want tally
		var hist []string
		next := tickAfter(vs.Now(), interval)
		for i := 0; i < n; i++ {
			r := rs[vs.Choose(len(rs))]
			hist = append(hist, r.name)
			r.send(e, 1+i)
			want = want.add(r.t)
		}
		vs.Fire(next)
		vs.WaitIdle()
		got := take()
		if got.hits > want.hits || got.connects > want.connects || got.announces > want.announces || got.scrapes > want.scrapes {
			vs.Fail("the first interval published %+v for requests %v, which count as %+v", got, hist, want)
			return
		}
		vs.AdvanceTo(next + int64(interval))
		vs.WaitIdle()
		rest := take()
		vs.AdvanceTo(next + 2*int64(interval))
		vs.WaitIdle()
		last := take()
		sum := last
		for _, t := range []tally{got, rest} {
			t.cerr, t.serr = 0, 0 // totals
			sum = sum.add(t)
		}
		if sum != want {
			vs.Fail("requests %v count as %+v, published were %+v, %+v and then %+v", hist, want, got, rest, last)
			return
		}
		if g := e.gauges(); g != "" {
			vs.Fail("%s after %v", g, hist)
			return
		}
		vs.Observe(fmt.Sprint(hist, got))
		Note("%v: first interval %+v, then %+v", hist, got, rest)
	}
}

// metricSeq: sequences of requests and ticks; every interval is exact.
func metricSeq(n int) func() {
	return func() {
		e := startMetrics()
		rs := metricReqs()
		var cur, errs tally
		var hist []string
		at := tickAfter(vs.Now(), interval)
		for i := 0; i < n; i++ {
			k := vs.Choose(len(rs))
			hist = append(hist, rs[k].name)
			rs[k].send(e, 1+i%3)
			vs.WaitIdle()
			cur = cur.add(rs[k].t)
			if i == n-1 || vs.Choose(2) == 1 {
				hist = append(hist, "tick")
				vs.AdvanceTo(at)
				vs.WaitIdle()
				at += int64(interval)
				errs.cerr += cur.cerr
				errs.serr += cur.serr
				cur.cerr, cur.serr = errs.cerr, errs.serr
				if g := take(); g != cur {
					vs.Fail("after %v the interval is published as %+v, expected %+v", hist, g, cur)
					return
				}
				cur = tally{}
				if g := e.gauges(); g != "" {
					vs.Fail("%s after %v", g, hist)
					return
				}
			}
		}
		vs.Observe(strings.Join(hist, ","))
		Note("%v", hist)
	}
}

func init() {
	seq := vs.Budget{MaxSteps: 200_000, FreeSw: -1}
	register(&Check{ID: "C25", Configs: func(d bool) []Config {
		p := 2
		if d {
			p = 3
		}
		con := vs.Budget{MaxSteps: 200_000, Preempt: p, FreeSw: 2}
		return []Config{
			{Name: "histories", Run: metricSeq(seqDepth(3, 4)), B: seq, Bound: fmt.Sprintf("all sequences of %d of 24 requests, a tick or none after each", seqDepth(3, 4))},
			{Name: "histories, App Engine build", Alt: true, Run: metricSeq(seqDepth(2, 3)), B: seq, Bound: fmt.Sprintf("all sequences of %d of 27 requests, a tick or none after each", seqDepth(2, 3))},
			{Name: "many requests", Run: metricMany(300), B: vs.Budget{MaxSteps: 10_000_000, FreeSw: -1}, Bound: "300 times each of 24 requests, then two more intervals"},
			{Name: "a great many requests", Run: metricMany(66000), B: vs.Budget{MaxSteps: 100_000_000, FreeSw: -1}, Bound: "66000 times each of 6 requests, then two more intervals"},
			{Name: "one request during publication", Run: metricRaces(1, 8), B: con},
			{Name: "two requests during publication", Run: metricRaces(2, 5), B: vs.Budget{MaxSteps: 200_000, Preempt: p, FreeSw: 1}},
		}
	}})
}
