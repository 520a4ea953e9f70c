//go:build go1.22

package main

import (
	"fmt"
	"math"
	"net/netip"
	"strings"
	"syscall"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzv/vnet"
	"github.com/crimist/trakx/zzv/vproc"
	"github.com/crimist/trakx/zzv/vs"
)

// C36: the whole tracker over histories of requests on both protocols, sweeps, saves, stops and crashes, seen by its clients.

type life struct {
	h       *hmodel
	u       *umodel
	proc    int
	l       *vnet.Lst
	s       *vnet.USock
	backup  bool
	savedDB model                   // what the backup holds
	savedCs map[netip.AddrPort]conn // what the connection file holds
	hs      []storage.Hash
	log     []string
	n       int
}

const (
	lifeSave  = 11 * minute
	lifeTrim  = 7 * minute
	lifeConns = 13 * minute
)

func (e *life) setDB(m model) { e.h.db, e.u.db = m, m }

// start runs the tracker on what was stored.
func (e *life) start() bool {
	newProcess()
	if e.backup {
		e.setDB(e.savedDB.clone())
	} else {
		e.setDB(model{})
	}
	e.u.conns = map[netip.AddrPort]conn{}
	for k, c := range e.savedCs {
		e.u.conns[k] = c
	}
	e.proc = runTracker("tracker")
	vs.WaitIdle()
	if code, dead := vs.Exited(e.proc); dead {
		vs.Fail("the tracker ended with %d at its start after %v: %s", code, e.log, lastFatal)
		return false
	}
	e.l, e.s = vnet.TCP(httpPort), vnet.UDP(udpPort)
	if e.l == nil || e.s == nil {
		vs.Fail("the tracker does not listen after %v", e.log)
		return false
	}
	return true
}

func (e *life) saved(conns bool) {
	e.savedDB = e.h.db.clone()
	if conns {
		e.savedCs = map[netip.AddrPort]conn{}
		for k, c := range e.u.conns {
			e.savedCs[k] = c
		}
	}
}

// jobAfter is when a job runs next, very late if it is turned off.
func jobAfter(now int64, period time.Duration) int64 {
	if period == 0 {
		return math.MaxInt64
	}
	return tickAfter(now, period)
}

// pass lets the time pass, tick by tick.
func (e *life) pass(d time.Duration) bool {
	end := vs.Now() + int64(d)
	for {
		now := vs.Now()
		ts, tt, tc := jobAfter(now, config.Config.DB.Backup.Frequency), jobAfter(now, config.Config.DB.Trim), jobAfter(now, lifeConns)
		t := ts
		if tt < t {
			t = tt
		}
		if tc < t {
			t = tc
		}
		if t > end {
			break
		}
		if ts == tt && ts == t {
			return false // which is first is open
		}
		vs.AdvanceTo(t)
		vs.WaitIdle()
		switch t {
		case tt:
			e.h.db.trim(nowSec(), int64(config.Config.DB.Expiry/time.Second))
			if tc == t {
				e.u.sweepConns()
			}
		case ts:
			e.saved(false)
			if tc == t {
				e.u.sweepConns()
			}
		case tc:
			e.u.sweepConns()
		}
	}
	vs.AdvanceTo(end)
	vs.WaitIdle()
	return true
}

func (e *life) udp(from netip.AddrPort, d []byte) bool {
	if m := e.u.check(from, d, exchange(e.s, from, false, d)); m != "" {
		vs.Fail("%s (datagram %x from %v after %v)", m, d, from, e.log)
		return false
	}
	return true
}

func (e *life) http(from netip.AddrPort, req []byte) bool {
	c := send(e.l, from, req)
	m := closedOnce(c)
	if m == "" {
		m = e.h.check(from, req, c.Out)
	}
	if m != "" {
		vs.Fail("%s (request %q from %v after %v)", m, trim(req), from, e.log)
		return false
	}
	return true
}

func (e *life) scrapeURL() string {
	var q []string
	for _, h := range e.hs {
		q = append(q, "info_hash="+escAll(h[:]))
	}
	return "/scrape?" + strings.Join(q, "&")
}

// lives: every sequence of n steps.
// Few kinds: one peer that comes, goes and is forgotten.
func lives(n int, few bool, backups []func(*config.Configuration)) func() {
	return func() {
		b := vs.Choose(len(backups))
		setup(func(c *config.Configuration) {
			c.Numwant.Default, c.Numwant.Limit = 20, 50
			c.DB.Backup.Frequency, c.DB.Trim, c.UDP.ConnDB.Trim = lifeSave, lifeTrim, lifeConns
			backups[b](c)
			c.DB.Expiry, c.UDP.ConnDB.Expiry = 20*minute, 16*minute
			c.HTTP.Threads, c.UDP.Threads = 2, 2
		})
		markLoaded()
		e := &life{h: newH(), u: newU(), backup: config.Config.DB.Backup.Type != "none", savedDB: model{}, hs: []storage.Hash{hashN(0), hashN(1)}}
		A, B := ap(ip4(1), 1111), ap(ip6(2), 2222)
		useIP(ip4(3))
		h0, h1 := e.hs[0], e.hs[1]
		ann := func(c netip.AddrPort, h storage.Hash, id int, ev uint32, left uint64, port uint16) []byte {
			e.n++
			return annReq{connid: e.u.conns[c].id, txid: uint32(e.n), hash: h, id: idN(id), event: ev, left: left, port: port}.bytes()
		}
		con := func(c netip.AddrPort) bool { e.n++; return e.udp(c, udpReq(udpMagic, 0, uint32(e.n))) }
		kill := func() bool { vs.KillProc(e.proc, 137); return e.start() }
		if e.h.files == nil || !e.start() || !con(A) || !con(B) || !e.udp(A, ann(A, h0, 1, 2, 1, 81)) {
			return
		}
		if !few && !e.http(B, get(annURL(h1, idN(4), 84, "left=0"))) {
			return
		}
		ops := []struct {
			name string
			f    func() bool
		}{
			{"A connects", func() bool { return con(A) }},
			{"A announces 1 complete over UDP", func() bool { return e.udp(A, ann(A, h0, 1, 1, 0, 81)) }},
			{"B announces 2 over UDP", func() bool { return e.udp(B, ann(B, h0, 2, 0, 7, 82)) }},
			{"A announces 3 over HTTP", func() bool { return e.http(A, get(annURL(h0, idN(3), 83, "compact=1", "left=0"))) }},
			{"B announces 1 over HTTP", func() bool { return e.http(B, get(annURL(h0, idN(1), 91, "left=4"))) }},
			{"B stops 1 over HTTP", func() bool { return e.http(B, get(annURL(h0, idN(1), 91, "event=stopped"))) }},
			{"A stops 4 over UDP", func() bool { return e.udp(A, ann(A, h1, 4, 3, 0, 84)) }},
			{"the counts are read", func() bool {
				e.n++
				return e.http(A, get(e.scrapeURL())) && e.udp(A, scrapeReq(e.u.conns[A].id, uint32(e.n), h1, h0))
			}},
			{"10 minutes", func() bool { return e.pass(10 * minute) }},
			{"15 minutes", func() bool { return e.pass(15 * minute) }},
			{"save signal", func() bool {
				vproc.Deliver(e.proc, syscall.SIGUSR1)
				vs.WaitIdle()
				e.saved(true)
				return true
			}},
			{"restart", func() bool {
				vproc.Deliver(e.proc, syscall.SIGTERM)
				if code, ok := waitExit(e.proc); !ok || code != 0 {
					vs.Fail("the tracker did not end properly after %v: %v %d %s", e.log, ok, code, lastFatal)
					return false
				}
				e.saved(true)
				return e.start()
			}},
			{"crash", kill},
			{"A stops 1 over UDP", func() bool { return e.udp(A, ann(A, h0, 1, 3, 0, 81)) }},
			{"30 minutes", func() bool { return e.pass(30 * minute) }},
		}
		if few {
			var l []string
			for _, o := range ops {
				l = append(l, o.name)
			}
			all := ops
			ops = nil
			for _, w := range []string{"A connects", "A announces 1 complete over UDP", "A stops 1 over UDP", "15 minutes", "30 minutes", "save signal", "restart", "crash"} {
				for i := range l {
					if l[i] == w {
						ops = append(ops, all[i])
					}
				}
			}
		} else {
			ops = ops[:13]
		}
		for i := 0; i < n; i++ {
			k := vs.Choose(len(ops))
			e.log = append(e.log, ops[k].name)
			if !ops[k].f() {
				return
			}
		}
		// what everybody is told now
		C := ap(ip4(3), 3333)
		e.log = append(e.log, "the last look")
		if e.http(C, get(e.scrapeURL())) && e.http(C, get(annURL(h0, idN(9), 89))) && e.http(C, get(annURL(h1, idN(9), 90, "compact=1"))) {
			e.n++
			e.udp(B, scrapeReq(e.u.conns[B].id, uint32(e.n), h0, h1))
			e.udp(A, ann(A, h0, 1, 0, 1, 81))
		}
		vs.Observe(fmt.Sprint(e.h.db.digest(e.hs...), len(e.u.conns), len(e.savedCs), e.savedDB.digest(e.hs...)))
		Note("%v", e.log)
	}
}

// livesAgain: a peer announces twice, over one protocol or both, changing any of its address, port and
// completeness, or stops, and then falls silent; another peer asks all the while.
func livesAgain() {
	setup(func(c *config.Configuration) {
		fileBackup(c)
		c.Numwant.Default, c.Numwant.Limit = 20, 50
		c.DB.Backup.Frequency, c.DB.Trim, c.UDP.ConnDB.Trim = 24*time.Hour, lifeTrim, lifeConns
		c.DB.Expiry, c.UDP.ConnDB.Expiry = 20*minute, 48*time.Hour
		c.HTTP.Threads, c.UDP.Threads = 2, 2
	})
	markLoaded()
	e := &life{h: newH(), u: newU(), backup: true, savedDB: model{}, hs: []storage.Hash{hashN(0)}}
	from := []netip.AddrPort{ap(ip4(1), 1111), ap(ip4(2), 1111), ap(ip6(1), 1111)}
	useIP(ip4(3))
	C := ap(ip4(3), 3333)
	if e.h.files == nil || !e.start() {
		return
	}
	for _, c := range append(from, C) {
		e.n++
		if !e.udp(c, udpReq(udpMagic, 0, uint32(e.n))) {
			return
		}
	}
	announce := func(i int, udp bool) bool {
		c, port, left, ev := from[i%12/4], 1001+i/2%2, i%2, ""
		if i == 12 {
			c, port, ev = from[0], 1001, "stopped"
		}
		e.log = append(e.log, fmt.Sprintf("%v announces port %d left %d %s udp=%v", c, port, left, ev, udp))
		if udp {
			e.n++
			a := annReq{connid: e.u.conns[c].id, txid: uint32(e.n), hash: e.hs[0], id: idN(1), left: uint64(left), port: uint16(port)}
			if ev != "" {
				a.event = 3
			}
			return e.udp(c, a.bytes())
		}
		ps := []string{fmt.Sprintf("left=%d", left)}
		if ev != "" {
			ps = append(ps, "event="+ev)
		}
		return e.http(c, get(annURL(e.hs[0], idN(1), port, ps...)))
	}
	look := func() bool {
		e.n++
		return e.http(C, get(annURL(e.hs[0], idN(9), 89))) && e.http(C, get(e.scrapeURL())) && e.udp(C, annReq{connid: e.u.conns[C].id, txid: uint32(e.n), hash: e.hs[0], id: idN(9), left: 1, port: 89}.bytes())
	}
	protos, x, y := vs.Choose(4), vs.Choose(12), vs.Choose(13)
	gap := []time.Duration{0, time.Second, 15 * minute}[vs.Choose(3)]
	if !look() || !announce(x, protos&1 == 1) || !look() {
		return
	}
	e.log = append(e.log, fmt.Sprint(gap))
	if !e.pass(gap) || !announce(y, protos&2 == 2) || !look() {
		return
	}
	for _, d := range []time.Duration{15 * minute, 11 * minute, 3 * minute} {
		e.log = append(e.log, fmt.Sprint(d))
		if !e.pass(d) || !look() {
			return
		}
	}
	vs.Observe(fmt.Sprint(e.h.db.digest(e.hs...), e.log))
	Note("%v", e.log)
}

func jobs(save, trim time.Duration) func(*config.Configuration) {
	return func(c *config.Configuration) {
		fileBackup(c)
		c.DB.Backup.Frequency, c.DB.Trim = save, trim
	}
}

func init() {
	register(&Check{ID: "C36", Secs: [2]int{120, 600}, Configs: func(d bool) []Config {
		seq := vs.Budget{MaxSteps: 500_000, FreeSw: -1}
		none := func(c *config.Configuration) {}
		return []Config{
			{Name: "histories", Run: lives(seqDepth(5, 6), false, []func(*config.Configuration){fileBackup}), B: seq, Bound: fmt.Sprintf("all sequences of %d of 13 requests, waits, saves, restarts and crashes of the whole tracker", seqDepth(5, 6))},
			{Name: "one peer", Run: lives(seqDepth(6, 7), true, []func(*config.Configuration){fileBackup}), B: seq, Bound: fmt.Sprintf("all sequences of %d of 8 of them, one peer", seqDepth(6, 7))},
			{Name: "jobs turned off", Run: lives(seqDepth(3, 5), false, []func(*config.Configuration){jobs(0, lifeTrim), jobs(lifeSave, 0), jobs(0, 0)}), B: seq, Bound: fmt.Sprintf("sequences of %d without periodic saves, sweeps or both", seqDepth(3, 5))},
			{Name: "one peer, jobs turned off", Run: lives(seqDepth(4, 6), true, []func(*config.Configuration){jobs(0, lifeTrim), jobs(lifeSave, 0), jobs(0, 0)}), B: seq},
			{Name: "announced again", Run: livesAgain, B: seq, Bound: "2 announces of a peer over either protocol, all changes of 3 addresses, 2 ports and completeness or a stop, 0 s to 15 min apart"},
			{Name: "other backups", Run: lives(seqDepth(3, 5), false, []func(*config.Configuration){pgBackup, none}), B: seq, Bound: fmt.Sprintf("sequences of %d with a postgres backup and without one", seqDepth(3, 5))},
			{Name: "one peer, other backups", Run: lives(seqDepth(4, 6), true, []func(*config.Configuration){pgBackup, none}), B: seq},
		}
	}})
}
