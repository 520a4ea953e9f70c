//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzv/vnet"
	"github.com/crimist/trakx/zzv/vs"
)

// ---- C31 ----

// creq builds request kind k of client n on torrent n; exactly one of the results is set.
type creq struct {
	name string
	http func(n int) []byte
	udp  func(n int, connid uint64) []byte
}

func concReqs() []creq {
	h := func(f func(n int) []byte) func(int) []byte { return f }
	return []creq{
		{"compact announce", h(func(n int) []byte { return get(annURL(hashN(n), idN(n), 80+n, "compact=1", "left=0")) }), nil},
		{"announce", h(func(n int) []byte { return get(annURL(hashN(n), idN(n), 80+n)) }), nil},
		{"announce without peer ids", h(func(n int) []byte { return get(annURL(hashN(n), idN(n), 80+n, "no_peer_id=1")) }), nil},
		{"stop", h(func(n int) []byte { return get(annURL(hashN(n), idN(20+n), 80+n, "event=stopped")) }), nil},
		{"failing announce", h(func(n int) []byte { return get(annURL(hashN(n), idN(n), 0)) }), nil},
		{"scrape", h(func(n int) []byte {
			a, b := hashN(n), hashN(n+10)
			return get("/scrape?info_hash=" + escAll(a[:]) + "&info_hash=" + escAll(b[:]))
		}), nil},
		{"base64 scrape", h(func(n int) []byte {
			a := hashN(n)
			return b64(get("/scrape?info_hash=" + escAll(a[:])))
		}), nil},
		{"failing scrape", h(func(n int) []byte { return get(fmt.Sprintf("/scrape?info_hash=%d", n)) }), nil},
		{"page", h(func(n int) []byte { return get([]string{"/", "/dmca.html", "/nope"}[n%3]) }), nil},
		{"garbage", h(func(n int) []byte { return []byte(fmt.Sprintf("POST /%d HTTP/1.1\r\n\r\n", n)) }), nil},
		{"stats", h(func(n int) []byte { return get("/stats") }), nil},
		{"UDP connect", nil, func(n int, c uint64) []byte { return udpReq(udpMagic, 0, uint32(0x1000*n+1)) }},
		{"UDP announce", nil, func(n int, c uint64) []byte {
			return annReq{connid: c, txid: uint32(0x1000*n + 2), hash: hashN(n), id: idN(n), port: uint16(90 + n), left: 1}.bytes()
		}},
		{"UDP stop", nil, func(n int, c uint64) []byte {
			return annReq{connid: c, txid: uint32(0x1000*n + 3), hash: hashN(n), id: idN(20 + n), port: uint16(90 + n), event: 3}.bytes()
		}},
		{"UDP scrape", nil, func(n int, c uint64) []byte {
			return scrapeReq(c, uint32(0x1000*n+4), hashN(n), hashN(n+10), hashN(n))
		}},
		{"UDP error", nil, func(n int, c uint64) []byte { return udpReq(c^1, 2, uint32(0x1000*n+5)) }},
		{"UDP heartbeat", nil, func(n int, c uint64) []byte { return udpReq(1, 4, 1) }},
	}
}

type concEnv struct {
	db    storage.Database
	l     *vnet.Lst
	s     *vnet.USock
	m     *hmodel
	u     *umodel
	conns map[int]*vnet.Conn
}

// concStart populates torrents 1..n with two peers each, issues connection ids, and warms the pools up.
func concStart(n int, warm, every bool) *concEnv {
	setup(func(c *config.Configuration) {
		c.HTTP.Threads, c.UDP.Threads = 2, 2
	})
	db := openDB()
	e := &concEnv{db: db, m: newH(), u: newU(), conns: map[int]*vnet.Conn{}}
	e.u.db = e.m.db
	vs.Quiet(func() {
		for i := 1; i <= n; i++ {
			for j, p := range []mpeer{{ip4(20 + i), uint16(2000 + i), true, nowSec()}, {ip6(30 + i), uint16(3000 + i), false, nowSec()}} {
				id := idN(20 + i)
				if j == 1 {
					id = idN(30 + i)
				}
				db.Save(p.IP, p.Port, p.Complete, hashN(i), id)
				e.m.db.save(hashN(i), id, p)
			}
		}
	})
	e.l = startHTTP(db)
	_, e.s = startUDP(db)
	vs.Quiet(func() {
		for i := 1; i <= n; i++ {
			d := udpReq(udpMagic, 0, uint32(i))
			if r := e.u.check(cli(i), d, exchange(e.s, cli(i), false, d)); r != "" {
				vs.Fail("%s", r)
				vs.Stop()
			}
		}
		if warm {
			for _, h := range []string{"compact=1", "no_peer_id=1"} {
				send(e.l, cli(9), get(annURL(hashN(9), idN(9), 99, h)))
			}
			// every kind of request, complete and with a client that takes nothing of the reply
			for _, q := range concReqs() {
				if !every {
					break
				}
				if q.udp != nil {
					exchange(e.s, cli(9), false, q.udp(9, 0))
					continue
				}
				send(e.l, cli(9), q.http(9))
				c := vnet.NewConn(cli(9), true, q.http(9))
				c.WriteErr = 1
				e.l.Connect(c)
				vs.WaitIdle()
			}
			send(e.l, cli(9), get(annURL(hashN(9), idN(9), 99, "event=stopped")))
		}
	})
	return e
}

// concurrent: n requests at once, each on its own torrent.
func concurrent(n int, kinds []int, warm, every bool) func() {
	return func() {
		e := concStart(n, warm, every)
		all := concReqs()
		pickd := make([]int, n)
		name := ""
		lo := 0
		for i := range pickd {
			lo += vs.Choose(len(kinds) - lo)
			pickd[i] = lo
			name += all[kinds[lo]].name + ", "
		}
		reqs := make([][]byte, n)
		for i, k := range pickd {
			q := all[kinds[k]]
			c := cli(i + 1)
			if q.http != nil {
				reqs[i] = q.http(i + 1)
				if appengine {
					// each on behalf of a client of its own
					reqs[i] = bytes.Replace(reqs[i], []byte("\r\n\r\n"), []byte(fmt.Sprintf("\r\nX-Forwarded-For: 1.1.1.1, %v\r\n\r\n", ip4(40+i*100))), 1)
				}
				e.conns[i] = vnet.NewConn(c, true, append([]byte(nil), reqs[i]...))
				e.l.Connect(e.conns[i])
			} else {
				reqs[i] = q.udp(i+1, e.u.conns[c].id)
				e.s.Send(c, false, append([]byte(nil), reqs[i]...))
			}
		}
		vs.WaitIdle()
		out := e.s.TakeOut()
		res := ""
		for i, k := range pickd {
			q := all[kinds[k]]
			from := cli(i + 1)
			var err string
			if q.http != nil {
				c := e.conns[i]
				if err = closedOnce(c); err == "" {
					err = e.m.check(from, reqs[i], c.Out)
				}
				res += string(c.Out)
			} else {
				var mine []vnet.Reply
				for _, r := range out {
					if r.To == from {
						mine = append(mine, r)
					}
				}
				err = e.u.check(from, reqs[i], mine)
				for _, r := range mine {
					if len(r.Data) == 16 && binary.BigEndian.Uint32(r.Data) == 0 {
						res += "id"
						continue
					}
					res += string(r.Data)
				}
			}
			if err != "" {
				vs.Fail("%s (concurrent requests: %s)", err, name)
				return
			}
		}
		for _, r := range out {
			known := false
			for i, k := range pickd {
				known = known || (all[kinds[k]].udp != nil && r.To == cli(i+1))
			}
			if !known {
				vs.Fail("a datagram went to %v, who sent none (concurrent requests: %s)", r.To, name)
				return
			}
		}
		ids := map[uint64]bool{}
		for _, c := range e.u.conns {
			if ids[c.id] {
				vs.Fail("two clients got the same connection id")
			}
			ids[c.id] = true
		}
		var hs []storage.Hash
		for i := 1; i <= n; i++ {
			hs = append(hs, hashN(i))
		}
		if g, w := digest(e.db, hs...), e.m.db.digest(hs...); g != w {
			vs.Fail("after concurrent requests %s the database holds %s, expected %s", name, g, w)
			return
		}
		vs.Observe(name + res)
		Note("%s", name)
	}
}

func init() {
	register(&Check{ID: "C31", Secs: [2]int{120, 600}, Configs: func(d bool) []Config {
		all := make([]int, len(concReqs()))
		for i := range all {
			all[i] = i
		}
		p := 2
		if d {
			p = 3
		}
		return []Config{
			{Name: "pairs", Run: concurrent(2, all, false, false), B: vs.Budget{MaxSteps: 200_000, Preempt: p - 1, FreeSw: 2}, Bound: "all pairs of 17 requests"},
			{Name: "pairs, recycled buffers", Run: concurrent(2, all, true, false), B: vs.Budget{MaxSteps: 200_000, Preempt: p, FreeSw: 1}, Bound: "all pairs of 17 requests"},
			{Name: "pairs, buffers put back early", Run: concurrent(2, all, true, true), B: vs.Budget{MaxSteps: 200_000, Preempt: p - 1, FreeSw: 1, Pools: true, Release: true}, Bound: "all pairs of 17 requests, after one of each kind, answered and not taken"},
			{Name: "pairs, App Engine build", Alt: true, Run: concurrent(2, []int{0, 1, 2, 3, 4, 5, 8}, true, false), B: vs.Budget{MaxSteps: 200_000, Preempt: p, FreeSw: 1}, Bound: "all pairs of 7 HTTP requests, with forwarded addresses"},
			{Name: "triples", Run: concurrent(3, []int{0, 1, 5, 7, 12, 14}, true, false), B: vs.Budget{MaxSteps: 200_000, Preempt: p - 1, FreeSw: 2}, Bound: "all triples of 6 requests"},
		}
	}})
}
