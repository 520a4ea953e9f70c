//go:build go1.22

package main

import (
	"fmt"
	"net/netip"
	"strings"
	"syscall"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzv/vnet"
	"github.com/crimist/trakx/zzv/vs"
)

// What short histories cannot show: things that add up, fill up or are only touched once there are many.

const veryManyBound = "70000 peers in 1, 3000 or 35000 torrents: saved, announced again, expired, dropped, swept and saved again"

const manyBound = "1000 peers in 1, 17 or 400 torrents: saved, announced again, expired, dropped, swept and saved again, in 3 orders"

// manyOps: one long history over many peers and torrents.
func manyOps(what int) func() {
	return func() {
		k := []int{1, 17, 400}[vs.Choose(3)]
		stride := []int{1, 7, 501}[vs.Choose(3)] // order
		manyHistory(what, 1000, k, stride)
	}
}

// veryMany: beyond 16 bits of peers, and of expired peers in one sweep.
func veryMany(what int) func() {
	return func() { manyHistory(what, 70000, []int{1, 3000, 35000}[vs.Choose(3)], 1) }
}

func manyHistory(what, n, k, stride int) {
	setup(nil)
	db := openDB()
	m := model{}
	var hs []storage.Hash
	for i := 0; i < k; i++ {
		h := hashN(5)
		h[2], h[11] = byte(i), byte(i>>8)
		hs = append(hs, h)
	}
	exp := config.Config.DB.Expiry
	step := ""
	each := func(name string, f func(i int, h storage.Hash, id storage.PeerID)) {
		for j := 0; j < n; j++ {
			i := j * stride % n
			f(i, hs[i%k], idN(i))
		}
		step = name
		w := what
		if !strings.Contains(name, "sweep") {
			w &^= wSweep
		}
		checkState(db, m, w, hs, func() string { return fmt.Sprintf("%s of %d peers in %d torrents", step, n, k) })
	}
	save := func(ip netip.Addr, port uint16, c bool, h storage.Hash, id storage.PeerID) {
		db.Save(ip, port, c, h, id)
		m.save(h, id, mpeer{ip, port, c, nowSec()})
	}
	sweep := func(i int, h storage.Hash, id storage.PeerID) {
		if i == 0 {
			db.Trim()
			m.trim(nowSec(), int64(exp/time.Second))
		}
	}
	each("saving", func(i int, h storage.Hash, id storage.PeerID) { save(ip4(i/3), uint16(i), i%3 == 0, h, id) })
	vs.Advance(int64(exp) / 2)
	each("announcing again", func(i int, h storage.Hash, id storage.PeerID) {
		switch i % 5 {
		case 0:
			save(ip6(i), uint16(i+1), i%2 == 0, h, id)
		case 1:
			save(ip4(i/3), uint16(i), i%3 != 0, h, id)
		}
	})
	each("an early sweep", sweep)
	vs.Advance(int64(exp)/2 + int64(time.Second))
	each("a sweep", sweep)
	each("dropping", func(i int, h storage.Hash, id storage.PeerID) {
		if i%3 == 0 {
			db.Drop(h, id)
			m.drop(h, id)
		}
	})
	each("saving again", func(i int, h storage.Hash, id storage.PeerID) {
		if i%4 != 0 {
			save(ip4(i), uint16(i+2), i%2 == 0, h, id)
		}
	})
	vs.Advance(int64(exp) + int64(time.Second))
	each("the last sweep", sweep)
	vs.Observe(fmt.Sprint(k, stride))
	Note("%d torrents, order %d", k, stride)
}

// udpEndure: hundreds of datagrams of one kind.
func udpEndure() { udpEndureN(300) }

func udpEndureN(n int) {
	setup(func(c *config.Configuration) { c.UDP.Threads = 1 + vs.Choose(2) })
	db := openDB()
	_, s := startUDP(db)
	m := newU()
	hs := []storage.Hash{hashN(0), hashN(1)}
	cl := []netip.AddrPort{ap(ip4(1), 1111), ap(ip6(1), 2222)}
	for _, c := range cl {
		if !m.do(s, db, c, false, udpReq(udpMagic, 0, 1), hs) {
			return
		}
	}
	k := vs.Choose(udpKinds)
	fail := vs.Choose(2) == 1
	if n > 1000 && fail && k > 0 {
		return
	}
	for i := 0; i < n; i++ {
		c := cl[i%2]
		j := i
		if n > 1000 {
			j %= 40
		}
		d := udpKind(k, j, m.conns[c].id, hs)
		if !fail {
			if !m.do(s, db, c, false, d, hs) {
				vs.Fail("datagram %d of kind %d", i, k)
				return
			}
			continue
		}
		// the reply is lost and the socket reports errors
		vnet.WriteErrs = true
		s.Fault(syscall.ENOBUFS)
		s.Send(ap(ip4(7), 777), false, udpKind(k, i, 0, hs))
		vs.WaitIdle()
		s.TakeOut()
		vnet.WriteErrs = false
	}
	for j := 0; j < udpKinds; j++ {
		c := cl[j%2]
		if !m.do(s, db, c, false, udpKind(j, j, m.conns[c].id, hs), hs) {
			vs.Fail("after %d datagrams of kind %d", n, k)
			return
		}
	}
	vs.Observe(fmt.Sprint(k, fail))
	Note("kind %d, failing %v", k, fail)
}

// httpEndure: hundreds of requests of one kind, answered, cut or failing.
func httpEndure(threads, n int) func() {
	return func() {
		db, l, m, hs := httpEnv(func(c *config.Configuration) { c.HTTP.Threads = threads })
		rs := workerReqs(false)
		k := vs.Choose(len(rs))
		how := vs.Choose(5)
		if n > 1000 && (how == 0 && k >= len(reqKinds()) || how > 0 && k > 0) {
			return
		}
		what := fmt.Sprintf("%d requests of kind %d in manner %d", n, k, how)
		for i := 0; i < n; i++ {
			from := cli(1 + i%3)
			if how == 0 {
				if !m.do(l, db, from, rs[k], hs) {
					vs.Fail("request %d of %s", i, what)
					return
				}
				continue
			}
			var c *vnet.Conn
			switch how {
			case 1, 2: // the reply cannot be sent (completely)
				c = vnet.NewConn(from, true, rs[k])
				c.WriteErr, c.Short = 1, (how-1)*20
				m.effect(from, rs[k])
			case 3: // nothing arrives
				c = vnet.NewConn(from, true)
				if i%2 == 1 {
					c.FailRead(syscall.ECONNRESET)
				}
			case 4: // accepting fails
				l.FailAccept(syscall.ECONNABORTED)
				c = vnet.NewConn(from, true, rs[0])
				m.effect(from, rs[0])
			}
			l.Connect(c)
			vs.WaitIdle()
			if e := closedOnce(c); e != "" {
				vs.Fail("%s: %s", what, e)
				return
			}
		}
		for _, r := range reqKinds() {
			if !m.do(l, db, cli(4), r, hs) {
				vs.Fail("after %s", what)
				return
			}
		}
		for i := 0; i < threads+1; i++ {
			httpProbe(db, l, m, what)
		}
		vs.Observe(fmt.Sprint(k, how))
		Note("%s", what)
	}
}

// metricMany: hundreds of requests of one kind within an interval.
func metricMany(n int) func() { return func() { metricManyOf(n) } }

func metricManyOf(n int) {
	e := startMetrics()
	rs := metricReqs()
	if n > 60000 { // the four that are counted, and one refused
		var few []mreq
		for _, r := range rs {
			switch r.name {
			case "udp connect", "udp announce", "udp scrape", "http announce", "http scrape", "short udp announce":
				few = append(few, r)
			}
		}
		rs = few
	}
	k := vs.Choose(len(rs))
	var cur, errs tally
	at := tickAfter(vs.Now(), interval)
	for round := 0; round < 3; round++ {
		for i := 0; i < n && round < 2; i++ {
			rs[k].send(e, 1+i%3)
			vs.WaitIdle()
			cur = cur.add(rs[k].t)
		}
		vs.AdvanceTo(at)
		vs.WaitIdle()
		at += int64(interval)
		errs.cerr += cur.cerr
		errs.serr += cur.serr
		cur.cerr, cur.serr = errs.cerr, errs.serr
		if g := take(); g != cur {
			vs.Fail("interval %d with %d times %s is published as %+v, expected %+v", round, n, rs[k].name, g, cur)
			return
		}
		cur = tally{}
		if g := e.gauges(); g != "" {
			vs.Fail("%s after %d times %s", g, n, rs[k].name)
			return
		}
	}
	vs.Observe(rs[k].name)
	Note("%d times %s", n, rs[k].name)
}
