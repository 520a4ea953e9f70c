//go:build go1.22

package main

import (
	"fmt"
	"net/netip"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzv/vs"
)

// What an announce does to a peer which is known already, in every state: C16 over UDP, C20 over HTTP.

const priorBound = "a peer known from 3 addresses, complete or not, from the same port or another, for 0 s, 30 min or longer than the expiry, or unknown; every kind of announce of it from 3 addresses"

// priorPeer puts the peer p of the torrent 0 and perhaps others into the database.
func priorPeer(put func(op), p int, from netip.AddrPort, port uint16) string {
	if vs.Choose(2) == 1 {
		put(op{k: 's', id: 20, ip: ip4(20), port: 2000, c: true})
		put(op{k: 's', id: 21, ip: ip6(21), port: 2001})
	}
	x := vs.Choose(13)
	if x == 12 {
		return "unknown"
	}
	o := op{k: 's', id: p, ip: []netip.Addr{ip4(1), ip4(2), ip6(1)}[x%3], port: port, c: x/3%2 == 1}
	if x/6 == 1 {
		o.port++
	}
	put(o)
	d := []time.Duration{0, 30 * time.Minute, 46 * time.Minute}[vs.Choose(3)]
	put(op{k: 'a', d: d})
	return fmt.Sprint(o, d)
}

func httpPrior() {
	db, l, m, hs := httpEnv(func(c *config.Configuration) { c.Announce.Fuzz = 0 })
	from := []netip.AddrPort{cli(1), ap(ip6(1), 4000), ap(zoned(1), 4000)}[vs.Choose(3)]
	useIP(ip4(1))
	useIP(ip4(2))
	useIP(ip6(1))
	was := priorPeer(func(o op) { do(db, m.db, o) }, 3, from, 6881)
	t := annURL(hashN(0), idN(3), 6881) + opt("event", "-", "started", "completed", "stopped", "paused") + opt("left", "-", "0", "1") + opt("compact", "-", "1") + opt("numwant", "-", "0", "1")
	if !m.do(l, db, from, get(t), hs) {
		vs.Fail("the peer was %s", was)
		return
	}
	vs.Advance(int64(16 * time.Minute))
	do(db, m.db, op{k: 't'})
	checkState(db, m.db, wMembers|wCounts, hs, func() string { return was + ", " + t })
	vs.Observe(fmt.Sprint(was, t, from))
	Note("%s: %s from %v", was, t, from)
}

func udpPrior() {
	setup(func(c *config.Configuration) { c.UDP.ConnDB.Validate = false; c.Announce.Fuzz = 0 })
	db := openDB()
	_, s := startUDP(db)
	m := newU()
	hs := []storage.Hash{hashN(0), hashN(1)}
	from := []netip.AddrPort{cli(1), ap(ip6(1), 4000), ap(zoned(1), 4000)}[vs.Choose(3)]
	useIP(ip4(1))
	useIP(ip4(2))
	useIP(ip6(1))
	was := priorPeer(func(o op) { do(db, m.db, o) }, 3, from, 6881)
	a := annReq{txid: 7, hash: hs[0], id: idN(3), port: 6881, event: []uint32{0, 1, 2, 3, 9}[vs.Choose(5)], left: uint64(vs.Choose(2)), numwant: []uint32{0xffffffff, 0, 1}[vs.Choose(3)]}
	a.down, a.up = uint64(5*vs.Choose(2)), uint64(6*vs.Choose(2))
	if !m.do(s, db, from, vs.Choose(2) == 1, a.bytes(), hs) {
		vs.Fail("the peer was %s", was)
		return
	}
	vs.Advance(int64(16 * time.Minute))
	do(db, m.db, op{k: 't'})
	checkState(db, m.db, wMembers|wCounts, hs, func() string { return fmt.Sprint(was, a) })
	vs.Observe(fmt.Sprint(was, a, from))
	Note("%s: %+v from %v", was, a, from)
}
