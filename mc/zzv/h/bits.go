//go:build go1.22

package main

import (
	"fmt"
	"net/netip"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzv/vs"
)

// What differs anywhere is different: torrents, peers, addresses and ports which differ in one bit, and what is alike
// in one and not the other.

const bitsBound = "torrents, peers, IPv4 and IPv6 addresses and ports that differ in any single bit"

// bitPair is one of 512 pairs of peers which differ in one bit of hash, id, address or port.
func bitPair() (h [2]storage.Hash, id [2]storage.PeerID, ip [2]netip.Addr, port [2]uint16) {
	h[0], id[0] = hashN(3), idN(3)
	h[1], id[1] = h[0], id[0]
	a := netip.MustParseAddr("10.20.30.40")
	port = [2]uint16{0x1234, 0x1234}
	k := vs.Choose(160 + 160 + 32 + 128 + 16)
	raw := a.AsSlice()
	if k >= 160+160+32 && k < 160+160+32+128 {
		a = netip.MustParseAddr("2001:db8:1:2:3:4:5:6")
		raw = a.AsSlice()
	}
	switch {
	case k < 160:
		h[1][k/8] ^= 1 << (k % 8)
	case k < 320:
		k -= 160
		id[1][k/8] ^= 1 << (k % 8)
	case k < 352:
		k -= 320
		id[1][0] ^= 1
		raw[k/8] ^= 1 << (k % 8)
	case k < 480:
		k -= 352
		id[1][0] ^= 1
		raw[k/8] ^= 1 << (k % 8)
	default:
		id[1][0] ^= 1
		port[1] ^= 1 << (k - 480)
	}
	b, _ := netip.AddrFromSlice(raw)
	ip = [2]netip.Addr{useIP(a), useIP(b)}
	return
}

// dbBits: the pair is saved, one of it changed, dropped or expired, and everything restored.
func dbBits(what int) func() {
	return func() {
		setup(fileBackup)
		h, id, ip, port := bitPair()
		db := openDB()
		m := model{}
		hs := []storage.Hash{h[0], h[1]}
		if h[0] == h[1] {
			hs = hs[:1]
		}
		desc := fmt.Sprintf("peers %x and %x of %x and %x at %v and %v, ports %v", id[0], id[1], h[0], h[1], ip[0], ip[1], port)
		first := vs.Choose(2)
		seed := vs.Choose(2) == 1
		save := func(i int, c bool) {
			db.Save(ip[i], port[i], c, h[i], id[i])
			m.save(h[i], id[i], mpeer{ip[i], port[i], c, nowSec()})
		}
		check := func(after string) {
			checkState(db, m, what, hs, func() string { return after + " of " + desc })
		}
		save(first, seed)
		save(1-first, !seed)
		check("saving")
		vs.Advance(int64(config.Config.DB.Expiry) / 2)
		save(first, !seed)
		check("an announce of one")
		if err := db.Backup().Save(); err != nil {
			vs.Fail("saving failed: %v", err)
			return
		}
		db = restart()
		check("restoring")
		switch vs.Choose(2) {
		case 0:
			db.Drop(h[first], id[first])
			m.drop(h[first], id[first])
			check("stopping one")
		case 1:
			vs.Advance(int64(config.Config.DB.Expiry)/2 + int64(time.Second))
			db.Trim()
			m.trim(nowSec(), int64(config.Config.DB.Expiry/time.Second))
			check("the expiry of one")
		}
		vs.Observe(desc)
		Note("%s", desc)
	}
}

// requestBits: the same over a protocol: announces, scrapes of both in either order, stops.
func requestBits(http bool) func() {
	return func() {
		var do func(from netip.AddrPort, ann annReq, stop bool) bool
		var scrape func(hs ...storage.Hash) bool
		h, id, _, port := bitPair()
		hs := []storage.Hash{h[0], h[1]}
		if h[0] == h[1] {
			hs = hs[:1]
		}
		from := cli(1)
		if http {
			db, l, m, _ := httpEnv(fileBackup)
			do = func(from netip.AddrPort, a annReq, stop bool) bool {
				more := []string{fmt.Sprintf("left=%d", a.left), "compact=1"}
				if stop {
					more = append(more, "event=stopped")
				}
				return m.do(l, db, from, get(annURL(a.hash, a.id, int(a.port), more...)), hs)
			}
			scrape = func(q ...storage.Hash) bool {
				s := "/scrape?"
				for i, x := range q {
					if i > 0 {
						s += "&"
					}
					s += "info_hash=" + escMin(x[:])
				}
				return m.do(l, db, from, get(s), hs)
			}
		} else {
			setup(nil)
			db := openDB()
			_, s := startUDP(db)
			m := newU()
			if !m.do(s, db, from, false, udpReq(udpMagic, 0, 1), hs) {
				return
			}
			do = func(from netip.AddrPort, a annReq, stop bool) bool {
				a.connid = m.conns[from].id
				if stop {
					a.event = 3
				}
				return m.do(s, db, from, false, a.bytes(), hs)
			}
			scrape = func(q ...storage.Hash) bool {
				return m.do(s, db, from, false, scrapeReq(m.conns[from].id, 9, q...), hs)
			}
		}
		desc := fmt.Sprintf("peers %x and %x of %x and %x, ports %v", id[0], id[1], h[0], h[1], port)
		first := vs.Choose(2)
		a := [2]annReq{{hash: h[first], id: id[first], port: port[first], left: 1, txid: 1}, {hash: h[1-first], id: id[1-first], port: port[1-first], left: 0, txid: 2}}
		ok := do(from, a[0], false) && scrape(h[0], h[1]) && do(from, a[1], false) && scrape(h[1], h[0]) && scrape(h[0], h[1], h[0]) &&
			do(from, a[0], true) && scrape(h[0], h[1]) && do(from, a[1], false)
		if !ok {
			vs.Fail("%s", desc)
		}
		vs.Observe(fmt.Sprint(desc, first))
		Note("%s", desc)
	}
}

var years = []time.Time{
	time.Date(2038, 1, 19, 3, 14, 8, 0, time.UTC), // 31 bits of seconds
	time.Date(2106, 2, 7, 6, 28, 16, 0, time.UTC), // 32 bits of seconds
	time.Date(2116, 2, 20, 23, 53, 38, 0, time.UTC),
	time.Date(2024, 2, 29, 0, 0, 0, 0, time.UTC),
	time.Date(2030, 12, 31, 23, 59, 60, 0, time.UTC),
}

const yearsBound = "ages around the expiry at 5 dates, 31 and 32 bits of seconds among them"

// dbYears: expiry and backups across dates.
func dbYears(what int) func() {
	return func() {
		setup(func(c *config.Configuration) {
			fileBackup(c)
			c.DB.Backup.Frequency, c.DB.Trim = 0, 0
		})
		at := years[vs.Choose(len(years))]
		exp := int64(config.Config.DB.Expiry)
		vs.AdvanceTo(at.UnixNano() - exp*int64(vs.Choose(3))/2 - int64(vs.Choose(3))*int64(time.Second))
		db := openDB()
		m := model{}
		hs := []storage.Hash{hashN(0), hashN(1)}
		save := func(h, i int) {
			db.Save(ip4(i), uint16(i+1), i%2 == 0, hs[h], idN(i))
			m.save(hs[h], idN(i), mpeer{ip4(i), uint16(i + 1), i%2 == 0, nowSec()})
		}
		check := func(after string) {
			checkState(db, m, what, hs, func() string { return after + " around " + at.String() })
		}
		sweep := func(after string) {
			db.Trim()
			m.trim(nowSec(), exp/int64(time.Second))
			check("a sweep " + after)
		}
		save(0, 0)
		save(1, 1)
		check("saving")
		vs.Advance(exp / 2)
		save(0, 2)
		sweep("before the expiry")
		if vs.Choose(2) == 1 {
			if err := db.Backup().Save(); err != nil {
				vs.Fail("saving failed: %v", err)
				return
			}
			db = restart()
			check("restoring")
		}
		vs.Advance(exp/2 - exp%2)
		sweep("just before the expiry")
		vs.Advance(2 * int64(time.Second))
		sweep("just after the expiry")
		vs.Advance(exp)
		sweep("after everything")
		vs.Observe(fmt.Sprint(at, nowSec()))
		Note("%v", at)
	}
}

const stepBound = "the clock set back by 4 amounts after a first of two clients, then sweeps until everything expired"

// dbClock: peers whose announce lies in the future because the clock was set back.
func dbClock(what int) func() {
	return func() {
		setup(func(c *config.Configuration) {
			fileBackup(c)
			c.DB.Backup.Frequency, c.DB.Trim = 0, 0
		})
		exp := int64(config.Config.DB.Expiry)
		vs.AdvanceTo(years[1].UnixNano())
		db := openDB()
		m := model{}
		hs := []storage.Hash{hashN(0), hashN(1)}
		save := func(h, i int) {
			db.Save(ip4(i), uint16(i+1), i%2 == 0, hs[h], idN(i))
			m.save(hs[h], idN(i), mpeer{ip4(i), uint16(i + 1), i%2 == 0, nowSec()})
		}
		back := []int64{int64(time.Second), exp / 2, exp + int64(time.Second), 3 * exp}[vs.Choose(4)]
		sweep := func(after string) {
			db.Trim()
			m.trim(nowSec(), exp/int64(time.Second))
			checkState(db, m, what, hs, func() string {
				return fmt.Sprintf("a sweep %s (the clock was set back by %v)", after, time.Duration(back))
			})
		}
		save(0, 0)
		save(1, 1)
		vs.StepClock(-back)
		sweep("after the clock was set back")
		save(0, 2)
		if vs.Choose(2) == 1 {
			save(1, 1)
		}
		sweep("after more peers announced")
		if vs.Choose(2) == 1 {
			if err := db.Backup().Save(); err != nil {
				vs.Fail("saving failed: %v", err)
				return
			}
			db = restart()
			sweep("after a restart")
		}
		end := vs.Now() + back + exp + 2*int64(time.Second)
		for vs.Now() < end {
			vs.Advance(exp/2 + int64(time.Second))
			sweep("later")
		}
		vs.Observe(fmt.Sprint(back, nowSec()))
		Note("%v", time.Duration(back))
	}
}

// connClock: connection ids issued in the future because the clock was set back.
func connClock() {
	setup(nil)
	vs.AdvanceTo(years[1].UnixNano() + 1)
	exp := int64(config.Config.UDP.ConnDB.Expiry)
	trim := time.Duration(exp) / 2
	config.Config.UDP.ConnDB.Trim = trim
	db := openDB()
	_, s := startUDP(db)
	m := newU()
	hs := []storage.Hash{hashN(0)}
	c := []netip.AddrPort{ap(ip4(1), 1111), ap(ip6(2), 2222)}
	back := []int64{int64(time.Second), exp / 2, exp + int64(time.Second), 3 * exp}[vs.Choose(4)]
	probe := func() bool {
		for _, x := range c {
			if k, ok := m.conns[x]; ok && !m.do(s, db, x, false, scrapeReq(k.id, 5, hs...), hs) {
				vs.Fail("the clock was set back by %v", time.Duration(back))
				return false
			}
		}
		return true
	}
	if !m.do(s, db, c[0], false, udpReq(udpMagic, 0, 1), hs) {
		return
	}
	next := tickAfter(vs.Now(), trim)
	vs.StepClock(-back)
	at := next - back // the sweep was due at next before
	for i := 0; i < 12; i++ {
		if i == 1 && !m.do(s, db, c[1], false, udpReq(udpMagic, 0, 2), hs) {
			return
		}
		if !probe() {
			return
		}
		vs.AdvanceTo(at)
		vs.WaitIdle()
		m.sweepConns()
		if !probe() {
			return
		}
		at = next + int64(i+1)*int64(trim)
	}
	vs.Observe(fmt.Sprint(back, vs.Now()))
	Note("%v", time.Duration(back))
}

// connYears: connection ids across dates.
func connYears() {
	setup(nil)
	at := years[vs.Choose(len(years))]
	exp := int64(config.Config.UDP.ConnDB.Expiry)
	vs.AdvanceTo(at.UnixNano() - exp*int64(vs.Choose(3))/2 - int64(vs.Choose(3))*int64(time.Second))
	config.Config.UDP.ConnDB.Trim = time.Duration(exp) / 2
	db := openDB()
	_, s := startUDP(db)
	m := newU()
	hs := []storage.Hash{hashN(0)}
	c := []netip.AddrPort{ap(ip4(1), 1111), ap(ip6(2), 2222)}
	probe := func() bool {
		for _, x := range c {
			if k, ok := m.conns[x]; ok && !m.do(s, db, x, false, scrapeReq(k.id, 5, hs...), hs) {
				vs.Fail("around %v", at)
				return false
			}
		}
		return true
	}
	if !m.do(s, db, c[0], false, udpReq(udpMagic, 0, 1), hs) {
		return
	}
	for i := 0; i < 5; i++ {
		t := tickAfter(vs.Now(), time.Duration(exp)/2)
		if i == 1 && !m.do(s, db, c[1], false, udpReq(udpMagic, 0, 2), hs) {
			return
		}
		if !probe() {
			return
		}
		vs.AdvanceTo(t)
		vs.WaitIdle()
		m.sweepConns()
		if !probe() {
			return
		}
	}
	vs.Observe(fmt.Sprint(at, vs.Now()))
	Note("%v", at)
}
