//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"net/netip"
	"strings"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/tracker/udp/protocol"
	"github.com/crimist/trakx/zzv/s/rand"
	"github.com/crimist/trakx/zzv/vnet"
	"github.com/crimist/trakx/zzv/vs"
)

// ---- C13 ----

// connSeq: every sequence of connects, announces and scrapes of three clients with every origin of the id.
func connSeq(depth int, validate bool) func() {
	return func() {
		setup(func(c *config.Configuration) {
			c.UDP.ConnDB.Validate = validate
			c.UDP.ConnDB.Trim = 10 * minute
			c.UDP.ConnDB.Expiry = 25 * minute
		})
		db := openDB()
		_, s := startUDP(db)
		m := newU()
		hs := []storage.Hash{hashN(0), hashN(1)}
		// same address with two ports, another address
		cl := []netip.AddrPort{ap(ip4(1), 1111), ap(ip4(1), 2222), ap(ip6(1), 1111)}
		vs.Quiet(func() {
			p := mpeer{ip4(50), 50, true, nowSec()}
			db.Save(p.IP, p.Port, p.Complete, hs[0], idN(50))
			m.db.save(hs[0], idN(50), p)
		})
		old := map[int]uint64{} // previous id of each client
		var hist []string
		last := nowTick(10 * minute)
		for i := 0; i < depth; i++ {
			k := vs.Choose(8)
			if k == 7 {
				d := []time.Duration{5 * minute, 30 * minute}[vs.Choose(2)]
				hist = append(hist, d.String())
				advanceSweeping(m, d, 10*minute, &last)
				continue
			}
			ci := k % 3
			if k == 6 {
				ci = 0 // first client seen through a dual-stack socket
			}
			c := cl[ci]
			map4 := k == 6
			if k < 3 || (k == 6 && vs.Choose(2) == 0) {
				hist = append(hist, fmt.Sprintf("connect %d", ci))
				if o, ok := m.conns[c]; ok {
					old[ci] = o.id
				}
				if !m.do(s, db, c, map4, udpReq(udpMagic, 0, uint32(i)), hs) {
					vs.Fail("history %v", hist)
					return
				}
				continue
			}
			// which id
			var id uint64
			src := vs.Choose(6)
			switch src {
			case 0:
				id = m.conns[c].id
			case 1:
				id = old[ci]
			case 2:
				id = m.conns[cl[(ci+1)%3]].id
			case 3:
				id = m.conns[c].id + 1<<32
			case 4:
				id = m.conns[cl[(ci+2)%3]].id
			case 5:
				id = m.conns[c].id ^ 1
			}
			hist = append(hist, fmt.Sprintf("request %d id %d", ci, src))
			var d []byte
			switch vs.Choose(3) {
			case 0:
				d = annReq{connid: id, txid: uint32(i), hash: hs[0], id: idN(ci), left: 1, port: 7000}.bytes()
			case 1:
				d = annReq{connid: id, txid: uint32(i), hash: hs[0], id: idN(50), event: 3, port: 7000}.bytes()
			case 2:
				d = scrapeReq(id, uint32(i), hs...)
			}
			if !m.do(s, db, c, map4, d, hs) {
				vs.Fail("history %v", hist)
				return
			}
		}
		vs.Observe(strings.Join(hist, ",") + m.db.digest(hs...))
		Note("%v", hist)
	}
}

// connLong: longer sequences of few kinds of requests.
func connLong(depth int) func() {
	return func() {
		setup(func(c *config.Configuration) {
			c.UDP.ConnDB.Trim = 10 * minute
			c.UDP.ConnDB.Expiry = 25 * minute
		})
		db := openDB()
		_, s := startUDP(db)
		m := newU()
		hs := []storage.Hash{hashN(0)}
		cl := []netip.AddrPort{ap(ip4(1), 1111), ap(ip4(1), 1112)}
		var cur, prev [2]uint64
		var hist []string
		last := nowTick(10 * minute)
		for i := 0; i < depth; i++ {
			k := vs.Choose(9)
			c := k % 2
			var d []byte
			switch {
			case k < 2:
				hist = append(hist, fmt.Sprintf("connect %d", c))
				d = udpReq(udpMagic, 0, uint32(i))
			case k < 8:
				id := []uint64{cur[c], prev[c], cur[1-c]}[k/2-1]
				hist = append(hist, fmt.Sprintf("scrape %d with %#x", c, id))
				d = scrapeReq(id, uint32(i), hs...)
			default:
				hist = append(hist, "30m")
				advanceSweeping(m, 30*minute, 10*minute, &last)
				continue
			}
			if !m.do(s, db, cl[c], false, d, hs) {
				vs.Fail("history %v", hist)
				return
			}
			if k < 2 {
				prev[c], cur[c] = cur[c], m.conns[cl[c]].id
			}
		}
		vs.Observe(strings.Join(hist, ","))
		Note("%v", hist)
	}
}

func nowTick(period time.Duration) int64 { return vs.Now() / int64(period) }

// advanceSweeping lets time pass; the model's connection table is swept at every multiple of the period.
func advanceSweeping(m *umodel, d, period time.Duration, last *int64) {
	end := vs.Now() + int64(d)
	for (*last+1)*int64(period) <= end {
		*last++
		at := *last * int64(period)
		if at > vs.Now() {
			vs.AdvanceTo(at)
		}
		vs.WaitIdle()
		m.sweepConns()
	}
	vs.AdvanceTo(end)
	vs.WaitIdle()
}

// allIDs: for one client with a known id, every single-bit change of it is refused.
func allIDs() {
	setup(nil)
	db := openDB()
	_, s := startUDP(db)
	m := newU()
	hs := []storage.Hash{hashN(0)}
	c := ap(ip4(1), 1111)
	o := ap(ip6(2), 1111)
	for _, x := range []netip.AddrPort{c, o} {
		if !m.do(s, db, x, false, udpReq(udpMagic, 0, 1), hs) {
			return
		}
	}
	id := m.conns[c].id
	ids := []uint64{0, ^uint64(0), udpMagic, m.conns[o].id, 1}
	for i := 0; i < 64; i++ {
		ids = append(ids, id^1<<i)
	}
	for i := 1; i < 8; i++ {
		ids = append(ids, id<<(8*i), id>>(8*i))
	}
	x := ids[vs.Choose(len(ids))]
	var d []byte
	if vs.Choose(2) == 0 {
		d = annReq{connid: x, txid: 3, hash: hs[0], id: idN(1), left: 1, port: 7000}.bytes()
	} else {
		d = scrapeReq(x, 3, hs...)
	}
	m.do(s, db, c, vs.Choose(2) == 1, d, hs)
	vs.Observe(fmt.Sprint(x))
	Note("id %#x instead of %#x", x, id)
}

// rareIDs: connection ids that are drawn once in an age.
func rareIDs() {
	setup(nil)
	db := openDB()
	u, s := startUDP(db)
	m := newU()
	hs := []storage.Hash{hashN(0)}
	c, o := ap(ip4(1), 1111), ap(ip6(2), 1111)
	// as drawn; an id is half of it if it is 63 bits
	x := []uint64{0, 1, 2, ^uint64(0), 1 << 63, 1<<33 - 1, 1 << 33, 1 << 32, 0xffffffff, 2 * udpMagic, udpMagic, 0x2710, 0x4000, 0xffffff0000000000}[vs.Choose(14)]
	connect := func(c netip.AddrPort) bool {
		rand.Rare = &x
		defer func() { rand.Rare = nil }()
		return m.do(s, db, c, false, udpReq(udpMagic, 0, 1), hs)
	}
	if !connect(c) {
		return
	}
	id := m.conns[c].id
	both := vs.Choose(2) == 1
	if both && !connect(o) {
		return
	}
	probe := func() bool {
		for i, k := range []uint64{id, id ^ 1<<63, id ^ 1<<31, id ^ 1} {
			for _, x := range []netip.AddrPort{c, o} {
				a := annReq{connid: k, txid: 3, hash: hs[0], id: idN(i), left: 1, port: 7000}.bytes()
				if !m.do(s, db, x, false, a, hs) || !m.do(s, db, x, false, scrapeReq(k, 3, hs...), hs) {
					return false
				}
			}
		}
		return true
	}
	if !probe() {
		return
	}
	if err := u.WriteConns(); err != nil {
		vs.Fail("writing the connection table failed: %v", err)
		return
	}
	s.Closed = true
	_, s = startUDP(db)
	probe()
	vs.Observe(fmt.Sprint(id, both))
	Note("id %#x", id)
}

// neighbours: no client with a similar address or port may use an id.
func neighbours() {
	setup(nil)
	db := openDB()
	_, s := startUDP(db)
	m := newU()
	hs := []storage.Hash{hashN(0)}
	v4 := vs.Choose(2) == 0
	var base netip.Addr
	if v4 {
		base = netip.MustParseAddr("10.20.30.40")
	} else {
		base = netip.MustParseAddr("2001:db8:1:2:3:4:5:6")
	}
	useIP(base)
	port := uint16(0x1234)
	c := ap(base, port)
	if !m.do(s, db, c, v4 && vs.Choose(2) == 1, udpReq(udpMagic, 0, 1), hs) {
		return
	}
	raw := base.AsSlice()
	n := len(raw)*8 + 16
	k := vs.Choose(n + 3)
	switch {
	case k < len(raw)*8:
		raw[k/8] ^= 1 << (k % 8)
		base, _ = netip.AddrFromSlice(raw)
	case k < n:
		port ^= 1 << (k - len(raw)*8)
	case k == n: // bytes swapped
		port = port<<8 | port>>8
	case k == n+1:
		// an IPv6 address with the same leading or trailing bytes
		b := [16]byte{}
		copy(b[:], raw)
		base = netip.AddrFrom16(b)
	case k == n+2:
		b := [16]byte{}
		copy(b[12:], raw[len(raw)-4:])
		base = netip.AddrFrom16(b)
	}
	x := ap(useIP(base), port)
	var d []byte
	if vs.Choose(2) == 0 {
		d = annReq{connid: m.conns[c].id, txid: 3, hash: hs[0], id: idN(1), left: 1, port: 7000}.bytes()
	} else {
		d = scrapeReq(m.conns[c].id, 3, hs...)
	}
	m.do(s, db, x, base.Is4() && vs.Choose(2) == 1, d, hs)
	vs.Observe(fmt.Sprint(x))
	Note("%v uses the id of %v", x, c)
}

// ---- C14 ----

func connLife(depth int) func() {
	return func() {
		const trim = 10 * minute
		setup(func(c *config.Configuration) {
			c.UDP.ConnDB.Trim = trim
			c.UDP.ConnDB.Expiry = 25 * minute
		})
		db := openDB()
		u, s := startUDP(db)
		m := newU()
		hs := []storage.Hash{hashN(0)}
		cl := []netip.AddrPort{ap(ip4(1), 1111), ap(ip6(1), 2222)}
		last := nowTick(trim)
		var hist []string
		ids := map[netip.AddrPort]uint64{}
		probe := func() bool {
			for _, c := range cl {
				id := ids[c]
				if !m.do(s, db, c, false, scrapeReq(id, 77, hs...), hs) {
					vs.Fail("history %v", hist)
					return false
				}
			}
			if n := u.Connections(); n != len(m.conns) {
				vs.Fail("%d connections counted, expected %d after %v", n, len(m.conns), hist)
				return false
			}
			return true
		}
		// the first tick is at a whole 10 minutes; start half a second before a multiple of five minutes
		steps := []time.Duration{5 * minute, 10 * minute, 25 * minute, time.Second}
		for i := 0; i < depth; i++ {
			k := vs.Choose(8)
			switch {
			case k < 2:
				hist = append(hist, fmt.Sprintf("connect %d", k))
				if !m.do(s, db, cl[k], false, udpReq(udpMagic, 0, uint32(i)), hs) {
					vs.Fail("history %v", hist)
					return
				}
				ids[cl[k]] = m.conns[cl[k]].id
			case k < 6:
				d := steps[k-2]
				hist = append(hist, d.String())
				advanceSweeping(m, d, trim, &last)
			case k == 6:
				hist = append(hist, "write, restart")
				if err := u.WriteConns(); err != nil {
					vs.Fail("writing the connection table failed: %v", err)
					return
				}
				s.Closed = true
				u, s = startUDP(db)
			case k == 7:
				// an announce does not extend the lifetime
				hist = append(hist, "announce 0")
				a := annReq{connid: ids[cl[0]], txid: 5, hash: hs[0], id: idN(0), left: 1, port: 1}
				if !m.do(s, db, cl[0], false, a.bytes(), hs) {
					vs.Fail("history %v", hist)
					return
				}
			}
			if !probe() {
				return
			}
		}
		vs.Observe(strings.Join(hist, ","))
		Note("%v", hist)
	}
}

// boundary: ids of every age around the expiry at a sweep.
func connBoundary() {
	const trim = 30 * minute
	exp := []time.Duration{minute, 90 * time.Second, 25 * minute, 65*minute + 7*time.Second}[vs.Choose(4)]
	setup(func(c *config.Configuration) {
		c.UDP.ConnDB.Trim = trim
		c.UDP.ConnDB.Expiry = exp
	})
	db := openDB()
	u, s := startUDP(db)
	m := newU()
	hs := []storage.Hash{hashN(0)}
	last := nowTick(trim)
	// tick to be examined
	tick := (last + 4) * int64(trim)
	off := []int64{-2000, -1500, -500, 500, 1500, 60000, -60000}[vs.Choose(7)] * int64(time.Millisecond)
	at := tick - int64(exp) + off // age at the tick: expiry - off
	advanceSweeping(m, time.Duration(at-vs.Now()), trim, &last)
	n := []int{1, 2, 600}[vs.Choose(3)]
	c := func(i int) netip.AddrPort { return ap(ip4(i), 1111) }
	for i := 0; i < n; i++ {
		if !m.do(s, db, c(i), false, udpReq(udpMagic, 0, 1), hs) {
			return
		}
	}
	ids := make([]uint64, n)
	for i := range ids {
		ids[i] = m.conns[c(i)].id
	}
	if vs.Choose(2) == 1 {
		if err := u.WriteConns(); err != nil {
			vs.Fail("write: %v", err)
		}
		s.Closed = true
		_, s = startUDP(db)
	}
	advanceSweeping(m, time.Duration(tick+int64(time.Second)-vs.Now()), trim, &last)
	for i := 0; i < n; i++ {
		if !m.do(s, db, c(i), false, scrapeReq(ids[i], 9, hs...), hs) {
			return
		}
	}
	vs.Observe(fmt.Sprint(exp, off, n))
	Note("expiry %v, age %v at the sweep", exp, exp-time.Duration(off))
}

// crowd: tens of thousands of clients are connected at once.
func crowd() {
	setup(nil)
	db := openDB()
	u, s := startUDP(db)
	m := newU()
	hs := []storage.Hash{hashN(0)}
	n := []int{3000, 66000}[vs.Choose(2)]
	how := vs.Choose(3) // addresses of both families, one address, one IPv6 address
	var cl []netip.AddrPort
	for i := 0; i < n; i++ {
		var c netip.AddrPort
		switch {
		case how == 0 && i%2 == 0, how == 1 && i > 65534:
			c = ap(ip4(i), uint16(1+i%3))
		case how == 0, how == 2 && i > 65534:
			c = ap(ip6(i), uint16(1+i%3))
		case how == 1:
			c = ap(ip4(1), uint16(1+i))
		default:
			c = ap(ip6(1), uint16(1+i))
		}
		cl = append(cl, c)
		if !m.do(s, db, c, false, udpReq(udpMagic, 0, uint32(i)), hs) {
			return
		}
	}
	ids := make([]uint64, n)
	for i, c := range cl {
		ids[i] = m.conns[c].id
	}
	for i := 0; i < n; i += 1 + (n-1-i)%7 {
		if !m.do(s, db, cl[i], false, scrapeReq(m.conns[cl[i]].id, 9, hs...), hs) {
			vs.Fail("client %d of %d", i, n)
			return
		}
		o := cl[(i+n/2)%n]
		if i%5 == 0 && !m.do(s, db, cl[i], false, scrapeReq(m.conns[o].id, 9, hs...), hs) {
			vs.Fail("client %d of %d with the id of another", i, n)
			return
		}
	}
	if u.Connections() != n {
		vs.Fail("%d connections of %d clients", u.Connections(), n)
	}
	// all of them expire
	c := config.Config.UDP.ConnDB
	vs.Advance(int64(c.Expiry + time.Minute))
	vs.AdvanceTo(tickAfter(vs.Now(), c.Trim))
	vs.WaitIdle()
	m.sweepConns()
	if u.Connections() != 0 {
		vs.Fail("%d of %d connections are left after they expired and were swept", u.Connections(), n)
		return
	}
	for i := range cl {
		if i%97 == 0 && !m.do(s, db, cl[i], false, scrapeReq(ids[i], 9, hs...), hs) {
			vs.Fail("client %d of %d after the expiry", i, n)
			return
		}
	}
	vs.Observe(fmt.Sprint(n, how))
	Note("%d clients %d", n, how)
}

// specialIPs are addresses a tracker might feel like treating differently.
var specialIPs = []string{"127.0.0.1", "10.0.0.1", "192.168.1.1", "172.16.0.1", "100.64.0.1", "169.254.1.1", "192.0.2.1", "198.18.0.1",
	"224.0.0.1", "255.255.255.255", "0.0.0.0", "1.1.1.1", "1.2.3.0", "1.2.3.255", "::1", "::", "fc00::1", "2002:102:304::1",
	"2001:0:1::1", "2001:db8::1", "64:ff9b::102:304", "ff02::1", "::1.2.3.4"}

// specialClients: clients of all kinds of addresses with a wrong id, a right one and the id of another address.
func specialClients() {
	setup(nil)
	db := openDB()
	_, s := startUDP(db)
	m := newU()
	hs := []storage.Hash{hashN(0), hashN(1)}
	i := vs.Choose(len(specialIPs))
	a := useIP(netip.MustParseAddr(specialIPs[i]))
	map4 := a.Is4() && vs.Choose(2) == 1
	port := []uint16{1, 80, 6881, 65535}[vs.Choose(4)]
	c, o := ap(a, port), ap(ip4(9), port)
	if !m.do(s, db, o, false, udpReq(udpMagic, 0, 1), hs) {
		return
	}
	ann := func(id uint64, ev uint32) []byte {
		return annReq{connid: id, txid: 3, hash: hs[0], id: idN(1), left: 1, event: ev, port: 7000}.bytes()
	}
	for _, id := range []uint64{0, 1, udpMagic, ^uint64(0), m.conns[o].id} {
		if !m.do(s, db, c, map4, ann(id, 0), hs) || !m.do(s, db, c, map4, scrapeReq(id, 3, hs...), hs) {
			return
		}
	}
	if !m.do(s, db, c, map4, udpReq(udpMagic, 0, 2), hs) {
		return
	}
	id := m.conns[c].id
	for _, d := range [][]byte{ann(id, 2), scrapeReq(id, 4, hs...), ann(id, 1), ann(id, 0), ann(m.conns[o].id, 3), ann(id, 3), scrapeReq(id, 4, hs...)} {
		if !m.do(s, db, c, map4, d, hs) {
			return
		}
		// whoever asks sees the peer
		if !m.do(s, db, o, false, annReq{connid: m.conns[o].id, txid: 5, hash: hs[0], id: idN(2), port: 8000}.bytes(), hs) {
			return
		}
	}
	vs.Observe(fmt.Sprint(c, map4))
	Note("%v, mapped %v", c, map4)
}

// manyConns: the whole table survives a restart.
func manyConns() {
	setup(nil)
	db := openDB()
	u, s := startUDP(db)
	m := newU()
	hs := []storage.Hash{hashN(0)}
	n := []int{0, 1, 2, 50, 700, 20000}[vs.Choose(6)]
	var cl []netip.AddrPort
	for i := 0; i < n; i++ {
		a := ip4(i)
		if i%2 == 1 {
			a = ip6(i)
		}
		c := ap(a, uint16(1+i*93))
		cl = append(cl, c)
		if !m.do(s, db, c, i%4 == 0, udpReq(udpMagic, 0, uint32(i)), hs) {
			return
		}
	}
	for r := 0; r < 2; r++ {
		if err := u.WriteConns(); err != nil {
			vs.Fail("write: %v", err)
			return
		}
		s.Closed = true
		u, s = startUDP(db)
		for _, c := range cl {
			if !m.do(s, db, c, false, scrapeReq(m.conns[c].id, 9, hs...), hs) {
				return
			}
		}
		if u.Connections() != n {
			vs.Fail("%d connections after a restart, expected %d", u.Connections(), n)
		}
	}
	vs.Observe(fmt.Sprint(n))
	Note("%d connections", n)
}

// ---- C15 ----

var actions = []uint32{0, 1, 2, 3, 4, 5, 6, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x102, 0x104, 0x10000, 0x1000001, 0x2000000, 0x4000004, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0xffffff00}

// datagrams: every size with every action, right and wrong ids.
func datagrams() {
	setup(func(c *config.Configuration) {
		c.UDP.ConnDB.Validate = vs.Choose(2) == 0
		c.LogLevel = logLevels[vs.Choose(2)]
	})
	db := openDB()
	_, s := startUDP(db)
	m := newU()
	hs := []storage.Hash{hashN(0), hashN(1), {}}
	c := ap(ip4(1), 1111)
	if !m.do(s, db, c, false, udpReq(udpMagic, 0, 1), hs) {
		return
	}
	act := actions[vs.Choose(len(actions))]
	size := 0
	if k := vs.Choose(126); k < 122 {
		size = k
	} else {
		size = []int{500, 1495, 1496, 2000}[k-122]
	}
	tx := []uint32{0, 0x01020304, 0xffffffff}[vs.Choose(3)]
	id := m.conns[c].id
	if vs.Choose(2) == 1 {
		id++
	}
	a := annReq{connid: id, txid: tx, hash: hs[0], id: idN(0), left: 1, port: 0x1234, numwant: 3}.bytes()
	copy(a[8:], be32(act))
	for len(a) < size {
		a = append(a, byte(len(a)))
	}
	m.do(s, db, c, vs.Choose(2) == 1, a[:size], hs)
	vs.Observe(fmt.Sprint(act, size))
	Note("action %#x, %d bytes", act, size)
}

var logLevels = []config.LogLevel{"info", "debug"}

// actionBits: every action number with one or two bits set.
func actionBits() {
	setup(nil)
	db := openDB()
	_, s := startUDP(db)
	m := newU()
	hs := []storage.Hash{hashN(0)}
	c := ap(ip4(1), 1111)
	if !m.do(s, db, c, false, udpReq(udpMagic, 0, 1), hs) {
		return
	}
	act := uint32(1)<<vs.Choose(32) | uint32(1)<<vs.Choose(32)
	if vs.Choose(2) == 1 {
		act = ^act
	}
	a := annReq{connid: m.conns[c].id, txid: 9, hash: hs[0], id: idN(0), left: 1, port: 0x1234}.bytes()
	copy(a[8:], be32(act))
	m.do(s, db, c, false, a, hs)
	Note("action %#x", act)
}

// sequence: datagrams of all kinds in a row through the same recycled buffers.
const udpKinds = 11

// udpKind is the i-th datagram of a history, of kind k.
func udpKind(k, i int, id uint64, hs []storage.Hash) (d []byte) {
	tx := uint32(i) * 0x01010101
	ann := annReq{connid: id, txid: tx, hash: hs[0], id: idN(i), left: 1, port: uint16(100 + i)}
	switch k {
	case 0:
		d = udpReq(udpMagic, 0, tx)
	case 1:
		d = ann.bytes()
	case 2:
		ann.hash, ann.left, ann.numwant = hs[1], 0, 1
		d = append(ann.bytes(), 9, 9, 9)
	case 3:
		ann.id, ann.event = idN(0), 3
		d = ann.bytes()
	case 4:
		d = ann.bytes()[:97]
	case 5:
		d = scrapeReq(id, tx, hs...)
	case 6:
		d = scrapeReq(id, tx, hs[1], hs[1], hashN(7))
		d = d[:len(d)-3]
	case 7:
		d = scrapeReq(id, tx)
	case 8:
		d = udpReq(id, 4, tx)
	case 9:
		d = udpReq(id, 9, tx)
	case 10:
		d = ann.bytes()[:15]
	}
	return
}

// udpSeq: same: every datagram of a kind is the same, as if sent again, otherwise all differ.
func udpSeq(depth int, same bool) func() {
	return func() {
		setup(func(c *config.Configuration) { c.UDP.Threads = 1 + vs.Choose(2) })
		db := openDB()
		_, s := startUDP(db)
		m := newU()
		hs := []storage.Hash{hashN(0), hashN(1)}
		cl := []netip.AddrPort{ap(ip4(1), 1111), ap(ip6(1), 2222)}
		if vs.Choose(2) == 1 {
			cl[1] = ap(zoned(1), 2222)
			if same {
				cl[1] = []netip.AddrPort{ap(ip4(1), 2222), ap(ip4(2), 1111)}[vs.Choose(2)]
			}
		}
		for _, c := range cl {
			if !m.do(s, db, c, false, udpReq(udpMagic, 0, 1), hs) {
				return
			}
		}
		var hist []string
		for i := 0; i < depth; i++ {
			k := vs.Choose(udpKinds)
			c := cl[vs.Choose(2)]
			j := i
			if same {
				j = 1
			}
			d := udpKind(k, j, m.conns[c].id, hs)
			hist = append(hist, fmt.Sprintf("%v:%d", c, k))
			if !m.do(s, db, c, false, d, hs) {
				vs.Fail("history %v", hist)
				return
			}
		}
		vs.Observe(m.db.digest(hs...))
		Note("%v", hist)
	}
}

// ---- C16 ----

// announces: every combination of event, left, numwant, port, family on swarms of different sizes.
func announces(exploreFuzz bool) func() {
	return func() {
		setup(func(c *config.Configuration) {
			c.UDP.ConnDB.Validate = false
			if exploreFuzz {
				c.Announce.Base = []time.Duration{0, time.Second, 30 * minute, 24 * time.Hour}[vs.Choose(4)]
				c.Announce.Fuzz = []time.Duration{0, time.Second, 2 * time.Second, 10 * minute}[vs.Choose(4)]
				rand.Explore = true
			}
		})
		defer func() { rand.Explore = false }()
		db := openDB()
		_, s := startUDP(db)
		m := newU()
		hs := []storage.Hash{hashN(0), hashN(1)}
		shape := vs.Choose(7)
		vs.Quiet(func() {
			n4 := []int{0, 1, 2, 0, 3, 6, 4}[shape]
			n6 := []int{0, 0, 1, 3, 3, 2, 0}[shape]
			for i := 0; i < n4; i++ {
				do(db, m.db, op{k: 's', h: 0, id: 20 + i, ip: ip4(20 + i), port: uint16(2000 + i), c: i%2 == 0})
			}
			for i := 0; i < n6; i++ {
				do(db, m.db, op{k: 's', h: 0, id: 40 + i, ip: ip6(40 + i), port: uint16(4000 + i), c: i%2 == 1})
			}
			do(db, m.db, op{k: 's', h: 1, id: 60, ip: ip4(60), port: 6000, c: true})
		})
		lefts := []uint64{0, 1, 1 << 31, 1 << 32, 1 << 63, ^uint64(0)}
		nws := []uint32{0xffffffff, 0, 1, 2, 3, 4, 5, 6, 100, 0x7fffffff, 0x80000000}
		ports := []uint16{0, 1, 255, 256, 65535}
		a := annReq{txid: 0xdeadbeef, hash: hs[0], id: idN(0)}
		c := ap(ip4(1), 1111)
		map4 := false
		switch vs.Choose(4) {
		case 1:
			map4 = true
		case 2:
			c = ap(ip6(1), 1111)
		case 3:
			c = ap(zoned(1), 1111)
		}
		a.event = []uint32{0, 1, 2, 3, 4, 0xffffffff, 0x01000000, 0x103}[vs.Choose(8)]
		if exploreFuzz {
			a.left, a.numwant, a.port = lefts[vs.Choose(2)], nws[0], 80
		} else {
			a.left = lefts[vs.Choose(len(lefts))]
			a.numwant = nws[vs.Choose(len(nws))]
			a.port = ports[vs.Choose(len(ports))]
		}
		a.ip = 0x7f000001 // the address in the request is ignored, and so are the key and the amounts
		switch vs.Choose(4) {
		case 3:
			a.up = 6
		case 1:
			a.key, a.down, a.up = 0x01020304, 5, 6
		case 2:
			a.key, a.down, a.up, a.ip = ^uint32(0), ^uint64(0), ^uint64(0), 0x05060708
		}
		if vs.Choose(2) == 1 {
			a.id = idN(20) // re-announce of a listed peer, or a first one
		}
		if !m.do(s, db, c, map4, a.bytes(), hs) {
			return
		}
		for h := range hs {
			ga, gi := counts(db, hs[h])
			if wa, wi := m.db.counts(hs[h]); ga != wa || gi != wi {
				vs.Fail("counts %d/%d instead of %d/%d", ga, gi, wa, wi)
			}
		}
		if got, w := forms(db, hs...), m.db.forms(hs...); !same(got, w) {
			vs.Fail("after an announce (%+v) the database holds %v, expected %v", a, got, w)
		}
		vs.Observe(fmt.Sprint(a, c, shape))
		Note("%+v from %v to a swarm of %d", a, c, len(m.db[hs[0]]))
	}
}

// fieldBits: every bit of every announce field is read from its place: the peer id, hash and port stored are those sent.
func fieldBits() {
	setup(func(c *config.Configuration) { c.UDP.ConnDB.Validate = false })
	db := openDB()
	_, s := startUDP(db)
	m := newU()
	a := annReq{txid: 1, hash: hashN(0), id: idN(0), left: 7, event: 2, port: 8, numwant: 2}
	d := a.bytes()
	lo, hi := 12*8, 98*8
	k := lo + vs.Choose(hi-lo)
	d[k/8] ^= 0x80 >> (k % 8)
	var h storage.Hash
	copy(h[:], d[16:])
	hs := []storage.Hash{hashN(0), h}
	if hs[0] == hs[1] {
		hs = hs[:1]
	}
	if m.do(s, db, ap(ip4(1), 1111), false, d, hs) {
		if got, w := forms(db, hs...), m.db.forms(hs...); !same(got, w) {
			vs.Fail("after an announce (%x) the database holds %v, expected %v", d, got, w)
		}
	}
	Note("bit %d changed", k)
}

// ---- C17 ----

func scrapes() {
	setup(func(c *config.Configuration) { c.UDP.ConnDB.Validate = false })
	db := openDB()
	_, s := startUDP(db)
	m := newU()
	n := vs.Choose(75)
	mode := vs.Choose(4)
	var hs, req []storage.Hash
	vs.Quiet(func() {
		for t := 0; t < 5; t++ {
			hs = append(hs, hashN(t))
			for i := 0; i < t*3; i++ {
				do(db, m.db, op{k: 's', h: t, id: i, ip: ip4(i), port: uint16(i + 1), c: i < t})
			}
		}
	})
	if mode == 3 {
		// a swarm of which a part was dropped
		do(db, m.db, op{k: 'd', h: 4, id: 0})
		do(db, m.db, op{k: 'd', h: 4, id: 11})
		do(db, m.db, op{k: 's', h: 3, id: 0, ip: ip4(0), port: 1, c: false})
	}
	for i := 0; i < n; i++ {
		switch mode {
		case 0:
			req = append(req, hashN(i%7))
		case 1:
			req = append(req, hashN(4-i%5))
		case 2:
			req = append(req, hashN(2))
		case 3:
			req = append(req, hashN((i*i)%11))
		}
	}
	d := scrapeReq(1, 0x01020304, req...)
	extra := []int{0, 1, 19}[vs.Choose(3)]
	if len(d)+extra > 1496 {
		extra = 0
	}
	for i := 0; i < extra; i++ {
		d = append(d, 0x41)
	}
	m.do(s, db, ap(ip4(1), 1111), vs.Choose(2) == 1, d, hs)
	vs.Observe(fmt.Sprint(n, mode, extra))
	Note("%d torrents, order %d, %d trailing bytes", n, mode, extra)
}

// ---- C30 ----

func vals(n int) uint64 {
	v := []uint64{0, 1, 0x0102030405060708, 1<<63 | 1, ^uint64(0), 0x80 << 24, 0x7f}
	return v[vs.Choose(len(v))] & (^uint64(0) >> (64 - 8*n))
}

func roundTrip() {
	same := func(what string, enc []byte, err error, want []byte) bool {
		if err != nil {
			vs.Fail("encoding %s failed: %v", what, err)
			return false
		}
		if !bytes.Equal(enc, want) {
			vs.Fail("%s encodes to %x instead of %x", what, enc, want)
			return false
		}
		return true
	}
	switch vs.Choose(7) {
	case 0:
		c := protocol.Connect{ProtcolID: int64(vals(8)), Action: protocol.Action(vals(4)), TransactionID: int32(vals(4))}
		b, err := c.Marshall()
		if !same("connect", b, err, append(append(be64(uint64(c.ProtcolID)), be32(uint32(c.Action))...), be32(uint32(c.TransactionID))...)) {
			return
		}
		var d protocol.Connect
		if err := d.Unmarshall(b); err != nil || d != c {
			vs.Fail("connect %+v decodes to %+v (%v)", c, d, err)
		}
	case 1:
		c := protocol.ConnectResp{Action: protocol.Action(vals(4)), TransactionID: int32(vals(4)), ConnectionID: int64(vals(8))}
		b, err := c.Marshall()
		if !same("connect reply", b, err, append(append(be32(uint32(c.Action)), be32(uint32(c.TransactionID))...), be64(uint64(c.ConnectionID))...)) {
			return
		}
		var d protocol.ConnectResp
		if err := d.Unmarshall(b); err != nil || d != c {
			vs.Fail("connect reply %+v decodes to %+v (%v)", c, d, err)
		}
	case 2, 3:
		// all fields from a per-byte pattern, or one field at a time from boundary values
		a := annReq{}
		c := protocol.Announce{Action: 1}
		f := vs.Choose(13)
		v := vals(8)
		a.connid, c.ConnectionID = 0x1112131415161718, 0x1112131415161718
		act := uint32(1)
		switch f {
		case 0:
			a.connid, c.ConnectionID = v, int64(v)
		case 1:
			act, c.Action = uint32(v), protocol.Action(uint32(v))
		case 2:
			a.txid, c.TransactionID = uint32(v), int32(uint32(v))
		case 3:
			for i := range a.hash {
				a.hash[i] = byte(v) + byte(i)
			}
			c.InfoHash = a.hash
		case 4:
			for i := range a.id {
				a.id[i] = byte(v) - byte(i)
			}
			c.PeerID = a.id
		case 5:
			a.down, c.Downloaded = v, int64(v)
		case 6:
			a.left, c.Left = v, int64(v)
		case 7:
			a.up, c.Uploaded = v, int64(v)
		case 8:
			a.event = uint32(v)
			switch a.event % 4 {
			case 0:
				a.event, c.Event = 0, protocol.EventNone
			case 1:
				a.event, c.Event = 1, protocol.EventCompleted
			case 2:
				a.event, c.Event = 2, protocol.EventStarted
			default:
				a.event, c.Event = 3, protocol.EventStopped
			}
		case 9:
			a.ip, c.IP = uint32(v), uint32(v)
		case 10:
			a.key, c.Key = uint32(v), uint32(v)
		case 11:
			a.numwant, c.NumWant = uint32(v), int32(uint32(v))
		case 12:
			a.port, c.Port = uint16(v), uint16(v)
		}
		w := a.bytes()
		copy(w[8:], be32(act))
		b, err := c.Marshall()
		if !same("announce", b, err, w) {
			return
		}
		var d protocol.Announce
		if err := d.Unmarshall(append(b, make([]byte, vs.Choose(3))...)); err != nil || d != c {
			vs.Fail("announce %+v decodes to %+v (%v)", c, d, err)
		}
	case 4:
		r := protocol.AnnounceResp{Action: protocol.Action(vals(4)), TransactionID: int32(vals(4)), Interval: int32(vals(4)), Leechers: int32(vals(4)), Seeders: int32(vals(4))}
		n := []int{0, 1, 6, 18, 1200}[vs.Choose(5)]
		r.Peers = make([]byte, n)
		for i := range r.Peers {
			r.Peers[i] = byte(i*7 + 1)
		}
		w := be32(uint32(r.Action))
		for _, x := range []int32{r.TransactionID, r.Interval, r.Leechers, r.Seeders} {
			w = append(w, be32(uint32(x))...)
		}
		b, err := r.Marshall()
		if !same("announce reply", b, err, append(w, r.Peers...)) {
			return
		}
		var d protocol.AnnounceResp
		if err := d.Unmarshall(b); err != nil || d.Action != r.Action || d.TransactionID != r.TransactionID || d.Interval != r.Interval || d.Leechers != r.Leechers || d.Seeders != r.Seeders || !bytes.Equal(d.Peers, r.Peers) {
			vs.Fail("announce reply %+v decodes to %+v (%v)", r, d, err)
		}
	case 5:
		e := protocol.Error{Action: protocol.Action(vals(4)), TransactionID: int32(vals(4))}
		n := []int{0, 1, 2, 12, 300}[vs.Choose(5)]
		e.ErrorString = bytes.Repeat([]byte{'x', 0, 0xff}, n)[:n]
		b, err := e.Marshall()
		if !same("error", b, err, append(append(be32(uint32(e.Action)), be32(uint32(e.TransactionID))...), e.ErrorString...)) {
			return
		}
		var d protocol.Error
		if err := d.Unmarshall(b); err != nil || d.Action != e.Action || d.TransactionID != e.TransactionID || !bytes.Equal(d.ErrorString, e.ErrorString) {
			vs.Fail("error %+v decodes to %+v (%v)", e, d, err)
		}
	case 6:
		if vs.Choose(2) == 0 {
			r := protocol.ScrapeResp{Action: protocol.Action(vals(4)), TransactionID: int32(vals(4))}
			w := append(be32(uint32(r.Action)), be32(uint32(r.TransactionID))...)
			n := []int{0, 1, 2, 74}[vs.Choose(4)]
			v := vals(4)
			for i := 0; i < n; i++ {
				x := protocol.ScrapeInfo{Complete: int32(uint32(v)) + int32(i), Incomplete: int32(i), Downloaded: -1 - int32(i)}
				r.Info = append(r.Info, x)
				w = append(w, be32(uint32(x.Complete))...)
				w = append(w, be32(uint32(x.Downloaded))...)
				w = append(w, be32(uint32(x.Incomplete))...)
			}
			b, err := r.Marshall()
			if err != nil || len(b) != 8+12*n {
				vs.Fail("a scrape reply of %d entries has %d bytes (%v)", n, len(b), err)
				return
			}
			if !bytes.Equal(b, w) {
				vs.Fail("a scrape reply of %d entries is %x, BEP 15 has %x", n, b, w)
			}
		} else {
			n := vs.Choose(75)
			var hs []storage.Hash
			for i := 0; i < n; i++ {
				hs = append(hs, hashN(i))
			}
			id, tx := vals(8), uint32(vals(4))
			d := scrapeReq(id, tx, hs...)
			d = append(d, make([]byte, vs.Choose(20))...)
			var sc protocol.Scrape
			if err := sc.Unmarshall(d); err != nil || len(sc.InfoHashes) != n || uint64(sc.ConnectionID) != id || uint32(sc.TransactionID) != tx || sc.Action != 2 {
				vs.Fail("scrape request %x decodes to %+v (%v)", d, sc, err)
				return
			}
			for i := range hs {
				if sc.InfoHashes[i] != hs[i] {
					vs.Fail("hash %d decodes to %x", i, sc.InfoHashes[i])
				}
			}
		}
	}
}

// shortMessages: decoding anything too short reports an error and does not panic.
func shortMessages() {
	n := vs.Choose(120)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i + 1)
	}
	k := vs.Choose(3)
	var err error
	min := 0
	switch k {
	case 0:
		var c protocol.Connect
		err, min = c.Unmarshall(b), 16
	case 1:
		var c protocol.ConnectResp
		err, min = c.Unmarshall(b), 16
	case 2:
		var c protocol.Announce
		err, min = c.Unmarshall(b), 98
	}
	if (err != nil) != (n < min) {
		vs.Fail("decoding %d bytes of a message of %d (kind %d): error %v", n, min, k, err)
	}
}

// udpLimits: default and limit of the wanted number.
func udpLimits() {
	d := uint([]int{0, 1, 3, 5, 200}[vs.Choose(5)])
	lim := uint([]int{0, 1, 3, 5, 200, 1000}[vs.Choose(6)])
	setup(func(c *config.Configuration) {
		c.UDP.ConnDB.Validate = false
		c.Numwant.Default, c.Numwant.Limit = d, lim
	})
	db := openDB()
	_, s := startUDP(db)
	m := newU()
	h := hashN(2)
	n := []int{0, 1, 4, 6, 199, 201, 1001}[vs.Choose(7)]
	vs.Quiet(func() { swarmOf(db, m.db, h, n, []int{0, 0x5555555555555555, -1}[vs.Choose(3)]) })
	nw := []uint32{0xffffffff, 0, 1, uint32(d), uint32(lim), uint32(lim + 1), uint32(n), uint32(n + 1), 0x7fffffff}[vs.Choose(9)]
	c := []netip.AddrPort{ap(ip4(250), 1111), ap(ip6(250), 1111)}[vs.Choose(2)]
	a := annReq{txid: 7, hash: h, id: idN(500), left: 1, numwant: nw, port: 9}
	Note("default %d limit %d swarm %d: wanted %d", d, lim, n, int32(nw))
	m.do(s, db, c, false, a.bytes(), []storage.Hash{h})
	vs.Observe(fmt.Sprint(d, lim, n, nw))
}

var _ = vnet.Reset

func init() {
	seq := vs.Budget{FreeSw: -1, MaxSteps: 1_000_000}
	long := vs.Budget{FreeSw: -1, MaxSteps: 10_000_000}
	register(&Check{ID: "C13", Configs: func(bool) []Config {
		n := seqDepth(3, 4)
		return []Config{
			{Name: "sequences", Run: connSeq(n, true), B: seq, Bound: fmt.Sprintf("all sequences of %d requests of 3 clients, 6 id origins, expiry", n)},
			{Name: "long sequences", Run: connLong(seqDepth(6, 7)), B: seq, Bound: fmt.Sprintf("all sequences of %d connects, scrapes with the current, the previous or the other client's id, and waits, 2 ports of one address", seqDepth(6, 7))},
			{Name: "validation off", Run: connSeq(2, false), B: seq},
			{Name: "wrong ids", Run: allIDs, B: seq, Bound: "every single-bit change and byte shift of an id"},
			{Name: "crowd", Run: crowd, B: vs.Budget{MaxSteps: 100_000_000, FreeSw: -1}, Bound: "3000 or 66000 clients of as many addresses or one, expiring together"},
			{Name: "kinds of addresses", Run: specialClients, B: seq, Bound: "23 addresses of special ranges, 4 ports, 5 wrong ids, 7 requests"},
			{Name: "rare ids", Run: rareIDs, B: seq, Bound: "14 random numbers, drawn for one client or both, then a restart"},
			{Name: "wrong clients", Run: neighbours, B: seq, Bound: "every single-bit change of address and port"},
		}
	}})
	register(&Check{ID: "C14", Configs: func(bool) []Config {
		n := seqDepth(5, 7)
		return []Config{
			{Name: "lifetimes", Run: connLife(n), B: seq, Bound: fmt.Sprintf("all sequences of %d connects, waits, restarts", n)},
			{Name: "expiry boundary", Run: connBoundary, B: seq, Bound: "ages from one minute below to one minute above the expiry, 4 expiries, 1, 2 and 600 connections"},
			{Name: "rare ids", Run: rareIDs, B: seq, Bound: "14 random numbers, drawn for one client or both, then a restart"},
			{Name: "clock set back", Run: connClock, B: seq, Bound: stepBound},
			{Name: "dates", Run: connYears, B: seq, Bound: yearsBound},
			{Name: "restart", Run: manyConns, B: vs.Budget{MaxSteps: 100_000_000, FreeSw: -1}, Bound: "0..700 and 20000 connections"},
			{Name: "crowd", Run: crowd, B: vs.Budget{MaxSteps: 100_000_000, FreeSw: -1}, Bound: "3000 or 66000 clients of as many addresses or one, expiring together"},
		}
	}})
	register(&Check{ID: "C15", Configs: func(bool) []Config {
		n := seqDepth(3, 5)
		return []Config{
			{Name: "datagrams", Run: datagrams, B: seq, Bound: "23 actions, sizes 0..121 and larger, 3 transaction ids, right and wrong connection id, both address forms"},
			{Name: "actions", Run: actionBits, B: seq, Bound: "all action numbers with one or two bits set or cleared"},
			{Name: "sequences", Run: udpSeq(n, false), B: seq, Bound: fmt.Sprintf("all sequences of %d datagrams of 11 kinds by 2 clients, 1 or 2 threads", n)},
			{Name: "sent again", Run: udpSeq(n, true), B: seq, Bound: fmt.Sprintf("all sequences of %d datagrams of 11 kinds by 2 clients, all of a kind the same", n)},
			{Name: "repeated", Run: udpEndure, B: long, Bound: "300 times each of 11 kinds of datagrams, then each kind"},
		}
	}})
	register(&Check{ID: "C16", Configs: func(bool) []Config {
		return []Config{
			{Name: "announces", Run: announces(false), B: seq, Bound: "8 events, 6 values left, 11 numwants, 5 ports, 3 address forms, 7 swarms"},
			{Name: "intervals", Run: announces(true), B: seq, Bound: "4 bases, 4 fuzzes, every extreme of the random draw"},
			{Name: "known peers", Run: udpPrior, B: seq, Bound: priorBound},
			{Name: "limits", Run: udpLimits, B: seq, Bound: "defaults 0..200, limits 0..1000 (below the default too), swarms 0..1001"},
			{Name: "bits", Run: fieldBits, B: seq, Bound: "every single bit of the message changed"},
			{Name: "similar", Run: requestBits(false), B: seq, Bound: bitsBound},
			{Name: "sequences", Run: udpSeq(seqDepth(2, 4), false), B: seq},
			{Name: "sent again", Run: udpSeq(seqDepth(3, 4), true), B: seq, Bound: "all sequences of 3 (thorough 4) datagrams, all of a kind the same"},
		}
	}})
	register(&Check{ID: "C17", Configs: func(bool) []Config {
		return []Config{
			{Name: "scrapes", Run: scrapes, B: seq, Bound: "0..74 torrents in 4 orders, 0, 1 or 19 trailing bytes"},
			{Name: "changes", Run: scrapesBetween(seqDepth(4, 5), true), B: seq, Bound: fmt.Sprintf("all sequences of %d of 9 changes, a scrape after each", seqDepth(4, 5))},
			{Name: "sent again", Run: udpSeq(seqDepth(3, 4), true), B: seq, Bound: "all sequences of 3 (thorough 4) datagrams, all of a kind the same"},
			{Name: "similar", Run: requestBits(false), B: seq, Bound: bitsBound},
		}
	}})
	register(&Check{ID: "C30", Configs: func(bool) []Config {
		return []Config{
			{Name: "round trips", Run: roundTrip, B: seq, Bound: "7 boundary values per field"},
			{Name: "short messages", Run: shortMessages, B: seq, Bound: "0..119 bytes"},
		}
	}})
}
