//go:build go1.22

package main

import (
	"encoding/binary"
	"fmt"
	"net/netip"
	"sort"
	"strings"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzv/vs"
)

// wantCompact is every member's compact encoding.
func wantCompact(m model, h storage.Hash) (v4, v6 map[string]int) {
	v4, v6 = map[string]int{}, map[string]int{}
	for _, p := range m[h] {
		b := binary.BigEndian.AppendUint16(append([]byte(nil), p.IP.AsSlice()...), p.Port)
		if p.IP.Is4() {
			v4[string(b)]++
		} else {
			v6[string(b)]++
		}
	}
	return
}

// checkCompact compares compact lists with the swarm: exactly min(n, size) distinct members (n wanted).
func checkCompact(m model, h storage.Hash, n int, p4, p6 []byte) string {
	if len(p4)%6 != 0 || len(p6)%18 != 0 {
		return fmt.Sprintf("compact lists of %d and %d bytes", len(p4), len(p6))
	}
	w4, w6 := wantCompact(m, h)
	k := 0
	for i := 0; i < len(p4); i += 6 {
		e := string(p4[i : i+6])
		if w4[e] == 0 {
			return fmt.Sprintf("IPv4 entry %x is no (or twice a) member", e)
		}
		w4[e]--
		k++
	}
	for i := 0; i < len(p6); i += 18 {
		e := string(p6[i : i+18])
		if w6[e] == 0 {
			return fmt.Sprintf("IPv6 entry %x is no (or twice a) member", e)
		}
		w6[e]--
		k++
	}
	want := len(m[h])
	if n < want {
		want = n
	}
	if k != want {
		return fmt.Sprintf("%d peers in the compact lists, %d wanted of a swarm of %d", k, n, len(m[h]))
	}
	return ""
}

// checkDicts does the same for a list of peer dictionaries.
func checkDicts(m model, h storage.Hash, n int, noID bool, l [][]byte) string {
	left := map[string]int{}
	for id, p := range m[h] {
		k := fmt.Sprintf("%v %d", p.IP, p.Port)
		if !noID {
			k = fmt.Sprintf("%x %s", id[:], k)
		}
		left[k]++
	}
	for _, e := range l {
		v, err := decodeAll(e)
		d, ok := v.(dict)
		if err != nil || !ok {
			return fmt.Sprintf("peer entry %q is no bencoded dictionary", e)
		}
		ip, _ := d.get("ip").(string)
		port, pok := d.get("port").(int64)
		id, iok := d.get("peer id").(string)
		nk := 3
		if noID {
			nk = 2
		}
		if len(d) != nk || !pok || iok == noID {
			return fmt.Sprintf("peer entry %q has wrong fields", e)
		}
		k := fmt.Sprintf("%s %d", ip, port)
		if !noID {
			k = fmt.Sprintf("%x %s", id, k)
		}
		if left[k] == 0 {
			return fmt.Sprintf("entry %q is no (or twice a) member", e)
		}
		left[k]--
	}
	want := len(m[h])
	if n < want {
		want = n
	}
	if len(l) != want {
		return fmt.Sprintf("%d peers listed, %d wanted of a swarm of %d", len(l), n, len(m[h]))
	}
	return ""
}

func checkLists(db storage.Database, m model, h storage.Hash) string {
	for _, n := range []uint{0, 1, 2, 5} {
		p4, p6 := db.PeerListBytes(h, n)
		if e := checkCompact(m, h, int(n), p4, p6); e != "" {
			return e
		}
		pools.Peerlists4.Put(p4)
		pools.Peerlists6.Put(p6)
		for _, no := range []bool{false, true} {
			if e := checkDicts(m, h, int(n), no, db.PeerList(h, n, no)); e != "" {
				return e
			}
		}
	}
	return ""
}

// swarmOf fills a swarm: bit i of fam makes peer i an IPv6 one.
func swarmOf(db storage.Database, m model, h storage.Hash, n, fam int) {
	for i := 0; i < n; i++ {
		var a netip.Addr
		if fam>>i&1 == 1 {
			a = ip6(i)
		} else {
			a = ip4(i)
		}
		p := mpeer{a, uint16(258*i + 1), i%2 == 0, nowSec()}
		db.Save(p.IP, p.Port, p.Complete, h, idN(i))
		m.save(h, idN(i), p)
	}
}

// listCalls: sequences of list calls over three torrents (mixed, IPv4 (longer ones: and one IPv6), unknown), sharing recycled buffers.
func listCalls(maxN, limit, calls int) func() {
	return func() {
		setup(func(c *config.Configuration) { c.Numwant.Limit = uint(limit) })
		db := openDB()
		m := model{}
		n := vs.Choose(maxN + 1)
		fam := vs.Choose(1 << n)
		swarmOf(db, m, hashN(0), n, fam)
		swarmOf(db, m, hashN(1), limit, 0)
		if calls > 2 {
			// lists of either torrent can hold IPv6 peers, of this one also without
			p := mpeer{ip6(71), 7171, true, nowSec()}
			db.Save(p.IP, p.Port, p.Complete, hashN(1), idN(1))
			m.save(hashN(1), idN(1), p)
		}
		var hist []string
		var held [][2][]byte // lists not returned to the pools yet, with their copies
		for k := 0; k < calls; k++ {
			h := vs.Choose(3)
			want := vs.Choose(limit + 2)
			kind := vs.Choose(4) // compact returned to the pool, compact kept, dictionaries, dictionaries without id
			if kind < 2 && want > limit {
				want = limit
			}
			hist = append(hist, fmt.Sprintf("list(h%d,%d,%s)", h, want, []string{"compact", "compact kept", "full", "no id"}[kind]))
			e := ""
			switch kind {
			case 0, 1:
				p4, p6 := db.PeerListBytes(hashN(h), uint(want))
				e = checkCompact(m, hashN(h), want, p4, p6)
				if kind == 0 {
					pools.Peerlists4.Put(p4)
					pools.Peerlists6.Put(p6)
				} else {
					held = append(held, [2][]byte{p4, append([]byte(nil), p4...)}, [2][]byte{p6, append([]byte(nil), p6...)})
				}
			default:
				l := db.PeerList(hashN(h), uint(want), kind == 3)
				e = checkDicts(m, hashN(h), want, kind == 3, l)
				for _, b := range l {
					held = append(held, [2][]byte{b, append([]byte(nil), b...)})
				}
			}
			if e != "" {
				vs.Fail("%s (swarm of %d, families %b, calls %s)", e, n, fam, strings.Join(hist, ", "))
				return
			}
			for _, x := range held {
				if string(x[0]) != string(x[1]) {
					vs.Fail("a list still in use changed from %x to %x (calls %s)", x[1], x[0], strings.Join(hist, ", "))
					return
				}
			}
		}
		vs.Observe(fmt.Sprint(n, fam, hist))
		Note("swarm of %d (families %b): %s", n, fam, strings.Join(hist, ", "))
	}
}

// listAddrs: encodings of special addresses and ports.
func listAddrs() {
	setup(nil)
	db := openDB()
	addrs := []string{"0.0.0.0", "1.2.3.4", "255.255.255.255", "127.0.0.1", "::", "::1", "::ffff:1.2.3.4", "2001:db8::ff00:42:8329", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "100::"}
	ports := []uint16{0, 1, 255, 256, 257, 6881, 32767, 32768, 65280, 65535}
	a := useIP(netip.MustParseAddr(addrs[vs.Choose(len(addrs))]))
	p := ports[vs.Choose(len(ports))]
	m := model{}
	h := hashN(0)
	pe := mpeer{a, p, false, nowSec()}
	db.Save(a, p, false, h, idN(0))
	m.save(h, idN(0), pe)
	if e := checkLists(db, m, h); e != "" {
		vs.Fail("%s for %v port %d", e, a, p)
	}
	Note("%v:%d", a, p)
}

// listSizes: every swarm size against every wanted number around the limits.
func listSizes() {
	limit := []int{1, 5, 50, 200, 1000}[vs.Choose(5)]
	setup(func(c *config.Configuration) { c.Numwant.Limit = uint(limit) })
	db := openDB()
	m := model{}
	h := hashN(0)
	sizes := []int{0, 1, limit - 1, limit, limit + 1, 2*limit + 3}
	n := sizes[vs.Choose(len(sizes))]
	mode := vs.Choose(3) // IPv4, IPv6, alternating
	for i := 0; i < n; i++ {
		a := ip4(i)
		if mode == 1 || mode == 2 && i%2 == 1 {
			a = ip6(i)
		}
		p := mpeer{a, uint16(i + 1), i%3 == 0, nowSec()}
		db.Save(a, p.Port, p.Complete, h, idN(i))
		m.save(h, idN(i), p)
	}
	for _, w := range []int{0, 1, 2, limit - 1, limit} {
		if w > limit {
			continue
		}
		p4, p6 := db.PeerListBytes(h, uint(w))
		if e := checkCompact(m, h, w, p4, p6); e != "" {
			vs.Fail("%s (limit %d, mode %d)", e, limit, mode)
			return
		}
		pools.Peerlists4.Put(p4)
		pools.Peerlists6.Put(p6)
		for _, no := range []bool{false, true} {
			if e := checkDicts(m, h, w, no, db.PeerList(h, uint(w), no)); e != "" {
				vs.Fail("%s (limit %d, mode %d)", e, limit, mode)
				return
			}
		}
	}
	Note("limit %d, swarm %d, mode %d", limit, n, mode)
}

// sweepAges: swarms of peers of every age around the expiry, re-announced or not, are swept.
func sweepAges(peers, torrents int) func() {
	return func() {
		exp := []time.Duration{45*minute + 13*time.Second, time.Second, 24 * time.Hour}[vs.Choose(3)]
		setup(func(c *config.Configuration) { c.DB.Expiry = exp })
		db := openDB()
		m := model{}
		ages := []time.Duration{0, exp - time.Second, exp, exp + time.Second, 10 * exp}
		type sv struct {
			h, id int
			age   time.Duration
		}
		var saves []sv
		for h := 0; h < torrents; h++ {
			for i := 0; i < peers; i++ {
				saves = append(saves, sv{h, i, ages[vs.Choose(len(ages))]})
			}
		}
		re := vs.Choose(len(saves) + 1) // one of them re-announces at another age
		if re < len(saves) {
			x := saves[re]
			x.age = ages[vs.Choose(len(ages))]
			saves = append(saves, x)
		}
		hist := fmt.Sprintf("expiry %v, saves %v", exp, saves)
		max := 10 * exp
		start := vs.Now()
		// saves in order of decreasing age
		for _, a := range []time.Duration{10 * exp, exp + time.Second, exp, exp - time.Second, 0} {
			vs.AdvanceTo(start + int64(max-a))
			for i, s := range saves {
				if s.age == a {
					p := mpeer{ip4(i), uint16(i + 1), i%2 == 0, nowSec()}
					db.Save(p.IP, p.Port, p.Complete, hashN(s.h), idN(s.id))
					m.save(hashN(s.h), idN(s.id), p)
				}
			}
		}
		db.Trim()
		m.trim(nowSec(), int64(exp/time.Second))
		hs := []storage.Hash{hashN(0), hashN(1), hashN(2)}
		checkState(db, m, wMembers|wCounts|wSweep, hs, func() string { return hist })
		vs.Observe(m.digest(hs...))
		Note("%s", hist)
	}
}

func init() {
	sort.Strings(nil)
	register(&Check{ID: "C06", Configs: func(d bool) []Config {
		c := []Config{
			{Name: "call sequences", Run: listCalls(seqDepth(4, 5), 3, 2), Bound: "swarms of every size and family mix, all sequences of 2 calls"},
			{Name: "longer sequences", Run: listCalls(2, 2, seqDepth(3, 4)), Bound: "all sequences of 3 calls (thorough 4)"},
			{Name: "addresses", Run: listAddrs, Bound: "10 addresses x 10 ports"},
			{Name: "sizes", Run: listSizes, Bound: "swarm sizes and wanted numbers around limits 1, 5, 50, 200, 1000"},
			{Name: "sizes, reverse order", Run: listSizes, B: vs.Budget{MapOrder: true}, Bound: "as sizes, both iteration orders (first choices)"},
			{Name: "histories", Run: history(alphaSmall, seqDepth(3, 5), wLists, nil), Bound: "lists after every history of 3 operations (thorough 5)"},
			{Name: "announced again", Run: again(wLists, false), B: vs.Budget{FreeSw: -1, MaxSteps: 1_000_000}, Bound: againBound},
		}
		c[4].Run = listSizesRev
		return c
	}})
	register(&Check{ID: "C07", Configs: func(d bool) []Config {
		return []Config{
			{Name: "histories", Run: history(alphaTime, seqDepth(5, 7), wMembers|wCounts|wSweep, nil), Bound: "all sequences of 5 operations (thorough 7)"},
			{Name: "ages, one torrent", Run: sweepAges(3, 1), Bound: "3 peers of every age, 3 expiries"},
			{Name: "ages, two torrents", Run: sweepAges(2, 2), Bound: "2x2 peers of every age, 3 expiries"},
			{Name: "ages, three torrents", Run: sweepAges(1, 3), Bound: "3x1 peers of every age, 3 expiries"},
			{Name: "many peers", Run: manyOps(wMembers | wCounts | wSweep), B: vs.Budget{MaxSteps: 10_000_000}, Bound: manyBound},
			{Name: "very many peers", Run: veryMany(wMembers | wCounts | wSweep), B: vs.Budget{MaxSteps: 100_000_000}, Bound: veryManyBound},
			{Name: "clock set back", Run: dbClock(wMembers | wCounts | wSweep), B: vs.Budget{FreeSw: -1, MaxSteps: 1_000_000}, Bound: stepBound},
			{Name: "dates", Run: dbYears(wMembers | wCounts | wSweep), B: vs.Budget{FreeSw: -1, MaxSteps: 1_000_000}, Bound: yearsBound},
			{Name: "mixed histories", Run: history(alphaSmall, seqDepth(4, 6), wMembers|wSweep, nil), Bound: "all sequences of 4 operations (thorough 6)"},
			{Name: "announced again", Run: again(wMembers|wCounts|wSweep, false), B: vs.Budget{FreeSw: -1, MaxSteps: 1_000_000}, Bound: againBound},
		}
	}})
}

// listSizesRev is the smallest cases of listSizes under both map orders.
func listSizesRev() {
	setup(func(c *config.Configuration) { c.Numwant.Limit = 3 })
	db := openDB()
	m := model{}
	h := hashN(0)
	swarmOf(db, m, h, 4, vs.Choose(16))
	w := vs.Choose(4)
	p4, p6 := db.PeerListBytes(h, uint(w))
	if e := checkCompact(m, h, w, p4, p6); e != "" {
		vs.Fail("%s", e)
	}
	if e := checkDicts(m, h, w, false, db.PeerList(h, uint(w), false)); e != "" {
		vs.Fail("%s", e)
	}
}
