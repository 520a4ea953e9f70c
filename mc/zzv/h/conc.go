//go:build go1.22

package main

import (
	"encoding/binary"
	"fmt"
	"net/netip"
	"sort"
	"strings"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzv/vs"
)

// event is one completed operation of a concurrent history.
type event struct {
	o          op
	start, end int
	res        string
	sub        int // sweeps are one operation per torrent
}

// read kinds: 'c' counts, 'l' peer list, 'y' compact peer list
func (o op) read(db storage.Database) string {
	h := hashN(o.h)
	switch o.k {
	case 'c':
		c, i := counts(db, h)
		return fmt.Sprint(c, "/", i)
	case 'l':
		l, err := listed(db, h)
		if err != nil {
			return err.Error()
		}
		return strings.Join(l, "|")
	case 'y':
		p4, p6 := db.PeerListBytes(h, 5)
		r := compact(p4, p6)
		pools.Peerlists4.Put(p4)
		pools.Peerlists6.Put(p6)
		return r
	}
	return ""
}

// compact renders compact lists as a sorted set.
func compact(p4, p6 []byte) string {
	var r []string
	if len(p4)%6 != 0 || len(p6)%18 != 0 {
		return fmt.Sprintf("lengths %d and %d", len(p4), len(p6))
	}
	for i := 0; i < len(p4); i += 6 {
		a, _ := netip.AddrFromSlice(p4[i : i+4])
		r = append(r, netip.AddrPortFrom(a, binary.BigEndian.Uint16(p4[i+4:])).String())
	}
	for i := 0; i < len(p6); i += 18 {
		a, _ := netip.AddrFromSlice(p6[i : i+16])
		r = append(r, netip.AddrPortFrom(a, binary.BigEndian.Uint16(p6[i+16:])).String())
	}
	sort.Strings(r)
	return strings.Join(r, "|")
}

func (o op) expect(m model) string {
	h := hashN(o.h)
	switch o.k {
	case 'c':
		c, i := m.counts(h)
		return fmt.Sprint(c, "/", i)
	case 'l':
		return strings.Join(m.members(h), "|")
	case 'y':
		var r []string
		for _, p := range m[h] {
			r = append(r, ap(p.IP, p.Port).String())
		}
		sort.Strings(r)
		return strings.Join(r, "|")
	}
	return ""
}

var linCache = map[string]bool{}

// linearizable reports whether some one-at-a-time order, consistent with real time, explains the results
// and the final state.
func linearizable(init model, evs []event, final string, hs []storage.Hash) bool {
	var key strings.Builder
	key.WriteString(init.digest(hs...))
	for _, e := range evs {
		fmt.Fprintf(&key, "%v@%d-%d=%s;", e.o, e.start, e.end, e.res)
	}
	key.WriteString(final)
	k := key.String()
	if r, ok := linCache[k]; ok {
		return r
	}
	// split sweeps
	var list []event
	for _, e := range evs {
		if e.o.k == 't' {
			for i := range hs {
				x := e
				x.sub = i
				list = append(list, x)
			}
		} else {
			list = append(list, e)
		}
	}
	used := make([]bool, len(list))
	dead := map[string]bool{}
	var rec func(m model, left int) bool
	rec = func(m model, left int) bool {
		if left == 0 {
			return finalOf(m, hs) == final
		}
		st := fmt.Sprint(used) + m.digest(hs...)
		if dead[st] {
			return false
		}
		for i := range list {
			if used[i] {
				continue
			}
			ok := true
			for j := range list {
				if !used[j] && j != i && list[j].end < list[i].start {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			e := list[i]
			n := m
			switch e.o.k {
			case 's', 'd':
				n = m.clone()
				e.o.apply(n)
			case 't':
				n = m.clone()
				h := hs[e.sub]
				one := model{h: n[h]}
				one.trim(nowSec(), int64(config.Config.DB.Expiry/time.Second))
				if len(one[h]) == 0 {
					delete(n, h)
				}
			default:
				if e.o.expect(m) != e.res {
					continue
				}
			}
			used[i] = true
			if rec(n, left-1) {
				return true
			}
			used[i] = false
		}
		dead[st] = true
		return false
	}
	r := rec(init, len(list))
	if len(linCache) > 200000 {
		linCache = map[string]bool{}
	}
	linCache[k] = r
	return r
}

func finalOf(m model, hs []storage.Hash) string {
	s, l, i := m.global()
	return m.digest(hs...) + fmt.Sprintf("metrics %d %d %d", s, l, i)
}

// runThreads runs the programs concurrently and checks the outcome.
func runThreads(init func(db storage.Database, m model), progs [][]op) {
	setup(nil)
	db := openDB()
	m := model{}
	if init != nil {
		vs.Quiet(func() { init(db, m) })
	}
	hs := []storage.Hash{hashN(0), hashN(1)}
	base := m.clone()
	var evs []event
	stamp := 0
	var ts []*vs.Task
	for ti, prog := range progs {
		prog := prog
		ts = append(ts, vs.GoNamed(fmt.Sprintf("T%d", ti), func() {
			for _, o := range prog {
				vs.Tracef("call %v", o)
				stamp++
				st := stamp
				res := ""
				switch o.k {
				case 'c', 'l', 'y':
					res = o.read(db)
				default:
					o.run(db)
				}
				stamp++
				evs = append(evs, event{o: o, start: st, end: stamp, res: res})
				vs.Tracef("return %v %s", o, res)
			}
		}))
	}
	vs.Join(ts...)
	s, l, i := metrics()
	final := digest(db, hs...) + fmt.Sprintf("metrics %d %d %d", s, l, i)
	vs.Observe(final + fmt.Sprint(evs))
	if !linearizable(base, evs, final, hs) {
		sort.Slice(evs, func(a, b int) bool { return evs[a].start < evs[b].start })
		var d []string
		for _, e := range evs {
			d = append(d, fmt.Sprintf("%v@[%d,%d] %s", e.o, e.start, e.end, e.res))
		}
		vs.Fail("no one-at-a-time order of the operations explains the outcome\n before: %s\n operations: %s\n after: %s", base.digest(hs...), strings.Join(d, "; "), final)
	}
	Note("%s: %v -> %s", base.digest(hs...), progs, final)
}

func concAlpha() []op {
	a, b, c := ip4(1), ip4(2), ip6(1)
	return []op{
		{k: 's', h: 0, id: 0, ip: a, port: 1, c: false},
		{k: 's', h: 0, id: 0, ip: b, port: 2, c: true},
		{k: 's', h: 0, id: 1, ip: c, port: 3, c: true},
		{k: 'd', h: 0, id: 0},
		{k: 't'},
		{k: 'c', h: 0},
		{k: 'l', h: 0},
		{k: 'y', h: 0},
		{k: 's', h: 1, id: 0, ip: a, port: 4, c: false},
	}
}

// concInits are the states concurrent operations start from.
var concInits = []func(db storage.Database, m model){
	func(db storage.Database, m model) {},
	func(db storage.Database, m model) { // one fresh incomplete peer
		do(db, m, op{k: 's', h: 0, id: 0, ip: ip4(1), port: 9, c: false})
	},
	func(db storage.Database, m model) { // one expired complete peer
		do(db, m, op{k: 's', h: 0, id: 0, ip: ip4(1), port: 9, c: true})
		vs.Advance(int64(46 * minute))
	},
	func(db storage.Database, m model) { // an expired and a fresh peer
		do(db, m, op{k: 's', h: 0, id: 0, ip: ip4(1), port: 9, c: true})
		vs.Advance(int64(46 * minute))
		do(db, m, op{k: 's', h: 0, id: 1, ip: ip4(1), port: 8, c: false})
	},
	func(db storage.Database, m model) { // torrent emptied by a drop
		do(db, m, op{k: 's', h: 0, id: 0, ip: ip4(1), port: 9, c: true})
		do(db, m, op{k: 'd', h: 0, id: 0})
	},
	func(db storage.Database, m model) { // two torrents, an expired and a fresh one
		do(db, m, op{k: 's', h: 1, id: 0, ip: ip4(1), port: 9, c: true})
		vs.Advance(int64(46 * minute))
		do(db, m, op{k: 's', h: 0, id: 0, ip: ip4(1), port: 8, c: false})
	},
}

func do(db storage.Database, m model, o op) { o.run(db); o.apply(m) }

// threadsChoice explores every choice of initial state and programs of the given lengths.
func threadsChoice(lens ...int) func() {
	return func() {
		usedIPs = append(usedIPs, ip4(1), ip4(2), ip6(1))
		al := concAlpha()
		in := concInits[vs.Choose(len(concInits))]
		var progs [][]op
		prev := -1
		for _, n := range lens {
			var p []op
			first := -1
			for i := 0; i < n; i++ {
				// threads are interchangeable: only consider programs in non-decreasing order of first operation
				lo := 0
				if i == 0 && prev >= 0 && n == lens[0] {
					lo = prev
				}
				x := lo + vs.Choose(len(al)-lo)
				if i == 0 {
					first = x
				}
				p = append(p, al[x])
			}
			prev = first
			progs = append(progs, p)
		}
		runThreads(in, progs)
	}
}

func init() {
	register(&Check{ID: "C04", Secs: [2]int{90, 600}, Configs: func(d bool) []Config {
		p := func(q, t int) int {
			if d {
				return t
			}
			return q
		}
		return []Config{
			{Name: "all pairs", Run: threadsChoice(1, 1), B: vs.Budget{Preempt: p(3, 6), NoAtomic: !d, Release: true}, Bound: "2 threads of 1 operation, every pair of 9 operations from 6 states"},
			{Name: "all 2+1", Run: threadsChoice(2, 1), B: vs.Budget{Preempt: p(2, 4), NoAtomic: true}, Bound: "threads of 2 and 1 operations"},
			{Name: "all triples", Run: threadsChoice(1, 1, 1), B: vs.Budget{Preempt: p(2, 3), NoAtomic: true}, Bound: "3 threads of 1 operation"},
			{Name: "all 2+2", Run: threadsChoice(2, 2), B: vs.Budget{Preempt: p(1, 3), NoAtomic: true}, Bound: "2 threads of 2 operations"},
		}
	}})
}
