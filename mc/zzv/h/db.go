//go:build go1.22

package main

import (
	"fmt"
	"net/netip"
	"strings"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzv/vs"
)

// op is one database operation of an alphabet.
type op struct {
	k    byte // 's' save, 'd' drop, 't' sweep, 'a' advance, 'r' reads, 'b' backup and restart, 'v' backup, 'x' restart
	h    int
	id   int
	ip   netip.Addr
	port uint16
	c    bool
	d    time.Duration
}

func (o op) String() string {
	switch o.k {
	case 's':
		return fmt.Sprintf("save(h%d,p%d,%v,%d,%v)", o.h, o.id, o.ip, o.port, o.c)
	case 'd':
		return fmt.Sprintf("drop(h%d,p%d)", o.h, o.id)
	case 't':
		return "sweep"
	case 'a':
		return "advance " + o.d.String()
	case 'b':
		return "backup and restart"
	case 'v':
		return "backup"
	case 'x':
		return "restart"
	case 'r':
		return fmt.Sprintf("read(h%d)", o.h)
	}
	return "?"
}

func (o op) run(db storage.Database) {
	switch o.k {
	case 's':
		db.Save(o.ip, o.port, o.c, hashN(o.h), idN(o.id))
	case 'd':
		db.Drop(hashN(o.h), idN(o.id))
	case 't':
		db.Trim()
	case 'a':
		vs.Advance(int64(o.d))
	}
}

func (o op) apply(m model) {
	switch o.k {
	case 's':
		m.save(hashN(o.h), idN(o.id), mpeer{o.ip, o.port, o.c, nowSec()})
	case 'd':
		m.drop(hashN(o.h), idN(o.id))
	case 't':
		m.trim(nowSec(), int64(config.Config.DB.Expiry/time.Second))
	}
}

// what a sequential history checks
const (
	wMembers = 1 << iota
	wCounts
	wMetrics
	wLists
	wSweep
)

func checkState(db storage.Database, m model, what int, hs []storage.Hash, hist func() string) {
	if what&wMembers != 0 {
		for i, h := range hs {
			l, err := listed(db, h)
			if err != nil {
				vs.Fail("%v after %s", err, hist())
				return
			}
			if w := m.members(h); !same(l, w) {
				vs.Fail("torrent h%d lists %v, expected %v after %s", i, l, w, hist())
				return
			}
		}
	}
	if what&wCounts != 0 {
		for i, h := range hs {
			c, n := counts(db, h)
			wc, wn := m.counts(h)
			if c != wc || n != wn {
				vs.Fail("torrent h%d reports %d complete, %d incomplete; expected %d, %d after %s", i, c, n, wc, wn, hist())
				return
			}
		}
	}
	if what&wMetrics != 0 {
		s, l, ips := metrics()
		ws, wl, wips := m.global()
		if s != ws || l != wl || ips != wips {
			vs.Fail("metrics seeds=%d leeches=%d ips=%d; expected %d, %d, %d after %s", s, l, ips, ws, wl, wips, hist())
			return
		}
	}
	if what&wLists != 0 {
		for i, h := range hs {
			if e := checkLists(db, m, h); e != "" {
				vs.Fail("torrent h%d: %s after %s", i, e, hist())
				return
			}
		}
	}
	if what&wSweep != 0 {
		n := 0
		for _, s := range m {
			if len(s) > 0 {
				n++
			}
		}
		if db.Hashes() != n {
			vs.Fail("%d torrents counted after a sweep, expected %d after %s", db.Hashes(), n, hist())
		}
	}
}

// history explores every operation sequence of the given length, looking at the database after every operation or only
// at the end.
func history(alpha func() []op, depth, what int, mod func(*config.Configuration)) func() {
	return func() {
		setup(mod)
		db := openDB()
		m, saved := model{}, model{}
		ops := alpha()
		hs := []storage.Hash{hashN(0), hashN(1), hashN(2)}
		var done []string
		hist := func() string { return strings.Join(done, ", ") }
		end := depth > 1 && vs.Choose(2) == 1 // nothing is read before the end
		for i := 0; i < depth; i++ {
			o := ops[vs.Choose(len(ops))]
			done = append(done, o.String())
			vs.Tracef("%v", o)
			if o.k == 'b' || o.k == 'v' {
				if err := db.Backup().Save(); err != nil {
					vs.Fail("backup failed: %v after %s", err, hist())
					return
				}
				saved = m.clone()
			}
			if o.k == 'b' || o.k == 'x' {
				newProcess()
				db = openDB()
				m = saved.clone()
			}
			o.run(db)
			o.apply(m)
			w := what
			if o.k != 't' {
				w &^= wSweep
			}
			if end && i < depth-1 {
				continue
			}
			checkState(db, m, w, hs, hist)
			if vs.Failed() {
				return
			}
		}
		if depth > 0 {
			vs.Observe(m.digest(hs...) + fmt.Sprint(vs.Now()))
		}
		Note("%s => %s", hist(), m.digest(hs...))
	}
}

// newProcess: what follows happens in a process that has just started.
func newProcess() {
	vs.RestoreGlobals("/config")
	ips := append([]netip.Addr(nil), usedIPs...)
	resetStats() // where the globals are not restored (race build)
	usedIPs = ips
	vs.Quiet(func() { pools.Initialize(int(config.Config.Numwant.Limit)) })
}

const minute = time.Minute

func alphaSmall() []op {
	a, b, c := ip4(1), ip4(2), ip6(1)
	return []op{
		{k: 's', h: 0, id: 0, ip: a, port: 1001, c: false},
		{k: 's', h: 0, id: 0, ip: a, port: 1002, c: true},
		{k: 's', h: 0, id: 0, ip: c, port: 1003, c: false},
		{k: 's', h: 0, id: 1, ip: a, port: 1004, c: true},
		{k: 's', h: 0, id: 1, ip: b, port: 1005, c: false},
		{k: 's', h: 1, id: 0, ip: a, port: 1006, c: true},
		{k: 's', h: 1, id: 1, ip: c, port: 1007, c: false},
		{k: 'd', h: 0, id: 0},
		{k: 'd', h: 0, id: 1},
		{k: 'd', h: 1, id: 0},
		{k: 'd', h: 2, id: 0},
		{k: 't'},
		{k: 'a', d: 30 * minute},
	}
}

// alphaOne: a peer changes any of its address, port and completeness, alone or together, another one stays.
func alphaOne() []op {
	var ops []op
	for _, ip := range []netip.Addr{ip4(1), ip4(2), ip6(1)} {
		for port := uint16(1001); port < 1003; port++ {
			ops = append(ops, op{k: 's', ip: ip, port: port}, op{k: 's', ip: ip, port: port, c: true})
		}
	}
	return append(ops, op{k: 's', id: 1, ip: ip4(1), port: 1001, c: true}, op{k: 'd'}, op{k: 't'}, op{k: 'a', d: 500 * time.Millisecond}, op{k: 'a', d: 30 * minute})
}

// again: a peer announces twice, changing any of its address, port and completeness or nothing, then
// falls silent and is swept; another peer of the torrent stays or is as silent. With restarts, the tracker is stopped
// and started again between any two of these steps.
func again(what int, restarts bool) func() {
	return func() {
		var mod func(*config.Configuration)
		if restarts {
			mod = fileBackup
		}
		setup(mod)
		db := openDB()
		m := model{}
		hs := []storage.Hash{hashN(0), hashN(1)}
		var done []string
		hist := func() string { return strings.Join(done, ", ") }
		ok, more := true, restarts
		restart := func() {
			if !ok || !more || vs.Choose(2) == 0 {
				return
			}
			done = append(done, "backup and restart")
			if err := db.Backup().Save(); err != nil {
				vs.Fail("backup failed: %v after %s", err, hist())
				ok = false
				return
			}
			newProcess()
			db = openDB()
			checkState(db, m, what&^wSweep, hs, hist)
			ok = !vs.Failed()
		}
		do := func(o op) {
			if !ok {
				return
			}
			done = append(done, o.String())
			o.run(db)
			o.apply(m)
			w := what
			if o.k != 't' {
				w &^= wSweep
			}
			checkState(db, m, w, hs, hist)
			ok = !vs.Failed()
		}
		ips := []netip.Addr{ip4(1), ip4(2), ip6(1)}
		x := vs.Choose(len(ips) * 4)
		y := vs.Choose(len(ips) * 4)
		form := func(i int) op {
			return op{k: 's', ip: ips[i/4], port: uint16(1001 + i/2%2), c: i%2 == 1}
		}
		if vs.Choose(2) == 1 {
			do(op{k: 's', id: 1, ip: ip4(1), port: 1001, c: true})
		}
		do(form(x))
		restart()
		do(op{k: 'a', d: []time.Duration{0, 500 * time.Millisecond, time.Second, 30 * time.Minute}[vs.Choose(4)]})
		do(form(y))
		restart()
		e := config.Config.DB.Expiry
		for _, d := range []time.Duration{e - 30*time.Minute, 29*time.Minute + 58*time.Second, time.Second, time.Second, 2 * time.Second} {
			do(op{k: 'a', d: d})
			do(op{k: 't'})
			restart()
			more = false
		}
		vs.Observe(m.digest(hs...) + fmt.Sprint(vs.Now()))
		Note("%s => %s", hist(), m.digest(hs...))
	}
}

const againBound = "2 announces of a peer, all changes of 3 addresses, 2 ports and completeness, 0 ms to 30 min apart; sweeps around the expiry"

func alphaBackup() []op {
	return append(alphaSmall(), op{k: 'b'}, op{k: 'v'}, op{k: 'x'})
}

func alphaTimeBackup() []op {
	return append(alphaTime(), op{k: 'b'}, op{k: 'v'}, op{k: 'x'})
}

func alphaTime() []op {
	a, b := ip4(1), ip4(2)
	return []op{
		{k: 's', h: 0, id: 0, ip: a, port: 1, c: false},
		{k: 's', h: 0, id: 1, ip: b, port: 2, c: true},
		{k: 's', h: 1, id: 0, ip: a, port: 3, c: true},
		{k: 'd', h: 0, id: 0},
		{k: 't'},
		{k: 'a', d: time.Second},
		{k: 'a', d: 22*minute + 30*time.Second},
		{k: 'a', d: 45 * minute},
	}
}

func fileBackup(c *config.Configuration) { c.DB.Backup.Type = "file" }

func seqDepth(q, t int) int {
	if deep() {
		return t
	}
	return q
}

func init() {
	hist := func(name string, alpha func() []op, d, what int, mod func(*config.Configuration)) Config {
		return Config{Name: name, Run: history(alpha, d, what, mod), Bound: fmt.Sprintf("all sequences of %d operations", d)}
	}
	register(&Check{ID: "C01", Configs: func(bool) []Config {
		return []Config{
			hist("histories", alphaSmall, seqDepth(4, 6), wMembers, nil),
			hist("one peer", alphaOne, seqDepth(4, 5), wMembers, nil),
			{Name: "many peers", Run: manyOps(wMembers), B: vs.Budget{MaxSteps: 10_000_000}, Bound: manyBound},
			{Name: "very many peers", Run: veryMany(wMembers), B: vs.Budget{MaxSteps: 100_000_000}, Bound: veryManyBound},
			hist("time", alphaTime, seqDepth(5, 7), wMembers, nil),
			{Name: "bits", Run: dbBits(wMembers), B: vs.Budget{FreeSw: -1, MaxSteps: 1_000_000}, Bound: bitsBound},
			{Name: "swarms", Run: bigSwarm, Bound: "swarms of 0..120 peers"},
			{Name: "map order", Run: history(alphaSmall, 3, wMembers, nil), B: vs.Budget{MapOrder: true}, Bound: "all sequences of 3 operations, both iteration orders"},
		}
	}})
	register(&Check{ID: "C02", Configs: func(bool) []Config {
		return []Config{
			hist("histories", alphaSmall, seqDepth(4, 6), wCounts, nil),
			hist("one peer", alphaOne, seqDepth(4, 5), wCounts, nil),
			hist("restores", alphaBackup, seqDepth(3, 5), wCounts, fileBackup),
			{Name: "many peers", Run: manyOps(wCounts), B: vs.Budget{MaxSteps: 10_000_000}, Bound: manyBound},
			{Name: "very many peers", Run: veryMany(wCounts), B: vs.Budget{MaxSteps: 100_000_000}, Bound: veryManyBound},
			hist("time", alphaTime, seqDepth(5, 7), wCounts, nil),
			{Name: "bits", Run: dbBits(wCounts), B: vs.Budget{FreeSw: -1, MaxSteps: 1_000_000}, Bound: bitsBound},
			{Name: "large swarms", Run: hugeSwarm, B: vs.Budget{MaxSteps: 100_000_000}, Bound: "65534..65538 peers, complete and incomplete"},
		}
	}})
	register(&Check{ID: "C03", Configs: func(bool) []Config {
		return []Config{
			hist("histories", alphaSmall, seqDepth(4, 6), wMetrics, nil),
			hist("one peer", alphaOne, seqDepth(4, 5), wMetrics, nil),
			hist("restores", alphaBackup, seqDepth(3, 5), wMetrics, fileBackup),
			{Name: "many peers", Run: manyOps(wMetrics), B: vs.Budget{MaxSteps: 10_000_000}, Bound: manyBound},
			{Name: "very many peers", Run: veryMany(wMetrics), B: vs.Budget{MaxSteps: 100_000_000}, Bound: veryManyBound},
			hist("time", alphaTime, seqDepth(5, 7), wMetrics, nil),
			{Name: "bits", Run: dbBits(wMetrics), B: vs.Budget{FreeSw: -1, MaxSteps: 1_000_000}, Bound: bitsBound},
			{Name: "start while a sweep falls due", Run: startAtTick, B: vs.Budget{MaxSteps: 100_000, Preempt: 2}},
			{Name: "shared address", Run: sharedIP, B: vs.Budget{MaxSteps: 100_000_000}, Bound: "up to 32769 peers behind one IP"},
		}
	}})
}

// bigSwarm: membership of swarms of many sizes, grown and shrunk one peer at a time.
func bigSwarm() {
	setup(nil)
	db := openDB()
	m := model{}
	h := hashN(0)
	n := []int{1, 2, 5, 6, 50, 120}[vs.Choose(6)]
	mode := vs.Choose(3)
	for i := 0; i < n; i++ {
		p := mpeer{ip4(i), uint16(i + 1), i%2 == 0, nowSec()}
		db.Save(p.IP, p.Port, p.Complete, h, idN(i))
		m.save(h, idN(i), p)
	}
	hs := []storage.Hash{h}
	hist := func() string { return fmt.Sprintf("%d saves, mode %d", n, mode) }
	checkState(db, m, wMembers, hs, hist)
	for i := 0; i < n; i++ {
		k := i
		if mode == 1 {
			k = n - 1 - i
		}
		if mode == 2 {
			k = (i * 7) % n
		}
		db.Drop(h, idN(k))
		m.drop(h, idN(k))
		checkState(db, m, wMembers, hs, hist)
	}
	Note("%s", hist())
}

func hugeSwarm() {
	setup(nil)
	db := openDB()
	h := hashN(0)
	complete := vs.Choose(2) == 1
	extra := vs.Choose(3) - 1
	n := 65536 + extra
	ip := ip4(1)
	var id storage.PeerID
	for i := 0; i < n; i++ {
		id[0], id[1], id[2] = byte(i), byte(i>>8), byte(i>>16)
		db.Save(ip, 1, complete, h, id)
	}
	c, l := counts(db, h)
	wc, wl := 0, n
	if complete {
		wc, wl = n, 0
	}
	if c != wc || l != wl {
		vs.Fail("a torrent with %d complete and %d incomplete peers reports %d and %d", wc, wl, c, l)
	}
	db.Save(ip, 1, !complete, h, id)
	c, l = counts(db, h)
	if complete {
		wc, wl = n-1, 1
	} else {
		wc, wl = 1, n-1
	}
	if c != wc || l != wl {
		vs.Fail("a torrent with %d complete and %d incomplete peers reports %d and %d", wc, wl, c, l)
	}
	vs.Observe(fmt.Sprint(n, complete))
	Note("%d peers, complete=%v", n, complete)
}

// sharedIP: many peers behind one address (carrier NAT) are still one unique IP.
func sharedIP() {
	setup(nil)
	db := openDB()
	n := []int{1, 2, 127, 128, 255, 256, 32767, 32768, 65536, 65537}[vs.Choose(10)]
	ip := ip4(1)
	var id storage.PeerID
	for i := 0; i < n; i++ {
		id[0], id[1], id[2] = byte(i), byte(i>>8), byte(i>>16)
		db.Save(ip, 1, false, hashN(i%3), id)
	}
	if _, _, ips := metrics(); ips != 1 {
		vs.Fail("%d peers with one IP count as %d unique IPs", n, ips)
	}
	for i := 0; i < n; i++ {
		id[0], id[1], id[2] = byte(i), byte(i>>8), byte(i>>16)
		db.Drop(hashN(i%3), id)
		if _, _, ips := metrics(); (i < n-1 && ips != 1) || (i == n-1 && ips != 0) {
			vs.Fail("%d of %d peers with one IP left, unique IPs %d", n-1-i, n, ips)
			return
		}
	}
	Note("%d peers behind one IP", n)
}
