//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net/netip"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzv/s/pq"
	"github.com/crimist/trakx/zzv/vfs"
	"github.com/crimist/trakx/zzv/vnet"
	"github.com/crimist/trakx/zzv/vproc"
	"github.com/crimist/trakx/zzv/vs"
)

// restart: a new process opens the database.
func restart() storage.Database {
	newProcess()
	return openDB()
}

// forms empties the database peer by peer and returns "id ip port complete" of every peer of the torrents.
func forms(db storage.Database, hs ...storage.Hash) []string {
	var out []string
	for hi, h := range hs {
		l, err := listed(db, h)
		if err != nil {
			return []string{err.Error()}
		}
		for _, e := range l {
			var hexid string
			fmt.Sscanf(e, "%s", &hexid)
			var id storage.PeerID
			for i := range id {
				fmt.Sscanf(hexid[2*i:2*i+2], "%02x", &id[i])
			}
			c0, i0 := counts(db, h)
			db.Drop(h, id)
			c1, i1 := counts(db, h)
			switch {
			case c1 == c0-1 && i1 == i0:
				out = append(out, fmt.Sprintf("h%d %s true", hi, e))
			case c1 == c0 && i1 == i0-1:
				out = append(out, fmt.Sprintf("h%d %s false", hi, e))
			default:
				out = append(out, fmt.Sprintf("h%d %s counts %d/%d became %d/%d", hi, e, c0, i0, c1, i1))
			}
		}
	}
	sort.Strings(out)
	return out
}

func form(hi int, id storage.PeerID, p mpeer) string {
	return fmt.Sprintf("h%d %x %v %d %v", hi, id[:], p.IP, p.Port, p.Complete)
}

func (m model) forms(hs ...storage.Hash) []string {
	var out []string
	for hi, h := range hs {
		for id, p := range m[h] {
			out = append(out, form(hi, id, p))
		}
	}
	sort.Strings(out)
	return out
}

// ---- C08 ----

func oddAddrs() []netip.Addr {
	var r []netip.Addr
	for _, s := range []string{"10.0.0.1", "0.0.0.0", "255.255.255.255", "2001:db8::1", "::", "::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"} {
		r = append(r, useIP(netip.MustParseAddr(s)))
	}
	return r
}

// contents: every content of up to three peers, saved, restored, aged, changed and saved again.
func contents() {
	setup(fileBackup)
	db := openDB()
	m := model{}
	hs := []storage.Hash{hashN(0), hashN(1), hashN(2)}
	n := vs.Choose(4)
	addrs := oddAddrs()
	ports := []uint16{1, 65535, 0x0d0a}
	var d []string
	for i := 0; i < n; i++ {
		// the first peer takes every shape, the others fewer
		na, np := len(addrs), len(ports)
		if i > 0 {
			na, np = 0, 0
		}
		var a netip.Addr
		if na > 0 {
			a = addrs[vs.Choose(na)]
		} else {
			a = addrs[[]int{0, 3}[vs.Choose(2)]]
		}
		p := ports[i%3]
		if np > 0 {
			p = ports[vs.Choose(np)]
		}
		h := 0
		if i > 0 {
			h = vs.Choose(2)
		}
		c := vs.Choose(2) == 1
		o := op{k: 's', h: h, id: i, ip: a, port: p, c: c}
		do(db, m, o)
		d = append(d, o.String())
		if i > 0 && vs.Choose(2) == 1 {
			do(db, m, op{k: 'a', d: 20 * minute})
			d = append(d, "20m")
		}
	}
	if n > 0 && vs.Choose(2) == 1 {
		// a torrent without peers
		do(db, m, op{k: 's', h: 2, id: 9, ip: addrs[0], port: 9, c: true})
		do(db, m, op{k: 'd', h: 2, id: 9})
		d = append(d, "emptied torrent")
	}
	hist := func() string { return strings.Join(d, ", ") + ", restart" }
	if err := db.Backup().Save(); err != nil {
		vs.Fail("saving failed: %v after %s", err, hist())
		return
	}
	db = restart()
	checkState(db, m, wMembers|wCounts|wMetrics|wLists, hs, hist)
	if vs.Failed() {
		return
	}
	// remaining lifetimes
	for i := 0; i < 3; i++ {
		do(db, m, op{k: 'a', d: []time.Duration{25 * minute, 20 * minute, time.Second}[i]})
		do(db, m, op{k: 't'})
		d = append(d, "restart, time, sweep")
		checkState(db, m, wMembers|wCounts|wMetrics|wSweep, hs, hist)
		if i == 0 {
			do(db, m, op{k: 's', h: 1, id: 7, ip: addrs[3], port: 77, c: true})
			if err := db.Backup().Save(); err != nil {
				vs.Fail("saving again failed: %v", err)
				return
			}
			db = restart()
			checkState(db, m, wMembers|wCounts|wMetrics|wLists, hs, hist)
		}
		if vs.Failed() {
			return
		}
	}
	vs.Observe(strings.Join(m.forms(hs...), ";") + strings.Join(d, ","))
	Note("%s", hist())
}

// manyPeers: larger contents.
func manyPeers(mod func(*config.Configuration)) func() {
	return func() { manyPeersOf(mod) }
}

func manyPeersOf(mod func(*config.Configuration)) {
	setup(mod)
	db := openDB()
	m := model{}
	n := []int{1, 7, 64, 300, 1500}[vs.Choose(5)]
	k := []int{1, 3}[vs.Choose(2)]
	var hs []storage.Hash
	for i := 0; i < k; i++ {
		hs = append(hs, hashN(i))
	}
	for i := 0; i < n; i++ {
		a := ip4(i)
		if i%3 == 1 {
			a = ip6(i)
		}
		do(db, m, op{k: 's', h: i % k, id: i, ip: a, port: uint16(i * 217), c: i%2 == 0})
	}
	if err := db.Backup().Save(); err != nil {
		vs.Fail("saving failed: %v", err)
		return
	}
	db = restart()
	checkState(db, m, wMembers|wCounts|wMetrics|wLists, hs, func() string { return fmt.Sprintf("restoring %d peers", n) })
	vs.Observe(fmt.Sprint(n, k))
	Note("%d peers in %d torrents", n, k)
}

// hugeDB: more peers and torrents than fit into 16 bits.
func hugeDB() {
	setup(fileBackup)
	db := openDB()
	n := []int{65535, 65536, 65537}[vs.Choose(3)]
	k := []int{1, 300, n}[vs.Choose(3)] // torrents
	var id storage.PeerID
	hash := func(i int) (h storage.Hash) {
		h[3], h[4], h[19] = byte(i), byte(i>>8), byte(i>>16)
		return
	}
	wc, wl := map[storage.Hash]int{}, map[storage.Hash]int{}
	for i := 0; i < n; i++ {
		id[0], id[1], id[2] = byte(i), byte(i>>8), byte(i>>16)
		h := hash(i % k)
		db.Save(ip4(i%250), uint16(i), i%5 == 0, h, id)
		if i%5 == 0 {
			wc[h]++
		} else {
			wl[h]++
		}
	}
	if err := db.Backup().Save(); err != nil {
		vs.Fail("saving failed: %v", err)
		return
	}
	db = restart()
	for i := 0; i < k; i++ {
		h := hash(i)
		if c, l := counts(db, h); c != wc[h] || l != wl[h] {
			vs.Fail("restoring %d peers in %d torrents: a torrent with %d complete and %d incomplete peers reports %d and %d", n, k, wc[h], wl[h], c, l)
			return
		}
	}
	if g := db.Hashes(); g != k {
		vs.Fail("restoring %d peers in %d torrents: %d torrents", n, k, g)
	}
	vs.Observe(fmt.Sprint(n, k))
	Note("%d peers in %d torrents", n, k)
}

// missing: no backup file.
func missing() {
	setup(fileBackup)
	if vs.Choose(2) == 1 {
		vfs.Put("/v/other", []byte("x"))
	}
	db := openDB()
	hs := []storage.Hash{hashN(0)}
	m := model{}
	checkState(db, m, wMembers|wCounts|wMetrics|wSweep, hs, func() string { return "starting without a file" })
	// and an empty database survives a restart
	if err := db.Backup().Save(); err != nil {
		vs.Fail("saving an empty database failed: %v", err)
		return
	}
	db = restart()
	checkState(db, m, wMembers|wCounts|wMetrics|wSweep, hs, func() string { return "restoring an empty database" })
	do(db, m, op{k: 's', h: 0, id: 1, ip: ip4(1), port: 1})
	checkState(db, m, wMembers|wCounts|wMetrics, hs, func() string { return "saving to a restored empty database" })
	Note("no file, then an empty database")
}

// wholeStart: the whole tracker is started on a backup, serves, is stopped and started again.
func wholeStart(mod func(*config.Configuration), cycles int) func() {
	return func() {
		hs := []storage.Hash{hashN(0), hashN(1), hashN(2)}
		setup(func(c *config.Configuration) {
			mod(c)
			c.UDP.Enabled = vs.Choose(2) == 1
			c.DB.Backup.Frequency = []time.Duration{0, 10 * minute}[vs.Choose(2)]
			c.DB.Trim = []time.Duration{0, 10 * minute}[vs.Choose(2)]
		})
		markLoaded()
		m := newH()
		k, k2 := vs.Choose(3), vs.Choose(4)
		vs.Quiet(func() {
			if k2 == 3 {
				return // nothing saved yet
			}
			db := openDBNoJobs()
			contentA(db, m.db, k)
			contentB(db, m.db, k2)
			if err := db.Backup().Save(); err != nil {
				vs.Fail("saving failed: %v", err)
			}
			newProcess()
		})
		what := fmt.Sprintf("content %d/%d, frequency %v, trim %v, UDP %v", k, k2, config.Config.DB.Backup.Frequency, config.Config.DB.Trim, config.Config.UDP.Enabled)
		if vs.Failed() {
			return
		}
		for cy := 0; cy < cycles; cy++ {
			vs.Quiet(func() {
				proc := runTracker("tracker")
				vs.WaitIdle()
				if code, dead := vs.Exited(proc); dead {
					vs.Fail("start %d: the tracker ended with %d: %s (%s)", cy, code, lastFatal, what)
					return
				}
				l := vnet.TCP(httpPort)
				if l == nil {
					vs.Fail("start %d: the tracker does not listen (%s)", cy, what)
					return
				}
				ask := func(req []byte) {
					c := send(l, cli(20+cy), req)
					if e := m.check(cli(20+cy), req, c.Out); e != "" && !vs.Failed() {
						vs.Fail("start %d: %s (%s; request %q)", cy, e, what, trim(req))
					}
				}
				var q []string
				for _, h := range hs {
					q = append(q, "info_hash="+escAll(h[:]))
				}
				ask(get("/scrape?" + strings.Join(q, "&")))
				for i, h := range hs {
					ask(get(annURL(h, idN(20+cy), 100+i, "compact=1", "left=1", "numwant=5")))
				}
				ask(get("/scrape?" + strings.Join(q, "&")))
				vproc.Deliver(proc, syscall.SIGTERM)
				if code, ok := waitExit(proc); !ok || code != 0 {
					vs.Fail("start %d: the tracker did not end properly: %v %d %s (%s)", cy, ok, code, lastFatal, what)
				}
				newProcess()
			})
			if vs.Failed() {
				return
			}
		}
		Note("%s", what)
	}
}

// unreadable: file operations fail while the backup is loaded.
func unreadable() {
	setup(fileBackup)
	db := openDB()
	m := model{}
	hs := []storage.Hash{hashN(0), hashN(1), hashN(2)}
	k := vs.Choose(3)
	contentA(db, m, k)
	contentB(db, m, k)
	if err := db.Backup().Save(); err != nil {
		vs.Fail("saving failed: %v", err)
		return
	}
	file, _ := vfs.Get(backupPath)
	newProcess()
	vfs.Faults = true
	db, err := storage.Open()
	vfs.Faults = false
	if err == nil {
		if got, w := digest(db, hs...), m.digest(hs...); got != w {
			vs.Fail("a backup that could not be read gives a database that holds %s instead of %s, and no error", got, w)
			return
		}
	}
	if now, ok := vfs.Get(backupPath); !ok || !bytes.Equal(now, file) {
		vs.Fail("a failing load changes the backup")
		return
	}
	db = restart()
	if got, w := digest(db, hs...), m.digest(hs...); got != w {
		vs.Fail("after a failing load (%v) the database holds %s instead of %s", err, got, w)
	}
	vs.Observe(fmt.Sprint(k, err))
	Note("content %d: error %v", k, err)
}

// ---- C09 ----

func contentA(db storage.Database, m model, k int) {
	switch k {
	case 1:
		do(db, m, op{k: 's', h: 0, id: 0, ip: ip4(1), port: 1, c: true})
		do(db, m, op{k: 's', h: 1, id: 1, ip: ip6(1), port: 2, c: false})
	case 2:
		do(db, m, op{k: 's', h: 0, id: 0, ip: ip4(1), port: 1, c: true})
	}
}

func contentB(db storage.Database, m model, k int) {
	switch k {
	case 0:
		do(db, m, op{k: 's', h: 1, id: 2, ip: ip4(2), port: 3, c: false})
	case 1:
		do(db, m, op{k: 'd', h: 0, id: 0})
		do(db, m, op{k: 'd', h: 1, id: 1})
	case 2:
		do(db, m, op{k: 's', h: 0, id: 0, ip: ip6(2), port: 5, c: false})
		do(db, m, op{k: 's', h: 1, id: 0, ip: ip4(3), port: 6, c: false})
		do(db, m, op{k: 's', h: 2, id: 0, ip: ip4(3), port: 6, c: true})
	case 3: // more than any buffer on the way holds
		for i := 0; i < 300; i++ {
			do(db, m, op{k: 's', h: i % 3, id: 10 + i, ip: ip4(i), port: uint16(i), c: i%4 == 0})
		}
	}
}

// crashSave: a save interrupted at every point, by a process or machine stop or by failing file operations.
func crashSave(crashes, faults bool) func() {
	return func() {
		setup(fileBackup)
		hs := []storage.Hash{hashN(0), hashN(1), hashN(2)}
		db := openDB()
		old := model{}
		first := vs.Choose(4) // 3: no earlier backup
		b := vs.Choose(4)
		if first < 3 {
			contentA(db, old, first)
			if err := db.Backup().Save(); err != nil {
				vs.Fail("first save: %v", err)
				return
			}
		}
		vfs.Settle()
		cur := old.clone()
		contentB(db, cur, b)
		power := false
		if crashes {
			power = vs.Choose(2) == 1
		}
		vfs.CrashPoints, vfs.Faults = crashes, faults
		var err error
		done := false
		p := vs.GoProc("saver", func() { err = db.Backup().Save(); done = true })
		vs.WaitIdle()
		vfs.CrashPoints, vfs.Faults = false, false
		_, crashed := vs.Exited(p)
		if !crashed && !done {
			vs.Fail("the save never finished")
			return
		}
		if power {
			vfs.PowerLoss()
		}
		ops := fmt.Sprintf("crashed=%v at %s power=%v err=%v", crashed, vfs.CrashedAt, power, err)
		db = restart()
		got := digest(db, hs...)
		o, n := old.digest(hs...), cur.digest(hs...)
		switch {
		case got != o && got != n:
			vs.Fail("after an interrupted save (%s) the database holds %s: neither the old content %s nor the new one %s", ops, got, o, n)
		case done && err == nil && !power && got != n:
			vs.Fail("after a successful save the database holds %s instead of %s", got, n)
		}
		s, l, ips := metrics()
		m := old
		if got == n {
			m = cur
		}
		if ws, wl, wi := m.global(); s != ws || l != wl || ips != wi {
			vs.Fail("after an interrupted save (%s) the metrics are %d %d %d, expected %d %d %d", ops, s, l, ips, ws, wl, wi)
		}
		// saving works again and what is left of the old attempt does not matter
		m = m.clone()
		do(db, m, op{k: 's', h: 0, id: 5, ip: ip4(5), port: 55, c: true})
		if err := db.Backup().Save(); err != nil {
			vs.Fail("a save after an interrupted one (%s) fails: %v", ops, err)
			return
		}
		db = restart()
		if got, w := digest(db, hs...), m.digest(hs...); got != w {
			vs.Fail("after an interrupted save (%s) the next save restores to %s instead of %s", ops, got, w)
		}
		vs.Observe(ops + got)
		Note("%s", ops)
	}
}

// crashConns: the same for the connection table.
func crashConns(crashes, faults bool) func() {
	return func() {
		setup(nil)
		db := openDB()
		u, s := startUDP(db)
		a, b := ap(ip4(1), 1111), ap(ip6(1), 2222)
		old, cur := newU(), newU()
		connect := func(m *umodel, c netip.AddrPort) bool {
			d := udpReq(udpMagic, 0, 7)
			if e := m.check(c, d, exchange(s, c, false, d)); e != "" {
				vs.Fail("%s", e)
				return false
			}
			return true
		}
		first := vs.Choose(2) == 1
		if first {
			if !connect(old, a) {
				return
			}
			if err := u.WriteConns(); err != nil {
				vs.Fail("first write: %v", err)
				return
			}
		}
		vfs.Settle()
		for k, v := range old.conns {
			cur.conns[k] = v
		}
		if vs.Choose(2) == 1 {
			connect(cur, a)
		}
		connect(cur, b)
		power := false
		if crashes {
			power = vs.Choose(2) == 1
		}
		vfs.CrashPoints, vfs.Faults = crashes, faults
		var err error
		done := false
		p := vs.GoProc("saver", func() { err = u.WriteConns(); done = true })
		vs.WaitIdle()
		vfs.CrashPoints, vfs.Faults = false, false
		_, crashed := vs.Exited(p)
		if power {
			vfs.PowerLoss()
		}
		ops := fmt.Sprintf("crashed=%v at %s power=%v err=%v", crashed, vfs.CrashedAt, power, err)
		s.Closed = true
		u, s = startUDP(db)
		accepted := func(m *umodel) bool {
			for _, c := range []netip.AddrPort{a, b} {
				for _, src := range []*umodel{old, cur} {
					id := src.conns[c].id
					d := scrapeReq(id, 9, hashN(0))
					r := exchange(s, c, false, d)
					if len(r) != 1 || len(r[0].Data) < 8 {
						return false
					}
					ok := binary.BigEndian.Uint32(r[0].Data) == 2
					w, has := m.conns[c]
					if ok != (has && w.id == id) {
						return false
					}
				}
			}
			return u.Connections() == len(m.conns)
		}
		isOld, isNew := accepted(old), accepted(cur)
		if !isOld && !isNew {
			vs.Fail("after an interrupted write of the connection table (%s) it holds %d connections: neither the old (%d) nor the new (%d) content", ops, u.Connections(), len(old.conns), len(cur.conns))
		}
		if done && err == nil && !power && !isNew {
			vs.Fail("the connection table written is not read back (%s)", ops)
		}
		if err := u.WriteConns(); err != nil {
			vs.Fail("a write after an interrupted one (%s) fails: %v", ops, err)
		}
		vs.Observe(ops)
		Note("%s", ops)
	}
}

// ---- C10 ----

func backupAlpha() []op {
	a, b, c := ip4(1), ip4(2), ip6(1)
	return []op{
		{k: 's', h: 0, id: 5, ip: a, port: 1, c: false},
		{k: 's', h: 0, id: 0, ip: c, port: 2, c: true},
		{k: 's', h: 1, id: 5, ip: b, port: 3, c: true},
		{k: 's', h: 2, id: 5, ip: b, port: 3, c: false},
		{k: 'd', h: 0, id: 0},
		{k: 'd', h: 1, id: 1},
		{k: 't'},
	}
}

// backupRace: a backup concurrent with programs of operations.
func backupRace(lens ...int) func() {
	return func() {
		setup(fileBackup)
		hs := []storage.Hash{hashN(0), hashN(1), hashN(2)}
		db := openDB()
		m := model{}
		al := backupAlpha()
		var progs [][]op
		prev := 0
		for i, n := range lens {
			var p []op
			for j := 0; j < n; j++ {
				lo := 0
				if j == 0 && i > 0 && lens[i] == lens[i-1] {
					lo = prev
				}
				x := lo + vs.Choose(len(al)-lo)
				if j == 0 {
					prev = x
				}
				p = append(p, al[x])
			}
			progs = append(progs, p)
		}
		vs.Quiet(func() {
			// one expired peer, an expired torrent, fresh peers
			do(db, m, op{k: 's', h: 0, id: 3, ip: ip4(3), port: 30, c: true})
			do(db, m, op{k: 's', h: 2, id: 3, ip: ip4(3), port: 31, c: true})
			vs.Advance(int64(46 * minute))
			do(db, m, op{k: 's', h: 0, id: 0, ip: ip4(1), port: 10, c: false})
			do(db, m, op{k: 's', h: 0, id: 1, ip: ip6(2), port: 11, c: true})
			do(db, m, op{k: 's', h: 1, id: 1, ip: ip4(2), port: 12, c: false})
		})
		// what may appear for each peer, and whether it must
		type slot struct {
			forms []string
			opt   bool
		}
		may := map[string]*slot{}
		key := func(h, id int) string { return fmt.Sprintf("h%d p%d", h, id) }
		for hi, h := range hs {
			for i := 0; i < 10; i++ {
				s := &slot{opt: true}
				if p, ok := m[h][idN(i)]; ok {
					s.forms = append(s.forms, form(hi, idN(i), p))
					s.opt = false
				}
				may[key(hi, i)] = s
			}
		}
		for _, p := range progs {
			for _, o := range p {
				switch o.k {
				case 's':
					s := may[key(o.h, o.id)]
					s.forms = append(s.forms, form(o.h, idN(o.id), mpeer{o.ip, o.port, o.c, 0}))
				case 'd':
					may[key(o.h, o.id)].opt = true
				case 't':
					may[key(0, 3)].opt = true
					may[key(2, 3)].opt = true
				}
			}
		}
		var ts []*vs.Task
		var err error
		ts = append(ts, vs.GoNamed("backup", func() { err = db.Backup().Save() }))
		for i, p := range progs {
			p := p
			ts = append(ts, vs.GoNamed(fmt.Sprintf("T%d", i), func() {
				for _, o := range p {
					o.run(db)
				}
			}))
		}
		vs.Join(ts...)
		vs.FixedOrder = true
		if err != nil {
			vs.Fail("the backup failed: %v", err)
			return
		}
		db = restart()
		total := 0
		for _, h := range hs {
			c, i := counts(db, h)
			total += c + i
		}
		got := forms(db, hs...)
		for _, h := range hs {
			if c, i := counts(db, h); c != 0 || i != 0 {
				vs.Fail("a torrent restored from a backup made during %v counts %d/%d peers it does not hold", progs, c, i)
			}
		}
		if total != len(got) {
			vs.Fail("the restored torrents count %d peers and hold %d: %v", total, len(got), got)
		}
		seen := map[string]int{}
		for _, g := range got {
			found := false
			for k, s := range may {
				for _, f := range s.forms {
					if f == g {
						found = true
						seen[k]++
						break
					}
				}
			}
			if !found {
				vs.Fail("a backup made during %v holds %q, which was never announced", progs, g)
			}
		}
		for k, s := range may {
			if !s.opt && seen[k] == 0 {
				vs.Fail("a backup made during %v lacks %s (%v): %v", progs, k, s.forms, got)
			}
			if seen[k] > 1 {
				vs.Fail("a backup made during %v holds %s twice: %v", progs, k, got)
			}
		}
		vs.Observe(strings.Join(got, ";") + fmt.Sprint(progs))
		Note("%v -> %v", progs, got)
	}
}

// ---- C11 ----

func pgBackup(c *config.Configuration) {
	c.DB.Backup.Type = "pg"
	c.DB.Backup.Path = "postgres://u@h/db"
}

// pgRows: contents and row ages.
func pgRows() {
	setup(pgBackup)
	hs := []storage.Hash{hashN(0), hashN(1), hashN(2)}
	ages := []time.Duration{time.Second, 9*minute + 59*time.Second, 10*minute + time.Second, time.Hour, 8 * 24 * time.Hour}
	n := vs.Choose(4) // rows
	db := openDB()
	if db.Hashes() != 0 {
		vs.Fail("an empty table restores to %d torrents", db.Hashes())
	}
	m := model{}
	var d []string
	for i := 0; i < n; i++ {
		k := vs.Choose(4)
		if k == 3 {
			m = model{}
			db = freshDB()
			if vs.Choose(2) == 1 {
				contentA(db, m, 1)
			}
		} else {
			contentB(db, m, k)
		}
		rows := len(pq.Rows)
		if err := db.Backup().Save(); err != nil {
			vs.Fail("saving to postgres failed: %v", err)
			return
		}
		if len(pq.Rows) != rows+1 {
			vs.Fail("a save added %d rows", len(pq.Rows)-rows)
		}
		if pq.OpenRows != 0 {
			vs.Fail("a save left %d result sets open", pq.OpenRows)
			return
		}
		d = append(d, m.digest(hs...))
		if i < n-1 {
			vs.Advance(int64(time.Second))
		}
	}
	age := ages[vs.Choose(len(ages))]
	vs.Advance(int64(age))
	// a fresher row may arrive while the load waits
	late := n > 0 && vs.Choose(2) == 1
	pq.Sels = 0
	var lateAt int64
	pq.BeforeSel = func(k int) {
		if late && k == 2 {
			lateAt = vs.Now()
			pq.Rows = append(pq.Rows, pq.Row{Bytes: append([]byte{}, pq.Rows[0].Bytes...), TS: vs.Now() - int64(time.Second)})
		}
	}
	t0 := vs.Now()
	db = restart()
	took := time.Duration(vs.Now() - t0)
	w := ""
	if n > 0 {
		w = d[n-1]
	} else {
		w = model{}.digest(hs...)
	}
	if late && age > 10*minute {
		if lateAt == 0 {
			vs.Fail("the newest row is %v old and the load did not look for a fresher one", age)
			return
		}
		w = d[0]
	}
	if pq.Sels > 2 || took > time.Minute {
		vs.Fail("the load looked %d times and took %v", pq.Sels, took)
	}
	if n > 0 && age < 10*minute && took > 0 {
		vs.Fail("the newest row is %v old and the load waited %v", age, took)
	}
	if got := digest(db, hs...); got != w {
		vs.Fail("restored %s from rows %v, expected %s", got, d, w)
	}
	if pq.OpenRows != 0 {
		vs.Fail("the load left %d result sets open", pq.OpenRows)
	}
	vs.Observe(fmt.Sprint(d, age, late))
	Note("%d rows, newest %v old, late=%v", n, age, late)
}

// pgManyRows: after many saves the last one is restored.
func pgManyRows() {
	setup(pgBackup)
	db := openDB()
	m := model{}
	gap := []time.Duration{time.Second, time.Minute, time.Hour, 26 * time.Hour}[vs.Choose(4)]
	hs := []storage.Hash{hashN(0), hashN(1)}
	for i := 0; i < 13; i++ {
		do(db, m, op{k: 's', h: i % 2, id: i, ip: ip4(i), port: uint16(i + 1), c: i%2 == 0})
		if i%3 == 2 {
			do(db, m, op{k: 'd', h: i % 2, id: i})
		}
		if err := db.Backup().Save(); err != nil {
			vs.Fail("saving to postgres failed: %v", err)
			return
		}
		if i < 12 {
			vs.Advance(int64(gap))
		}
	}
	db = restart()
	checkState(db, m, wMembers|wCounts|wMetrics|wLists, hs, func() string { return "restoring the last of 13 rows" })
	vs.Observe(fmt.Sprint(gap))
	Note("13 rows, one every %v", gap)
}

// freshDB is an empty database on the same backup store.
func freshDB() storage.Database {
	rows := pq.Rows
	pq.Rows = nil
	db := restart()
	pq.Rows = rows
	return db
}

// pgFaults: failing calls.
func pgFaults(bad bool) func() {
	return func() {
		setup(pgBackup)
		hs := []storage.Hash{hashN(0), hashN(1), hashN(2)}
		db := openDB()
		m := model{}
		k := vs.Choose(3)
		contentA(db, m, k)
		pq.Faults, pq.Bad = true, bad
		saved := 0
		var last string
		for i := 0; i < 2; i++ {
			rows := len(pq.Rows)
			envs := len(pq.Calls)
			err := db.Backup().Save()
			_ = envs
			if pq.OpenRows != 0 {
				vs.Fail("a save left %d result sets open", pq.OpenRows)
			}
			if err == nil {
				if len(pq.Rows) != rows+1 {
					vs.Fail("a save without error added %d rows", len(pq.Rows)-rows)
				}
				saved++
				last = m.digest(hs...)
			} else if len(pq.Rows) > rows+1 {
				vs.Fail("a failed save added %d rows", len(pq.Rows)-rows)
			} else if len(pq.Rows) > rows {
				last = m.digest(hs...)
				saved++
			}
			contentB(db, m, i)
			vs.Advance(int64(time.Second))
		}
		// load under faults: an error or the newest row
		newProcess()
		db2, err := storage.Open()
		if err == nil {
			w := last
			if saved == 0 {
				w = model{}.digest(hs...)
			}
			if got := digest(db2, hs...); got != w {
				vs.Fail("restored %s, expected %s", got, w)
			}
		}
		pq.Faults = false
		newProcess()
		db2, err = storage.Open()
		if err != nil {
			vs.Fail("after the faults ended loading fails: %v", err)
			return
		}
		w := last
		if saved == 0 {
			w = model{}.digest(hs...)
		}
		if got := digest(db2, hs...); got != w {
			vs.Fail("restored %s, expected %s", got, w)
		}
		if err := db2.Backup().Save(); err != nil || pq.OpenRows != 0 {
			vs.Fail("after the faults ended saving fails: %v (%d open result sets)", err, pq.OpenRows)
		}
		vs.Observe(strings.Join(pq.Calls, ",") + last)
		Note("%v", pq.Calls)
	}
}

// ---- C12 ----

func allocated() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

const allocLimit = 64 << 20

// baseBackup writes a backup of two torrents and returns its bytes.
func baseBackup() []byte {
	setup(fileBackup)
	db := openDB()
	db.Save(ip4(1), 1001, true, hashN(0), idN(0))
	db.Save(ip6(1), 1002, false, hashN(0), idN(1))
	db.Save(ip6(2), 1003, true, hashN(1), idN(0))
	if err := db.Backup().Save(); err != nil {
		vs.Fail("saving failed: %v", err)
		vs.Stop()
	}
	b, ok := vfs.Get(backupPath)
	if !ok {
		vs.Fail("no backup at the configured path")
		vs.Stop()
	}
	return b
}

var words = []uint32{0, 1, 4, 5, 16, 17, 255, 0x7fffffff, 0x80000000, 0xffffffff, 0x01000000, 0x10000000}

// damage returns a damaged version of b: kind of damage by name.
func damage(b []byte, kind string) ([]byte, string) {
	switch kind {
	case "truncated":
		n := vs.Choose(len(b) + 1)
		return b[:n], fmt.Sprintf("truncated to %d of %d bytes", n, len(b))
	case "byte":
		i := vs.Choose(len(b))
		v := byte(vs.Choose(256))
		c := append([]byte{}, b...)
		c[i] = v
		return c, fmt.Sprintf("byte %d of %d set to %#x", i, len(b), v)
	case "word":
		i := vs.Choose(len(b) - 3)
		w := words[vs.Choose(len(words))]
		c := append([]byte{}, b...)
		if vs.Choose(2) == 0 {
			binary.LittleEndian.PutUint32(c[i:], w)
		} else {
			binary.BigEndian.PutUint32(c[i:], w)
		}
		return c, fmt.Sprintf("bytes %d..%d of %d set to %#x", i, i+3, len(b), w)
	case "extended":
		n := 1 + vs.Choose(80)
		var e []byte
		switch vs.Choose(4) {
		case 0:
			e = make([]byte, n)
		case 1:
			e = make([]byte, n)
			for i := range e {
				e[i] = 0xff
			}
		case 2:
			for len(e) < n {
				e = append(e, b...)
			}
			e = e[:n]
		case 3:
			return append(append([]byte{}, e...), b...), "prefixed"
		}
		return append(append([]byte{}, b...), e...), fmt.Sprintf("extended by %d bytes", n)
	case "cut and byte":
		n := vs.Choose(len(b))
		c := append([]byte{}, b[:n]...)
		if n > 0 {
			i := vs.Choose(n)
			c[i] = []byte{0, 0xff, 4, 0x80}[vs.Choose(4)]
			return c, fmt.Sprintf("truncated to %d, byte %d changed", n, i)
		}
		return c, "emptied"
	case "two words":
		i := vs.Choose(len(b) - 3)
		j := vs.Choose(len(b) - 3)
		c := append([]byte{}, b...)
		binary.LittleEndian.PutUint32(c[i:], words[vs.Choose(len(words))])
		binary.LittleEndian.PutUint32(c[j:], words[vs.Choose(len(words))])
		return c, fmt.Sprintf("words at %d and %d changed", i, j)
	}
	panic(kind)
}

func damagedBackup(kind string) func() {
	return func() {
		b := baseBackup()
		c, what := damage(b, kind)
		vfs.Put(backupPath, c)
		newProcess()
		vs.Tracef("backup %s: %x", what, c)
		a0 := allocated()
		db, err := storage.Open()
		if a := allocated() - a0; a > allocLimit {
			vs.Fail("loading a backup %s allocates %d bytes (error: %v)", what, a, err)
		}
		if err == nil {
			// whatever was read, the database works
			h := hashN(7)
			db.Save(ip4(9), 9, true, h, idN(9))
			if c, i := counts(db, h); c != 1 || i != 0 {
				vs.Fail("a database loaded from a backup %s does not work", what)
			}
			if kind == "truncated" && len(c) == len(b) {
				if c, i := counts(db, hashN(0)); c != 1 || i != 1 {
					vs.Fail("an undamaged backup loads wrongly")
				}
			}
			if kind == "truncated" && !vs.Failed() {
				// nothing of what was left was ignored: without the new peer a backup is as long as the file
				db.Drop(h, idN(9))
				vs.Advance(int64(time.Second))
				db.Trim()
				if err := db.Backup().Save(); err != nil {
					vs.Fail("saving after loading a backup %s failed: %v", what, err)
				} else if again, _ := vfs.Get(backupPath); len(again) != len(c) {
					vs.Fail("a backup %s loads in part without an error: saved again it has %d bytes", what, len(again))
				}
			}
			db.Trim()
		}
		vs.Observe(fmt.Sprint(what, err != nil))
		Note("%s: error %v", what, err)
	}
}

func damagedConns(kind string) func() {
	return func() {
		setup(nil)
		db := openDB()
		u, s := startUDP(db)
		cl := []netip.AddrPort{ap(ip4(1), 1111), ap(ip6(1), 2222), ap(ip4(2), 1111)}
		m := newU()
		for _, c := range cl {
			d := udpReq(udpMagic, 0, 7)
			m.check(c, d, exchange(s, c, false, d))
		}
		if err := u.WriteConns(); err != nil {
			vs.Fail("writing failed: %v", err)
			return
		}
		path := cacheDir + "conn.db"
		b, ok := vfs.Get(path)
		if !ok {
			vs.Fail("no connection table at %s: %v", path, vfs.List())
			return
		}
		c, what := damage(b, kind)
		vfs.Put(path, c)
		s.Closed = true
		a0 := allocated()
		u, s = startUDP(db)
		if a := allocated() - a0; a > allocLimit {
			vs.Fail("loading a connection table %s allocates %d bytes", what, a)
		}
		_ = u
		// stored ids may be lost; no other id is accepted after truncation
		if kind == "truncated" {
			ids := []uint64{0, 1, ^uint64(0)}
			for _, k := range cl {
				ids = append(ids, m.conns[k].id, m.conns[k].id>>8, m.conns[k].id<<8)
			}
			for _, k := range append(cl, ap(ip4(3), 1)) {
				for _, id := range ids {
					if m.conns[k].id == id {
						continue
					}
					d := scrapeReq(id, 3, hashN(0))
					r := exchange(s, k, false, d)
					if len(r) != 1 || len(r[0].Data) < 8 || binary.BigEndian.Uint32(r[0].Data) != 3 {
						vs.Fail("with a connection table %s, id %#x is accepted from %v", what, id, k)
						return
					}
				}
			}
		}
		// the tracker works
		m.conns = map[netip.AddrPort]conn{}
		d := udpReq(udpMagic, 0, 8)
		if e := m.check(cl[0], d, exchange(s, cl[0], false, d)); e != "" {
			vs.Fail("with a connection table %s: %s", what, e)
			return
		}
		a := annReq{connid: m.conns[cl[0]].id, txid: 5, hash: hashN(0), id: idN(0), port: 5, left: 1}
		m.do(s, db, cl[0], false, a.bytes(), []storage.Hash{hashN(0)})
		vs.Observe(what)
		Note("%s", what)
	}
}

func init() {
	seq := vs.Budget{FreeSw: -1, MaxSteps: 1_000_000}
	register(&Check{ID: "C08", Configs: func(bool) []Config {
		n := seqDepth(4, 5)
		return []Config{
			{Name: "histories", Run: history(alphaBackup, n, wMembers|wCounts|wMetrics|wLists, fileBackup), B: seq, Bound: fmt.Sprintf("all sequences of %d operations including backup and restart", n)},
			{Name: "announced again", Run: again(wMembers|wCounts|wMetrics|wSweep, true), B: seq, Bound: againBound + ", restarts between"},
			{Name: "histories with time", Run: history(alphaTimeBackup, n+1, wMembers|wCounts|wMetrics, fileBackup), B: seq, Bound: fmt.Sprintf("all sequences of %d operations including sweeps, clock steps around and beyond the expiry, backup and restart", n+1)},
			{Name: "contents", Run: contents, B: seq, Bound: "0..3 peers, 7 addresses, 3 ports, restart, ageing, second restart"},
			{Name: "large", Run: manyPeers(fileBackup), B: seq, Bound: "up to 300 peers"},
			{Name: "huge", Run: hugeDB, B: vs.Budget{FreeSw: -1, MaxSteps: 100_000_000}, Bound: "65535..65537 peers in 1, 300 or as many torrents"},
			{Name: "bits", Run: dbBits(wMembers | wCounts | wMetrics | wLists), B: vs.Budget{FreeSw: -1, MaxSteps: 1_000_000}, Bound: bitsBound},
			{Name: "dates", Run: dbYears(wMembers | wCounts | wMetrics), B: vs.Budget{FreeSw: -1, MaxSteps: 1_000_000}, Bound: yearsBound},
			{Name: "missing and empty", Run: missing, B: seq},
			{Name: "whole tracker", Run: wholeStart(fileBackup, seqDepth(2, 3)), B: seq, Bound: "12 contents, with and without jobs, 2 (3) starts and stops of tracker.Run"},
			{Name: "unreadable", Run: unreadable, B: vs.Budget{FreeSw: -1, MaxSteps: 1_000_000, Env: seqDepth(2, 3)}, Bound: "3 contents, failing and short reads"},
		}
	}})
	register(&Check{ID: "C09", Configs: func(bool) []Config {
		b := vs.Budget{FreeSw: -1, Env: 1, MaxSteps: 1_000_000}
		f := b
		both := b
		both.Env = 2
		if deep() {
			f.Env, both.Env = 2, 3
		}
		return []Config{
			{Name: "crash while saving", Run: crashSave(true, false), B: b, Bound: "every file operation and every torn write length; process stop or power loss with any unsynced data lost, cut, zeroed"},
			{Name: "crash while writing connections", Run: crashConns(true, false), B: b, Bound: "as above"},
			{Name: "failing file operations", Run: crashSave(false, true), B: f},
			{Name: "failing file operations, connections", Run: crashConns(false, true), B: f},
			{Name: "failing, then stopping", Run: crashSave(true, true), B: both, Bound: "one failing file operation, then a stop or power loss at every later one, or the other way round"},
			{Name: "failing, then stopping, connections", Run: crashConns(true, true), B: both, Bound: "as above"},
		}
	}})
	register(&Check{ID: "C10", Configs: func(d bool) []Config {
		p := func(q, t int) int {
			if d {
				return t
			}
			return q
		}
		return []Config{
			{Name: "one operation", Run: backupRace(1), B: vs.Budget{Preempt: p(3, 5), NoAtomic: true, Release: true, MapOrder: true}, Bound: "a backup and one operation, both iteration orders"},
			{Name: "two operations", Run: backupRace(2), B: vs.Budget{Preempt: p(2, 4), NoAtomic: true, Release: true}, Bound: "a backup and a thread of two operations"},
			{Name: "two threads", Run: backupRace(1, 1), B: vs.Budget{Preempt: p(2, 3), NoAtomic: true, Release: true}, Bound: "a backup and two threads of one operation"},
			{Name: "three operations", Run: backupRace(3), B: vs.Budget{Preempt: p(1, 3), NoAtomic: true, Release: true}, Bound: "a backup and a thread of three operations"},
		}
	}})
	register(&Check{ID: "C11", Configs: func(d bool) []Config {
		e := 2
		if d {
			e = 3
		}
		return []Config{
			{Name: "rows", Run: pgRows, B: seq, Bound: "0..3 rows of 5 contents, 5 ages, late rows"},
			{Name: "many peers", Run: manyPeers(pgBackup), B: seq, Bound: "1, 7, 64, 300 or 1500 peers in 1 or 3 torrents"},
			{Name: "many rows", Run: pgManyRows, B: seq, Bound: "13 saves of different contents"},
			{Name: "faults", Run: pgFaults(false), B: vs.Budget{FreeSw: -1, Env: e}, Bound: "failing calls, two saves and loads"},
			{Name: "whole tracker", Run: wholeStart(pgBackup, seqDepth(2, 3)), B: seq, Bound: "12 contents, with and without jobs, 2 (3) starts and stops of tracker.Run"},
			{Name: "lost connections", Run: pgFaults(true), B: vs.Budget{FreeSw: -1, Env: e}, Bound: "calls failing with a bad connection"},
		}
	}})
	register(&Check{ID: "C12", Configs: func(d bool) []Config {
		var r []Config
		kinds := []string{"truncated", "byte", "word", "extended", "cut and byte"}
		if d {
			kinds = append(kinds, "two words")
		}
		for _, k := range kinds {
			r = append(r, Config{Name: "backup " + k, Run: damagedBackup(k), B: seq}, Config{Name: "connections " + k, Run: damagedConns(k), B: seq})
		}
		return r
	}})
}

// startAtTick: the tracker starts and restores a backup while a sweep and a periodic backup fall due.
func startAtTick() {
	setup(fileBackup)
	usedIPs = append(usedIPs, ip4(1), ip4(2), ip6(1))
	db := openDB()
	m := model{}
	var tick int64
	vs.Quiet(func() {
		in := func(h, id int, ip netip.Addr, c bool) { do(db, m, op{k: 's', h: h, id: id, ip: ip, port: 9, c: c}) }
		in(0, 0, ip4(1), true) // these expire
		in(0, 1, ip4(2), false)
		in(1, 0, ip4(1), false)
		vs.Advance(int64(40 * minute))
		in(0, 2, ip4(1), false)
		if err := db.Backup().Save(); err != nil {
			vs.Fail("saving failed: %v", err)
		}
		vs.Advance(int64(6 * minute))
		config.Config.DB.Trim = 10 * minute
		config.Config.DB.Backup.Frequency = 10 * minute
		tick = tickAfter(vs.Now()+int64(minute), 10*minute)
		vs.AdvanceTo(tick - int64(time.Second))
	})
	newProcess()
	a := vs.GoNamed("start", func() { db = openDB() })
	b := vs.GoNamed("clock", func() { vs.Fire(tick) })
	vs.Join(a, b)
	vs.WaitIdle()
	hs := []storage.Hash{hashN(0), hashN(1)}
	vs.Quiet(func() {
		vs.Observe(digest(db, hs...))
		vs.AdvanceTo(tick + int64(11*minute))
		m.trim(nowSec(), int64(45*minute/time.Second))
		checkState(db, m, wMembers|wCounts|wMetrics, hs, func() string { return "a start while a sweep falls due" })
	})
	Note("%s", digest(db, hs...))
}
