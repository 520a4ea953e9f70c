//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"net/netip"
	"strings"
	"syscall"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzv/s/expvar"
	"github.com/crimist/trakx/zzv/s/pq"
	"github.com/crimist/trakx/zzv/vfs"
	"github.com/crimist/trakx/zzv/vnet"
	"github.com/crimist/trakx/zzv/vproc"
	"github.com/crimist/trakx/zzv/vs"
)

// C37: however often anything happens, nothing adds up.

// held is what the running tracker holds on to.
type held struct {
	conns, handles, files, tasks, timers, rows, dbconns, vars, socks int
}

func (h held) String() string {
	return fmt.Sprintf("%d connections, %d open files, %d files on disk, %d goroutines, %d timers, %d result sets, %d database connections, %d published variables, %d sockets",
		h.conns, h.handles, h.files, h.tasks, h.timers, h.rows, h.dbconns, h.vars, h.socks)
}

// grew names what is more in h than in o.
func (h held) grew(o held) string {
	for _, x := range []struct {
		n    string
		a, b int
	}{
		{"client connections", o.conns, h.conns}, {"open files", o.handles, h.handles}, {"files left on disk", o.files, h.files},
		{"goroutines", o.tasks, h.tasks}, {"timers", o.timers, h.timers}, {"open result sets", o.rows, h.rows},
		{"database connections", o.dbconns, h.dbconns}, {"published variables", o.vars, h.vars}, {"sockets", o.socks, h.socks},
	} {
		if x.b > x.a {
			return fmt.Sprintf("%s grew from %d to %d", x.n, x.a, x.b)
		}
	}
	return ""
}

func hold(proc int) held {
	h := held{handles: vfs.Handles, files: len(vfs.List()), tasks: vs.AliveTasks(proc), timers: vs.Timers(), rows: pq.OpenRows, dbconns: pq.OpenConns}
	for _, c := range vnet.AllConns {
		if c.Served && !c.Closed {
			h.conns++
		}
	}
	expvar.Do(func(expvar.KeyValue) { h.vars++ })
	for _, l := range vnet.Lists {
		if !l.Closed {
			h.socks++
		}
	}
	for _, s := range vnet.USocks {
		if !s.Closed {
			h.socks++
		}
	}
	return h
}

// happening is something that may happen again and again; i tells which time it is.
type happening struct {
	name string
	f    func(i int)
}

type leakEnv struct {
	proc int
	l    *vnet.Lst
	s    *vnet.USock
	ids  map[netip.AddrPort]uint64
	n    int
}

// client is a new one every time.
func (e *leakEnv) client() netip.AddrPort {
	e.n++
	if e.n%3 == 0 {
		return ap(ip6(e.n), uint16(1000+e.n))
	}
	return ap(ip4(e.n), uint16(1000+e.n))
}

func (e *leakEnv) request(req []byte, more func(c *vnet.Conn)) {
	c := vnet.NewConn(e.client(), true, req)
	if more != nil {
		more(c)
	}
	e.l.Connect(c)
	vs.WaitIdle()
}

func (e *leakEnv) datagram(f func(id uint64) []byte) {
	a := e.client()
	e.s.Send(a, false, udpReq(udpMagic, 0, 7))
	vs.WaitIdle()
	var id uint64
	for _, r := range e.s.TakeOut() {
		if r.To == a && len(r.Data) == 16 {
			id = u64(r.Data[8:])
		}
	}
	if f != nil {
		e.s.Send(a, false, f(id))
		vs.WaitIdle()
		e.s.TakeOut()
	}
}

func u64(b []byte) (x uint64) {
	for _, c := range b[:8] {
		x = x<<8 | uint64(c)
	}
	return
}

// announcing gives every time a new peer and torrent.
func (e *leakEnv) announcing(more ...string) []byte {
	return get(annURL(e.hash(), idN(e.n), 1+e.n%60000, more...))
}

func (e *leakEnv) hash() storage.Hash {
	h := hashN(3)
	h[4], h[5] = byte(e.n), byte(e.n>>8)
	return h
}

func (e *leakEnv) requests() []happening {
	one := func(n string, data []byte, more func(c *vnet.Conn)) happening {
		return happening{n, func(int) { e.request(data, more) }}
	}
	reset := func(c *vnet.Conn) { c.FailRead(&resetErr{}) }
	eh := hashN(3)
	stalled := func(n string, data []byte) happening {
		return happening{"clients which do not read their " + n, func(int) {
			e.request(data, func(c *vnet.Conn) { c.WriteBlk = true })
			vs.Advance(10 * int64(time.Second))
			vs.WaitIdle()
		}}
	}
	return []happening{
		{"HTTP announces", func(int) { e.request(e.announcing("left=1"), nil) }},
		{"compact HTTP announces", func(int) { e.request(e.announcing("compact=1"), nil) }},
		{"HTTP stops", func(int) { e.request(e.announcing("event=stopped"), nil) }},
		{"HTTP announces without a port", func(int) { e.request(get("/announce?info_hash="+escAll(eh[:])+"&peer_id="+escAll(eh[:])), nil) }},
		{"announces through unparsable proxies", func(int) { e.request(get(annURL(eh, idN(1), 80), "X-Forwarded-For: bad\r\n"), nil) }},
		one("HTTP scrapes", get("/scrape?info_hash="+escAll(eh[:])), nil),
		one("scrapes of nothing", get("/scrape"), nil),
		one("scrapes of half a hash", get("/scrape?info_hash="+escAll(eh[:10])), nil),
		one("heartbeats", get("/heartbeat"), nil),
		one("statistics", get("/stats"), nil),
		one("index pages", get("/"), nil),
		one("unknown pages", get("/nothing"), nil),
		one("other methods", []byte("POST / HTTP/1.1\r\n\r\n"), nil),
		one("junk", []byte("\x00\xff"), nil),
		one("half escapes", get("/scrape?info_hash=%4"), nil),
		{"connections without a request", func(int) { c := vnet.NewConn(e.client(), true); e.l.Connect(c); vs.WaitIdle() }},
		{"reset connections", func(int) { c := vnet.NewConn(e.client(), false); reset(c); e.l.Connect(c); vs.WaitIdle() }},
		{"silent connections", func(int) {
			c := vnet.NewConn(e.client(), false)
			e.l.Connect(c)
			vs.WaitIdle()
			vs.Advance(10 * int64(time.Second))
			vs.WaitIdle()
		}},
		{"clients which do not read", func(int) {
			e.request(e.announcing(), func(c *vnet.Conn) { c.WriteBlk = true })
			vs.Advance(10 * int64(time.Second))
			vs.WaitIdle()
		}},
		stalled("scrapes", get("/scrape?info_hash="+escAll(eh[:]))),
		stalled("statistics", get("/stats")),
		stalled("pages", get("/")),
		stalled("errors", get("/scrape")),
		{"clients gone before the announce reply", func(int) { e.request(e.announcing(), func(c *vnet.Conn) { c.WriteErr = 1 }) }},
		{"clients gone before the scrape reply", func(int) { e.request(get("/scrape?info_hash="+escAll(eh[:])), func(c *vnet.Conn) { c.WriteErr = 1 }) }},
		{"clients gone before the statistics", func(int) { e.request(get("/stats"), func(c *vnet.Conn) { c.WriteErr = 1; c.Short = 5 }) }},
		{"clients gone during the statistics", func(int) { e.request(get("/stats"), func(c *vnet.Conn) { c.WriteErr = 2 }) }},
		{"clients gone before the error", func(int) { e.request(get("/scrape"), func(c *vnet.Conn) { c.WriteErr = 1 }) }},
		{"clients gone before the page", func(int) { e.request(get("/"), func(c *vnet.Conn) { c.WriteErr = 1; c.Short = 9 }) }},
		{"failing accepts", func(int) { e.l.FailAccept(errors.New("too many open files")); vs.WaitIdle() }},
		{"UDP connects", func(int) { e.datagram(nil) }},
		{"UDP announces", func(int) {
			e.datagram(func(id uint64) []byte {
				return annReq{connid: id, txid: 1, hash: e.hash(), id: idN(e.n), event: 2, left: 1, port: 99}.bytes()
			})
		}},
		{"UDP stops", func(int) {
			e.datagram(func(id uint64) []byte {
				return annReq{connid: id, txid: 1, hash: e.hash(), id: idN(e.n), event: 3, port: 99}.bytes()
			})
		}},
		{"UDP announces without a port", func(int) {
			e.datagram(func(id uint64) []byte { return annReq{connid: id, txid: 1, hash: e.hash(), id: idN(e.n)}.bytes() })
		}},
		{"UDP scrapes", func(int) { e.datagram(func(id uint64) []byte { return scrapeReq(id, 1, eh, e.hash()) }) }},
		{"cut UDP scrapes", func(int) { e.datagram(func(id uint64) []byte { return append(scrapeReq(id, 1, eh), 1) }) }},
		{"UDP requests with a bad id", func(int) { e.datagram(func(id uint64) []byte { return scrapeReq(id+1, 1, eh) }) }},
		{"cut UDP announces", func(int) { e.datagram(func(id uint64) []byte { return udpReq(id, 1, 1, make([]byte, 50)...) }) }},
		{"unknown UDP actions", func(int) { e.datagram(func(id uint64) []byte { return udpReq(id, 77, 1) }) }},
		{"UDP heartbeats", func(int) { e.datagram(func(id uint64) []byte { return udpReq(id, 4, 1) }) }},
		{"short datagrams", func(int) { e.datagram(func(id uint64) []byte { return []byte{1, 2} }) }},
		{"failing UDP reads", func(int) { e.s.Fault(&resetErr{}); vs.WaitIdle() }},
	}
}

type resetErr struct{}

func (*resetErr) Error() string { return "connection reset by peer" }
func (*resetErr) Unwrap() error { return syscall.ECONNRESET }

func (e *leakEnv) jobs() []happening {
	tick := func() { vs.Advance(int64(10 * minute)); vs.WaitIdle() }
	return []happening{
		{"sweeps and saves", func(int) { tick() }},
		{"save signals", func(int) { vproc.Deliver(e.proc, syscall.SIGUSR1); vs.WaitIdle() }},
		{"peers expire", func(int) {
			e.request(e.announcing(), nil)
			vs.Advance(int64(config.Config.DB.Expiry + 20*minute))
			vs.WaitIdle()
		}},
		{"connections expire", func(int) {
			e.datagram(nil)
			vs.Advance(int64(config.Config.UDP.ConnDB.Expiry + 20*minute))
			vs.WaitIdle()
		}},
	}
}

// failing: saves whose k-th call, or all from the k-th on, fail.
func (e *leakEnv) failing(signal bool, k int, all bool) happening {
	name := fmt.Sprintf("saves (signal: %v) whose call %d (and all after it: %v) fails", signal, k, all)
	return happening{name, func(int) {
		n := 0
		f := func() bool { n++; return n == k || all && n > k }
		vfs.FailNow = func(op, name string) bool { return op != "remove" && f() }
		pq.FailNow = func(string) bool { return f() }
		if signal {
			vproc.Deliver(e.proc, syscall.SIGUSR1)
		} else {
			vs.Advance(int64(10 * minute))
		}
		vs.WaitIdle()
		vfs.FailNow, pq.FailNow = nil, nil
	}}
}

func leakSetup(backup func(*config.Configuration)) (*leakEnv, bool) {
	setup(func(c *config.Configuration) {
		backup(c)
		c.Numwant.Default, c.Numwant.Limit = 5, 10
		c.DB.Backup.Frequency, c.DB.Trim, c.UDP.ConnDB.Trim = 10*minute, 10*minute, 10*minute
		c.DB.Expiry, c.UDP.ConnDB.Expiry = 20*minute, 16*minute
		c.HTTP.Threads, c.UDP.Threads = 2, 2
		c.HTTP.Timeout.Read, c.HTTP.Timeout.Write = 2*time.Second, 2*time.Second
		c.ExpvarInterval = 7 * minute
	})
	markLoaded()
	forgetPublished()
	e := &leakEnv{ids: map[netip.AddrPort]uint64{}}
	e.proc = runTracker("tracker")
	vs.WaitIdle()
	if code, dead := vs.Exited(e.proc); dead {
		vs.Fail("the tracker ended with %d at its start: %s", code, lastFatal)
		return nil, false
	}
	e.l, e.s = vnet.TCP(httpPort), vnet.UDP(udpPort)
	if e.l == nil || e.s == nil {
		vs.Fail("the tracker does not listen")
		return nil, false
	}
	e.request(e.announcing(), nil)
	return e, true
}

// check repeats what happens and counts what is held.
func (e *leakEnv) check(what []happening) {
	var names []string
	for _, h := range what {
		names = append(names, h.name)
	}
	i := 0
	times := func(k int) held {
		for ; k > 0; k-- {
			for _, h := range what {
				h.f(i)
			}
			i++
		}
		// whatever ends by itself has ended, and everything is on disk
		vs.Advance(int64(45 * minute))
		vs.WaitIdle()
		return hold(e.proc)
	}
	a := times(2)
	b := times(3)
	c := times(6)
	if code, dead := vs.Exited(e.proc); dead {
		vs.Fail("the tracker ended with %d during %s: %s", code, strings.Join(names, " and "), lastFatal)
		return
	}
	if g := c.grew(b); g != "" && b.grew(a) != "" {
		vs.Fail("after 2, 5 and 11 times %q: %s (%v)", strings.Join(names, " and "), g, c)
		return
	}
	vs.Observe(fmt.Sprint(c))
	Note("%v", names)
}

// repeated: all sequences of n things.
func repeated(backups []func(*config.Configuration), k int) func() {
	return func() {
		n := k
		e, ok := leakSetup(backups[vs.Choose(len(backups))])
		if !ok {
			return
		}
		hs := append(e.requests(), e.jobs()...)
		var what []happening
		for ; n > 0; n-- {
			what = append(what, hs[vs.Choose(len(hs))])
		}
		e.check(what)
	}
}

func failingSaves(backups []func(*config.Configuration), calls int) func() {
	return func() {
		e, ok := leakSetup(backups[vs.Choose(len(backups))])
		if !ok {
			return
		}
		k, signal, all := 1+vs.Choose(calls), vs.Choose(2) == 1, vs.Choose(2) == 1
		what := []happening{e.failing(signal, k, all)}
		if vs.Choose(2) == 1 {
			what = append(what, happening{"save signals", func(int) { vproc.Deliver(e.proc, syscall.SIGUSR1); vs.WaitIdle() }})
		}
		e.check(what)
	}
}

func init() {
	register(&Check{ID: "C37", Secs: [2]int{60, 600}, Configs: func(d bool) []Config {
		seq := vs.Budget{MaxSteps: 500_000, FreeSw: -1}
		none := func(c *config.Configuration) {}
		all := []func(*config.Configuration){fileBackup, pgBackup, none}
		r := []Config{
			{Name: "alone", Run: repeated(all, 1), B: seq, Bound: "each of 46 things that may happen, 2, 5 and 11 times, for 3 backups"},
			{Name: "pairs", Run: repeated(all, 2), B: seq, Bound: "all ordered pairs of them, 2, 5 and 11 times"},
			{Name: "failing saves", Run: failingSaves(all[:2], 16), B: seq, Bound: "saves, periodic and by signal, whose k-th call (or all from it on) fails, k up to 16, alone and with a good one after each, 2, 5 and 11 times"},
		}
		if d {
			r = append(r, Config{Name: "triples", Run: repeated(all[:1], 3), B: seq, Bound: "all sequences of three of them, 2, 5 and 11 times"})
		}
		return r
	}})
}
