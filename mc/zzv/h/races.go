//go:build go1.22

package main

import (
	"fmt"
	"net/netip"
	"syscall"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzv/vproc"
	"github.com/crimist/trakx/zzv/vs"
)

// ---- C05 ----
// The scenarios of this file run in a build with the race detector: what decides is whether an explored
// interleaving has two accesses the program does not order, or a task that never finishes.

type raceOp struct {
	name string
	f    func(db storage.Database)
}

func raceAlpha() []raceOp {
	var r []raceOp
	for _, o := range concAlpha() {
		o := o
		r = append(r, raceOp{fmt.Sprint(o), func(db storage.Database) {
			switch o.k {
			case 'c', 'l', 'y':
				o.read(db)
			default:
				o.run(db)
			}
		}})
	}
	r = append(r,
		raceOp{"save with another address", func(db storage.Database) { db.Save(ip4(2), 7, false, hashN(0), idN(0)) }},
		raceOp{"backup", func(db storage.Database) {
			if err := db.Backup().Save(); err != nil {
				vs.Fail("saving failed: %v", err)
			}
		}},
		raceOp{"number of torrents", func(db storage.Database) { db.Hashes() }},
		raceOp{"number of IPs", func(db storage.Database) { stats.IPStats.Total() }},
		raceOp{"check", func(db storage.Database) { db.Check() }},
	)
	return r
}

func raceDB(n int) func() {
	return func() {
		usedIPs = append(usedIPs, ip4(1), ip4(2), ip6(1))
		setup(fileBackup)
		db := openDB()
		in := concInits[vs.Choose(len(concInits))]
		vs.Quiet(func() { in(db, model{}) })
		al := raceAlpha()
		lo := 0
		var ts []*vs.Task
		name := ""
		for i := 0; i < n; i++ {
			lo += vs.Choose(len(al) - lo)
			o := al[lo]
			name += o.name + ", "
			ts = append(ts, vs.GoNamed(o.name, func() { o.f(db) }))
		}
		vs.Join(ts...)
		vs.Observe(name + digest(db, hashN(0), hashN(1)))
		Note("%s", name)
	}
}

// raceConns: requests while the connection table is swept, saved and counted.
func raceConns(n int) func() {
	return func() {
		setup(func(c *config.Configuration) {
			c.UDP.Threads = 2
			c.UDP.ConnDB.Trim = 10 * minute
			c.UDP.ConnDB.Expiry = 9 * minute
		})
		db := openDB()
		u, s := startUDP(db)
		m := newU()
		d := udpReq(udpMagic, 0, 5)
		m.check(cli(1), d, exchange(s, cli(1), false, d))
		id := m.conns[cli(1)].id
		sweep := tickAfter(vs.Now(), 10*minute)
		type act struct {
			name string
			f    func()
		}
		acts := []act{
			{"connect", func() { s.Send(cli(1), false, udpReq(udpMagic, 0, 6)) }},
			{"connect of another", func() { s.Send(cli(2), false, udpReq(udpMagic, 0, 7)) }},
			{"announce", func() {
				s.Send(cli(1), false, annReq{connid: id, txid: 3, hash: hashN(0), id: idN(1), port: 8}.bytes())
			}},
			{"scrape", func() { s.Send(cli(1), false, scrapeReq(id, 4, hashN(0))) }},
			{"error", func() { s.Send(cli(3), false, scrapeReq(1, 4, hashN(0))) }},
			{"sweep", func() { vs.Fire(sweep) }},
			{"save", func() { vs.GoNamed("save", func() { u.WriteConns() }) }},
			{"count", func() { vs.GoNamed("count", func() { u.Connections() }) }},
		}
		lo := 0
		name := ""
		for i := 0; i < n; i++ {
			lo += vs.Choose(len(acts) - lo)
			name += acts[lo].name + ", "
			acts[lo].f()
		}
		vs.WaitIdle()
		if b := u.Connections(); b > 2 {
			vs.Fail("%d connections of 2 clients", b)
		}
		vs.Observe(name)
		Note("%s", name)
	}
}

// raceTracker: the whole tracker, with signals and requests while it starts and runs.
func raceTracker(n int, early bool) func() {
	return func() {
		cfgs := []stopCfg{{"enabled", true, "file", false}, {"enabled", false, "none", false}, {"disabled", true, "file", true}}
		if early {
			cfgs = append(cfgs, stopCfg{"info", true, "none", true})
		}
		c := cfgs[vs.Choose(len(cfgs))]
		stopSetup(c)
		t := &trk{ids: map[netip.AddrPort]uint64{}}
		vs.Quiet(func() {
			db := openDBNoJobs()
			db.Save(ip4(90), 90, true, hashN(0), idN(90))
			if err := db.Backup().Save(); err != nil {
				vs.Fail("saving failed: %v", err)
			}
			newProcess()
			vs.AdvanceTo(tickAfter(vs.Now()+int64(minute), 10*minute) - int64(time.Second))
		})
		tick := tickAfter(vs.Now(), 10*minute)
		type act struct {
			name string
			f    func()
		}
		sig := func(s syscall.Signal) func() {
			return func() {
				if _, dead := vs.Exited(t.proc); !dead && vproc.Handles(t.proc, s) {
					vproc.Deliver(t.proc, s)
				}
			}
		}
		acts := []act{
			{"SIGUSR1", sig(syscall.SIGUSR1)},
			{"SIGTERM", sig(syscall.SIGTERM)},
			{"clock", func() { vs.Fire(tick) }},
		}
		if !early && c.udp {
			i := t.connect(1)
			j := t.udpAnnounce(1, 0, 1, true)
			acts = append(acts, act{"connect", func() { t.send(i) }}, act{"UDP announce", func() { t.send(j) }})
		}
		if !early && c.http == "enabled" {
			i := t.httpAnnounce(3, 1, 3, false)
			acts = append(acts, act{"HTTP announce", func() { t.send(i) }})
		}
		if early {
			t.proc = runTracker("tracker")
		} else {
			vs.Quiet(func() {
				t.proc = runTracker("tracker")
				vs.WaitIdle()
			})
		}
		lo := 0
		name := ""
		var ts []*vs.Task
		for i := 0; i < n; i++ {
			lo += vs.Choose(len(acts) - lo)
			a := acts[lo]
			name += a.name + ", "
			ts = append(ts, vs.GoNamed(a.name, func() {
				if early {
					vs.Block("the signal handler", func() bool { return vproc.Handles(t.proc, syscall.SIGUSR1) })
				}
				a.f()
			}))
		}
		vs.Join(ts...)
		vs.WaitIdle()
		vs.Observe(fmt.Sprint(c, name))
		Note("%s%v", name, c)
	}
}

func init() {
	register(&Check{ID: "C05", Secs: [2]int{120, 600}, Configs: func(d bool) []Config {
		p := 1
		if d {
			p = 2
		}
		b := vs.Budget{MaxSteps: 200_000, Preempt: p, FreeSw: 2}
		fs := 1
		if d {
			fs = 2
		}
		all := make([]int, len(concReqs()))
		for i := range all {
			all[i] = i
		}
		return []Config{
			{Name: "pairs of database operations", Run: raceDB(2), B: vs.Budget{MaxSteps: 200_000, Preempt: p + 1}, Bound: "all pairs of 14 operations from 6 states"},
			{Name: "triples of database operations", Run: raceDB(3), B: vs.Budget{MaxSteps: 200_000, Preempt: p, FreeSw: p}, Bound: "all triples of 14 operations from 6 states"},
			{Name: "connection table", Run: raceConns(2), B: b, Bound: "all pairs of 8 operations"},
			{Name: "connection table, three", Run: raceConns(3), B: vs.Budget{MaxSteps: 200_000, Preempt: p - 1, FreeSw: 2}, Bound: "all triples of 8 operations"},
			{Name: "pairs of requests", Run: concurrent(2, all, true, false), B: vs.Budget{MaxSteps: 200_000, Preempt: p, FreeSw: fs}, Bound: "all pairs of 17 requests"},
			{Name: "pairs of requests, App Engine build", Alt: true, Run: concurrent(2, []int{0, 1, 2, 3, 4}, true, false), B: vs.Budget{MaxSteps: 200_000, Preempt: p, FreeSw: fs}, Bound: "all pairs of 5 HTTP requests, with forwarded addresses"},
			{Name: "start while a sweep falls due", Run: startAtTick, B: vs.Budget{MaxSteps: 200_000, Preempt: p, FreeSw: 3}},
			{Name: "signals during the start", Run: raceTracker(1, true), B: vs.Budget{MaxSteps: 200_000, Preempt: p, FreeSw: fs}, Bound: "4 configurations, each signal or a job"},
			{Name: "running tracker", Run: raceTracker(2, false), B: vs.Budget{MaxSteps: 200_000, Preempt: p - 1, FreeSw: 2}, Bound: "3 configurations, all pairs of 2 signals, jobs and 3 requests"},
			{Name: "requests during publication", Run: metricRaces(1, 8), B: b},
		}
	}})
}
