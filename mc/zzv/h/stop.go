//go:build go1.22

package main

import (
	"encoding/binary"
	"fmt"
	"net/netip"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzv/s/expvar"
	"github.com/crimist/trakx/zzv/s/pq"
	"github.com/crimist/trakx/zzv/vfs"
	"github.com/crimist/trakx/zzv/vnet"
	"github.com/crimist/trakx/zzv/vproc"
	"github.com/crimist/trakx/zzv/vs"
)

// ---- C24 ----

// markLoaded makes the configuration count as loaded from a file.
func markLoaded() {
	f := reflect.ValueOf(config.Config).Elem().FieldByName("loaded")
	*(*bool)(unsafe.Pointer(f.UnsafeAddr())) = true
}

// act is one request to the running tracker.
type act struct {
	name  string
	http  bool
	from  netip.AddrPort
	data  func(t *trk) []byte
	hash  storage.Hash // what it stores
	id    storage.PeerID
	p     mpeer
	drops bool
	conn  bool // a connect
}

type trk struct {
	proc  int
	acts  []*act
	sent  []bool
	conns []*vnet.Conn
	ids   map[netip.AddrPort]uint64
}

func (t *trk) send(i int) {
	a := t.acts[i]
	if a.http {
		l := vnet.TCP(httpPort)
		if l == nil {
			return
		}
		t.conns[i] = vnet.NewConn(a.from, true, a.data(t))
		l.Connect(t.conns[i])
	} else {
		s := vnet.UDP(udpPort)
		if s == nil {
			return
		}
		s.Send(a.from, false, a.data(t))
	}
	t.sent[i] = true
}

// acked tells whether the reply to a request was sent; it remembers connection ids.
func (t *trk) acked(i int) bool {
	a := t.acts[i]
	if !t.sent[i] {
		return false
	}
	if a.http {
		return strings.Contains(string(t.conns[i].Out), "\r\n\r\n")
	}
	tx := uint32(0x100 + i)
	for _, r := range vnet.LastUDP(udpPort).Out {
		if r.To == a.from && len(r.Data) >= 8 && binary.BigEndian.Uint32(r.Data[4:]) == tx {
			switch binary.BigEndian.Uint32(r.Data) {
			case 0:
				t.ids[a.from] = binary.BigEndian.Uint64(r.Data[8:])
				return true
			case 1:
				return true
			}
		}
	}
	return false
}

func (t *trk) add(a *act) int {
	t.acts = append(t.acts, a)
	t.sent = append(t.sent, false)
	t.conns = append(t.conns, nil)
	usedIPs = append(usedIPs, a.from.Addr())
	return len(t.acts) - 1
}

func (t *trk) connect(n int) int {
	i := len(t.acts)
	return t.add(&act{name: fmt.Sprintf("connect of %d", n), from: cli(n), conn: true, data: func(*trk) []byte { return udpReq(udpMagic, 0, uint32(0x100+i)) }})
}

func (t *trk) udpAnnounce(n, h, id int, complete bool) int {
	i := len(t.acts)
	a := &act{name: fmt.Sprintf("UDP announce of %d", n), from: cli(n), hash: hashN(h), id: idN(id)}
	a.p = mpeer{cli(n).Addr(), uint16(1000 + n), complete, 0}
	a.data = func(t *trk) []byte {
		q := annReq{connid: t.ids[a.from], txid: uint32(0x100 + i), hash: a.hash, id: a.id, port: a.p.Port, left: 1}
		if complete {
			q.left = 0
		}
		return q.bytes()
	}
	return t.add(a)
}

func (t *trk) httpAnnounce(n, h, id int, complete bool) int {
	a := &act{name: fmt.Sprintf("HTTP announce of %d", n), http: true, from: cli(n), hash: hashN(h), id: idN(id)}
	a.p = mpeer{cli(n).Addr(), uint16(2000 + n), complete, 0}
	a.data = func(t *trk) []byte {
		left := "left=5"
		if complete {
			left = "left=0"
		}
		return get(annURL(a.hash, a.id, int(a.p.Port), "compact=1", left))
	}
	return t.add(a)
}

func (t *trk) httpStop(n, h, id int) int {
	a := &act{name: fmt.Sprintf("HTTP stop of %d", n), http: true, from: cli(n), hash: hashN(h), id: idN(id), drops: true}
	a.data = func(t *trk) []byte { return get(annURL(a.hash, a.id, 5, "event=stopped")) }
	return t.add(a)
}

// stopCfg is one way to run the tracker.
type stopCfg struct {
	http   string
	udp    bool
	backup string
	expvar bool
}

func (c stopCfg) String() string {
	return fmt.Sprintf("HTTP %s, UDP %v, backup %s, metrics %v", c.http, c.udp, c.backup, c.expvar)
}

var exitSigs = map[syscall.Signal]bool{syscall.SIGINT: true, syscall.SIGTERM: true}

// must is what the files have to hold, may what they can hold besides.
type promise struct {
	peers map[string]map[string]bool // "hash id" -> allowed forms, "" for absent
	conns map[netip.AddrPort]uint64
}

func (t *trk) key(h storage.Hash, id storage.PeerID) string {
	return fmt.Sprintf("%x %x", h[19:], id[:])
}

// promised tells what has to be stored now.
func (t *trk) promised(c stopCfg, before model) promise {
	p := promise{map[string]map[string]bool{}, map[netip.AddrPort]uint64{}}
	for h, ps := range before {
		for id, x := range ps {
			p.peers[t.key(h, id)] = map[string]bool{peerForm(x): true}
		}
	}
	for i, a := range t.acts {
		ack := t.acked(i)
		if a.conn {
			if ack {
				p.conns[a.from] = t.ids[a.from]
			}
			continue
		}
		k := t.key(a.hash, a.id)
		if p.peers[k] == nil {
			p.peers[k] = map[string]bool{"": true}
		}
		f := ""
		if !a.drops {
			f = peerForm(a.p)
		}
		if ack {
			p.peers[k] = map[string]bool{f: true}
		} else {
			p.peers[k][f] = true
		}
	}
	return p
}

func peerForm(p mpeer) string { return fmt.Sprintf("%v %d %v", p.IP, p.Port, p.Complete) }

// verify restores from the files and compares.
func (t *trk) verify(c stopCfg, p promise, hs []storage.Hash, what string) {
	vs.Quiet(func() {
		config.Config.DB.Backup.Frequency = 0
		config.Config.DB.Trim = 0
		db := restart()
		if c.backup != "none" {
			got := map[string]string{}
			for _, h := range hs {
				for _, f := range forms(db, h) {
					var hi, hexid, rest string
					x := strings.SplitN(f, " ", 3)
					hi, hexid, rest = x[0], x[1], x[2]
					_ = hi
					got[fmt.Sprintf("%x %s", h[19:], hexid)] = rest
				}
			}
			var keys []string
			for k := range p.peers {
				keys = append(keys, k)
			}
			for k := range got {
				if p.peers[k] == nil {
					vs.Fail("%s: the backup holds a peer %s %q nobody announced (%v)", what, k, got[k], c)
					return
				}
			}
			sort.Strings(keys)
			for _, k := range keys {
				if !p.peers[k][got[k]] {
					vs.Fail("%s: the backup holds %q for peer %s, expected one of %v (%v)", what, got[k], k, p.peers[k], c)
					return
				}
			}
			vs.Observe(fmt.Sprint(got))
		}
		if !c.udp {
			return
		}
		_, s := startUDP(db)
		var as []netip.AddrPort
		for a := range p.conns {
			as = append(as, a)
		}
		sort.Slice(as, func(i, j int) bool { return as[i].Compare(as[j]) < 0 })
		for _, a := range as {
			r := exchange(s, a, false, scrapeReq(p.conns[a], 9, hashN(0)))
			if len(r) != 1 || len(r[0].Data) < 8 || binary.BigEndian.Uint32(r[0].Data) != 2 {
				vs.Fail("%s: the connection id of %v is not accepted after the restart (%v)", what, a, c)
				return
			}
		}
	})
}

// freshProcess forgets what the tracker sets up once per process.
func freshProcess() {
	pools.Peerlists4, pools.Peerlists6, pools.Dictionaries, pools.Peers = nil, nil, nil, nil
	vs.RestoreGlobals("/config")
	expvar.Forget()
}

// runTracker starts the tracker in a process of its own.
func runTracker(name string) int {
	freshProcess()
	return vs.GoProc(name, tracker.Run)
}

// waitExit lets the process run for up to a minute; what is due earlier happens.
func waitExit(proc int) (int, bool) {
	for i := 0; i < 60; i++ {
		vs.WaitIdle()
		if code, ok := vs.Exited(proc); ok {
			return code, true
		}
		vs.Advance(int64(time.Second))
	}
	return vs.Exited(proc)
}

func stopSetup(c stopCfg) {
	setup(func(k *config.Configuration) {
		k.HTTP.Mode = c.http
		k.UDP.Enabled = c.udp
		k.DB.Backup.Type = c.backup
		if c.backup == "pg" {
			k.DB.Backup.Path = "postgres://u@h/db"
		}
		k.DB.Backup.Frequency = 10 * minute
		k.DB.Trim = 10 * minute
		k.UDP.ConnDB.Trim = 10 * minute
		k.HTTP.Timeout.Read, k.HTTP.Timeout.Write = time.Hour, time.Hour
		if c.expvar {
			k.ExpvarInterval = 10 * minute
		}
	})
	markLoaded()
}

// stopping: the running tracker gets signals while requests and jobs are under way.
func stopping(cfgs []stopCfg, sigs [][]syscall.Signal, during int) func() {
	return func() {
		c := cfgs[vs.Choose(len(cfgs))]
		stopSetup(c)
		sg := sigs[vs.Choose(len(sigs))]
		t := &trk{ids: map[netip.AddrPort]uint64{}}
		hs := []storage.Hash{hashN(0), hashN(1), hashN(2)}
		before := model{}
		var tick int64
		vs.Quiet(func() {
			tick = tickAfter(vs.Now()+int64(minute), 10*minute)
			vs.AdvanceTo(tick - 2*int64(minute))
			db := openDBNoJobs()
			p := mpeer{ip4(90), 90, true, nowSec()}
			usedIPs = append(usedIPs, p.IP)
			db.Save(p.IP, p.Port, p.Complete, hs[0], idN(90))
			if c.backup != "none" {
				before.save(hs[0], idN(90), p)
			}
			if err := db.Backup().Save(); err != nil {
				vs.Fail("saving failed: %v", err)
			}
			newProcess()
		})
		vs.Quiet(func() {
			t.proc = runTracker("tracker")
			vs.WaitIdle()
		})
		if code, ok := vs.Exited(t.proc); ok {
			vs.Fail("the tracker ended with %d at its start (%v): %s", code, c, lastFatal)
			return
		}
		// requests answered before the signal
		vs.Quiet(func() {
			var is []int
			if c.udp {
				is = append(is, t.connect(1), t.connect(2), t.udpAnnounce(1, 0, 1, true))
			}
			if c.http == "enabled" {
				is = append(is, t.httpAnnounce(3, 1, 3, false), t.httpAnnounce(4, 1, 4, true), t.httpStop(4, 1, 4))
			}
			for _, i := range is {
				t.send(i)
				vs.WaitIdle()
				if !t.acked(i) {
					vs.Fail("the tracker did not answer the %s (%v)", t.acts[i].name, c)
					return
				}
			}
			vs.AdvanceTo(tick - int64(time.Second))
		})
		if vs.Failed() {
			return
		}
		// what happens meanwhile
		name := ""
		var sends []int
		clock := false
		n := 0
		for k := 0; k < during; k++ {
			opts := []string{"nothing", "clock"}
			if c.udp {
				opts = append(opts, "connect", "announce again")
			}
			if c.http == "enabled" {
				opts = append(opts, "announce", "stop")
			}
			o := opts[vs.Choose(len(opts))]
			name += o + ", "
			switch o {
			case "nothing":
				k = during
			case "clock":
				clock = true
			case "connect":
				sends = append(sends, t.connect(10+n))
			case "announce again":
				sends = append(sends, t.udpAnnounce(2, 0, 1, false))
			case "announce":
				sends = append(sends, t.httpAnnounce(12+n, 2, 5+n, false))
			case "stop":
				sends = append(sends, t.httpStop(4, 0, 90))
			}
			n++
		}
		for _, i := range sends {
			t.send(i)
		}
		if clock {
			vs.GoNamed("clock", func() { vs.Fire(tick) })
		}
		var p promise
		exit := false
		done := vs.GoNamed("signals", func() {
			for i, s := range sg {
				if i > 0 {
					vs.Point("next signal")
				}
				if !exit {
					if exitSigs[s] {
						exit = true
					}
					p = t.promised(c, before)
				}
				vproc.Deliver(t.proc, s)
			}
		})
		vs.Join(done)
		what := fmt.Sprintf("after %v during %s", sg, name)
		if exit {
			code, ok := waitExit(t.proc)
			if !ok {
				vs.Fail("%s: the tracker still runs a minute later (%v)", what, c)
				return
			}
			if code != 0 {
				vs.Fail("%s: the tracker ended with %d: %s (%v)", what, code, lastFatal, c)
				return
			}
			// what was answered between the signal and the exit may be stored
			late := t.promised(c, before)
			for k, v := range late.peers {
				for f := range v {
					if p.peers[k] == nil {
						p.peers[k] = map[string]bool{"": true}
					}
					p.peers[k][f] = true
				}
			}
			t.verify(c, p, hs, what)
			Note("%v %s%v", sg, name, c)
			return
		}
		// still serving
		vs.WaitIdle()
		vs.Quiet(func() {
			if _, ok := vs.Exited(t.proc); ok {
				vs.Fail("%s: the tracker ended (%v)", what, c)
				return
			}
			late := t.promised(c, before)
			for k, v := range late.peers {
				for f := range v {
					if p.peers[k] == nil {
						p.peers[k] = map[string]bool{"": true}
					}
					p.peers[k][f] = true
				}
			}
			var i int
			switch {
			case c.udp:
				i = t.connect(30)
			case c.http == "enabled":
				i = t.httpAnnounce(30, 2, 30, true)
			default:
				return
			}
			t.send(i)
			vs.WaitIdle()
			if !t.acked(i) {
				vs.Fail("%s: the tracker does not answer any more (%v)", what, c)
			}
		})
		if vs.Failed() {
			return
		}
		vs.KillProc(t.proc, 137)
		t.verify(c, p, hs, what+" and a kill")
		Note("%v %s%v", sg, name, c)
	}
}

// savedMeanwhile: a periodic save is under way while a request is answered and the tracker is then told to exit.
func savedMeanwhile(cfgs []stopCfg, sigs []syscall.Signal) func() {
	return func() {
		c := cfgs[vs.Choose(len(cfgs))]
		stopSetup(c)
		sg := sigs[vs.Choose(len(sigs))]
		t := &trk{ids: map[netip.AddrPort]uint64{}}
		hs := []storage.Hash{hashN(0), hashN(1)}
		var tick int64
		vs.Quiet(func() {
			tick = tickAfter(vs.Now()+int64(minute), 10*minute)
			vs.AdvanceTo(tick - int64(minute))
			config.Config.DB.Trim = 0
			config.Config.UDP.ConnDB.Trim = time.Hour
			t.proc = runTracker("tracker")
			vs.WaitIdle()
		})
		var i int
		if c.http == "enabled" {
			i = t.httpAnnounce(1, 0, 1, true)
		} else {
			j := t.connect(1)
			i = t.udpAnnounce(1, 0, 1, true)
			vs.Quiet(func() {
				t.send(j)
				vs.WaitIdle()
				t.acked(j)
			})
		}
		// the save stalls at any of its steps until the tracker was told to exit
		told := false
		at := vs.Choose(12)
		vs.OnPoint = func(task, desc string) bool {
			if vs.CurProc() != t.proc || at < 0 {
				return false
			}
			if at--; at >= 0 {
				return false
			}
			vs.Block("stalled", func() bool { return told })
			return true
		}
		var p promise
		done := vs.GoNamed("client", func() {
			vs.Fire(tick)
			vs.WaitIdle()
			if at >= 0 {
				vs.Stop()
			}
			// a stalled save may also keep the request waiting
			vs.GoNamed("watchdog", func() { vs.WaitIdle(); told = true })
			t.send(i)
			vs.Block("the answer", func() bool { return t.acked(i) })
			p = t.promised(c, model{})
			vproc.Deliver(t.proc, sg)
			told = true
		})
		vs.Join(done)
		what := fmt.Sprintf("after %v during a periodic save", sg)
		code, ok := waitExit(t.proc)
		if !ok || code != 0 {
			vs.Fail("%s: the tracker did not end properly: %v %d %s (%v)", what, ok, code, lastFatal, c)
			return
		}
		t.verify(c, p, hs, what)
		Note("%v %v", sg, c)
	}
}

// lateRequests: requests arrive while the final backup is taken; what is still answered has to be in it.
func lateRequests(cfgs []stopCfg, sigs []syscall.Signal) func() {
	return func() {
		c := cfgs[vs.Choose(len(cfgs))]
		stopSetup(c)
		sg := sigs[vs.Choose(len(sigs))]
		t := &trk{ids: map[netip.AddrPort]uint64{}}
		hs := []storage.Hash{hashN(0), hashN(1)}
		config.Config.DB.Trim, config.Config.DB.Backup.Frequency, config.Config.UDP.ConnDB.Trim = 0, 0, 1000*time.Hour
		var late []int
		vs.Quiet(func() {
			t.proc = runTracker("tracker")
			vs.WaitIdle()
			if c.udp {
				i := t.connect(1)
				t.send(i)
				vs.WaitIdle()
				t.acked(i)
				late = append(late, t.connect(2), t.udpAnnounce(1, 0, 1, true))
			}
			if c.http == "enabled" {
				late = append(late, t.httpAnnounce(3, 1, 3, true), t.httpAnnounce(4, 1, 4, false))
			}
		})
		at := vs.Choose(14)
		stalled, released := false, false
		vs.OnPoint = func(task, desc string) bool {
			if vs.CurProc() != t.proc || stalled || !(strings.HasPrefix(desc, "fs ") || strings.HasPrefix(desc, "pg ")) {
				return false
			}
			if at--; at >= 0 {
				return false
			}
			stalled = true
			vs.Block("stalled", func() bool { return released })
			return true
		}
		// sent at the latest when nothing else can happen, but also as early as the stall
		client := vs.GoNamed("client", func() {
			vs.Block("the final backup", func() bool { return stalled || released })
			if stalled {
				for _, i := range late {
					t.send(i)
				}
			}
		})
		vproc.Deliver(t.proc, sg)
		vs.WaitIdle()
		answered := ""
		p := t.promised(c, model{})
		for _, i := range late {
			if t.acked(i) {
				answered += t.acts[i].name + ", "
			}
		}
		released = true
		vs.Join(client)
		what := fmt.Sprintf("after %v and requests during the final backup (answered: %s)", sg, answered)
		code, ok := waitExit(t.proc)
		if !ok || code != 0 {
			vs.Fail("%s: the tracker did not end properly: %v %d %s (%v)", what, ok, code, lastFatal, c)
			return
		}
		t.verify(c, p, hs, what)
		Note("%v %v", sg, c)
	}
}

// openDBNoJobs opens the database without its periodic jobs.
func openDBNoJobs() storage.Database {
	f, tr := config.Config.DB.Backup.Frequency, config.Config.DB.Trim
	config.Config.DB.Backup.Frequency, config.Config.DB.Trim = 0, 0
	db := openDB()
	config.Config.DB.Backup.Frequency, config.Config.DB.Trim = f, tr
	return db
}

// stopAtStart: a signal while the tracker starts loses nothing stored earlier.
func stopAtStart(cfgs []stopCfg, sigs [][]syscall.Signal, ready bool) func() {
	return func() {
		c := cfgs[vs.Choose(len(cfgs))]
		stopSetup(c)
		sg := sigs[vs.Choose(len(sigs))]
		t := &trk{ids: map[netip.AddrPort]uint64{}}
		hs := []storage.Hash{hashN(0), hashN(1)}
		var p promise
		vs.Quiet(func() {
			t.proc = runTracker("first")
			vs.WaitIdle()
			var is []int
			if c.udp {
				is = append(is, t.connect(1), t.udpAnnounce(1, 0, 1, true))
			}
			if c.http == "enabled" {
				is = append(is, t.httpAnnounce(3, 1, 3, false))
			}
			for _, i := range is {
				t.send(i)
				vs.WaitIdle()
				if !t.acked(i) {
					vs.Fail("the tracker did not answer the %s (%v)", t.acts[i].name, c)
					return
				}
			}
			p = t.promised(c, model{})
			vproc.Deliver(t.proc, syscall.SIGTERM)
			waitExit(t.proc)
			newProcess()
			forgetPublished()
		})
		if vs.Failed() {
			return
		}
		if ready {
			config.Config.DB.Backup.Frequency, config.Config.DB.Trim, config.Config.UDP.ConnDB.Trim = 0, 0, 1000*time.Hour
		}
		t.proc = runTracker("second")
		exit := false
		done := vs.GoNamed("signals", func() {
			if ready {
				vs.Block("the signal handler", func() bool { return vproc.Handles(t.proc, syscall.SIGTERM) && vproc.Handles(t.proc, syscall.SIGUSR1) })
			}
			for i, s := range sg {
				if i > 0 {
					vs.Point("next signal")
				}
				exit = exit || exitSigs[s]
				if _, dead := vs.Exited(t.proc); !dead {
					vproc.Deliver(t.proc, s)
				}
			}
		})
		vs.Join(done)
		what := fmt.Sprintf("after %v during the start", sg)
		code, ok := 0, false
		if exit {
			code, ok = waitExit(t.proc)
			if !ok {
				vs.Fail("%s: the tracker still runs a minute later (%v)", what, c)
				return
			}
			if code != 0 && code < 128 {
				vs.Fail("%s: the tracker ended with %d: %s (%v)", what, code, lastFatal, c)
				return
			}
		} else {
			vs.WaitIdle()
			if _, ok := vs.Exited(t.proc); !ok {
				vs.KillProc(t.proc, 137)
			}
		}
		t.verify(c, p, hs, what)
		Note("%v %v %d", sg, c, code)
	}
}

func init() {
	register(&Check{ID: "C24", Secs: [2]int{150, 600}, Configs: func(d bool) []Config {
		I, T, U := syscall.SIGINT, syscall.SIGTERM, syscall.SIGUSR1
		one := [][]syscall.Signal{{I}, {T}, {U}}
		two := [][]syscall.Signal{{U, T}, {U, I}, {T, U}, {I, I}, {T, I}, {U, U}}
		three := [][]syscall.Signal{{U, U, T}, {U, T, U}}
		var all []stopCfg
		for _, h := range []string{"enabled", "info", "disabled"} {
			for _, u := range []bool{true, false} {
				for _, b := range []string{"file", "pg", "none"} {
					all = append(all, stopCfg{h, u, b, false}, stopCfg{h, u, b, true})
				}
			}
		}
		both := []stopCfg{{"enabled", true, "file", false}}
		pgs := []stopCfg{{"enabled", true, "pg", true}}
		few := []stopCfg{{"enabled", true, "file", true}, {"enabled", false, "file", false}, {"disabled", true, "file", false}, {"info", true, "file", false}}
		saves := []stopCfg{{"enabled", false, "file", false}, {"disabled", true, "pg", false}}
		saves2 := []stopCfg{{"enabled", true, "file", false}, {"enabled", true, "pg", false}, {"disabled", true, "file", false}}
		lates := []stopCfg{{"enabled", true, "file", false}, {"enabled", true, "pg", false}, {"disabled", true, "file", false}}
		racing := []stopCfg{{"enabled", false, "file", false}, {"disabled", true, "pg", false}}
		start := append(append([][]syscall.Signal{}, one...), []syscall.Signal{U, T})
		b := func(p, f int) vs.Budget { return vs.Budget{MaxSteps: 100_000, Preempt: p, FreeSw: f, NoAtomic: true} }
		if d {
			return []Config{
				{Name: "all configurations", Run: stopping(all, append(append([][]syscall.Signal{}, one...), two...), 1), B: b(0, 2), Bound: "36 configurations, 9 signal sequences, one request or job meanwhile"},
				{Name: "one signal", Run: stopping(both, one, 1), B: b(2, 1)},
				{Name: "several signals", Run: stopping(both, append(append([][]syscall.Signal{}, two...), three...), 0), B: b(2, 2)},
				{Name: "one signal, busy", Run: stopping(few, one, 2), B: b(2, 1)},
				{Name: "one signal, busy, postgres", Run: stopping(pgs, one, 1), B: b(2, 1)},
				{Name: "a periodic save", Run: savedMeanwhile(saves, []syscall.Signal{T}), B: b(2, 3)},
				{Name: "requests between saves", Run: savesBetween(4, saves2), B: vs.Budget{MaxSteps: 100_000, FreeSw: -1}, Bound: "3 configurations, all sequences of 4 of 8 requests, save signals and pauses, then the end"},
				{Name: "a failing save", Run: failingSave(saves2, [][]syscall.Signal{{I}, {T}, {U}, {U, T}}), B: vs.Budget{MaxSteps: 100_000, FreeSw: -1, Env: 2}, Bound: "3 configurations, calls of the saves after the signal fail"},
				{Name: "late requests", Run: lateRequests(lates, []syscall.Signal{T, I}), B: b(2, 2)},
				{Name: "during the start, signals handled", Run: stopAtStart(few, start, true), B: b(2, 2)},
				{Name: "during the start", Run: stopAtStart(few, start, false), B: b(1, 3)},
			}
		}
		return []Config{
			{Name: "all configurations", Run: stopping(all, append(append([][]syscall.Signal{}, one...), two...), 1), B: b(0, 1), Bound: "36 configurations, 9 signal sequences, one request or job meanwhile"},
			{Name: "one signal", Run: stopping(both, one, 1), B: b(1, 1)},
			{Name: "several signals", Run: stopping(both, append(append([][]syscall.Signal{}, two...), three...), 0), B: b(1, 1)},
			{Name: "one signal, busy, postgres", Run: stopping(pgs, one[1:], 1), B: b(1, 1)},
			{Name: "a periodic save", Run: savedMeanwhile(saves, []syscall.Signal{T}), B: b(1, 2)},
			{Name: "requests between saves", Run: savesBetween(3, saves2), B: vs.Budget{MaxSteps: 100_000, FreeSw: -1}, Bound: "3 configurations, all sequences of 3 of 8 requests, save signals and pauses, then the end"},
			{Name: "a failing save", Run: failingSave(saves2, [][]syscall.Signal{{I}, {T}, {U}, {U, T}}), B: vs.Budget{MaxSteps: 100_000, FreeSw: -1, Env: 1}, Bound: "3 configurations, calls of the saves after the signal fail"},
			{Name: "late requests", Run: lateRequests(lates, []syscall.Signal{T, I}), B: b(0, 1)},
			{Name: "late requests, racing", Run: lateRequests(racing, []syscall.Signal{T}), B: b(1, 2)},
			{Name: "during the start, signals handled", Run: stopAtStart(few[1:3], [][]syscall.Signal{{T}, {U}}, true), B: b(1, 2)},
			{Name: "during the start", Run: stopAtStart(few, start, false), B: b(1, 1)},
		}
	}})
}

func forgetPublished() { expvar.Forget() }

// savesBetween: requests, save signals and time in any order, then the end, clean or after one more save signal.
func savesBetween(n int, cfgs []stopCfg) func() {
	return func() {
		c := cfgs[vs.Choose(len(cfgs))]
		stopSetup(c)
		t := &trk{ids: map[netip.AddrPort]uint64{}}
		hs := []storage.Hash{hashN(0), hashN(1)}
		hist := ""
		vs.Quiet(func() {
			config.Config.DB.Backup.Frequency, config.Config.DB.Trim = 0, 0
			config.Config.UDP.ConnDB.Trim = time.Hour
			t.proc = runTracker("tracker")
			vs.WaitIdle()
		})
		req := func(i int) {
			hist += t.acts[i].name + ", "
			vs.Quiet(func() {
				t.send(i)
				vs.WaitIdle()
			})
			if !t.acked(i) {
				vs.Fail("%s: the tracker did not answer (%v)", hist, c)
			}
		}
		if c.udp {
			req(t.connect(1))
		}
		signal := func(s syscall.Signal) {
			hist += fmt.Sprint(s) + ", "
			vs.Quiet(func() { vproc.Deliver(t.proc, s); vs.WaitIdle() })
		}
		for i := 0; i < n && !vs.Failed(); i++ {
			switch vs.Choose(8) {
			case 0:
				signal(syscall.SIGUSR1)
			case 1:
				hist += "5s, "
				vs.Quiet(func() { vs.Advance(5e9); vs.WaitIdle() })
			case 2:
				hist += "9m, "
				vs.Quiet(func() { vs.Advance(9 * int64(minute)); vs.WaitIdle() })
			case 3:
				if c.udp {
					req(t.connect(10 + i))
				} else {
					req(t.httpAnnounce(10+i, 1, 3, true))
				}
			case 4:
				if c.udp {
					req(t.udpAnnounce(1, 0, 1, i%2 == 0))
				} else {
					req(t.httpAnnounce(1, 0, 1, i%2 == 0))
				}
			case 5:
				if c.http == "enabled" {
					req(t.httpAnnounce(20+i, 1, 20+i, i%2 == 0))
				} else {
					req(t.udpAnnounce(1, 1, 20+i, i%2 == 0))
				}
			case 6:
				if c.http == "enabled" {
					req(t.httpStop(1, 0, 1))
				} else {
					req(t.udpAnnounce(1, 1, 1, true))
				}
			case 7:
				if c.http == "enabled" {
					req(t.httpStop(3, 1, 3))
				} else {
					req(t.udpAnnounce(1, 0, 3, false))
				}
			}
		}
		if vs.Failed() {
			return
		}
		if vs.Choose(2) == 0 {
			signal(syscall.SIGTERM)
			if code, ok := waitExit(t.proc); !ok || code != 0 {
				vs.Fail("%s: the tracker ended with %d, %v (%v)", hist, code, ok, c)
				return
			}
		} else {
			signal(syscall.SIGUSR1)
			vs.KillProc(t.proc, 137)
		}
		t.verify(c, t.promised(c, model{}), hs, "after "+hist)
		Note("%s %v", hist, c)
	}
}

// failingSave: one call of a save fails after the signal; the tracker ends or serves on all the same and the other save holds.
func failingSave(cfgs []stopCfg, sigs [][]syscall.Signal) func() {
	return func() {
		c := cfgs[vs.Choose(len(cfgs))]
		stopSetup(c)
		sg := sigs[vs.Choose(len(sigs))]
		t := &trk{ids: map[netip.AddrPort]uint64{}}
		hs := []storage.Hash{hashN(0), hashN(1)}
		before := model{}
		vs.Quiet(func() {
			db := openDBNoJobs()
			p := mpeer{ip4(90), 90, true, nowSec()}
			usedIPs = append(usedIPs, p.IP)
			db.Save(p.IP, p.Port, p.Complete, hs[0], idN(90))
			before.save(hs[0], idN(90), p)
			if err := db.Backup().Save(); err != nil {
				vs.Fail("saving failed: %v", err)
			}
			newProcess()
			config.Config.DB.Backup.Frequency, config.Config.DB.Trim = 0, 0
			config.Config.UDP.ConnDB.Trim = time.Hour
			t.proc = runTracker("tracker")
			vs.WaitIdle()
			var is []int
			if c.udp {
				is = append(is, t.connect(1), t.udpAnnounce(1, 0, 1, true))
			}
			if c.http == "enabled" {
				is = append(is, t.httpAnnounce(3, 1, 3, false))
			}
			for _, i := range is {
				t.send(i)
				vs.WaitIdle()
				if !t.acked(i) {
					vs.Fail("the tracker did not answer the %s (%v)", t.acts[i].name, c)
					return
				}
			}
		})
		if vs.Failed() {
			return
		}
		p := t.promised(c, before)
		what := ""
		for i, s := range sg {
			faulty := i == 0
			vfs.Faults, pq.Faults = faulty, faulty
			vs.GoNamed("signal", func() { vproc.Deliver(t.proc, s) })
			vs.WaitIdle()
			if exitSigs[s] {
				if _, ok := waitExit(t.proc); !ok {
					vs.Fail("the tracker still runs a minute after %v, failed: %v (%v)", s, vfs.Faulted, c)
					return
				}
			}
			vfs.Faults, pq.Faults = false, false
			if faulty {
				what = fmt.Sprintf("after %v, failed: %q, %d database calls", s, vfs.Faulted, pq.Faulted)
			}
			if len(sg) > 1 && i == 0 {
				vfs.Faulted, pq.Faulted = nil, 0 // the next signal saves everything
			}
		}
		if _, ended := vs.Exited(t.proc); !ended {
			vs.Quiet(func() {
				var i int
				if c.udp {
					i = t.connect(30)
				} else {
					i = t.httpAnnounce(30, 1, 30, true)
				}
				t.send(i)
				vs.WaitIdle()
				if !t.acked(i) {
					vs.Fail("%s: the tracker does not answer any more (%v)", what, c)
				}
			})
			if vs.Failed() {
				return
			}
			vs.KillProc(t.proc, 137)
		}
		peersBad, connsBad := pq.Faulted > 0, false
		for _, f := range vfs.Faulted {
			isConn, isPeer := strings.Contains(f, "conn"), strings.Contains(f, filepath.Base(config.Config.DB.Backup.Path))
			peersBad = peersBad || isPeer || !isConn
			connsBad = connsBad || isConn || !isPeer
		}
		if connsBad {
			p.conns = nil
		}
		if peersBad {
			old := (&trk{ids: t.ids}).promised(c, before)
			for k := range p.peers {
				if f := old.peers[k]; f != nil {
					for x := range f {
						p.peers[k][x] = true
					}
				} else {
					p.peers[k][""] = true
				}
			}
		}
		t.verify(c, p, hs, what)
		Note("%v %v %s", sg, c, what)
	}
}
