//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"net/netip"
	"sort"
	"strings"
	"syscall"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/zzv/vnet"
	"github.com/crimist/trakx/zzv/vproc"
	"github.com/crimist/trakx/zzv/vs"
)

// C35: the tracker listens where it is configured to.

// bindOf is how vnet names the addresses a configured address stands for.
func bindOf(ip string) string {
	if ip == "" {
		return "*"
	}
	a := netip.MustParseAddr(ip)
	if a.IsUnspecified() {
		return "*"
	}
	return a.Unmap().String()
}

// open lists the tracker's open sockets.
func openSocks() (tcp, udp []string) {
	for _, l := range vnet.Lists {
		if !l.Closed {
			tcp = append(tcp, fmt.Sprint(l.Bind, " ", l.Port))
		}
	}
	for _, s := range vnet.USocks {
		if !s.Closed {
			udp = append(udp, fmt.Sprint(s.Bind, " ", s.Port))
		}
	}
	sort.Strings(tcp)
	sort.Strings(udp)
	return
}

func listener(port int, b string) *vnet.Lst {
	for _, l := range vnet.Lists {
		if !l.Closed && l.Port == port && l.Bind == b {
			return l
		}
	}
	return nil
}

var listenIPs = []string{"", "0.0.0.0", "::", "127.0.0.1", "10.0.0.1", "::1", "2001:db8::1"}

// listens starts the tracker with every choice of protocols, addresses, ports and workers.
func listens() {
	var mode, hip, uip string
	var hport, uport, threads, uthreads, pprof int
	var udp bool
	mode = []string{"enabled", "info", "disabled"}[vs.Choose(3)]
	udp = vs.Choose(2) == 1
	if mode != "disabled" {
		hip = listenIPs[vs.Choose(len(listenIPs))]
		hport = []int{httpPort, 80, 65535}[vs.Choose(3)]
	}
	if udp {
		uip = listenIPs[vs.Choose(len(listenIPs))]
		uport = []int{udpPort, 80, 65535}[vs.Choose(3)]
	}
	threads, uthreads = 1, 1
	if mode == "enabled" {
		threads = []int{1, 2, 3, 4, 40}[vs.Choose(5)]
	}
	if udp {
		uthreads = []int{1, 2, 4}[vs.Choose(3)]
	}
	pprof = []int{0, 8086}[vs.Choose(2)]
	fault := 0
	if mode != "info" {
		fault = vs.Choose(3)
	}
	setup(func(c *config.Configuration) {
		c.HTTP.Mode, c.HTTP.IP, c.HTTP.Port, c.HTTP.Threads = mode, hip, hport, threads
		c.UDP.Enabled, c.UDP.IP, c.UDP.Port, c.UDP.Threads = udp, uip, uport, uthreads
		c.Debug.Pprof = pprof
		if pprof != 0 {
			c.ExpvarInterval = minute
		}
	})
	markLoaded()
	what := fmt.Sprintf("http %s on %q:%d with %d threads, udp %v on %q:%d with %d threads, pprof %d", mode, hip, hport, threads, udp, uip, uport, uthreads, pprof)
	fails := false
	vnet.ListenErr = func(network, addr string) error {
		ours := network == "udp" && fault == 2 || network == "tcp" && fault == 1 && !strings.HasSuffix(addr, ":8086")
		if ours {
			fails = true
			return syscall.EADDRINUSE
		}
		return nil
	}
	p := runTracker("tracker")
	vs.WaitIdle()
	code, dead := vs.Exited(p)
	if fails {
		if !dead {
			code, dead = waitExit(p)
		}
		if !dead || code == 0 {
			vs.Fail("the tracker cannot listen, but it ended: %v, exit status %d (%s)", dead, code, what)
		}
		Note("%s: cannot listen", what)
		return
	}
	if dead {
		vs.Fail("the tracker ended with %d: %s (%s)", code, lastFatal, what)
		return
	}
	var tcp, ud []string
	if mode != "disabled" {
		tcp = append(tcp, fmt.Sprint(bindOf(hip), " ", hport))
	}
	if udp {
		ud = append(ud, fmt.Sprint(bindOf(uip), " ", uport))
	}
	gt, gu := openSocks()
	if pprof != 0 {
		lo := ""
		for _, s := range gt {
			if s == "127.0.0.1 8086" || s == "::1 8086" {
				lo = s
			}
		}
		if lo == "" {
			vs.Fail("pprof is not served on the loopback address alone: %v (%s)", gt, what)
			return
		}
		tcp = append(tcp, lo)
	}
	sort.Strings(tcp)
	if !same(gt, tcp) || !same(gu, ud) {
		vs.Fail("listens on TCP %v and UDP %v, configured are %v and %v (%s)", gt, gu, tcp, ud, what)
		return
	}
	if mode != "disabled" {
		l := listener(hport, bindOf(hip))
		// all but one of the threads wait for clients which say nothing
		for i := 1; i < threads; i++ {
			l.Connect(vnet.NewConn(cli(10+i), false))
		}
		vs.WaitIdle()
		c := vnet.NewConn(cli(1), true, get("/heartbeat"))
		l.Connect(c)
		vs.WaitIdle()
		if !bytes.HasPrefix(c.Out, []byte("HTTP/1.1 200")) && !bytes.HasPrefix(c.Out, []byte("HTTP/1.0 200")) {
			vs.Fail("a heartbeat got %q while %d of the threads wait for slow clients (%s)", c.Out, threads-1, what)
			return
		}
	}
	if udp {
		s := vnet.UDP(uport)
		for i := 0; i < 3; i++ {
			from := cli(1 + i)
			rep := exchange(s, from, false, udpReq(7, 4, 9))
			if len(rep) != 1 || !bytes.Equal(rep[0].Data, []byte{0xff}) || rep[0].To != from {
				vs.Fail("a UDP heartbeat got %v (%s)", rep, what)
				return
			}
		}
	}
	vproc.Deliver(p, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[vs.Choose(2)])
	if code, ok := waitExit(p); !ok || code != 0 {
		vs.Fail("the signal ends the tracker: %v, exit status %d (%s)", ok, code, what)
	}
	vs.Observe(what)
	Note("%s", what)
}

// unknownStorage: a database or a backup which does not exist.
func unknownStorage() {
	setup(func(c *config.Configuration) {
		c.DB.Type = []string{"gomap", "", "map", "Gomap", "gomap "}[vs.Choose(5)]
		c.DB.Backup.Type = []string{"none", "file", "", "files", "None"}[vs.Choose(5)]
		c.UDP.Enabled = vs.Choose(2) == 1
		c.HTTP.Mode = []string{"enabled", "info", "disabled"}[vs.Choose(3)]
	})
	markLoaded()
	c := config.Config
	what := fmt.Sprintf("database %q, backup %q", c.DB.Type, c.DB.Backup.Type)
	known := c.DB.Type == "gomap" && (c.DB.Backup.Type == "none" || c.DB.Backup.Type == "file")
	p := runTracker("tracker")
	vs.WaitIdle()
	code, dead := vs.Exited(p)
	if dead == known || dead && code == 0 {
		vs.Fail("the tracker ended: %v, exit status %d with %s: %s", dead, code, what, lastFatal)
		return
	}
	if t, u := openSocks(); dead && len(t)+len(u) != 0 {
		vs.Fail("the tracker listened on %v and %v with %s", t, u, what)
	}
	vs.Observe(what)
	Note("%s", what)
}

func init() {
	register(&Check{ID: "C35", Secs: [2]int{60, 600}, Configs: func(d bool) []Config {
		b := vs.Budget{FreeSw: -1, MaxSteps: 1_000_000}
		return []Config{{Name: "settings", Run: listens, B: b, Bound: "3 HTTP modes, UDP on and off, 7 addresses and 3 ports of each, 1..4 and 40 HTTP and 1, 2, 4 UDP threads, pprof on and off, failing listens, 2 signals"},
			{Name: "unknown storage", Run: unknownStorage, B: b}}
	}})
}
