//go:build go1.22

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzv/vs"
)

// scrapesBetween: every sequence of n changes of the database, by requests or on its own, each followed by a
// scrape of the same client or another one; what was answered before has no influence.
func scrapesBetween(n int, udp bool) func() {
	ops := []op{
		{k: 's', ip: ip4(1), port: 1001},
		{k: 's', ip: ip4(1), port: 1001, c: true},
		{k: 's', id: 1, ip: ip4(1), port: 1001},
		{k: 's', h: 1, ip: ip4(1), port: 1001, c: true},
		{k: 'd'},
		{k: 'd', h: 1},
		{k: 't'},
		{k: 'a', d: time.Second},
		{k: 'a', d: 46 * time.Minute},
	}
	return func() {
		ask := func(i int) bool { return true }
		var run func(o op)
		if udp {
			setup(func(c *config.Configuration) { c.UDP.ConnDB.Validate = false })
			db := openDB()
			_, s := startUDP(db)
			m := newU()
			hs := []storage.Hash{hashN(0), hashN(1)}
			run = func(o op) { do(db, m.db, o) }
			ask = func(i int) bool { return m.do(s, db, cli(i), false, scrapeReq(0, 5, hs...), hs) }
		} else {
			db, l, m, hs := httpEnv(nil)
			var ps []string
			for _, x := range hs {
				ps = append(ps, "info_hash="+escMin(x[:]))
			}
			run = func(o op) { do(db, m.db, o) }
			ask = func(i int) bool { return m.do(l, db, cli(i), get("/scrape?"+strings.Join(ps, "&")), hs) }
		}
		var hist []string
		if !ask(0) {
			return
		}
		who := vs.Choose(2)
		for i := 0; i < n; i++ {
			o := ops[vs.Choose(len(ops))]
			hist = append(hist, o.String())
			run(o)
			if !ask(i * who) {
				vs.Fail("history %v", hist)
				return
			}
		}
		vs.Observe(fmt.Sprint(hist))
		Note("%v", hist)
	}
}

// pageSeq: every sequence of n paths.
func pageSeq(n int) func() {
	return func() {
		_, l, m, _ := httpEnv(nil)
		names := append(pageNames(m), "/", "/none", "/heartbeat", "/trakx.yaml", "/scrape?info_hash="+escMin([]byte(strings.Repeat("A", 20))), "/announce")
		var hist []string
		for i := 0; i < n; i++ {
			p := names[vs.Choose(len(names))]
			hist = append(hist, p)
			c := send(l, cli(1), get(p))
			e := closedOnce(c)
			if e == "" {
				e = m.check(cli(1), get(p), c.Out)
			}
			if e != "" && e != "vague" {
				vs.Fail("%s after %v", e, hist)
				return
			}
		}
		vs.Observe(fmt.Sprint(hist))
		Note("%v", hist)
	}
}
