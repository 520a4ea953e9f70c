//go:build go1.22

package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/netip"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzv/s/rand"
	"github.com/crimist/trakx/zzv/vnet"
	"github.com/crimist/trakx/zzv/vs"
)

// httpEnv starts a tracker whose torrents 0 and 1 already have peers.
func httpEnv(mod func(*config.Configuration)) (storage.Database, *vnet.Lst, *hmodel, []storage.Hash) {
	setup(mod)
	db := openDB()
	m := newH()
	hs := []storage.Hash{hashN(0), hashN(1), hashN(2)}
	vs.Quiet(func() {
		for i, p := range []mpeer{{ip4(60), 6060, true, nowSec()}, {ip6(61), 6161, false, nowSec()}} {
			db.Save(p.IP, p.Port, p.Complete, hs[i], idN(60+i))
			m.db.save(hs[i], idN(60+i), p)
		}
	})
	return db, startHTTP(db), m, hs
}

func cli(n int) netip.AddrPort { return ap(ip4(n), uint16(40000+n)) }

// ---- C18 ----

// byteValues: every byte in info_hash and peer_id, in every spelling.
func byteValues() {
	db, l, m, _ := httpEnv(nil)
	h, id := hashN(3), idN(3)
	f := vs.Choose(3)
	pos := []int{0, 7, 18, 19}[vs.Choose(4)]
	v := byte(vs.Choose(256))
	raw := strings.IndexByte("&% \r\n", v) < 0
	ev := "started"
	var forms []string
	lo, up := fmt.Sprintf("%%%02x", v), fmt.Sprintf("%%%02X", v)
	forms = append(forms, lo)
	if up != lo {
		forms = append(forms, up, lo[:2]+up[2:], up[:2]+lo[2:])
	}
	if raw {
		forms = append(forms, string(v))
	}
	form := forms[vs.Choose(len(forms))]
	rest := vs.Choose(2) // how the other bytes are written
	spell := func(b []byte, special bool) string {
		e := escMin
		if rest == 1 {
			e = escAll
		}
		if !special {
			return e(b)
		}
		b[pos] = v
		return e(b[:pos]) + form + e(b[pos+1:])
	}
	hsp := spell(h[:], f == 0)
	isp := spell(id[:], f == 1)
	if f == 2 {
		ev = "comp" + form + "leted"
	}
	order := vs.Choose(2)
	t := fmt.Sprintf("/announce?info_hash=%s&peer_id=%s&event=%s&port=81&left=5&numwant=4", hsp, isp, ev)
	if order == 1 {
		t = fmt.Sprintf("/announce?port=81&left=5&event=%s&numwant=4&peer_id=%s&info_hash=%s", ev, isp, hsp)
	}
	m.do(l, db, cli(1), get(t), []storage.Hash{h, hashN(0), hashN(1)})
	vs.Observe(t)
	Note("byte %#x of field %d at %d as %s", v, f, pos, form)
}

// paramCount: any number of other parameters around the important ones.
func paramCount() {
	db, l, m, hs := httpEnv(nil)
	n := vs.Choose(46)
	h, id := hashN(2), idN(2)
	imp := []string{"info_hash=" + escMin(h[:]), "peer_id=" + escMin(id[:]), "port=5", "event=completed", "compact=1"}
	where := vs.Choose(4)
	if n+len(imp) > 45 && vs.Choose(2) == 0 {
		imp = imp[:3]
	} else if vs.Choose(2) == 1 {
		imp[4] = "compact=%31" // the same, spelled otherwise
	}
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, []string{"x", "a=b", "info_hash_=1", "", "port1=9", "%70=%31", "=", "k==v"}[i%8])
	}
	switch where {
	case 0:
		ps = append(imp, ps...)
	case 1:
		ps = append(ps, imp...)
	case 2:
		ps = append(append(append([]string{}, ps[:n/2]...), imp...), ps[n/2:]...)
	case 3:
		var q []string
		for i := 0; i < n || i < len(imp); i++ {
			if i < n {
				q = append(q, ps[i])
			}
			if i < len(imp) {
				q = append(q, imp[i])
			}
		}
		ps = q
	}
	t := "/announce?" + strings.Join(ps, "&") + []string{"", "&"}[vs.Choose(2)]
	m.do(l, db, cli(1), get(t), hs)
	vs.Observe(t)
	Note("%d other parameters, arrangement %d", n, where)
}

// paramOrder: every order of the parameters, repeated ones included.
func paramOrder() {
	db, l, m, hs := httpEnv(nil)
	h, g, id := hashN(2), hashN(1), idN(2)
	all := []string{"info_hash=" + escMin(h[:]), "peer_id=" + escAll(id[:]), "port=5", "event=completed", "numwant=0", "compact"}
	switch vs.Choose(5) {
	case 1:
		all[5] = "info_hash=" + escAll(g[:])
	case 2:
		all[5] = "port=7"
	case 3:
		all[5] = "event=stopped"
	case 4:
		all[5] = "numwant=3"
	}
	var ps []string
	for len(all) > 0 {
		k := vs.Choose(len(all))
		ps = append(ps, all[k])
		all = append(append([]string{}, all[:k]...), all[k+1:]...)
	}
	t := "/announce?" + strings.Join(ps, "&")
	m.do(l, db, cli(1), get(t), hs)
	vs.Observe(t)
	Note("%s", t)
}

// reqKinds are one request of every kind.
func reqKinds() [][]byte {
	h, id := hashN(0), idN(5)
	return [][]byte{
		get(annURL(h, id, 80, "left=0", "compact=1", "numwant=3"), "Host: a\r\n", "X: y?z=1&port=9\r\n"),
		get(annURL(h, id, 80, "event=stopped"), "Host: a\r\n"),
		get("/scrape?info_hash=" + escAll(h[:]) + "&info_hash=" + escMin(h[:])),
		get("/heartbeat", "Host: a\r\n"),
		get("/stats"),
		get("/"),
		get("/nothing?x=%41"),
		b64(get("/scrape?info_hash=" + escMin(h[:]))),
		b64(get(annURL(h, id, 81, "no_peer_id=1"))),
	}
}

// cutRequests: requests that end after any byte.
func cutRequests() {
	db, l, m, hs := httpEnv(nil)
	ks := reqKinds()
	r := ks[vs.Choose(len(ks))]
	n := vs.Choose(len(r)) + 1
	if n == len(r) {
		Note("whole request")
	}
	m.do(l, db, cli(1), r[:n], hs)
	vs.Observe(string(r[:n]))
	Note("%d bytes of %q", n, r)
}

// requestLines: methods, versions and paths that are not right.
func requestLines() {
	db, l, m, hs := httpEnv(nil)
	h, id := hashN(0), idN(5)
	target := []string{annURL(h, id, 80), "/scrape?info_hash=" + escMin(h[:]), "/heartbeat", "/", annURL(h, id, 80, "x="+strings.Repeat("y", 1400))}[vs.Choose(5)]
	method := []string{"GET", "POST", "HEAD", "get", "", "GETX", "XGET", " GET", "\r\nGET", "GET GET", "G", "OPTIONS", "PUT /x HTTP/1.1\r\n\r\nGET"}[vs.Choose(13)]
	sep := []string{" ", "  ", "\t", ""}[vs.Choose(4)]
	version := []string{" HTTP/1.1", " HTTP/1.0", "", " http/1.1", "HTTP/1.1", "\r\nA: b HTTP/1.1", " \r\nHTTP/1.1", "\nX: HTTP/1.1"}[vs.Choose(8)]
	end := []string{"\r\n\r\n", "", "\r\nHost: x HTTP/1.1\r\n\r\n", "\r\nReferer: GET /announce?info_hash=1 HTTP/1.1\r\n\r\n"}[vs.Choose(4)]
	req := []byte(method + sep + target + version + end)
	if method == "GET" && sep != " " && version != "" {
		// white space the parser may or may not tolerate: only 400 or 404 make sense
	}
	m.do(l, db, cli(1), req, hs)
	vs.Observe(string(req))
	Note("%q", req)
}

// escapes: every string over a small alphabet as the end of an info_hash.
func escapes(n int) func() {
	return func() {
		db, l, m, hs := httpEnv(nil)
		const abc = "4aF%&=?z+"
		k := vs.Choose(n + 1)
		var s []byte
		for i := 0; i < k; i++ {
			s = append(s, abc[vs.Choose(len(abc))])
		}
		pre := 17
		if vs.Choose(2) == 1 {
			pre = 19
		}
		t := "/scrape?info_hash=" + strings.Repeat("h", pre) + string(s)
		m.do(l, db, cli(1), get(t), hs)
		vs.Observe(t)
		Note("%s", t)
	}
}

// queries: every short query string.
func queries(n int) func() {
	return func() {
		db, l, m, hs := httpEnv(nil)
		abc := []string{"&", "=", "%41", "x", "?", "%", "info_hash=" + strings.Repeat("q", 20), "info_hash=q", "/"}
		k := vs.Choose(n + 1)
		t := []string{"/scrape?", "/heartbeat?", "/?", "/none?"}[vs.Choose(4)]
		for i := 0; i < k; i++ {
			t += abc[vs.Choose(len(abc))]
		}
		m.do(l, db, cli(1), get(t), hs)
		vs.Observe(t)
		Note("%s", t)
	}
}

// base64Forms: encoded requests, whole, cut and damaged.
func base64Forms() {
	db, l, m, hs := httpEnv(nil)
	ks := reqKinds()
	r := b64(ks[vs.Choose(7)])
	switch vs.Choose(4) {
	case 0:
	case 1:
		p := vs.Choose(len(r))
		r[p] = []byte{'!', '=', 0, 'A', '-', '\n'}[vs.Choose(6)]
	case 2:
		r = r[:len(r)-1-vs.Choose(5)]
	case 3:
		r = append(r, []string{"\r\n", "=", "A", "GET / HTTP/1.1", "\n\n", " "}[vs.Choose(6)]...)
	}
	m.do(l, db, cli(1), r, hs)
	vs.Observe(string(r))
	Note("%q", r)
}

// ---- C19 ----

func workerReqs(long bool) (rs [][]byte) {
	h, g, id := hashN(0), hashN(1), idN(5)
	rs = reqKinds()
	a := get(annURL(g, idN(6), 99, "left=0"), "X-Forwarded-For: 9.9.9.9\r\n", "Cookie: secret\r\n")
	rs = append(rs,
		a,
		[]byte("GET /announce?info_hash="+escMin(h[:])),
		[]byte("GET /scrape?info_hash="+escMin(h[:])+"&info_hash=x"),
		[]byte("GET /scrape?info_hash=short HTTP/1.1\r\n\r\n"),
		[]byte("GET"),
		[]byte("GET /"),
		[]byte("X"),
		[]byte("R0VU"),
		[]byte("R0VUIC9zY3J!"),
		[]byte("\r\n"),
		[]byte("POST /announce HTTP/1.1\r\n\r\n"),
		get("/announce?info_hash=%4"),
		get(annURL(g, id, 0)),
		get(annURL(h, idN(60), 7, "event=stopped")),
		get(annURL(h, idN(61), 80, "numwant=1")),
	)
	if long {
		for i := 1; i < len(a); i += 9 {
			rs = append(rs, a[:i])
		}
		rs = append(rs, get(annURL(h, id, 80, "x="+strings.Repeat("z", 4000))))
		rs = append(rs, bytes.Repeat([]byte{'a'}, 5000))
	}
	return rs
}

// workerSeq: sequences of requests on one worker; every reply is compared with the memoryless model.
func workerSeq(n int, faults, long bool) func() {
	return func() {
		db, l, m, hs := httpEnv(nil)
		rs := workerReqs(long)
		var hist []string
		one := !faults && vs.Choose(2) == 1 // all from one client or each from another one
		from := func(i int) netip.AddrPort {
			if one {
				return cli(1)
			}
			return cli(1 + i)
		}
		for i := 0; i < n; i++ {
			k := vs.Choose(len(rs))
			hist = append(hist, fmt.Sprint(k))
			if faults && i < n-1 {
				switch f := vs.Choose(4); f {
				case 1, 2: // the reply cannot be sent (completely)
					c := vnet.NewConn(cli(1), true, rs[k])
					c.WriteErr, c.Short = 1, (f-1)*20
					hist[i] += " write fails"
					l.Connect(c)
					vs.WaitIdle()
					full := append([]byte(nil), c.Out...)
					_ = full
					if e := closedOnce(c); e != "" {
						vs.Fail("%s after %v", e, hist)
						return
					}
					m.effect(cli(1), rs[k])
					continue
				case 3: // nothing arrives
					c := vnet.NewConn(cli(1), true)
					if vs.Choose(2) == 1 {
						c.FailRead(syscall.ECONNRESET)
					}
					hist[i] = "no request"
					l.Connect(c)
					vs.WaitIdle()
					if e := closedOnce(c); e != "" {
						vs.Fail("%s after %v", e, hist)
						return
					}
					continue
				}
			}
			if !m.do(l, db, from(i), rs[k], hs) {
				vs.Fail("history %v", hist)
				return
			}
		}
		vs.Observe(strings.Join(hist, ","))
		Note("%v", hist)
	}
}

// effect applies what a request does, without looking at the reply.
func (m *hmodel) effect(from netip.AddrPort, req []byte) {
	r := refParse(req)
	if r.bad || r.path != "/announce" {
		return
	}
	m.announce(from, r, []byte("de"))
}

// zoned is the link-local address of a client on one of the host's networks.
func zoned(n int) netip.Addr {
	a := netip.AddrFrom16([16]byte{0xfe, 0x80, 15: byte(n)})
	useIP(a)
	return useIP(a.WithZone("eth0"))
}

// ---- C20 ----

func opt(k string, vals ...string) string {
	v := vals[vs.Choose(len(vals))]
	if v == "-" {
		return ""
	}
	if v == "!" {
		return "&" + k
	}
	return "&" + k + "=" + v
}

// announceFields: every combination of good and bad field values.
func announceFields() {
	db, l, m, _ := httpEnv(nil)
	h, id := hashN(0), idN(5)
	hx := escMin(h[:])
	ix := escMin(id[:])
	q := opt("info_hash", hx, "-", "", hx[:len(hx)-3], hx+"A", "!") +
		opt("peer_id", ix, "-", "", ix[:len(ix)-3], ix+"%00") +
		opt("port", "6881", "-", "", "0", "1", "65535", "65536", "-1", "abc", "80a", "65617", "18446744073709551697", "%38%30", "%2080", "80%20", "080", "0x50", "8_0", "80.0", "8e1") +
		opt("numwant", "-", "", "0", "1", "3", "4", "5", "6", "-1", "x", "4294967297", "99999999999999999999999", "03", "%203", "0x3", "1_0", "3.0") +
		opt("event", "-", "started", "stopped", "completed", "Stopped", "stopped%20", "stop")
	t := "/announce?" + strings.TrimPrefix(q, "&")
	m.do(l, db, cli(1), get(t), []storage.Hash{hashN(0), hashN(1)})
	vs.Observe(t)
	Note("%s", t)
}

// announceForms: reply forms, wanted numbers, completeness and families over swarms of different sizes.
func announceForms() {
	rand.Explore = false
	db, l, m, hs := httpEnv(func(c *config.Configuration) { c.Announce.Fuzz = 0 })
	h, id := hashN(2), idN(3)
	n := []int{0, 2, 4, 6}[vs.Choose(4)]
	fam := []int{0, 0x15, 0x3f}[vs.Choose(3)]
	vs.Quiet(func() { swarmOf(db, m.db, h, n, fam) })
	t := annURL(h, id, 6881) + opt("event", "-", "started", "completed", "", "Completed", "paused") + opt("left", "-", "0", "1", "00", "!", "") +
		opt("compact", "-", "1", "0", "!", "2") + opt("no_peer_id", "-", "1", "0", "!") + opt("numwant", "-", "0", "1", "4", "5", "6", "1000000")
	from := cli(1)
	switch vs.Choose(3) {
	case 1:
		from = ap(ip6(9), 4000)
	case 2:
		from = ap(zoned(1), 4000)
	}
	m.do(l, db, from, get(t), hs)
	vs.Observe(fmt.Sprint(t, n, fam, from))
	Note("%s from %v, %d peers", t, from, n)
}

// ignored: parameters which have no meaning here, anywhere in the query.
func ignored() {
	rand.Explore = false
	db, l, m, hs := httpEnv(func(c *config.Configuration) { c.Announce.Fuzz = 0 })
	h, id := hashN(1), idN(3)
	vs.Quiet(func() { swarmOf(db, m.db, h, 2, 1) })
	keys := []string{"ip", "ipv4", "ipv6", "key", "uploaded", "downloaded", "corrupt", "trackerid", "supportcrypto", "requirecrypto", "redundant", "azver", "info", "num_want", "Port", "PORT", "port%00", "x", "", "hash", "peerid", "numWant", "Left", "cryptoport"}
	vals := []string{"=9.9.9.9", "=2001:db8::9", "=0", "=1", "=80", "", "=", "=%31%3d2", "=localhost", "=AAAAAAAAAAAAAAAAAAAA", "=completed"}
	x := keys[vs.Choose(len(keys))] + vals[vs.Choose(len(vals))]
	ps := []string{"info_hash=" + escMin(h[:]), "peer_id=" + escMin(id[:]), "port=6881"}
	ps = append(ps, []string{"left=5", "compact=1", "event=stopped", "event=completed"}[vs.Choose(4)])
	at := vs.Choose(3) * 2
	ps = append(ps[:at:at], append([]string{x}, ps[at:]...)...)
	if vs.Choose(2) == 1 {
		ps = append(ps, x)
	}
	from := cli(1)
	if vs.Choose(2) == 1 {
		from = ap(ip6(9), 4000)
	}
	t := "/announce?" + strings.Join(ps, "&")
	m.do(l, db, from, get(t), hs)
	vs.Observe(t)
	Note("%s", t)
}

// intervals: base and fuzz values with the random part at both ends.
func intervals() {
	base := []time.Duration{0, time.Second, 30 * minute, 10 * time.Hour}[vs.Choose(4)]
	fuzz := []time.Duration{0, 500 * time.Millisecond, time.Second, 2 * time.Second, 10 * minute}[vs.Choose(5)]
	rand.Explore = true
	defer func() { rand.Explore = false }()
	db, l, m, hs := httpEnv(func(c *config.Configuration) { c.Announce.Base, c.Announce.Fuzz = base, fuzz })
	m.do(l, db, cli(1), get(annURL(hashN(0), idN(1), 1)), hs)
	Note("base %v fuzz %v", base, fuzz)
	vs.Observe(fmt.Sprint(base, fuzz))
}

// limits: default and limit of the wanted number.
func limits() {
	d := uint([]int{0, 1, 3, 5, 200}[vs.Choose(5)])
	lim := uint([]int{0, 1, 3, 5, 200, 1000}[vs.Choose(6)])
	db, l, m, hs := httpEnv(func(c *config.Configuration) { c.Numwant.Default, c.Numwant.Limit = d, lim })
	h := hashN(2)
	n := []int{0, 1, 4, 6, 199, 201, 1001}[vs.Choose(7)]
	vs.Quiet(func() { swarmOf(db, m.db, h, n, []int{0, 0x5555555555555555}[vs.Choose(2)]) })
	t := annURL(h, idN(500), 9) + opt("compact", "-", "1") + opt("numwant", "-", "0", fmt.Sprint(d), fmt.Sprint(lim), fmt.Sprint(lim+1), fmt.Sprint(n), fmt.Sprint(n+1))
	m.do(l, db, cli(1), get(t), hs)
	Note("default %d limit %d swarm %d: %s", d, lim, n, t)
	vs.Observe(fmt.Sprint(d, lim, n, t))
}

// announceSeq: histories of announces by several clients.
func announceSeq(n int) func() {
	return func() {
		db, l, m, hs := httpEnv(nil)
		var ts []string
		for _, c := range []int{0, 1} {
			ts = append(ts, annURL(hashN(0), idN(c), 80+c, "left=1"), annURL(hashN(0), idN(c), 90+c, "left=0", "compact=1"), annURL(hashN(0), idN(c), 80+c, "event=stopped"), annURL(hashN(1), idN(c), 80, "event=completed", "numwant=1"))
		}
		ts = append(ts, annURL(hashN(2), idN(0), 70000), "/scrape?info_hash="+escMin([]byte("BBBBBBBBBBBBBBBBBBB\x01")))
		var hist []string
		for i := 0; i < n; i++ {
			k := vs.Choose(len(ts))
			from := cli(k % 3)
			switch k {
			case 1:
				from = ap(ip6(k), 5000)
			case 2, 4:
				from = ap(zoned(k), 5000)
			case 7:
				from = ap(zoned(4), 5000)
			}
			hist = append(hist, fmt.Sprint(k))
			if !m.do(l, db, from, get(ts[k]), hs) {
				vs.Fail("history %v", hist)
				return
			}
		}
		vs.Observe(m.db.digest(hs...))
		Note("%v", hist)
	}
}

// ---- C21 ----

func scrapeCounts() {
	db, l, m, hs := httpEnv(nil)
	n := vs.Choose(41)
	esc := []func([]byte) string{escMin, escAll}[vs.Choose(2)]
	other := vs.Choose(4)
	enc := vs.Choose(2) == 1
	var ps []string
	for i := 0; i < n; i++ {
		h := hashN(i % 37)
		if i%7 == 3 {
			h = hashN(i % 2)
		}
		ps = append(ps, "info_hash="+esc(h[:]))
		if other == 1 && i == n/2 {
			ps = append(ps, "x=1", "info_hash2="+esc(h[:]), "infohash="+esc(h[:]))
		}
	}
	switch other {
	case 2:
		ps = append([]string{"passkey=abcdef", "a"}, ps...)
	case 3:
		ps = append(ps, "compact=1", "peer_id=1")
	}
	req := get("/scrape?"+strings.Join(ps, "&"), "Host: tracker\r\n")
	if len(ps) == 0 {
		req = get("/scrape", "Host: tracker\r\n")
	}
	if enc {
		req = b64(req)
	}
	m.do(l, db, cli(1), req, hs)
	vs.Observe(string(req))
	Note("%d hashes, other parameters %d, base64 %v", n, other, enc)
}

func scrapeLists(n int) func() {
	return func() {
		db, l, m, hs := httpEnv(nil)
		a, b, c := hashN(0), hashN(1), hashN(9)
		abc := []string{"info_hash=" + escMin(a[:]), "info_hash=" + escAll(b[:]), "info_hash=" + escMin(c[:]), "info_hash=" + escMin(a[:19]), "info_hash=", "info_hash=" + escMin(a[:]) + "a", "foo=1", "", "info_hash", "Info_Hash=" + escMin(a[:]), "%69nfo_hash=" + escMin(b[:])}
		k := vs.Choose(n + 1)
		var ps []string
		for i := 0; i < k; i++ {
			ps = append(ps, abc[vs.Choose(len(abc))])
		}
		t := "/scrape?" + strings.Join(ps, "&")
		m.do(l, db, cli(1), get(t), hs)
		vs.Observe(t)
		Note("%s", t)
	}
}

// scrapeSwarms: swarms of all compositions after short histories.
func scrapeSwarms() {
	db, l, m, hs := httpEnv(nil)
	h := hashN(2)
	for i := 0; i < 3; i++ {
		o := vs.Choose(5)
		switch o {
		case 1, 2:
			do(db, m.db, op{k: 's', h: 2, id: i, ip: ip4(i), port: 1, c: o == 1})
		case 3, 4:
			do(db, m.db, op{k: 's', h: 2, id: i, ip: ip4(i), port: 1, c: o == 3})
			do(db, m.db, op{k: 's', h: 2, id: i, ip: ip4(i), port: 1, c: o == 4})
		}
	}
	if vs.Choose(2) == 1 {
		do(db, m.db, op{k: 'd', h: 2, id: 1})
	}
	hh := append([]storage.Hash{h}, hs...)
	var ps []string
	for _, x := range hh {
		ps = append(ps, "info_hash="+escMin(x[:]))
	}
	m.do(l, db, cli(1), get("/scrape?"+strings.Join(ps, "&")), hs)
	vs.Observe(m.db.digest(hs...))
	Note("%s", m.db.digest(h))
}

// ---- C22 ----

// probe sends a valid request on a torrent of its own and demands the right answer.
func httpProbe(db storage.Database, l *vnet.Lst, m *hmodel, hist string) {
	h := hashN(40)
	c := send(l, cli(77), get(annURL(h, idN(77), 7777, "left=0", "compact=1")))
	p := model{}
	p.save(h, idN(77), mpeer{cli(77).Addr(), 7777, true, nowSec()})
	if !c.Served || !c.Closed {
		vs.Fail("[stuck] the next valid request is not served (accepted %v, closed %v) after %s", c.Served, c.Closed, hist)
		return
	}
	pm := &hmodel{db: p, files: m.files}
	q := model{}
	pm.db = q
	if e := pm.check(cli(77), get(annURL(h, idN(77), 7777, "left=0", "compact=1")), c.Out); e != "" {
		vs.Fail("the next valid request: %s; after %s", e, hist)
		return
	}
	db.Drop(h, idN(77))
}

func mutHTTP() {
	db, l, m, _ := httpEnv(func(c *config.Configuration) { c.HTTP.Threads, c.LogLevel = 2, logLevels[vs.Choose(2)] })
	ks := reqKinds()
	ks = append(ks, get(annURL(hashN(0), idN(5), 80), "Host: x\r\n", "X-Forwarded-For: 1.2.3.4, 5.6.7.8\r\n"))
	r := append([]byte(nil), ks[vs.Choose(len(ks))]...)
	p := vs.Choose(len(r))
	switch k := vs.Choose(13); k {
	case 0: // cut
		r = r[:p]
	case 1: // dropped byte
		r = append(r[:p], r[p+1:]...)
	case 2: // doubled byte
		r = append(r[:p+1], r[p:]...)
	default:
		r[p] = []byte{0, '%', '&', '=', ' ', '\n', 0xff, '?', '/', ','}[k-3]
	}
	var c *vnet.Conn
	if len(r) == 0 {
		c = vnet.NewConn(cli(1), true)
	} else {
		c = vnet.NewConn(cli(1), true, r)
	}
	l.Connect(c)
	vs.WaitIdle()
	if e := closedOnce(c); e != "" {
		vs.Fail("%s (request %q)", e, r)
		return
	}
	if _, _, ok := reply(c.Out); !ok && len(r) > 0 {
		vs.Fail("reply %q to %q", c.Out, r)
		return
	}
	httpProbe(db, l, m, fmt.Sprintf("%q", r))
	httpProbe(db, l, m, fmt.Sprintf("%q", r))
	vs.Observe(string(r))
	Note("%q", r)
}

// shortStreams: every byte string of length up to n over an alphabet of troublesome bytes.
func shortStreams(n int) func() {
	return func() {
		db, l, m, _ := httpEnv(nil)
		abc := []string{"GET ", "/", " HTTP/", "?", "&", "%", "=", "\r\n", "R0VU", "info_hash=", "announce", "scrape", "X-Forwarded-For:", " ", ","}
		k := vs.Choose(n) + 1
		s := ""
		for i := 0; i < k; i++ {
			s += abc[vs.Choose(len(abc))]
		}
		c := send(l, cli(1), []byte(s))
		if e := closedOnce(c); e != "" {
			vs.Fail("%s (request %q)", e, s)
			return
		}
		if _, _, ok := reply(c.Out); !ok {
			vs.Fail("reply %q to %q", c.Out, s)
			return
		}
		httpProbe(db, l, m, fmt.Sprintf("%q", s))
		vs.Observe(s)
		Note("%q", s)
	}
}

// httpFaults: sequences of connections with every kind of network fault.
func httpFaults(n, threads int) func() {
	return func() {
		db, l, m, _ := httpEnv(func(c *config.Configuration) { c.HTTP.Threads = threads })
		h, id := hashN(0), idN(5)
		reqs := [][]byte{
			get(annURL(h, id, 80, "compact=1")),
			get(annURL(h, id, 0)),
			get("/scrape?info_hash=" + escAll(h[:])),
			get("/stats"),
			get("/heartbeat"),
			get("/"),
			[]byte("garbage"),
			[]byte("R0VU!"),
		}
		var hist []string
		var cs []*vnet.Conn
		for i := 0; i < n; i++ {
			f := vs.Choose(9)
			k := 0
			if f > 3 && f < 8 {
				k = vs.Choose(len(reqs))
			}
			hist = append(hist, fmt.Sprintf("fault %d request %d", f, k))
			var c *vnet.Conn
			switch f {
			case 0:
				l.FailAccept(syscall.EMFILE)
			case 1:
				l.FailAccept(syscall.ECONNABORTED)
			case 2: // closes without a request
				c = vnet.NewConn(cli(i), true)
			case 3: // reset
				c = vnet.NewConn(cli(i), false)
				c.FailRead(syscall.ECONNRESET)
			case 4: // the first write fails
				c = vnet.NewConn(cli(i), true, reqs[k])
				c.WriteErr = 1
			case 5: // the first write is short
				c = vnet.NewConn(cli(i), true, reqs[k])
				c.WriteErr, c.Short = 1, 10
			case 6: // the second write fails
				c = vnet.NewConn(cli(i), true, reqs[k])
				c.WriteErr = 2
			case 7: // never reads
				c = vnet.NewConn(cli(i), true, reqs[k])
				c.WriteBlk = true
			case 8: // never sends
				c = vnet.NewConn(cli(i), false)
			}
			if c != nil {
				l.Connect(c)
				cs = append(cs, c)
			}
			if vs.Choose(2) == 1 {
				vs.WaitIdle()
			}
		}
		// however long clients stall, their deadline frees the worker
		for i := 0; i < n+1; i++ {
			vs.Advance(int64(10 * time.Second))
			vs.WaitIdle()
		}
		for i, c := range cs {
			if e := closedOnce(c); e != "" {
				vs.Fail("connection %d: %s; after %v", i, e, hist)
				return
			}
		}
		for i := 0; i < threads+1; i++ {
			httpProbe(db, l, m, fmt.Sprint(hist))
		}
		vs.Observe(strings.Join(hist, ","))
		Note("%v", hist)
	}
}

// slowClients: clients that send and take their reply late; the timeouts count from accept.
func slowClients() {
	tv := []time.Duration{500 * time.Millisecond, 2500 * time.Millisecond, 7 * time.Second, 20 * time.Second}
	rd, wr := tv[vs.Choose(4)], tv[vs.Choose(4)]
	db, l, m, _ := httpEnv(func(c *config.Configuration) {
		c.HTTP.Timeout.Read, c.HTTP.Timeout.Write, c.HTTP.Threads = rd, wr, 1
	})
	delays := []time.Duration{0, 2 * time.Second, 6 * time.Second, 19 * time.Second, time.Hour}
	var hist string
	for i := 0; i < 2; i++ {
		// when the request arrives and when the client starts to take the reply, counted from accept
		d, u := delays[vs.Choose(len(delays))], delays[vs.Choose(len(delays))]
		hist += fmt.Sprintf("request after %v, reading after %v; ", d, u)
		t0 := vs.Now()
		req := get("/heartbeat")
		c := vnet.NewConn(cli(i), false)
		if d < time.Hour {
			c.SendAt(t0+int64(d), req)
		}
		c.Unblock = t0 + int64(u)
		l.Connect(c)
		vs.WaitIdle()
		for c.ClosedAt == 0 && vs.Now() < t0+int64(2*time.Hour) {
			vs.Advance(int64(500 * time.Millisecond))
			vs.WaitIdle()
		}
		if e := closedOnce(c); e != "" {
			vs.Fail("%s: %s", hist, e)
			return
		}
		took := time.Duration(c.ClosedAt - t0)
		last := d
		if u > last {
			last = u
		}
		want, ok := last, d < rd && last < wr
		switch {
		case d >= rd:
			want = rd
		case last >= wr:
			want = wr
			if d > wr {
				want = d
			}
		}
		if took != want || ok != (len(c.Out) > 0) {
			vs.Fail("read timeout %v, write timeout %v, %s: the connection was closed after %v with the reply %q, expected %v (reply: %v)", rd, wr, hist, took, c.Out, want, ok)
			return
		}
	}
	httpProbe(db, l, m, hist)
	vs.Observe(fmt.Sprint(rd, wr, hist))
	Note("read timeout %v write timeout %v %s", rd, wr, hist)
}

func udpProbe(db storage.Database, s *vnet.USock, hist string) {
	m := newU()
	from := cli(77)
	for _, d := range [][]byte{udpReq(udpMagic, 0, 7), nil} {
		if d == nil {
			d = annReq{connid: m.conns[from].id, txid: 9, hash: hashN(40), id: idN(77), port: 77}.bytes()
		}
		r := exchange(s, from, false, d)
		if e := m.check(from, d, r); e != "" {
			vs.Fail("[probe] the next valid request: %s; after %s", e, hist)
			return
		}
	}
	db.Drop(hashN(40), idN(77))
}

// mutUDP: every single-byte change and every length of every kind of datagram.
func mutUDP() {
	setup(func(c *config.Configuration) {
		c.UDP.ConnDB.Validate, c.LogLevel = vs.Choose(2) == 0, logLevels[vs.Choose(2)]
	})
	db := openDB()
	_, s := startUDP(db)
	m := newU()
	from := cli(1)
	d := udpReq(udpMagic, 0, 1)
	if e := m.check(from, d, exchange(s, from, false, d)); e != "" {
		vs.Fail("%s", e)
		return
	}
	id := m.conns[from].id
	ks := [][]byte{d, annReq{connid: id, txid: 3, hash: hashN(0), id: idN(1), port: 8}.bytes(), annReq{connid: id, txid: 3, hash: hashN(0), id: idN(1), port: 8, event: 3}.bytes(), scrapeReq(id, 4, hashN(0), hashN(1)), append(udpReq(id, 3, 5), "oops"...), udpReq(id, 4, 5)}
	b := append([]byte(nil), ks[vs.Choose(len(ks))]...)
	p := vs.Choose(len(b))
	switch k := vs.Choose(10); k {
	case 0:
		b = b[:p]
	case 1:
		b = append(b, make([]byte, p*17)...)
	default:
		b[p] = []byte{0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff}[k-2]
	}
	reps := exchange(s, from, vs.Choose(2) == 1, b)
	if len(reps) > 1 {
		vs.Fail("%d replies to %x", len(reps), b)
	}
	udpProbe(db, s, fmt.Sprintf("%x", b))
	vs.Observe(string(b))
	Note("%x", b)
}

// udpFaults: failing receives and sends around valid datagrams.
func udpFaults(n int) func() {
	return func() {
		setup(func(c *config.Configuration) { c.UDP.Threads = 2 })
		vnet.WriteErrs = false
		db := openDB()
		_, s := startUDP(db)
		var hist []string
		for i := 0; i < n; i++ {
			f := vs.Choose(7)
			hist = append(hist, fmt.Sprint(f))
			switch f {
			case 0:
				s.Fault(syscall.ECONNREFUSED)
			case 1:
				s.Fault(syscall.ENOBUFS)
			case 2:
				s.Send(cli(i), false, nil)
			case 3:
				s.Send(cli(i), false, udpReq(udpMagic, 0, 1)[:9])
			case 4, 5, 6:
				vnet.WriteErrs = true
				d := udpReq(udpMagic, 0, 1)
				if f == 5 {
					d = annReq{connid: 5, txid: 3, hash: hashN(0), id: idN(1), port: 8}.bytes()
				} else if f == 6 {
					d = scrapeReq(9, 3)
				}
				s.Send(cli(i), false, d)
				vs.WaitIdle()
				vnet.WriteErrs = false
			}
			if vs.Choose(2) == 1 {
				vs.WaitIdle()
			}
		}
		vs.WaitIdle()
		s.TakeOut()
		for i := 0; i < 3; i++ {
			udpProbe(db, s, fmt.Sprint(hist))
		}
		vs.Observe(strings.Join(hist, ","))
		Note("%v", hist)
	}
}

// ---- C23 ----

// forwardHeaders: every header value of up to three entries.
func forwardHeaders(n int) func() {
	return func() {
		db, l, m, hs := httpEnv(nil)
		ent := []string{"1.2.3.4", "2001:db8::7", "", "x", "300.1.1.1", "1.2.3.4:80", "::ffff:9.8.7.6", "fe80::7%eth0"}
		sep := []string{", ", ",", " ,", " , ", ",  "}
		k := vs.Choose(n) + 1
		v := ""
		for i := 0; i < k; i++ {
			if i > 0 {
				v += sep[vs.Choose(len(sep))]
			}
			if i == k-1 {
				v += ent[vs.Choose(len(ent))]
			} else {
				v += ent[vs.Choose(4)]
			}
		}
		colon := []string{": ", ":"}[vs.Choose(2)]
		tail := []string{"", " "}[vs.Choose(2)]
		// IPv4-mapped addresses may be stored in either form
		if strings.HasSuffix(strings.TrimSpace(v), "::ffff:9.8.7.6") {
			v = strings.ReplaceAll(v, "::ffff:9.8.7.6", "9.8.7.6")
		}
		hd := []string{"Host: x\r\n", "X-Forwarded-For" + colon + v + tail + "\r\n", "X-Forwarded-Proto: http\r\n"}
		switch vs.Choose(3) {
		case 1:
			hd[0], hd[1] = hd[1], hd[0]
		case 2:
			hd = hd[:2]
		}
		t := annURL(hashN(0), idN(1), 80, []string{"left=0", "event=stopped"}[vs.Choose(2)])
		m.do(l, db, cli(1), get(t, hd...), hs)
		vs.Observe(fmt.Sprintf("%q", hd))
		Note("%q", hd)
	}
}

// forwardLong: long lists, far back in the request.
func forwardLong() {
	db, l, m, hs := httpEnv(nil)
	n := []int{4, 10, 50, 99, 150, 200}[vs.Choose(6)]
	pad := []int{0, 200, 900, 1800}[vs.Choose(4)]
	last := []string{"1.2.3.4", "2001:db8::7", "x", ""}[vs.Choose(4)]
	v := ""
	for i := 1; i < n; i++ {
		v += fmt.Sprintf("10.0.%d.%d, ", i/100, i%100)
	}
	hd := []string{"Host: x\r\n"}
	for ; pad > 0; pad -= 50 {
		hd = append(hd, "Pad: 0123456789012345678901234567890123456789012\r\n")
	}
	r := get(annURL(hashN(0), idN(1), 80), append(hd, "X-Forwarded-For: "+v+last+"\r\n", "Accept: */*\r\n")...)
	if len(r) > 4096 {
		return
	}
	m.do(l, db, cli(1), r, hs)
	vs.Observe(fmt.Sprint(n, len(r), last))
	Note("%d entries, request of %d bytes, last %q", n, len(r), last)
}

// forwardSeq: requests with, without and with forged headers after each other.
func forwardSeq(n int) func() {
	return func() {
		db, l, m, hs := httpEnv(nil)
		t := annURL(hashN(0), idN(1), 80)
		x := "X-Forwarded-For: 9.9.9.9\r\n"
		pad := strings.Repeat("Pad: 0123456789012345678901234567890123456789\r\n", 4)
		rs := [][]byte{
			get(t, "X-Forwarded-For: 5.5.5.5\r\n"),
			get(t),
			get(annURL(hashN(1), idN(2), 81, "left=0"), pad, "X-Forwarded-For: 6.6.6.6, 7.7.7.7\r\n"),
			get(t, "User-Agent: "+x),
			get(t, "My-"+x),
			get(annURL(hashN(0), idN(1), 80, "x="+escAll([]byte("\r\n"+x)))),
			get(annURL(hashN(0), idN(1), 80, "x="+escAll([]byte("\r\n"+x))), "X-Forwarded-For: 4.4.4.4\r\n"),
			get(annURL(hashN(0), idN(1), 80, "x="+escAll([]byte(x)))),
			[]byte("GET " + t + " HTTP/1.1\r\nX-Forwarded-For: 5.5.5.5"),
			[]byte("GET " + t + " HTTP/1.1\r\nX-Forwarded-For: "),
			[]byte("GET " + t + " HTTP/1.1"),
			get("/heartbeat", x),
			get("/scrape?info_hash="+escMin([]byte(strings.Repeat("A", 19)+"\x00")), x),
			append(get(t), x...), // after the end of the headers
		}
		var hist []string
		one := vs.Choose(2) == 1 // all from one client or each from another one
		from := func(i int) netip.AddrPort {
			if one {
				return cli(1)
			}
			return cli(1 + i)
		}
		for i := 0; i < n; i++ {
			k := vs.Choose(len(rs))
			hist = append(hist, fmt.Sprint(k))
			if !m.do(l, db, from(i), rs[k], hs) {
				vs.Fail("history %v", hist)
				return
			}
		}
		vs.Observe(strings.Join(hist, ","))
		Note("%v", hist)
	}
}

// specialAnnounces: clients of all kinds of addresses in all reply forms, seen by another client; forwarded or themselves.
func specialAnnounces(fwd bool) func() {
	return func() {
		rand.Explore = false
		db, l, m, hs := httpEnv(func(c *config.Configuration) { c.Announce.Fuzz = 0 })
		s := specialIPs[vs.Choose(len(specialIPs))]
		a := useIP(netip.MustParseAddr(s))
		other := []netip.AddrPort{cli(5), ap(ip6(5), 4000)}[vs.Choose(2)]
		ask := func(from netip.AddrPort, form string) bool {
			hd := []string{"Host: x\r\n"}
			if fwd {
				hd = append(hd, "X-Forwarded-For: "+from.Addr().String()+"\r\n")
			}
			return m.do(l, db, from, get(annURL(hs[0], idN(5), 4005, form), hd...), hs)
		}
		var hd []string
		c := ap(a, []uint16{1, 80, 65535}[vs.Choose(3)])
		if fwd {
			c = []netip.AddrPort{cli(1), ap(netip.MustParseAddr("10.9.9.9"), 77), ap(ip6(9), 78)}[vs.Choose(3)]
			v := []string{"", "1.2.3.4, ", "10.0.0.1, 9.9.9.9,", "x, ", ", "}[vs.Choose(5)]
			hd = []string{"X-Forwarded-For: " + v + s + "\r\n"}
		}
		form := []string{"compact=1", "compact=0", "no_peer_id=1"}[vs.Choose(3)]
		for _, q := range []string{"left=5", "left=0", "event=completed", "event=stopped", "event=started"} {
			if !m.do(l, db, c, get(annURL(hs[0], idN(1), 80, q, form), hd...), hs) || !ask(other, form) {
				return
			}
		}
		m.do(l, db, other, get("/scrape?info_hash="+escMin(hs[0][:])), hs)
		vs.Observe(fmt.Sprint(s, c, hd, form, other))
		Note("%s from %v %q %s", s, c, hd, form)
	}
}

// ---- C28 ----

// pageNames are the paths of the embedded files.
func pageNames(m *hmodel) (names []string) {
	for k := range m.files {
		names = append(names, k)
	}
	sort.Strings(names)
	return
}

func pages() {
	db, l, m, hs := httpEnv(nil)
	names := pageNames(m)
	names = append(names, "/trakx.yaml", "/announce", "/scrape", "/heartbeat", "/stats", "/embedded/index.html", "/embedded/trakx.yaml", "/favicon.ico")
	sort.Strings(names)
	p := names[vs.Choose(len(names))]
	pos := vs.Choose(len(p) + 1)
	switch k := vs.Choose(9); k {
	case 0:
	case 1:
		if pos == len(p) {
			p = p[:len(p)-1]
		} else {
			p = p[:pos] + p[pos+1:]
		}
	case 2, 3, 4, 5, 6:
		p = p[:pos] + []string{"/", ".", "..", "%2f", "x"}[k-2] + p[pos:]
	case 7:
		p = strings.ToUpper(p[:pos]) + p[pos:]
	case 8:
		p = []string{"/.", "/..", "//", "/embedded", "/embedded/..", "/x/.."}[vs.Choose(6)] + p
	}
	t := p + []string{"", "?", "?a=b", "?trakx.yaml", "#x"}[vs.Choose(5)]
	if !strings.HasPrefix(t, "/") {
		t = "/" + t
	}
	if strings.HasPrefix(refParse(get(t)).path, "/announce") || strings.HasPrefix(refParse(get(t)).path, "/scrape") {
		t += ""
	}
	c := send(l, cli(1), get(t))
	if e := closedOnce(c); e != "" {
		vs.Fail("%s (%s)", e, t)
		return
	}
	if e := m.check(cli(1), get(t), c.Out); e != "" && e != "vague" {
		vs.Fail("%s (%s)", e, t)
	}
	if bytes.Contains(c.Out, []byte("db:")) && bytes.Contains(c.Out, []byte("numwant")) {
		vs.Fail("the configuration is served at %s", t)
	}
	_, _ = db, hs
	vs.Observe(t)
	Note("%s", t)
}

// infoPages: the running tracker in info mode.
func infoPages() {
	setup(func(c *config.Configuration) {
		c.HTTP.Mode = "info"
		c.UDP.Enabled = vs.Choose(2) == 1
	})
	markLoaded()
	files := embedded()
	var names []string
	for k := range files {
		names = append(names, k)
	}
	names = append(names, "/trakx.yaml", "/announce", "/scrape", "/heartbeat", "/stats", "/embedded/trakx.yaml", "/favicon.ico")
	sort.Strings(names)
	name := names[vs.Choose(len(names))]
	p := name
	pos := vs.Choose(len(p) + 1)
	switch k := vs.Choose(8); k {
	case 0:
		pos = 0
	case 1, 2, 3, 4, 5:
		p = p[:pos] + []string{"/", ".", "..", "%2f", "x"}[k-1] + p[pos:]
	case 6:
		p = strings.ToUpper(p[:pos]) + p[pos:]
	case 7:
		p = []string{"/.", "/..", "//", "/embedded", "/embedded/..", "/x/.."}[vs.Choose(6)] + p
	}
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	q := []string{"", "?", "?info_hash=a", "?trakx.yaml"}[vs.Choose(4)]
	runTracker("tracker")
	vs.WaitIdle()
	l := vnet.TCP(httpPort)
	if l == nil {
		vs.Fail("nothing listens in info mode")
		return
	}
	c := vnet.NewConn(cli(1), true, []byte("GET "+p+q+" HTTP/1.1\r\nHost: tracker\r\n\r\n"))
	l.Connect(c)
	vs.WaitIdle()
	if e := closedOnce(c); e != "" {
		vs.Fail("%s (%s)", e, p+q)
		return
	}
	head, body, _ := strings.Cut(string(c.Out), "\r\n\r\n")
	code := ""
	if f := strings.Fields(head); len(f) > 1 {
		code = f[1]
	}
	fail := func(what string) { vs.Fail("info mode, %s: %s, got %s %.200q", p+q, what, code, body) }
	if strings.Contains(body, "db:") && strings.Contains(body, "numwant") {
		fail("the configuration is served")
		return
	}
	want, page := files[p]
	switch {
	case page:
		if code != "200" || body != want {
			fail(fmt.Sprintf("expected the page %.100q", want))
		}
	case p == "/announce":
		v, err := decodeAll([]byte(body))
		d, ok := v.(dict)
		if code != "200" || err != nil || !ok {
			fail("expected an announce reply")
		} else if iv, ok := d.get("interval").(int64); !ok || iv <= 0 {
			fail("expected an interval")
		}
	case p == "/heartbeat" || p == "/scrape":
		if code != "200" || body != "" {
			fail("expected an empty reply")
		}
	case p == "/stats":
		var v map[string]any
		if err := json.Unmarshal([]byte(body), &v); code != "200" || err != nil {
			fail(fmt.Sprintf("expected the metrics (%v)", err))
		}
	default: // the index page, another address or an error
		if code == "200" && body != files["/"] {
			fail("expected no page but the index")
		} else if code != "200" && !strings.HasPrefix(code, "3") && !strings.HasPrefix(code, "4") {
			fail("expected a redirect or an error")
		}
	}
	vs.Observe(code + p)
	Note("info mode %s", p+q)
}

func init() {
	long := vs.Budget{FreeSw: -1, MaxSteps: 10_000_000}
	seq := vs.Budget{MaxSteps: 200_000, FreeSw: -1}
	C := func(id string, f func(d bool) []Config) { register(&Check{ID: id, Configs: f}) }
	C("C18", func(d bool) []Config {
		return []Config{
			{Name: "byte values", Run: byteValues, B: seq, Bound: "all 256 values at 4 positions of 3 fields in every spelling"},
			{Name: "number of parameters", Run: paramCount, B: seq, Bound: "0..45 other parameters in 4 arrangements"},
			{Name: "order of parameters", Run: paramOrder, B: seq, Bound: "all orders of 6 parameters, with repeated ones"},
			{Name: "cut requests", Run: cutRequests, B: seq, Bound: "9 requests cut after every byte"},
			{Name: "request lines", Run: requestLines, B: seq, Bound: "13 methods, 4 separators, 8 versions, 5 targets, 4 endings"},
			{Name: "escapes", Run: escapes(seqDepth(4, 5)), B: seq, Bound: fmt.Sprintf("all strings up to length %d over 9 characters", seqDepth(4, 5))},
			{Name: "queries", Run: queries(seqDepth(3, 4)), B: seq, Bound: fmt.Sprintf("all sequences up to %d of 9 query tokens", seqDepth(3, 4))},
			{Name: "base64", Run: base64Forms, B: seq, Bound: "7 requests, whole, with any byte replaced, cut, extended"},
		}
	})
	C("C19", func(d bool) []Config {
		return []Config{
			{Name: "sequences", Run: workerSeq(seqDepth(3, 4), false, false), B: seq, Bound: fmt.Sprintf("all sequences of %d of 24 requests", seqDepth(3, 4))},
			{Name: "sequences, App Engine build", Alt: true, Run: workerSeq(seqDepth(2, 3), false, false), B: seq, Bound: fmt.Sprintf("all sequences of %d of 24 requests", seqDepth(2, 3))},
			{Name: "cut and long requests", Run: workerSeq(2, false, true), B: seq, Bound: "all pairs of 45 requests"},
			{Name: "repeated", Run: httpEndure(1, 300), B: long, Bound: "300 times each of 24 requests in 5 manners, then each of 9 kinds"},
			{Name: "faults", Run: workerSeq(seqDepth(2, 3), true, false), B: seq, Bound: "requests whose reply fails or that never arrive, then others"},
		}
	})
	C("C20", func(d bool) []Config {
		return []Config{
			{Name: "fields", Run: announceFields, B: seq, Bound: "6 x 5 x 13 x 12 x 4 field values"},
			{Name: "forms", Run: announceForms, B: seq, Bound: "events, left, compact, no_peer_id, numwant, family, 12 swarms"},
			{Name: "known peers", Run: httpPrior, B: seq, Bound: priorBound},
			{Name: "other parameters", Run: ignored, B: seq, Bound: "24 unknown names x 11 values x 3 positions, once or twice, 4 kinds of announces"},
			{Name: "similar", Run: requestBits(true), B: seq, Bound: bitsBound},
			{Name: "intervals", Run: intervals, B: seq},
			{Name: "kinds of addresses", Run: specialAnnounces(false), B: seq, Bound: "23 special addresses, 3 ports, 3 reply forms, 5 announces, seen over IPv4 and IPv6"},
			{Name: "limits", Run: limits, B: seq, Bound: "defaults 0..200, limits 0..1000 (below the default too), swarms 0..1001"},
			{Name: "histories", Run: announceSeq(seqDepth(4, 5)), B: seq, Bound: fmt.Sprintf("all sequences of %d of 10 requests", seqDepth(4, 5))},
		}
	})
	C("C21", func(d bool) []Config {
		return []Config{
			{Name: "number of torrents", Run: scrapeCounts, B: seq, Bound: "0..40 hashes, two spellings, other parameters, base64"},
			{Name: "lists", Run: scrapeLists(seqDepth(4, 5)), B: seq, Bound: fmt.Sprintf("all lists up to %d of 11 parameters", seqDepth(4, 5))},
			{Name: "similar", Run: requestBits(true), B: seq, Bound: bitsBound},
			{Name: "swarms", Run: scrapeSwarms, B: seq},
			{Name: "changes", Run: scrapesBetween(seqDepth(4, 5), false), B: seq, Bound: fmt.Sprintf("all sequences of %d of 9 changes, a scrape after each", seqDepth(4, 5))},
		}
	})
	c22 := func(d bool) []Config {
		return []Config{
			{Name: "changed HTTP requests", Run: mutHTTP, B: seq, Bound: "10 requests x every position x 13 changes"},
			{Name: "HTTP streams", Run: shortStreams(seqDepth(4, 5)), B: seq, Bound: fmt.Sprintf("all sequences up to %d of 15 tokens", seqDepth(4, 5))},
			{Name: "changed HTTP requests, App Engine build", Alt: true, Run: mutHTTP, B: seq, Bound: "10 requests x every position x 13 changes"},
			{Name: "HTTP streams, App Engine build", Alt: true, Run: shortStreams(seqDepth(4, 5)), B: seq, Bound: fmt.Sprintf("all sequences up to %d of 15 tokens", seqDepth(4, 5))},
			{Name: "HTTP faults, one worker", Run: httpFaults(seqDepth(2, 3), 1), B: seq, Bound: "9 faults x 8 requests"},
			{Name: "slow clients", Run: slowClients, B: seq, Bound: "9 pairs of timeouts, all pairs of connections with 5x5 delays of request and reading"},
			{Name: "HTTP faults, two workers", Run: httpFaults(2, 2), B: seq},
			{Name: "changed datagrams", Run: mutUDP, B: seq, Bound: "6 datagrams x every position x 10 changes"},
			{Name: "repeated HTTP", Run: httpEndure(2, 300), B: long, Bound: "300 times each of 24 requests in 5 manners, then each of 9 kinds"},
			{Name: "repeated HTTP, very often", Run: httpEndure(2, 66000), B: vs.Budget{MaxSteps: 100_000_000, FreeSw: -1}, Bound: "66000 times each of 9 requests, and one in 4 failing manners"},
			{Name: "repeated UDP, very often", Run: func() { udpEndureN(66000) }, B: vs.Budget{MaxSteps: 100_000_000, FreeSw: -1}, Bound: "66000 times each of 11 kinds of datagrams, and one while sending fails"},
			{Name: "repeated UDP", Run: udpEndure, B: long, Bound: "300 times each of 11 kinds of datagrams, then each kind"},
			{Name: "UDP faults", Run: udpFaults(seqDepth(3, 4)), B: vs.Budget{MaxSteps: 200_000, FreeSw: -1, Env: 2}},
		}
	}
	C("C22", c22)
	C("C23", func(d bool) []Config {
		return []Config{
			{Name: "headers", Run: forwardHeaders(seqDepth(3, 4)), B: seq, Bound: "up to 3 (thorough: 4) entries of 7, 5 separators, spacing, position"},
			{Name: "kinds of addresses", Run: specialAnnounces(true), B: seq, Bound: "23 special addresses, 5 kinds of entries before them, 3 proxies, 3 reply forms, 5 announces"},
			{Name: "long", Run: forwardLong, B: seq, Bound: "4 to 200 entries, up to 1.8 kB of other headers before them"},
			{Name: "sequences", Run: forwardSeq(seqDepth(3, 4)), B: seq, Bound: fmt.Sprintf("all sequences of %d of 14 requests", seqDepth(3, 4))},
		}
	})
	C("C28", func(d bool) []Config {
		return []Config{
			{Name: "paths", Run: pages, B: seq, Bound: "12 paths x every position x 9 changes x 5 queries"},
			{Name: "sequences", Run: pageSeq(seqDepth(3, 4)), B: seq, Bound: fmt.Sprintf("all sequences of %d of the files and other paths", seqDepth(3, 4))},
			{Name: "info mode", Run: infoPages, B: seq, Bound: "10 paths x every position x 8 changes x 4 queries"},
		}
	})
	_ = base64.StdEncoding
}
