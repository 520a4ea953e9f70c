//go:build go1.22

package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/netip"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/http"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzv/vnet"
	"github.com/crimist/trakx/zzv/vs"
)

// ---- reference request parser ----

type hreq struct {
	bad    bool
	codes  []string // statuses a bad request may get
	path   string
	params []string // decoded, in order
	vague  bool     // more parameters than the tracker promises to look at
	fwd    *string  // value of the X-Forwarded-For header; nil without one
	cut    bool     // that header is not terminated
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func unescape(s string) (string, bool) {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			b = append(b, s[i])
			continue
		}
		if i+2 >= len(s) || !isHex(s[i+1]) || !isHex(s[i+2]) {
			return "", false
		}
		n, _ := strconv.ParseUint(s[i+1:i+3], 16, 8)
		b = append(b, byte(n))
		i += 2
	}
	return string(b), true
}

func refParse(b []byte) (r hreq) {
	bad := func(codes ...string) hreq { return hreq{bad: true, codes: codes} }
	if bytes.HasPrefix(b, []byte("R0VU")) {
		d, err := base64.StdEncoding.DecodeString(string(b))
		if err != nil {
			return bad("400", "500")
		}
		b = d
	}
	s := string(b)
	line, rest, _ := strings.Cut(s, "\n")
	if !strings.HasPrefix(line, "GET /") {
		return bad("400")
	}
	v := strings.Index(line, " HTTP/")
	if v < 5 {
		return bad("400")
	}
	path, query, hasq := strings.Cut(line[4:v], "?")
	r.path = path
	if hasq {
		for i, p := range strings.Split(query, "&") {
			if i >= 45 {
				r.vague = true
				break
			}
			u, ok := unescape(p)
			if !ok {
				return bad("400")
			}
			r.params = append(r.params, u)
		}
	}
	for rest != "" {
		h, r2, term := strings.Cut(rest, "\n")
		rest = r2
		if h == "\r" || h == "" {
			break
		}
		if k, val, ok := strings.Cut(h, ":"); ok && k == "X-Forwarded-For" && r.fwd == nil {
			val = strings.TrimRight(val, "\r")
			r.fwd = &val
			r.cut = !term
		}
	}
	return r
}

// ---- reference tracker ----

type hmodel struct {
	db    model
	files map[string]string
}

// embedded returns what the webserver must serve, read from the repository's files.
func embedded() map[string]string {
	if embedCache != nil {
		return embedCache
	}
	dir := os.Getenv("VERIF_SCRATCH") + "/src/config/embedded"
	ents, err := os.ReadDir(dir)
	if err != nil {
		panic(err)
	}
	m := map[string]string{}
	for _, e := range ents {
		if e.IsDir() || e.Name() == "trakx.yaml" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			panic(err)
		}
		s := string(b)
		if strings.HasSuffix(e.Name(), ".html") {
			s = strings.NewReplacer("\t", "", "\n", "").Replace(s)
		}
		m["/"+e.Name()] = s
		if e.Name() == "index.html" {
			m["/"] = s
		}
	}
	embedCache = m
	return m
}

var embedCache map[string]string

func newH() *hmodel { return &hmodel{db: model{}, files: embedded()} }

// startHTTP runs an HTTP tracker in the current process and returns its listener.
func startHTTP(db storage.Database) *vnet.Lst {
	t := new(http.HTTPTracker)
	t.Init(db)
	vs.GoNamed("http", func() {
		if err := t.Serve(); err != nil {
			vs.Fail("[serve] the HTTP tracker stopped: %v", err)
		}
	})
	vs.WaitIdle()
	l := vnet.TCP(config.Config.HTTP.Port)
	if l == nil {
		vs.Fail("[listen] no listener on the configured HTTP port")
		vs.Stop()
	}
	return l
}

// reply splits an HTTP reply; ok is false if it is none.
func reply(out []byte) (code string, body []byte, ok bool) {
	i := bytes.Index(out, []byte("\r\n\r\n"))
	if i < 0 || !bytes.HasPrefix(out, []byte("HTTP/1.")) || len(out) < 12 || out[8] != ' ' {
		return "", nil, false
	}
	return string(out[9:12]), out[i+4:], true
}

// failure tells whether the body is a bencoded dictionary with nothing but a failure reason.
func failure(body []byte) bool {
	v, err := decodeAll(body)
	d, ok := v.(dict)
	if err != nil || !ok || len(d) != 1 {
		return false
	}
	s, ok := d.get("failure reason").(string)
	return ok && s != ""
}

// closed checks how the tracker left a connection.
func closedOnce(c *vnet.Conn) string {
	switch {
	case !c.Served:
		return "the connection was never accepted"
	case !c.Closed:
		return "the connection was not closed"
	case c.PostUse != "":
		return "the tracker used the connection after closing it: " + c.PostUse
	}
	return ""
}

// check compares the reply to a request with the model and updates the model; "" if right.
func (m *hmodel) check(from netip.AddrPort, req, out []byte) string {
	r := refParse(req)
	code, body, ok := reply(out)
	if !ok {
		return fmt.Sprintf("the reply %q is no HTTP reply", out)
	}
	if r.bad {
		for _, c := range r.codes {
			if code == c {
				return ""
			}
		}
		return fmt.Sprintf("a malformed request got %q", out)
	}
	if r.vague {
		return "vague"
	}
	switch r.path {
	case "/announce":
		if code != "200" {
			return fmt.Sprintf("an announce got status %s", code)
		}
		return m.announce(from, r, body)
	case "/scrape":
		if code != "200" {
			return fmt.Sprintf("a scrape got status %s", code)
		}
		return m.scrape(r, body)
	case "/heartbeat":
		if code != "200" {
			return fmt.Sprintf("a heartbeat got status %s", code)
		}
		return ""
	case "/stats":
		if code != "200" || !json.Valid(body) || !bytes.HasPrefix(bytes.TrimSpace(body), []byte("{")) {
			return fmt.Sprintf("stats got %q", out)
		}
		return ""
	}
	if f, ok := m.files[r.path]; ok {
		if code != "200" || string(body) != f {
			return fmt.Sprintf("page %s got status %s and %d bytes, the page has %d", r.path, code, len(body), len(f))
		}
		return ""
	}
	if code != "404" {
		return fmt.Sprintf("path %q got status %s", r.path, code)
	}
	return ""
}

func (m *hmodel) announce(from netip.AddrPort, r hreq, body []byte) string {
	p := map[string]string{}
	for _, s := range r.params {
		k, v, ok := strings.Cut(s, "=")
		if !ok {
			v = "1"
		}
		if k == "compact" || k == "no_peer_id" || k == "left" {
			// repeated flags: unspecified unless they agree
			if o, ok := p[k]; ok && o != v {
				return "vague"
			}
		}
		p[k] = v
	}
	ip := from.Addr().Unmap()
	bad := ""
	if appengine && r.fwd != nil {
		parts := strings.Split(*r.fwd, ",")
		a, err := netip.ParseAddr(strings.TrimSpace(parts[len(parts)-1]))
		if err != nil || r.cut {
			bad = "forwarded address"
		}
		ip = a
	}
	ip = ip.WithZone("") // the zone is the name of an interface here
	if len(p["info_hash"]) != 20 {
		bad = "info_hash"
	}
	if len(p["peer_id"]) != 20 {
		bad = "peer_id"
	}
	var h storage.Hash
	var id storage.PeerID
	copy(h[:], p["info_hash"])
	copy(id[:], p["peer_id"])
	badnum := ""
	port, err := strconv.ParseUint(p["port"], 10, 16)
	if err != nil || port == 0 {
		badnum = "port"
	}
	n := int(config.Config.Numwant.Default)
	if lim := int(config.Config.Numwant.Limit); n > lim {
		n = lim
	}
	if s := p["numwant"]; s != "" {
		w, err := strconv.ParseUint(s, 10, 63)
		switch {
		case err != nil:
			badnum = "numwant"
		case w > uint64(config.Config.Numwant.Limit):
			n = int(config.Config.Numwant.Limit)
		default:
			n = int(w)
		}
	}
	if p["event"] == "stopped" && bad == "" {
		if failure(body) {
			if badnum != "" {
				return ""
			}
			return fmt.Sprintf("a stop got %q", body)
		}
		if len(body) != 0 {
			if _, err := decodeAll(body); err != nil {
				return fmt.Sprintf("the reply to a stop is %q", body)
			}
		}
		m.db.drop(h, id)
		return ""
	}
	if bad == "" {
		bad = badnum
	}
	if bad != "" {
		if !failure(body) {
			return fmt.Sprintf("an announce with a bad %s got %q", bad, body)
		}
		return ""
	}
	m.db.save(h, id, mpeer{useIP(ip), uint16(port), p["event"] == "completed" || p["left"] == "0", nowSec()})

	v, err := decodeAll(body)
	d, ok := v.(dict)
	if err != nil || !ok || d.has("failure reason") {
		return fmt.Sprintf("a valid announce got %q (%v)", body, err)
	}
	iv, ok := d.get("interval").(int64)
	lo := int64(config.Config.Announce.Base / time.Second)
	if hi := lo + int64(config.Config.Announce.Fuzz/time.Second); !ok || iv < lo || iv > hi {
		return fmt.Sprintf("interval %v not in [%d, %d]", d.get("interval"), lo, hi)
	}
	c, l := m.db.counts(h)
	if d.get("complete") != int64(c) || d.get("incomplete") != int64(l) {
		return fmt.Sprintf("announce reply counts %v complete and %v incomplete; the torrent has %d and %d", d.get("complete"), d.get("incomplete"), c, l)
	}
	if p["compact"] == "1" {
		p4, ok4 := d.get("peers").(string)
		p6, ok6 := d.get("peers6").(string)
		if !ok4 || (!ok6 && d.has("peers6")) {
			return fmt.Sprintf("compact reply %q", body)
		}
		return checkCompact(m.db, h, n, []byte(p4), []byte(p6))
	}
	list, ok := d.get("peers").(list)
	if !ok {
		return fmt.Sprintf("peers are no list in %q", body)
	}
	var es [][]byte
	for _, e := range list {
		// the entries are strings holding a dictionary (the unit tests require that)
		s, ok := e.(string)
		if !ok {
			return fmt.Sprintf("peer entry %v in %q", e, body)
		}
		es = append(es, []byte(s))
	}
	return checkDicts(m.db, h, n, p["no_peer_id"] == "1", es)
}

func (m *hmodel) scrape(r hreq, body []byte) string {
	var hs []string
	bad, odd := false, false
	for _, s := range r.params {
		k, v, ok := strings.Cut(s, "=")
		if k != "info_hash" {
			continue
		}
		if !ok {
			odd = true
			continue
		}
		if len(v) != 20 {
			bad = true
		}
		hs = append(hs, v)
	}
	if bad || len(hs) == 0 {
		if !failure(body) {
			return fmt.Sprintf("a scrape with a bad or no info_hash got %q", body)
		}
		return ""
	}
	if odd && failure(body) {
		return ""
	}
	v, err := decodeAll(body)
	d, ok := v.(dict)
	if err != nil || !ok || len(d) == 0 {
		return fmt.Sprintf("a scrape got %q (%v)", body, err)
	}
	fs, ok := d.get("files").(dict)
	if !ok {
		return fmt.Sprintf("a scrape got %q without files", body)
	}
	var uniq []string
	seen := map[string]bool{}
	for _, h := range hs {
		if !seen[h] {
			uniq = append(uniq, h)
		}
		seen[h] = true
	}
	want := hs
	if len(fs) != len(hs) {
		want = uniq // a repeated torrent may be reported once
	}
	if len(fs) != len(want) {
		return fmt.Sprintf("%d entries for %d torrents: %q", len(fs), len(hs), body)
	}
	for i, e := range fs {
		if e.K != want[i] {
			return fmt.Sprintf("entry %d is torrent %x, asked for %x", i, e.K, want[i])
		}
		var h storage.Hash
		copy(h[:], e.K)
		c, l := m.db.counts(h)
		x, ok := e.V.(dict)
		if !ok || x.get("complete") != int64(c) || x.get("incomplete") != int64(l) {
			return fmt.Sprintf("torrent %x is reported as %v; it has %d complete, %d incomplete", e.K, e.V, c, l)
		}
	}
	return ""
}

// send delivers a request in one piece and returns the connection when the tracker is idle again.
func send(l *vnet.Lst, from netip.AddrPort, req []byte) *vnet.Conn {
	c := vnet.NewConn(from, true, req)
	l.Connect(c)
	vs.WaitIdle()
	return c
}

// do sends a request and checks reply, connection and database content.
func (m *hmodel) do(l *vnet.Lst, db storage.Database, from netip.AddrPort, req []byte, hs []storage.Hash) bool {
	c := send(l, from, req)
	if e := closedOnce(c); e != "" {
		vs.Fail("%s (request %q)", e, trim(req))
		return false
	}
	e := m.check(from, req, c.Out)
	if e == "vague" {
		return true
	}
	if e != "" {
		vs.Fail("%s (request %q from %v)", e, trim(req), from)
		return false
	}
	if g, w := digest(db, hs...), m.db.digest(hs...); g != w {
		vs.Fail("after request %q from %v the database holds %s, expected %s", trim(req), from, g, w)
		return false
	}
	s, n, _ := metrics()
	ws, wn, _ := m.db.global()
	if s != ws || n != wn {
		vs.Fail("after request %q from %v there are %d seeds and %d leeches in all, expected %d and %d", trim(req), from, s, n, ws, wn)
		return false
	}
	return true
}

func trim(b []byte) []byte {
	if len(b) > 700 {
		return b[:700]
	}
	return b
}

// escAll percent-encodes every byte; escMin only what must be.
func escAll(b []byte) string {
	var s strings.Builder
	for _, c := range b {
		fmt.Fprintf(&s, "%%%02x", c)
	}
	return s.String()
}

func escMin(b []byte) string {
	var s strings.Builder
	for _, c := range b {
		if c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || strings.IndexByte("-._~", c) >= 0 {
			s.WriteByte(c)
		} else {
			fmt.Fprintf(&s, "%%%02X", c)
		}
	}
	return s.String()
}

func get(target string, headers ...string) []byte {
	return []byte("GET " + target + " HTTP/1.1\r\n" + strings.Join(headers, "") + "\r\n")
}

// annURL builds an announce target from fields in order; "k=v" pairs are used as they are.
func annURL(h storage.Hash, id storage.PeerID, port int, more ...string) string {
	s := fmt.Sprintf("/announce?info_hash=%s&peer_id=%s&port=%d", escMin(h[:]), escMin(id[:]), port)
	for _, x := range more {
		s += "&" + x
	}
	return s
}

func b64(b []byte) []byte { return []byte(base64.StdEncoding.EncodeToString(b)) }
