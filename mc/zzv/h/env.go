//go:build go1.22

package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net/netip"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/tracker/storage"
	_ "github.com/crimist/trakx/tracker/storage/map"
	"github.com/crimist/trakx/zzv/vfs"
	"github.com/crimist/trakx/zzv/vs"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

const (
	backupPath = "/v/trakx.db"
	cacheDir   = "/v/cache/"
	httpPort   = 1337
	udpPort    = 1338
)

type fatalHook struct{}

func (fatalHook) OnWrite(ce *zapcore.CheckedEntry, f []zapcore.Field) {
	msg := ce.Message
	for _, x := range f {
		if x.Interface != nil {
			if e, ok := x.Interface.(error); ok {
				msg += ": " + e.Error()
			}
		}
	}
	lastFatal = msg
	vs.Tracef("fatal log: %s", msg)
	vs.ExitProc(1)
}

var lastFatal string
var nopLogger = zap.New(zapcore.NewNopCore(), zap.WithFatalHook(fatalHook{}))

// debugLogger formats everything.
var debugLogger = zap.New(zapcore.NewCore(zapcore.NewConsoleEncoder(zap.NewDevelopmentEncoderConfig()), zapcore.AddSync(io.Discard), zap.DebugLevel), zap.Development(), zap.WithFatalHook(fatalHook{}))

// setup prepares one execution: configuration, pools, metrics.
func setup(mod func(c *config.Configuration)) {
	c := config.Config
	if c == nil {
		c = &config.Configuration{}
		config.Config = c
	}
	config.Logger = nopLogger
	lastFatal = ""
	config.CachePath = cacheDir
	c.LogLevel = "fatal"
	c.ExpvarInterval = 0
	c.Debug.Pprof = 0
	c.Announce.Base = 30 * time.Minute
	c.Announce.Fuzz = 0
	c.HTTP.Mode = "enabled"
	c.HTTP.IP = ""
	c.HTTP.Port = httpPort
	c.HTTP.Timeout.Read = 3 * time.Second
	c.HTTP.Timeout.Write = 5 * time.Second
	c.HTTP.Threads = 1
	c.UDP.Enabled = true
	c.UDP.IP = ""
	c.UDP.Port = udpPort
	c.UDP.Threads = 1
	c.UDP.ConnDB.Validate = true
	c.UDP.ConnDB.Size = 1
	c.UDP.ConnDB.Trim = 1000000 * time.Hour
	c.UDP.ConnDB.Expiry = time.Hour
	c.Numwant.Default = 3
	c.Numwant.Limit = 5
	c.DB.Type = "gomap"
	c.DB.Backup.Frequency = 0
	c.DB.Backup.Type = "none"
	c.DB.Backup.Path = backupPath
	c.DB.Trim = 0
	c.DB.Expiry = 45 * time.Minute
	if mod != nil {
		mod(c)
	}
	if c.LogLevel.Debug() {
		config.Logger = debugLogger
	}
	vs.Quiet(func() {
		pools.Initialize(int(c.Numwant.Limit))
		resetStats()
	})
}

func resetStats() {
	stats.Hits.Store(0)
	stats.Connects.Store(0)
	stats.Announces.Store(0)
	stats.Scrapes.Store(0)
	stats.Seeds.Store(0)
	stats.Leeches.Store(0)
	stats.ServerErrors.Store(0)
	stats.ClientErrors.Store(0)
	// the unique-IP table has no reset: remove every address the scenarios use
	for _, ip := range usedIPs {
		stats.IPStats.Lock()
		stats.IPStats.Delete(ip)
		stats.IPStats.Unlock()
	}
	usedIPs = usedIPs[:0]
}

var usedIPs []netip.Addr

// useIP registers an address for reset.
func useIP(ip netip.Addr) netip.Addr {
	usedIPs = append(usedIPs, ip)
	return ip
}

func openDB() storage.Database {
	db, err := storage.Open()
	if err != nil {
		vs.Fail("[open] opening the database failed: %v", err)
		vs.Stop()
	}
	return db
}

// ---- alphabet ----

func hashN(n int) (h storage.Hash) {
	for i := range h {
		h[i] = byte(0x41 + n)
	}
	h[19] = byte(n)
	return
}

func idN(n int) (h storage.PeerID) {
	copy(h[:], "-TR2940-abcdefghijkl")
	h[19] = byte('0' + n)
	h[18] = byte(n >> 8)
	h[17] += byte(n >> 16)
	return
}

func ip4(n int) netip.Addr {
	return useIP(netip.AddrFrom4([4]byte{10, 1 + byte(n>>16), byte(n >> 8), byte(n)}))
}
func ip6(n int) netip.Addr {
	a := [16]byte{0x20, 0x01, 0x0d, 0xb8}
	a[13], a[14], a[15] = byte(n>>16), byte(n>>8), byte(n)
	return useIP(netip.AddrFrom16(a))
}

func ap(a netip.Addr, port uint16) netip.AddrPort { return netip.AddrPortFrom(a, port) }

// ---- reference database ----

type mpeer struct {
	IP       netip.Addr
	Port     uint16
	Complete bool
	Seen     int64 // seconds
}

type model map[storage.Hash]map[storage.PeerID]mpeer

func (m model) save(h storage.Hash, id storage.PeerID, p mpeer) {
	if m[h] == nil {
		m[h] = map[storage.PeerID]mpeer{}
	}
	m[h][id] = p
}

func (m model) drop(h storage.Hash, id storage.PeerID) { delete(m[h], id) }

func (m model) trim(now, expiry int64) {
	for h, s := range m {
		for id, p := range s {
			if now-p.Seen > expiry {
				delete(s, id)
			}
		}
		if len(s) == 0 {
			delete(m, h)
		}
	}
}

func (m model) clone() model {
	n := model{}
	for h, s := range m {
		t := make(map[storage.PeerID]mpeer, len(s))
		for id, p := range s {
			t[id] = p
		}
		n[h] = t
	}
	return n
}

func (m model) counts(h storage.Hash) (c, i int) {
	for _, p := range m[h] {
		if p.Complete {
			c++
		} else {
			i++
		}
	}
	return
}

func (m model) global() (seeds, leeches, ips int) {
	if fastBuild {
		return 0, 0, 0
	}
	set := map[netip.Addr]bool{}
	for h := range m {
		c, i := m.counts(h)
		seeds += c
		leeches += i
		for _, p := range m[h] {
			set[p.IP] = true
		}
	}
	return seeds, leeches, len(set)
}

func nowSec() int64 { return vs.Now() / 1e9 }

// members renders a swarm without completeness, sorted.
func (m model) members(h storage.Hash) []string {
	var r []string
	for id, p := range m[h] {
		r = append(r, fmt.Sprintf("%x %v %d", id[:], p.IP, p.Port))
	}
	sort.Strings(r)
	return r
}

// listed is the same from the database's own peer list.
func listed(db storage.Database, h storage.Hash) ([]string, error) {
	var r []string
	for _, e := range db.PeerList(h, 100000, false) {
		d, err := decodeAll(e)
		if err != nil {
			return nil, fmt.Errorf("peer entry %q is not bencoded: %v", e, err)
		}
		m, ok := d.(dict)
		if !ok {
			return nil, fmt.Errorf("peer entry %q is no dictionary", e)
		}
		id, _ := m.get("peer id").(string)
		ip, _ := m.get("ip").(string)
		port, ok := m.get("port").(int64)
		if !ok || len(id) != 20 {
			return nil, fmt.Errorf("peer entry %q lacks a field", e)
		}
		a, err := netip.ParseAddr(ip)
		if err != nil {
			return nil, fmt.Errorf("peer entry %q: %v", e, err)
		}
		r = append(r, fmt.Sprintf("%x %v %d", id, a, port))
	}
	sort.Strings(r)
	return r, nil
}

func counts(db storage.Database, h storage.Hash) (int, int) {
	c, i := db.HashStats(h)
	return int(c), int(i)
}

func same(a, b []string) bool { return strings.Join(a, "|") == strings.Join(b, "|") }

// digest describes the content of the database for the alphabet's torrents.
func digest(db storage.Database, hs ...storage.Hash) string {
	var b strings.Builder
	for _, h := range hs {
		l, err := listed(db, h)
		if err != nil {
			b.WriteString(err.Error())
		}
		c, i := counts(db, h)
		fmt.Fprintf(&b, "%v %d/%d;", l, c, i)
	}
	return b.String()
}

func (m model) digest(hs ...storage.Hash) string {
	var b strings.Builder
	for _, h := range hs {
		c, i := m.counts(h)
		fmt.Fprintf(&b, "%v %d/%d;", m.members(h), c, i)
	}
	return b.String()
}

func metrics() (s, l, ips int) {
	if fastBuild {
		return 0, 0, 0
	}
	return int(stats.Seeds.Load()), int(stats.Leeches.Load()), stats.IPStats.Total()
}

// ---- bencode ----

type kv struct {
	K string
	V any
}
type dict []kv
type list []any

func (d dict) get(k string) any {
	for _, e := range d {
		if e.K == k {
			return e.V
		}
	}
	return nil
}

func (d dict) has(k string) bool {
	for _, e := range d {
		if e.K == k {
			return true
		}
	}
	return false
}

var errBenc = errors.New("bad bencoding")

func decodeAll(b []byte) (any, error) {
	v, rest, err := decode(b)
	if err != nil {
		return nil, err
	}
	if len(rest) != 0 {
		return nil, fmt.Errorf("%d trailing bytes", len(rest))
	}
	return v, nil
}

func decode(b []byte) (any, []byte, error) {
	if len(b) == 0 {
		return nil, nil, errBenc
	}
	switch {
	case b[0] == 'i':
		e := bytes.IndexByte(b, 'e')
		if e < 0 {
			return nil, nil, errBenc
		}
		s := string(b[1:e])
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil || strconv.FormatInt(n, 10) != s {
			return nil, nil, fmt.Errorf("bad integer %q", s)
		}
		return n, b[e+1:], nil
	case b[0] == 'l':
		b = b[1:]
		l := list{}
		for len(b) > 0 && b[0] != 'e' {
			v, r, err := decode(b)
			if err != nil {
				return nil, nil, err
			}
			l = append(l, v)
			b = r
		}
		if len(b) == 0 {
			return nil, nil, errBenc
		}
		return l, b[1:], nil
	case b[0] == 'd':
		b = b[1:]
		d := dict{}
		for len(b) > 0 && b[0] != 'e' {
			k, r, err := decode(b)
			if err != nil {
				return nil, nil, err
			}
			ks, ok := k.(string)
			if !ok {
				return nil, nil, errBenc
			}
			v, r, err := decode(r)
			if err != nil {
				return nil, nil, err
			}
			d = append(d, kv{ks, v})
			b = r
		}
		if len(b) == 0 {
			return nil, nil, errBenc
		}
		return d, b[1:], nil
	case b[0] >= '0' && b[0] <= '9':
		c := bytes.IndexByte(b, ':')
		if c < 0 {
			return nil, nil, errBenc
		}
		n, err := strconv.Atoi(string(b[:c]))
		if err != nil || n < 0 || c+1+n > len(b) || (c > 1 && b[0] == '0') {
			return nil, nil, fmt.Errorf("bad string length %q", b[:c])
		}
		return string(b[c+1 : c+1+n]), b[c+1+n:], nil
	}
	return nil, nil, errBenc
}

func hx(b []byte) string { return hex.EncodeToString(b) }

func vfsSizes() string {
	var s []string
	for _, n := range vfs.List() {
		d, _ := vfs.Get(n)
		s = append(s, fmt.Sprintf("%s:%d", n, len(d)))
	}
	return strings.Join(s, ",")
}

func child([]string) { childReport() }
