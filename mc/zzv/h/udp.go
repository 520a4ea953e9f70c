//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net/netip"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/tracker/udp"
	"github.com/crimist/trakx/zzv/vnet"
	"github.com/crimist/trakx/zzv/vs"
)

// ---- BEP 15 codec of the harness ----

const udpMagic = 0x41727101980

func be32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }
func be64(v uint64) []byte { return binary.BigEndian.AppendUint64(nil, v) }

func udpReq(connid uint64, action, txid uint32, rest ...byte) []byte {
	b := append(be64(connid), be32(action)...)
	b = append(b, be32(txid)...)
	return append(b, rest...)
}

type annReq struct {
	connid           uint64
	txid             uint32
	hash             storage.Hash
	id               storage.PeerID
	down, left, up   uint64
	event            uint32
	ip, key, numwant uint32
	port             uint16
}

func (a annReq) bytes() []byte {
	b := udpReq(a.connid, 1, a.txid)
	b = append(b, a.hash[:]...)
	b = append(b, a.id[:]...)
	b = append(b, be64(a.down)...)
	b = append(b, be64(a.left)...)
	b = append(b, be64(a.up)...)
	b = append(b, be32(a.event)...)
	b = append(b, be32(a.ip)...)
	b = append(b, be32(a.key)...)
	b = append(b, be32(a.numwant)...)
	return binary.BigEndian.AppendUint16(b, a.port)
}

func scrapeReq(connid uint64, txid uint32, hs ...storage.Hash) []byte {
	b := udpReq(connid, 2, txid)
	for _, h := range hs {
		b = append(b, h[:]...)
	}
	return b
}

// ---- client and model ----

type conn struct {
	id uint64
	at int64 // ns
}

// umodel is what the UDP side must behave like.
type umodel struct {
	db       model
	conns    map[netip.AddrPort]conn
	validate bool
}

func newU() *umodel {
	return &umodel{db: model{}, conns: map[netip.AddrPort]conn{}, validate: config.Config.UDP.ConnDB.Validate}
}

func (m *umodel) sweepConns() {
	for k, c := range m.conns {
		if vs.Now()-c.at > int64(config.Config.UDP.ConnDB.Expiry) {
			delete(m.conns, k)
		}
	}
}

// startUDP runs a UDP tracker in the current process and returns it with its socket.
func startUDP(db storage.Database) (*udp.UDPTracker, *vnet.USock) {
	u := new(udp.UDPTracker)
	u.Init(db)
	vs.GoNamed("udp", func() {
		if err := u.Serve(); err != nil {
			vs.Fail("[serve] the UDP tracker stopped: %v", err)
		}
	})
	vs.WaitIdle()
	s := vnet.UDP(config.Config.UDP.Port)
	if s == nil {
		vs.Fail("[listen] no UDP socket on the configured port")
		vs.Stop()
	}
	return u, s
}

// exchange sends one datagram and returns what the tracker sent until it is idle again.
func exchange(s *vnet.USock, from netip.AddrPort, map4 bool, data []byte) []vnet.Reply {
	s.Send(from, map4, data)
	vs.WaitIdle()
	return s.TakeOut()
}

// udpExpect compares the replies to a datagram with the model and updates the model; "" if right.
// It must be called after the datagram was handled, with the clock unchanged.
func (m *umodel) check(from netip.AddrPort, data []byte, reps []vnet.Reply) string {
	if len(data) > 1496 {
		data = data[:1496]
	}
	if len(data) < 16 {
		if len(reps) != 0 {
			return fmt.Sprintf("a datagram of %d bytes is answered with %x", len(data), reps[0].Data)
		}
		return ""
	}
	action := binary.BigEndian.Uint32(data[8:12])
	tx := data[12:16]
	if action == 3 && len(reps) == 0 {
		return "" // an error message to a tracker needs no answer
	}
	if len(reps) != 1 {
		return fmt.Sprintf("%d replies to %x", len(reps), data)
	}
	r := reps[0]
	if r.To != from {
		return fmt.Sprintf("the reply to %v went to %v", from, r.To)
	}
	if action == 4 {
		if !bytes.Equal(r.Data, []byte{0xff}) {
			return fmt.Sprintf("the heartbeat reply is %x", r.Data)
		}
		return ""
	}
	if len(r.Data) < 8 {
		return fmt.Sprintf("reply %x is too short", r.Data)
	}
	got := binary.BigEndian.Uint32(r.Data)
	if !bytes.Equal(r.Data[4:8], tx) {
		return fmt.Sprintf("reply has transaction id %x instead of %x", r.Data[4:8], tx)
	}
	isErr := func(why string) string {
		if got != 3 {
			return fmt.Sprintf("%s is answered with action %d (%x) instead of an error", why, got, r.Data)
		}
		if len(r.Data) > 108 {
			return fmt.Sprintf("%s: error message of %d bytes", why, len(r.Data)-8)
		}
		return ""
	}
	if action == 0 {
		if got != 0 || len(r.Data) != 16 {
			return fmt.Sprintf("connect reply is %x", r.Data)
		}
		m.conns[from] = conn{binary.BigEndian.Uint64(r.Data[8:]), vs.Now()}
		return ""
	}
	if action > 4 || action == 3 {
		return isErr(fmt.Sprintf("action %#x", action))
	}
	id := binary.BigEndian.Uint64(data)
	if c, ok := m.conns[from]; m.validate && (!ok || c.id != id) {
		return isErr(fmt.Sprintf("action %d with a connection id not issued to %v", action, from))
	}
	if action == 2 {
		n := (len(data) - 16) / 20
		if got != 2 {
			return fmt.Sprintf("scrape of %d torrents answered with %x", n, r.Data)
		}
		if len(r.Data) != 8+12*n {
			return fmt.Sprintf("scrape reply for %d torrents has %d bytes: %x", n, len(r.Data), r.Data)
		}
		for i := 0; i < n; i++ {
			var h storage.Hash
			copy(h[:], data[16+20*i:])
			c, l := m.db.counts(h)
			e := r.Data[8+12*i:] // BEP 15: seeders, completed, leechers
			if int(binary.BigEndian.Uint32(e)) != c || int(binary.BigEndian.Uint32(e[8:])) != l {
				return fmt.Sprintf("scrape entry %d is %x, the torrent has %d complete and %d incomplete", i, e[:12], c, l)
			}
		}
		return ""
	}
	if len(data) < 98 {
		return isErr(fmt.Sprintf("an announce of %d bytes", len(data)))
	}
	var h storage.Hash
	var pid storage.PeerID
	copy(h[:], data[16:])
	copy(pid[:], data[36:])
	left := binary.BigEndian.Uint64(data[64:])
	event := binary.BigEndian.Uint32(data[80:])
	nw := int32(binary.BigEndian.Uint32(data[92:]))
	port := binary.BigEndian.Uint16(data[96:])
	if port == 0 {
		return isErr("an announce of port 0")
	}
	if got != 1 || len(r.Data) < 20 {
		return fmt.Sprintf("announce answered with %x", r.Data)
	}
	if event == 3 {
		m.db.drop(h, pid)
		if len(r.Data) != 20 {
			return fmt.Sprintf("the reply to a stop lists peers: %x", r.Data)
		}
		return ""
	}
	m.db.save(h, pid, mpeer{from.Addr().WithZone(""), port, event == 1 || left == 0, nowSec()})
	iv := int64(int32(binary.BigEndian.Uint32(r.Data[8:])))
	lo := int64(config.Config.Announce.Base / time.Second)
	hi := lo + int64(config.Config.Announce.Fuzz/time.Second)
	if iv < lo || iv > hi {
		return fmt.Sprintf("interval %d not in [%d, %d]", iv, lo, hi)
	}
	c, l := m.db.counts(h)
	if gl, gc := int(binary.BigEndian.Uint32(r.Data[12:])), int(binary.BigEndian.Uint32(r.Data[16:])); gl != l || gc != c {
		return fmt.Sprintf("announce reply counts %d complete and %d incomplete; the torrent has %d and %d", gc, gl, c, l)
	}
	n := int(nw)
	if nw < 1 {
		n = int(config.Config.Numwant.Default)
	}
	if n > int(config.Config.Numwant.Limit) {
		n = int(config.Config.Numwant.Limit)
	}
	return checkFamily(m.db, h, r.Data[20:], from.Addr().Is4(), n)
}

// checkFamily checks a compact list of one address family.
func checkFamily(db model, h storage.Hash, list []byte, v4 bool, n int) string {
	sz := 18
	if v4 {
		sz = 6
	}
	if len(list)%sz != 0 {
		return fmt.Sprintf("peer list of %d bytes for entries of %d", len(list), sz)
	}
	want := map[string]int{}
	fam := 0
	for _, p := range db[h] {
		if p.IP.Is4() == v4 {
			fam++
			want[string(binary.BigEndian.AppendUint16(p.IP.AsSlice(), p.Port))]++
		}
	}
	k := len(list) / sz
	if k > n {
		return fmt.Sprintf("%d peers listed, %d wanted", k, n)
	}
	if len(db[h]) <= n && k != fam {
		return fmt.Sprintf("%d peers listed, the swarm has %d of that family and %d were wanted", k, fam, n)
	}
	for i := 0; i < k; i++ {
		e := string(list[i*sz : i*sz+sz])
		if want[e] == 0 {
			return fmt.Sprintf("entry %x is no peer of the torrent or listed twice", e)
		}
		want[e]--
	}
	return ""
}

// udpDo sends a datagram, checks the reply and the database content.
func (m *umodel) do(s *vnet.USock, db storage.Database, from netip.AddrPort, map4 bool, data []byte, hs []storage.Hash) bool {
	reps := exchange(s, from, map4, data)
	if e := m.check(from, data, reps); e != "" {
		vs.Fail("%s (datagram %x from %v)", e, data, from)
		return false
	}
	if g, w := digest(db, hs...), m.db.digest(hs...); g != w {
		vs.Fail("after datagram %x from %v the database holds %s, expected %s", data, from, g, w)
		return false
	}
	return true
}
