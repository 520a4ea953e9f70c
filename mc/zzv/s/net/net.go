// Package net replaces the standard one in the instrumented tracker: sockets are virtual.
package net

import (
	"context"
	real "net"
	"net/netip"
	"time"

	"github.com/crimist/trakx/zzv/vnet"
)

func udpAddr(ap netip.AddrPort, map4 bool) *real.UDPAddr {
	ip := ap.Addr()
	if ip.Is4() && map4 {
		b := ip.As16()
		return &real.UDPAddr{IP: append(real.IP(nil), b[:]...), Port: int(ap.Port())}
	}
	return &real.UDPAddr{IP: append(real.IP(nil), ip.AsSlice()...), Port: int(ap.Port()), Zone: ip.Zone()}
}

func apOf(a *real.UDPAddr) netip.AddrPort {
	ip, _ := netip.AddrFromSlice(a.IP)
	return netip.AddrPortFrom(ip.WithZone(a.Zone), uint16(a.Port))
}

// UDPConn is net.UDPConn: a listening socket or a dialled one.
type UDPConn struct {
	s *vnet.USock
	c *vnet.Client
}

func ListenUDP(network string, laddr *real.UDPAddr) (*UDPConn, error) {
	if laddr == nil {
		laddr = &real.UDPAddr{}
	}
	s, err := vnet.ListenUDP(network, laddr.String())
	if err != nil {
		return nil, err
	}
	return &UDPConn{s: s}, nil
}

func ListenPacket(network, address string) (real.PacketConn, error) {
	s, err := vnet.ListenUDP(network, address)
	if err != nil {
		return nil, err
	}
	return &UDPConn{s: s}, nil
}

func (c *UDPConn) ReadFromUDP(b []byte) (int, *real.UDPAddr, error) {
	n, from, m, err := c.s.Read(b)
	if err != nil {
		return n, nil, err
	}
	return n, udpAddr(from, m), nil
}
func (c *UDPConn) ReadFrom(b []byte) (int, real.Addr, error) {
	n, a, err := c.ReadFromUDP(b)
	if a == nil {
		return n, nil, err
	}
	return n, a, err
}
func (c *UDPConn) ReadFromUDPAddrPort(b []byte) (int, netip.AddrPort, error) {
	n, from, m, err := c.s.Read(b)
	if m && from.Addr().Is4() {
		from = netip.AddrPortFrom(netip.AddrFrom16(from.Addr().As16()), from.Port())
	}
	return n, from, err
}
func (c *UDPConn) ReadMsgUDP(b, oob []byte) (int, int, int, *real.UDPAddr, error) {
	n, a, err := c.ReadFromUDP(b)
	return n, 0, 0, a, err
}
func (c *UDPConn) Read(b []byte) (int, error) {
	if c.c != nil {
		return c.c.Read(b)
	}
	n, _, _, err := c.s.Read(b)
	return n, err
}
func (c *UDPConn) WriteToUDP(b []byte, a *real.UDPAddr) (int, error) { return c.s.Write(b, apOf(a)) }
func (c *UDPConn) WriteTo(b []byte, a real.Addr) (int, error) {
	return c.s.Write(b, apOf(a.(*real.UDPAddr)))
}
func (c *UDPConn) WriteToUDPAddrPort(b []byte, a netip.AddrPort) (int, error) {
	return c.s.Write(b, a)
}
func (c *UDPConn) WriteMsgUDP(b, oob []byte, a *real.UDPAddr) (int, int, error) {
	n, err := c.WriteToUDP(b, a)
	return n, 0, err
}
func (c *UDPConn) Write(b []byte) (int, error) { return c.c.Write(b) }
func (c *UDPConn) Close() error {
	if c == nil {
		return real.ErrClosed
	}
	if c.c != nil {
		return c.c.Close()
	}
	return c.s.Close()
}
func (c *UDPConn) LocalAddr() real.Addr {
	if c.c != nil {
		return udpAddr(c.c.Self(), false)
	}
	return &real.UDPAddr{IP: real.IPv6unspecified, Port: c.s.Port}
}
func (c *UDPConn) RemoteAddr() real.Addr {
	if c.c != nil {
		return &real.UDPAddr{IP: real.IPv4(127, 0, 0, 1), Port: c.c.Port}
	}
	return nil
}
func (c *UDPConn) SetDeadline(t time.Time) error { return c.SetReadDeadline(t) }
func (c *UDPConn) SetReadDeadline(t time.Time) error {
	if c.c != nil {
		c.c.SetRDL(t)
	} else {
		c.s.SetReadDeadline(t)
	}
	return nil
}
func (c *UDPConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *UDPConn) SetReadBuffer(int) error            { return nil }
func (c *UDPConn) SetWriteBuffer(int) error           { return nil }

// TCPListener is net.TCPListener.
type TCPListener struct{ l *vnet.Lst }

func Listen(network, address string) (real.Listener, error) {
	l, err := vnet.Listen(network, address)
	if err != nil {
		return nil, err
	}
	return &TCPListener{l}, nil
}
func ListenTCP(network string, a *real.TCPAddr) (*TCPListener, error) {
	l, err := vnet.Listen(network, a.String())
	if err != nil {
		return nil, err
	}
	return &TCPListener{l}, nil
}
func (l *TCPListener) Accept() (real.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}
func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	c, err := l.l.Accept()
	if err != nil {
		return nil, err
	}
	return &TCPConn{s: c}, nil
}
func (l *TCPListener) Close() error { return l.l.Close() }
func (l *TCPListener) Addr() real.Addr {
	return &real.TCPAddr{IP: real.IPv6unspecified, Port: l.l.Port}
}
func (l *TCPListener) SetDeadline(time.Time) error { return nil }

// TCPConn is net.TCPConn.
type TCPConn struct {
	s *vnet.Conn
	c *vnet.Client
}

func tcpAddr(ap netip.AddrPort, zone string) *real.TCPAddr {
	return &real.TCPAddr{IP: append(real.IP(nil), ap.Addr().AsSlice()...), Port: int(ap.Port()), Zone: ap.Addr().Zone()}
}
func (c *TCPConn) Read(b []byte) (int, error) {
	if c.c != nil {
		return c.c.Read(b)
	}
	return c.s.Read(b)
}
func (c *TCPConn) Write(b []byte) (int, error) {
	if c.c != nil {
		return c.c.Write(b)
	}
	return c.s.Write(b)
}
func (c *TCPConn) Close() error {
	if c.c != nil {
		return c.c.Close()
	}
	return c.s.Close()
}
func (c *TCPConn) LocalAddr() real.Addr {
	if c.c != nil {
		return tcpAddr(c.c.Self(), "")
	}
	return tcpAddr(c.s.Local, "")
}
func (c *TCPConn) RemoteAddr() real.Addr {
	if c.c != nil {
		return &real.TCPAddr{IP: real.IPv4(127, 0, 0, 1), Port: c.c.Port}
	}
	return tcpAddr(c.s.Remote, c.s.Zone)
}
func (c *TCPConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	if c.c != nil {
		c.c.SetRDL(t)
	} else {
		c.s.SetRDL(t)
	}
	return nil
}
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	if c.s != nil {
		c.s.SetWDL(t)
	}
	return nil
}
func (c *TCPConn) CloseWrite() error                      { return nil }
func (c *TCPConn) CloseRead() error                       { return nil }
func (c *TCPConn) SetLinger(int) error                    { return nil }
func (c *TCPConn) SetNoDelay(bool) error                  { return nil }
func (c *TCPConn) SetKeepAlive(bool) error                { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }

func Dial(network, address string) (real.Conn, error) {
	c, err := vnet.Dial(network, address)
	if err != nil {
		return nil, err
	}
	if len(network) >= 3 && network[:3] == "udp" {
		return &UDPConn{c: c}, nil
	}
	return &TCPConn{c: c}, nil
}
func DialTimeout(network, address string, _ time.Duration) (real.Conn, error) {
	return Dial(network, address)
}
func DialUDP(network string, l, r *real.UDPAddr) (*UDPConn, error) {
	c, err := vnet.Dial(network, r.String())
	if err != nil {
		return nil, err
	}
	return &UDPConn{c: c}, nil
}

// Dialer is net.Dialer.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	LocalAddr real.Addr
	KeepAlive time.Duration
}

func (d *Dialer) Dial(network, address string) (real.Conn, error) { return Dial(network, address) }
func (d *Dialer) DialContext(_ context.Context, network, address string) (real.Conn, error) {
	return Dial(network, address)
}

// ListenConfig is net.ListenConfig.
type ListenConfig struct {
	Control   func(network, address string, c any) error
	KeepAlive time.Duration
}

func (ListenConfig) Listen(_ context.Context, network, address string) (real.Listener, error) {
	return Listen(network, address)
}
func (ListenConfig) ListenPacket(_ context.Context, network, address string) (real.PacketConn, error) {
	return ListenPacket(network, address)
}
