// Package vnet is the virtual network: UDP sockets with datagram queues, TCP listeners with connection
// queues, both with injectable faults. The harness holds the client ends.
package vnet

import (
	"io"
	"net"
	"net/netip"
	"os"
	"strconv"
	"syscall"
	"time"

	"github.com/crimist/trakx/zzv/vs"
)

// ---- UDP ----

// Dgram is one queued datagram or a read error.
type Dgram struct {
	Data []byte
	From netip.AddrPort
	Map4 bool // deliver an IPv4 sender as a 16-byte address, as a dual-stack socket does
	Err  error
	Ret  func(b []byte) // client socket to answer to
}

// Reply is one datagram sent.
type Reply struct {
	Data []byte
	To   netip.AddrPort
	Map4 bool
	Task string
	Seq  int
}

type USock struct {
	Port    int
	Addr    string
	Bind    string
	Queue   []Dgram
	Out     []Reply
	Closed  bool
	Proc    int
	Readers int
	rdl     int64
	peers   []peer
	Reads   int
}

type peer struct {
	ap netip.AddrPort
	f  func([]byte)
}

var (
	USocks    []*USock
	Lists     []*Lst
	WriteErrs bool // every UDP send may fail (one deviation)
	ListenErr func(network, addr string) error
	seq       int
	AllConns  []*Conn
	Responder func(network string, port int, req []byte) (resp []byte, ok bool)
	DialHook  func(network string, port int) error
	HTTPHook  func(url string) (status int, body []byte, err error, handled bool)
)

func init() { vs.OnReset(Reset) }

func Reset() {
	USocks, Lists, WriteErrs, ListenErr, seq, AllConns = nil, nil, false, nil, 0, nil
	Responder, HTTPHook, DialHook = nil, nil, nil
}

func Seq() int { seq++; return seq }

func opErr(op, netw string, err error) error { return &net.OpError{Op: op, Net: netw, Err: err} }

func sysErr(call string, e syscall.Errno) error { return os.NewSyscallError(call, e) }

// Bind is what a socket listens on: "*" for every address, "*4" or "*6" for one family, or an address.
func bind(network, addr string) (ip string, port int, err error) {
	host, _, err := net.SplitHostPort(addr)
	if err != nil {
		return "", 0, opErr("listen", network, err)
	}
	port = PortOf(addr)
	if port < 0 || port > 65535 {
		return "", 0, opErr("listen", network, &net.AddrError{Err: "invalid port", Addr: addr})
	}
	fam := byte(0)
	if c := network[len(network)-1]; c == '4' || c == '6' {
		fam = c
	}
	if host == "localhost" {
		host = "127.0.0.1"
		if fam == '6' {
			host = "::1"
		}
	}
	a := netip.IPv4Unspecified()
	if host != "" {
		if a, err = netip.ParseAddr(host); err != nil {
			return "", 0, opErr("listen", network, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true})
		}
	}
	a = a.Unmap()
	if a.IsUnspecified() {
		if fam != 0 {
			return "*" + string(fam), port, nil
		}
		return "*", port, nil
	}
	if fam == '4' && !a.Is4() || fam == '6' && !a.Is6() {
		return "", 0, opErr("listen", network, &net.AddrError{Err: "no suitable address found", Addr: host})
	}
	return a.String(), port, nil
}

// Reaches tells whether a socket gets what is sent to a host.
func Reaches(bind, host string) bool {
	if host == "localhost" {
		return Reaches(bind, "127.0.0.1") || Reaches(bind, "::1")
	}
	a, err := netip.ParseAddr(host)
	if err != nil && host != "" {
		return false
	}
	if host == "" || a.IsUnspecified() { // this host
		return Reaches(bind, "127.0.0.1") || Reaches(bind, "::1")
	}
	a = a.Unmap()
	switch bind {
	case "*":
		return true
	case "*4":
		return a.Is4()
	case "*6":
		return a.Is6()
	}
	return bind == a.String()
}

func overlap(a, b string) bool { return a == b || a[0] == '*' || b[0] == '*' }

func ListenUDP(network, addr string) (*USock, error) {
	vs.CheckDead()
	vs.Point("listen udp")
	ip, port, err := bind(network, addr)
	if err != nil {
		return nil, err
	}
	if ListenErr != nil {
		if err := ListenErr("udp", addr); err != nil {
			return nil, opErr("listen", "udp", err)
		}
	}
	for _, s := range USocks {
		if s.Port == port && !s.Closed && !procDead(s.Proc) && overlap(s.Bind, ip) {
			return nil, opErr("listen", "udp", sysErr("bind", syscall.EADDRINUSE))
		}
	}
	s := &USock{Port: port, Addr: addr, Bind: ip, Proc: vs.CurProc()}
	vs.Push(&USocks, s)
	return s, nil
}

func procDead(p int) bool {
	if p == 0 {
		return false
	}
	_, ok := vs.Exited(p)
	return ok
}

// UDP returns the open socket on a port.
func UDP(port int) *USock {
	for i := len(USocks) - 1; i >= 0; i-- {
		if s := USocks[i]; s.Port == port && !s.Closed && !procDead(s.Proc) {
			return s
		}
	}
	return nil
}

// LastUDP returns the most recent socket on a port, closed or not.
func LastUDP(port int) *USock {
	for i := len(USocks) - 1; i >= 0; i-- {
		if USocks[i].Port == port {
			return USocks[i]
		}
	}
	return nil
}

// Send queues a datagram (harness side).
func (s *USock) Send(from netip.AddrPort, map4 bool, data []byte) {
	vs.Push(&s.Queue, Dgram{Data: append([]byte(nil), data...), From: from, Map4: map4})
}

// Fault queues a read error.
func (s *USock) Fault(err error) { vs.Push(&s.Queue, Dgram{Err: err}) }

func (s *USock) Read(b []byte) (n int, from netip.AddrPort, map4 bool, err error) {
	vs.CheckDead()
	vs.Point("udp read")
	s.Readers++
	defer func() { s.Readers-- }()
	timed := false
	var tm *vs.Timer
	if s.rdl != 0 {
		if s.rdl <= vs.Now() {
			return 0, netip.AddrPort{}, false, opErr("read", "udp", os.ErrDeadlineExceeded)
		}
		tm = vs.AddTimer(s.rdl, func() { timed = true })
	}
	vs.Block("udp read", func() bool { return len(s.Queue) > 0 || s.Closed || timed })
	if tm != nil {
		tm.Stop()
	}
	vs.CheckDead()
	if s.Closed {
		return 0, netip.AddrPort{}, false, opErr("read", "udp", net.ErrClosed)
	}
	if len(s.Queue) == 0 {
		return 0, netip.AddrPort{}, false, opErr("read", "udp", os.ErrDeadlineExceeded)
	}
	d := s.Queue[0]
	s.Queue = s.Queue[1:]
	if d.Err != nil {
		return 0, netip.AddrPort{}, false, opErr("read", "udp", d.Err)
	}
	n = copy(b, d.Data)
	s.Reads++
	if d.Ret != nil {
		vs.Push(&s.peers, peer{d.From, d.Ret})
	}
	vs.Tracef("udp datagram from %v: %x", d.From, d.Data)
	return n, d.From, d.Map4, nil
}

func (s *USock) Write(b []byte, to netip.AddrPort) (int, error) {
	vs.CheckDead()
	vs.Point("udp write")
	if s.Closed {
		return 0, opErr("write", "udp", net.ErrClosed)
	}
	if WriteErrs && vs.Env(2) == 1 {
		return 0, opErr("write", "udp", sysErr("sendto", syscall.ENETUNREACH))
	}
	if to.Addr().IsLinkLocalUnicast() && to.Addr().Is6() && !to.Addr().Is4In6() && to.Addr().Zone() == "" {
		return 0, opErr("write", "udp", sysErr("sendto", syscall.EINVAL))
	}
	m := to.Addr().Is4In6()
	to = netip.AddrPortFrom(to.Addr().Unmap(), to.Port())
	r := Reply{Data: append([]byte(nil), b...), To: to, Map4: m, Task: vs.CurTask(), Seq: Seq()}
	vs.Push(&s.Out, r)
	vs.Tracef("udp reply to %v: %x", to, b)
	for i := len(s.peers) - 1; i >= 0; i-- {
		if s.peers[i].ap == to {
			s.peers[i].f(r.Data)
			break
		}
	}
	return len(b), nil
}

func (s *USock) Close() error {
	vs.CheckDead()
	vs.Point("udp close")
	if s.Closed {
		return opErr("close", "udp", net.ErrClosed)
	}
	s.Closed = true
	return nil
}

func (s *USock) SetReadDeadline(t time.Time) {
	if t.IsZero() {
		s.rdl = 0
	} else {
		s.rdl = t.UnixNano()
	}
}

// TakeOut returns and clears the datagrams sent.
func (s *USock) TakeOut() []Reply {
	o := s.Out
	s.Out = nil
	return o
}

// ---- TCP ----

type Lst struct {
	Port   int
	Addr   string
	Bind   string
	Queue  []item
	Closed bool
	Proc   int
}

type item struct {
	c   *Conn
	err error
}

// Conn is one connection; the harness fills the client side in before or while the server runs.
type Conn struct {
	Remote netip.AddrPort
	Local  netip.AddrPort
	Zone   string

	in       [][]byte // chunks still to be read by the server
	inEOF    bool
	inErr    error
	Out      []byte // written by the server
	Writes   int
	WriteErr int // fail the n-th write (1-based); 0 never
	Short    int // bytes accepted by the failing write
	Closed   bool
	Closes   int
	Served   bool // accepted
	rdl, wdl int64
	SetRD    bool
	SetWD    bool
	DLErr    error
	ReplySeq int
	DoneSeq  int
	Task     string
	PostUse  string // use after close
	out2     int    // client read position
	cdl      int64
	WriteBlk bool  // client never reads: writes block until the deadline
	Unblock  int64 // if not 0: writes block until this time
	ClosedAt int64
}

func Listen(network, addr string) (*Lst, error) {
	vs.CheckDead()
	vs.Point("listen tcp")
	ip, port, err := bind(network, addr)
	if err != nil {
		return nil, err
	}
	if ListenErr != nil {
		if err := ListenErr("tcp", addr); err != nil {
			return nil, opErr("listen", "tcp", err)
		}
	}
	for _, l := range Lists {
		if l.Port == port && !l.Closed && !procDead(l.Proc) && overlap(l.Bind, ip) {
			return nil, opErr("listen", "tcp", sysErr("bind", syscall.EADDRINUSE))
		}
	}
	l := &Lst{Port: port, Addr: addr, Bind: ip, Proc: vs.CurProc()}
	vs.Push(&Lists, l)
	return l, nil
}

func TCP(port int) *Lst {
	for i := len(Lists) - 1; i >= 0; i-- {
		if l := Lists[i]; l.Port == port && !l.Closed && !procDead(l.Proc) {
			return l
		}
	}
	return nil
}

// NewConn makes a connection that will deliver chunks and then, with eof, the end of the stream.
func NewConn(remote netip.AddrPort, eof bool, chunks ...[]byte) *Conn {
	c := &Conn{Remote: remote, inEOF: eof}
	for _, k := range chunks {
		vs.Push(&c.in, append([]byte(nil), k...))
	}
	vs.Push(&AllConns, c)
	return c
}

func (c *Conn) FailRead(err error) { c.inErr = err }

// Connect queues the connection for accept.
func (l *Lst) Connect(c *Conn) {
	c.Local = netip.AddrPortFrom(netip.MustParseAddr("127.0.0.1"), uint16(l.Port))
	vs.Push(&l.Queue, item{c: c})
}

// FailAccept queues an accept error.
func (l *Lst) FailAccept(err error) { vs.Push(&l.Queue, item{err: err}) }

func (l *Lst) Accept() (*Conn, error) {
	vs.CheckDead()
	vs.Point("accept")
	vs.Block("accept", func() bool { return len(l.Queue) > 0 || l.Closed })
	vs.CheckDead()
	if l.Closed {
		return nil, opErr("accept", "tcp", net.ErrClosed)
	}
	it := l.Queue[0]
	l.Queue = l.Queue[1:]
	if it.err != nil {
		return nil, opErr("accept", "tcp", it.err)
	}
	it.c.Served = true
	it.c.Task = vs.CurTask()
	return it.c, nil
}

func (l *Lst) Close() error {
	vs.CheckDead()
	vs.Point("tcp listener close")
	if l.Closed {
		return opErr("close", "tcp", net.ErrClosed)
	}
	l.Closed = true
	return nil
}

func (c *Conn) Read(b []byte) (int, error) {
	vs.CheckDead()
	vs.Point("conn read")
	if c.Closed {
		c.PostUse = "read"
		return 0, opErr("read", "tcp", net.ErrClosed)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if c.rdl != 0 && c.rdl <= vs.Now() {
		return 0, opErr("read", "tcp", os.ErrDeadlineExceeded)
	}
	if len(c.in) == 0 && !c.inEOF && c.inErr == nil {
		timed := false
		var tm *vs.Timer
		if c.rdl != 0 {
			tm = vs.AddTimer(c.rdl, func() { timed = true })
		}
		vs.Block("conn read", func() bool { return len(c.in) > 0 || c.inEOF || c.inErr != nil || timed || c.Closed })
		if tm != nil {
			tm.Stop()
		}
		vs.CheckDead()
	}
	if len(c.in) > 0 {
		n := copy(b, c.in[0])
		vs.Tracef("conn %v read %q", c.Remote, trunc(c.in[0][:n]))
		if n < len(c.in[0]) {
			c.in[0] = c.in[0][n:]
		} else {
			c.in = c.in[1:]
		}
		return n, nil
	}
	if c.inErr != nil {
		return 0, opErr("read", "tcp", c.inErr)
	}
	if c.inEOF {
		return 0, io.EOF
	}
	return 0, opErr("read", "tcp", os.ErrDeadlineExceeded)
}

func trunc(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

func (c *Conn) Write(b []byte) (int, error) {
	vs.CheckDead()
	vs.Point("conn write")
	if c.Closed {
		c.PostUse = "write"
		return 0, opErr("write", "tcp", net.ErrClosed)
	}
	if c.wdl != 0 && c.wdl <= vs.Now() {
		return 0, opErr("write", "tcp", os.ErrDeadlineExceeded)
	}
	if c.WriteBlk {
		if c.wdl == 0 {
			vs.Block("conn write", func() bool { return c.Closed })
		} else {
			vs.Sleep(c.wdl - vs.Now())
		}
		return 0, opErr("write", "tcp", os.ErrDeadlineExceeded)
	}
	if c.Unblock > vs.Now() {
		if c.wdl != 0 && c.wdl < c.Unblock {
			vs.Sleep(c.wdl - vs.Now())
			return 0, opErr("write", "tcp", os.ErrDeadlineExceeded)
		}
		vs.Sleep(c.Unblock - vs.Now())
		vs.CheckDead()
	}
	c.Writes++
	if c.WriteErr != 0 && c.Writes >= c.WriteErr {
		n := c.Short
		if n > len(b) {
			n = len(b)
		}
		if c.Writes > c.WriteErr {
			n = 0
		}
		c.Out = append(c.Out, b[:n]...)
		return n, opErr("write", "tcp", sysErr("write", syscall.EPIPE))
	}
	c.Out = append(c.Out, b...)
	c.ReplySeq = Seq()
	vs.Tracef("conn %v write %q", c.Remote, trunc(b))
	return len(b), nil
}

func (c *Conn) Close() error {
	vs.CheckDead()
	vs.Point("conn close")
	c.Closes++
	if c.Closed {
		return opErr("close", "tcp", net.ErrClosed)
	}
	c.Closed = true
	c.ClosedAt = vs.Now()
	c.DoneSeq = Seq()
	return nil
}

// SendAt delivers data to the server at a later time.
func (c *Conn) SendAt(at int64, data []byte) {
	if at <= vs.Now() {
		vs.Push(&c.in, data)
		return
	}
	vs.AddTimer(at, func() { vs.Push(&c.in, data) })
}

func (c *Conn) SetRDL(t time.Time) {
	c.SetRD = true
	if t.IsZero() {
		c.rdl = 0
	} else {
		c.rdl = t.UnixNano()
	}
}

func (c *Conn) SetWDL(t time.Time) {
	c.SetWD = true
	if t.IsZero() {
		c.wdl = 0
	} else {
		c.wdl = t.UnixNano()
	}
}

// ---- client ends used by the code under test (controller) ----

// Client is a connection opened by the code under test.
type Client struct {
	Network string
	Host    string
	Port    int
	in      [][]byte
	err     error
	closed  bool
	rdl     int64
	self    netip.AddrPort
	conn    *Conn
}

var eph uint16

func PortOf(addr string) int {
	_, p, err := net.SplitHostPort(addr)
	if err != nil {
		return -1
	}
	n, err := strconv.Atoi(p)
	if err != nil {
		if p == "http" {
			return 80
		}
		return -1
	}
	return n
}

func Dial(network, addr string) (*Client, error) {
	vs.CheckDead()
	vs.Point("dial " + network)
	port := PortOf(addr)
	if DialHook != nil {
		if err := DialHook(network, port); err != nil {
			return nil, opErr("dial", network, err)
		}
	}
	eph++
	host, _, _ := net.SplitHostPort(addr)
	c := &Client{Network: network, Port: port, Host: host, self: netip.AddrPortFrom(netip.MustParseAddr("127.0.0.1"), 40000+eph%20000)}
	if network == "tcp" || network == "tcp4" || network == "tcp6" {
		l := TCP(port)
		if l == nil || !Reaches(l.Bind, host) {
			return nil, opErr("dial", network, sysErr("connect", syscall.ECONNREFUSED))
		}
		c.conn = NewConn(c.self, false)
		l.Connect(c.conn)
	}
	return c, nil
}

func (c *Client) Write(b []byte) (int, error) {
	vs.CheckDead()
	vs.Point("client write")
	if c.closed {
		return 0, opErr("write", c.Network, net.ErrClosed)
	}
	if c.conn != nil {
		vs.Push(&c.conn.in, append([]byte(nil), b...))
		return len(b), nil
	}
	if Responder != nil {
		if r, ok := Responder(c.Network, c.Port, b); ok {
			if r != nil {
				vs.Push(&c.in, r)
			}
			return len(b), nil
		}
	}
	s := UDP(c.Port)
	if s == nil || !Reaches(s.Bind, c.Host) {
		c.err = sysErr("read", syscall.ECONNREFUSED)
		return len(b), nil
	}
	vs.Push(&s.Queue, Dgram{Data: append([]byte(nil), b...), From: c.self, Ret: func(b []byte) { c.in = append(c.in, b) }})
	return len(b), nil
}

func (c *Client) Read(b []byte) (int, error) {
	vs.CheckDead()
	vs.Point("client read")
	if c.closed {
		return 0, opErr("read", c.Network, net.ErrClosed)
	}
	if c.rdl != 0 && c.rdl <= vs.Now() {
		return 0, opErr("read", c.Network, os.ErrDeadlineExceeded)
	}
	timed := false
	if c.rdl != 0 {
		tm := vs.AddTimer(c.rdl, func() { timed = true })
		defer tm.Stop()
	}
	if c.conn != nil {
		k := c.conn
		vs.Block("client read", func() bool { return len(k.Out) > c.out2() || k.Closed || timed })
		vs.CheckDead()
		if len(k.Out) > k.out2 {
			n := copy(b, k.Out[k.out2:])
			k.out2 += n
			return n, nil
		}
		if k.Closed {
			return 0, io.EOF
		}
		return 0, opErr("read", c.Network, os.ErrDeadlineExceeded)
	}
	vs.Block("client read (no deadline="+strconv.FormatBool(c.rdl == 0)+")", func() bool { return len(c.in) > 0 || c.err != nil || timed })
	vs.CheckDead()
	if len(c.in) > 0 {
		n := copy(b, c.in[0])
		c.in = c.in[1:]
		return n, nil
	}
	if c.err != nil {
		e := c.err
		c.err = nil
		return 0, opErr("read", c.Network, e)
	}
	return 0, opErr("read", c.Network, os.ErrDeadlineExceeded)
}

func (c *Client) out2() int { return c.conn.out2 }

func (c *Client) Close() error {
	c.closed = true
	if c.conn != nil {
		c.conn.inEOF = true
	}
	return nil
}

func (c *Client) SetRDL(t time.Time) {
	if t.IsZero() {
		c.rdl = 0
	} else {
		c.rdl = t.UnixNano()
	}
}

func (c *Client) Self() netip.AddrPort { return c.self }
