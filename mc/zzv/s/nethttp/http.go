// Package http replaces net/http in the instrumented tracker: servers and clients use the virtual network.
package http

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"io"
	"log"
	"net"
	real "net/http"
	"net/url"
	"time"

	vnets "github.com/crimist/trakx/zzv/s/net"
	"github.com/crimist/trakx/zzv/vnet"
	"github.com/crimist/trakx/zzv/vs"
)

// Server is http.Server: it listens on the virtual network; the harness calls its handler.
type Server struct {
	Addr              string
	Handler           real.Handler
	TLSConfig         *tls.Config
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
	ErrorLog          *log.Logger
	BaseContext       func(net.Listener) context.Context
	ConnContext       func(ctx context.Context, c net.Conn) context.Context
	l                 net.Listener
	closed            bool
}

// Servers lists the servers of this execution.
var Servers []*Server

func init() { vs.OnReset(func() { Servers = nil }) }

func (s *Server) ListenAndServe() error {
	addr := s.Addr
	if addr == "" {
		addr = ":http"
	}
	l, err := vnets.Listen("tcp", addr)
	if err != nil {
		return err
	}
	return s.Serve(l)
}

// Serve is ListenAndServe on a listener opened before.
func (s *Server) Serve(l net.Listener) error {
	s.l = l
	Servers = append(Servers, s)
	h := s.Handler
	if h == nil {
		h = real.DefaultServeMux
	}
	for {
		c, err := l.Accept()
		if err != nil {
			return real.ErrServerClosed
		}
		vs.Go(func() {
			defer c.Close()
			b := make([]byte, 1<<16)
			n, err := c.Read(b)
			if err != nil {
				return
			}
			req, err := real.ReadRequest(bufio.NewReader(bytes.NewReader(b[:n])))
			if err != nil {
				c.Write([]byte("HTTP/1.1 400 Bad Request\r\n\r\n"))
				return
			}
			req.RemoteAddr = c.RemoteAddr().String()
			rec := &recorder{h: real.Header{}, code: 200}
			h.ServeHTTP(rec, req)
			resp := real.Response{StatusCode: rec.code, ProtoMajor: 1, ProtoMinor: 1, Header: rec.h, Body: io.NopCloser(&rec.b), ContentLength: int64(rec.b.Len()), Close: true}
			var out bytes.Buffer
			resp.Write(&out)
			c.Write(out.Bytes())
		})
	}
}

type recorder struct {
	h    real.Header
	code int
	b    bytes.Buffer
}

func (r *recorder) Header() real.Header         { return r.h }
func (r *recorder) Write(b []byte) (int, error) { return r.b.Write(b) }
func (r *recorder) WriteHeader(c int)           { r.code = c }

func (s *Server) SetKeepAlivesEnabled(bool) {}
func (s *Server) Close() error {
	if s.l != nil {
		return s.l.Close()
	}
	return nil
}
func (s *Server) Shutdown(context.Context) error { return s.Close() }
func (s *Server) RegisterOnShutdown(func())      {}

func Serve(l net.Listener, h real.Handler) error { return (&Server{Handler: h}).Serve(l) }

func ListenAndServe(addr string, h real.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}

// Client is http.Client.
type Client struct {
	Transport     real.RoundTripper
	CheckRedirect func(req *real.Request, via []*real.Request) error
	Jar           real.CookieJar
	Timeout       time.Duration
}

var DefaultClient = &Client{}

func Get(u string) (*real.Response, error) { return DefaultClient.Get(u) }

func (c *Client) Get(u string) (*real.Response, error) {
	req, err := real.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func (c *Client) Head(u string) (*real.Response, error) {
	req, err := real.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func (c *Client) CloseIdleConnections() {}

func (c *Client) Do(req *real.Request) (*real.Response, error) {
	fail := func(err error) (*real.Response, error) {
		return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: err}
	}
	if vnet.HTTPHook != nil {
		vs.Point("http get")
		if st, body, err, ok := vnet.HTTPHook(req.URL.String()); ok {
			if err != nil {
				return fail(err)
			}
			return &real.Response{StatusCode: st, Body: io.NopCloser(bytes.NewReader(body)), Header: real.Header{}}, nil
		}
	}
	addr := req.URL.Host
	if req.URL.Port() == "" {
		addr += ":80"
	}
	conn, err := vnets.Dial("tcp", addr)
	if err != nil {
		return fail(err)
	}
	defer conn.Close()
	if c.Timeout > 0 {
		conn.SetDeadline(time.Unix(0, vs.Now()).Add(c.Timeout))
	}
	conn.Write([]byte(req.Method + " " + req.URL.RequestURI() + " HTTP/1.1\r\nHost: " + req.URL.Host + "\r\nUser-Agent: Go-http-client/1.1\r\nAccept-Encoding: gzip\r\n\r\n"))
	var all []byte
	b := make([]byte, 65536)
	for {
		n, err := conn.Read(b)
		all = append(all, b[:n]...)
		if errors.Is(err, io.EOF) {
			break
		}
		if err != nil {
			return fail(err)
		}
	}
	resp, err := real.ReadResponse(bufio.NewReader(bytes.NewReader(all)), req)
	if err != nil {
		return fail(err)
	}
	return resp, nil
}
