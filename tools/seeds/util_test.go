package zzdemo

import (
	"context"
	"io"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/server"
)

var _ = context.Background
var _ = io.EOF

// tcpPair returns both sides of a loopback connection
func tcpPair(t *testing.T) (net.Conn, net.Conn) {
	t.Helper()
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer ln.Close()
	ch := make(chan net.Conn, 1)
	go func() {
		c, err := ln.Accept()
		if err != nil {
			close(ch)
			return
		}
		ch <- c
	}()
	a, err := net.Dial("tcp", ln.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	b, ok := <-ch
	if !ok {
		t.Fatal("accept failed")
	}
	return a, b
}

// endsOn builds a client and a server End on two connected conns
func endsOn(t *testing.T, cc, sc net.Conn, co *client.EndOptions, so *server.EndOptions) (geminio.End, geminio.End) {
	t.Helper()
	if co == nil {
		co = client.NewEndOptions()
	}
	if so == nil {
		so = server.NewEndOptions()
	}
	type r struct {
		e   geminio.End
		err error
	}
	ch := make(chan r, 1)
	go func() {
		e, err := server.NewEndWithConn(sc, so)
		ch <- r{e, err}
	}()
	c, err := client.NewEndWithConn(cc, co)
	if err != nil {
		t.Fatal("client:", err)
	}
	s := <-ch
	if s.err != nil {
		t.Fatal("server:", s.err)
	}
	return c, s.e
}

func ends(t *testing.T, co *client.EndOptions, so *server.EndOptions) (geminio.End, geminio.End) {
	t.Helper()
	a, b := tcpPair(t)
	return endsOn(t, a, b, co, so)
}

// streams opens a stream from a to b
func streams(t *testing.T, a, b geminio.End) (geminio.Stream, geminio.Stream) {
	t.Helper()
	ch := make(chan geminio.Stream, 1)
	go func() {
		s, err := b.AcceptStream()
		if err != nil {
			close(ch)
			return
		}
		ch <- s
	}()
	x, err := a.OpenStream()
	if err != nil {
		t.Fatal("open:", err)
	}
	y, ok := <-ch
	if !ok {
		t.Fatal("accept stream failed")
	}
	return x, y
}

// within fails the demo when fn doesn't return in time
func within(t *testing.T, d time.Duration, what string, fn func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); fn() }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatalf("%s: still not done after %v", what, d)
	}
}

// gateConn blocks writes while shut
type gateConn struct {
	net.Conn
	mu   sync.Mutex
	gate chan struct{}
}

func (g *gateConn) shut() { g.mu.Lock(); g.gate = make(chan struct{}); g.mu.Unlock() }
func (g *gateConn) open() { g.mu.Lock(); close(g.gate); g.gate = nil; g.mu.Unlock() }
func (g *gateConn) Write(b []byte) (int, error) {
	g.mu.Lock()
	ch := g.gate
	g.mu.Unlock()
	if ch != nil {
		<-ch
	}
	return g.Conn.Write(b)
}
