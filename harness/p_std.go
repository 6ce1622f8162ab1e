package verif

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/rpc"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
)

func init() {
	register(&Prop{ID: "C28",
		Rule: "A case runs unmodified standard library protocols, several at once and from both Ends, over streams as net.Conn and Ends as net.Listener: HTTP servers accepting from an End with keep-alive clients dialling by OpenStream (whose connection handling relies on past and cleared read deadlines), TLS with drawn message sizes and proper and abrupt closing, net/rpc with concurrent calls, line protocols by bufio, and io.Copy relays from stream to stream; every exchange is verified and must complete. Addresses of Ends and streams are compared with those of the connection under them all the while and after the end. No more than 32 packets are outstanding per direction (see the known finding of C01).",
		Scens: []*Scen{
			{Name: "http", Mode: Real, Quick: 48, Thorough: 800, Batch: 8, Fn: stdHTTP},
			{Name: "tls", Mode: Bubble, Quick: 60, Thorough: 2000, Batch: 8, Fn: stdTLS},
			{Name: "rpc", Mode: Real, Quick: 32, Thorough: 500, Batch: 8, Fn: stdRPC},
			{Name: "relay", Mode: Bubble, Quick: 80, Thorough: 3000, Batch: 8, Fn: stdRelay},
			{Name: "lines", Mode: Bubble, Quick: 80, Thorough: 3000, Batch: 8, Fn: stdLines},
			{Name: "wall", Mode: Real, Quick: 24, Thorough: 300, Batch: 4, Fn: stdMix},
		}})
}

func stdMix(c *C) {
	[]func(*C){stdHTTP, stdTLS, stdRPC, stdRelay, stdLines}[c.N(5)](c)
}

// addrs compares the addresses of an End and some of its streams with those
// of its connection.
func (c *C) addrs(e *Env, ss ...net.Conn) {
	for side := 0; side < 2; side++ {
		cn := e.cn
		if side == 1 {
			cn = e.sn
		}
		if cn == nil {
			return
		}
		l, r := cn.LocalAddr().String(), cn.RemoteAddr().String()
		en := e.End(side)
		if en.LocalAddr().String() != l || en.RemoteAddr().String() != r || en.Addr().String() != l {
			c.Violate("addr", "End on a connection from %s to %s says local %v, remote %v, addr %v", l, r, en.LocalAddr(), en.RemoteAddr(), en.Addr())
			return
		}
		for _, s := range en.ListStreams() {
			if s.LocalAddr().String() != l || s.RemoteAddr().String() != r {
				c.Violate("addr", "stream on a connection from %s to %s says local %v, remote %v", l, r, s.LocalAddr(), s.RemoteAddr())
				return
			}
			c.Ev("addresses", side)
		}
	}
	for _, s := range ss {
		if (s.LocalAddr().String() != e.cn.LocalAddr().String()) == (s.LocalAddr().String() != e.sn.LocalAddr().String()) {
			c.Violate("addr", "stream says local %v, the connection is from %v to %v", s.LocalAddr(), e.cn.LocalAddr(), e.sn.LocalAddr())
		}
	}
}

func stdHTTP(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	sides := c.Pick(1, 2)
	first := c.N(2)
	var fns []func()
	for k := 0; k < sides; k++ {
		srv, cli := e.End((first+k)%2), e.End(1-(first+k)%2)
		var served atomic.Int64
		h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			served.Add(1)
			b, err := io.ReadAll(r.Body)
			if err != nil {
				c.Violate("http-body", "reading a request's body: %v", err)
			}
			if d, _ := strconv.Atoi(r.Header.Get("X-Delay")); d > 0 {
				time.Sleep(time.Duration(d) * time.Millisecond)
			}
			if r.Header.Get("X-Chunked") != "" {
				w.WriteHeader(299)
				for i := 0; i < len(b); i += 7001 {
					w.Write(b[i:min(i+7001, len(b))])
					w.(http.Flusher).Flush()
				}
				return
			}
			w.Header().Set("Content-Length", strconv.Itoa(len(b)))
			w.Write(b)
		})
		hs := &http.Server{Handler: h}
		if c.Bool() {
			hs.ReadHeaderTimeout = time.Minute
			hs.IdleTimeout = time.Duration(c.Range(100, 60000)) * time.Millisecond
		}
		go hs.Serve(end1(srv))
		tr := &http.Transport{
			DialContext: func(context.Context, string, string) (net.Conn, error) {
				var oo []*options.OpenStreamOptions
				return cli.OpenStream(oo...)
			},
			MaxIdleConnsPerHost: c.Pick(1, 2, 8),
			IdleConnTimeout:     time.Minute,
		}
		hc := &http.Client{Transport: tr, Timeout: 2 * time.Minute}
		c.Cleanup(func() { tr.CloseIdleConnections(); hs.Close() })
		var sent atomic.Int64
		workers := c.Range(1, 6)
		per := c.Range(1, 12)
		var wg sync.WaitGroup
		wg.Add(workers)
		for g := 0; g < workers; g++ {
			r := c.Sub()
			fns = append(fns, func() {
				defer wg.Done()
				for i := 0; i < per; i++ {
					body := c.Bytes(r.IntN([]int{1, 100, 5000, 40000}[r.IntN(4)]))
					req, _ := http.NewRequest("POST", fmt.Sprintf("http://geminio/%d/%d", g, i), bytes.NewReader(body))
					if r.IntN(3) == 0 {
						req.Header.Set("X-Chunked", "1")
					}
					if r.IntN(3) == 0 {
						req.Header.Set("X-Delay", strconv.Itoa(r.IntN(300)))
					}
					if r.IntN(5) == 0 {
						req.Close = true
					}
					var sentBy = func() { sent.Add(1) }
					if r.IntN(8) == 0 {
						// given up in the middle: only this one may suffer
						ctx, cancel := context.WithTimeout(bg, time.Duration(r.IntN(200))*time.Millisecond)
						rs, err := hc.Do(req.WithContext(ctx))
						if err == nil {
							io.Copy(io.Discard, rs.Body)
							rs.Body.Close()
						}
						cancel()
						c.Ev("http_given_up")
						continue
					}
					// no retries by the transport: a request with a body it can't rewind
					req.GetBody = nil
					rs, err := hc.Do(req)
					if err != nil {
						if hs.IdleTimeout > 0 && hs.IdleTimeout < time.Minute {
							// the server may close an idle connection right then
							c.Ev("http_idle_race")
							continue
						}
						c.Violate("http", "request failed: %v", err)
						return
					}
					got, err := io.ReadAll(rs.Body)
					rs.Body.Close()
					if err != nil {
						c.Violate("http", "reading a response of %d bytes failed after %d: %v", len(body), len(got), err)
						return
					}
					if !bytes.Equal(got, body) {
						c.Violate("http-data", "a request with %s was answered with %s", short(body), short(got))
						return
					}
					sentBy()
					c.Ev("http_ok", len(body))
					if r.IntN(3) == 0 {
						if c.Mode == Bubble {
							time.Sleep(time.Duration(r.IntN(5000)) * time.Millisecond)
						}
						c.addrs(e)
					}
				}
			})
		}
		fns = append(fns, func() {
			wg.Wait()
			if served.Load() < sent.Load() {
				c.Violate("http-served", "%d requests answered, %d served", sent.Load(), served.Load())
			}
		})
	}
	c.All("HTTP over streams", fns...)
	c.addrs(e)
}

// end1 is the End as net.Listener only.
func end1(e geminio.End) net.Listener { return e }

var stdCert = sync.OnceValue(func() tls.Certificate {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "geminio"}, DNSNames: []string{"geminio"},
		NotBefore: time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2999, 1, 1, 0, 0, 0, 0, time.UTC)}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
})

func stdTLS(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.Range(0, 3))
	if !ok {
		return
	}
	cert := stdCert()
	pool := x509.NewCertPool()
	x, _ := x509.ParseCertificate(cert.Certificate[0])
	pool.AddCert(x)
	var fns []func()
	for _, p := range ps {
		side := c.N(2)
		ver := uint16(tls.VersionTLS13)
		if c.Bool() {
			ver = tls.VersionTLS12
		}
		a := tls.Client(p.at(side), &tls.Config{RootCAs: pool, ServerName: "geminio", MaxVersion: ver, DynamicRecordSizingDisabled: true})
		b := tls.Server(p.at(1-side), &tls.Config{Certificates: []tls.Certificate{cert}, DynamicRecordSizingDisabled: true})
		var msgs [][]byte
		max := c.Pick(10, 3000, 100000)
		for i := 0; i < c.Range(1, 20); i++ {
			msgs = append(msgs, c.Bytes(1+c.N(max)))
		}
		how := c.N(3)
		if p.at(side).StreamID() == 1 {
			how = 2
		}
		echo := c.Bool()
		fns = append(fns, func() {
			for i, m := range msgs {
				if _, err := a.Write(m); err != nil {
					c.Violate("tls", "TLS write: %v", err)
					return
				}
				got := make([]byte, len(m))
				if !echo {
					got = got[:1]
				}
				if _, err := io.ReadFull(a, got); err != nil {
					c.Violate("tls", "TLS read of echo %d (%d bytes): %v", i, len(m), err)
					return
				}
				if echo && !bytes.Equal(got, m) {
					c.Violate("tls", "TLS echo differs")
					return
				}
				c.Ev("tls_ok", len(m))
			}
			switch how {
			case 0:
				if err := a.Close(); err != nil {
					c.Violate("tls-close", "closing a TLS client: %v", err)
				}
			case 1: // a half close first
				if err := a.CloseWrite(); err != nil {
					c.Violate("tls-close", "TLS close notify: %v", err)
				}
				if n, err := a.Read(make([]byte, 1)); n != 0 || err != io.EOF {
					c.Violate("tls-close", "TLS read after the peer's close: %d, %v", n, err)
				}
				a.Close()
			}
		}, func() {
			for i, m := range msgs {
				got := make([]byte, len(m))
				if _, err := io.ReadFull(b, got); err != nil {
					c.Violate("tls", "TLS read of message %d (%d bytes): %v", i, len(m), err)
					return
				}
				if !bytes.Equal(got, m) {
					c.Violate("tls", "TLS data differs")
					return
				}
				if !echo {
					got = got[:1]
				}
				if _, err := b.Write(got); err != nil {
					c.Violate("tls", "TLS echo: %v", err)
					return
				}
			}
			if how < 2 {
				// a close notification behind all data, not a bare end
				if n, err := b.Read(make([]byte, 1)); n != 0 || err != io.EOF {
					c.Violate("tls-close", "TLS read after the client's close notification: %d, %v", n, err)
				}
				b.Close()
				c.Ev("tls_closed", how)
			}
		})
	}
	fns = append(fns, func() { c.addrs(e) })
	c.All("TLS over streams", fns...)
}

type StdArith struct{ c *C }
type StdArgs struct {
	N    int
	Data []byte
}

func (t *StdArith) Echo(a *StdArgs, r *StdArgs) error {
	if a.N%7 == 3 {
		return fmt.Errorf("failed %d", a.N)
	}
	r.N, r.Data = a.N+1, a.Data
	return nil
}

func stdRPC(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.Range(0, 3))
	if !ok {
		return
	}
	srv := rpc.NewServer()
	if err := srv.Register(&StdArith{c}); err != nil {
		panic(err)
	}
	var fns []func()
	for _, p := range ps {
		side := c.N(2)
		go srv.ServeConn(p.at(1 - side))
		cl := rpc.NewClient(p.at(side))
		max := c.Pick(1, 500, 8000)
		g := c.Range(1, 8)
		var wg sync.WaitGroup
		wg.Add(g)
		for k := 0; k < g; k++ {
			r := c.Sub()
			fns = append(fns, func() {
				defer wg.Done()
				for i := 0; i < 15; i++ {
					a := &StdArgs{N: r.IntN(1 << 30), Data: c.Bytes(r.IntN(max))}
					var rep StdArgs
					err := cl.Call("StdArith.Echo", a, &rep)
					if a.N%7 == 3 {
						if err == nil || err.Error() != fmt.Sprintf("failed %d", a.N) {
							c.Violate("netrpc", "net/rpc error: %v", err)
							return
						}
						continue
					}
					if err != nil || rep.N != a.N+1 || !bytes.Equal(rep.Data, a.Data) {
						c.Violate("netrpc", "net/rpc call: %v, %d of %d, data equal %v", err, rep.N, a.N+1, bytes.Equal(rep.Data, a.Data))
						return
					}
					c.Ev("netrpc_ok", len(a.Data))
				}
			})
		}
		def := p.at(side).StreamID() == 1
		fns = append(fns, func() {
			wg.Wait()
			if def {
				return
			}
			if err := cl.Close(); err != nil {
				c.Violate("netrpc-close", "closing a net/rpc client: %v", err)
			}
			if err := cl.Call("StdArith.Echo", &StdArgs{}, &StdArgs{}); !errors.Is(err, rpc.ErrShutdown) {
				c.Violate("netrpc-close", "a call after closing returned %v", err)
			}
		})
	}
	c.All("net/rpc over streams", fns...)
}

// stdRelay joins streams of two connections by io.Copy in both directions, as
// a proxy does, and runs flows through them.
func stdRelay(c *C) {
	e1, e2 := c.NewEnv(c.Stock()), (*Env)(nil)
	if e1 == nil {
		return
	}
	if e2 = c.NewEnv(c.Stock()); e2 == nil {
		return
	}
	n := c.Range(1, 3)
	p1, ok := e1.Pairs(n)
	if !ok {
		return
	}
	p2, ok := e2.Pairs(n)
	if !ok {
		return
	}
	var fns []func()
	for i := 1; i <= n; i++ {
		x, m := p1[i].at(0), p1[i].at(1)
		k, y := p2[i].at(0), p2[i].at(1)
		half := func(dst, src geminio.Stream) {
			b := make([]byte, 1<<17)
			io.CopyBuffer(struct{ io.Writer }{dst}, struct{ io.Reader }{src}, b)
			// what came before the end goes before the end
			dst.Close()
			src.Close()
		}
		go half(k, m)
		go half(m, k)
		nw := c.Range(1, 60)
		max := c.Pick(20, 2000, 60000)
		both := c.Bool()
		f := c.NewFlow("relayed", x, y)
		g := c.NewFlow("relayed back", y, x)
		fns = append(fns, func() {
			if both {
				var wg sync.WaitGroup
				wg.Add(1)
				go func() { defer wg.Done(); g.Full(nw, max, 1000+max, nil) }()
				f.Full(nw, max, 1000+max, nil)
				wg.Wait()
			} else {
				f.Full(nw, max, 1000+max, nil)
			}
			// some more, then the end: it must come through behind it
			more := c.Range(0, 20)
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < more; j++ {
					if err := f.Write(1 + c.N(300)); err != nil {
						c.Violate("relay", "Write: %v", err)
						return
					}
				}
				x.Close()
			}()
			b := make([]byte, 5000)
			for {
				n, err := y.Read(b)
				if n > 0 && !f.got(b[:n]) {
					return
				}
				if err != nil {
					if err != io.EOF {
						c.Violate("relay", "the relayed end of a stream came as %v", err)
					}
					break
				}
			}
			wg.Wait()
			if f.read != f.written {
				c.Violate("relay", "the end came after %d of %d bytes", f.read, f.written)
			}
			y.Close()
			c.Ev("relayed", more)
		})
	}
	c.All("relayed streams", fns...)
}

// stdLines runs a line protocol with bufio on both sides.
func stdLines(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	var fns []func()
	for i := 0; i < c.Range(1, 4); i++ {
		p, ok := e.OpenPair(c.N(2))
		if !ok {
			return
		}
		side := c.N(2)
		a, b := p.at(side), p.at(1-side)
		n := c.Range(1, 200)
		size := c.Pick(64, 200, 4096)
		window := c.Range(1, 20)
		fns = append(fns, func() { // server: one answer per line
			sc := bufio.NewScanner(b)
			w := bufio.NewWriterSize(b, size)
			for sc.Scan() {
				fmt.Fprintf(w, "%s!\n", sc.Text())
				if err := w.Flush(); err != nil {
					c.Violate("lines", "answering: %v", err)
					return
				}
			}
			if err := sc.Err(); err != nil {
				c.Violate("lines", "scanning lines ended with %v", err)
			}
			b.Close()
		}, func() {
			rd := bufio.NewReaderSize(a, size)
			sem := make(chan string, window)
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				for s := range sem {
					got, err := rd.ReadString('\n')
					if err != nil || got != s+"!\n" {
						c.Violate("lines", "line %q answered %q, %v", s, got, err)
						break
					}
					c.Ev("line", len(s))
				}
				for range sem {
				}
			}()
			max := 15
			for j := 0; j < n; j++ {
				s := strconv.Itoa(j) + "/" + strconv.Itoa(c.N(1000000))
				if c.N(4) == 0 {
					s += fmt.Sprintf("%x", c.Bytes(c.N(max)))
				}
				sem <- s
				if _, err := io.WriteString(a, s+"\n"); err != nil {
					c.Violate("lines", "Write: %v", err)
					break
				}
			}
			close(sem)
			wg.Wait()
			a.Close()
		})
	}
	c.All("lines", fns...)
}
