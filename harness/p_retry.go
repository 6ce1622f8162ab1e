package verif

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"regexp"
	"sync"
	"sync/atomic"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"

	"verif/vsync"
)

func init() {
	register(&Prop{ID: "C18",
		Rule: "A case runs a retry client through 1-4 connection losses of drawn kinds (reset, end of file, peer's close, peer dead in one direction) at drawn instants, also right after or during a reconnection, with redials which fail, stall, are refused or cut, while calls, messages, raw reads and registrations go on; after each the server must be able to call everything registered, the hijack, of whatever pattern, must serve, and calls, messages and streams must work in both directions, with one EndReOnline; its delegate must be told exactly once of the lost connection, the new one, a registration and a stream of the server. Other cases close the client at a drawn instant of all this: no dial may start afterwards and every connection it ever made must be closed.",
		Scens: []*Scen{
			{Name: "service", Mode: Bubble, NoReal: true, Quick: 160, Thorough: 6000, Batch: 8, Watch: 120, Fn: retryService},
			{Name: "flapping", Mode: Bubble, NoReal: true, Quick: 120, Thorough: 5000, Batch: 8, Watch: 120, Fn: retryFlapping},
			{Name: "close", Mode: Bubble, NoReal: true, LeakBad: true, Quick: 200, Thorough: 8000, Batch: 10, Watch: 120, Fn: retryClose},
		}})
}

// retryHijack is the hijack a retry client has.
type retryHijack struct {
	as      string
	match   bool
	pattern *regexp.Regexp // nil: of all
	unknown bool           // it, or an earlier one
}

func (h retryHijack) of(method string) bool {
	return h.as != "" && (h.pattern == nil || h.pattern.MatchString(method) == h.match)
}

type dialRec struct {
	start time.Time
	kind  string
	l     *Link
	srv   chan geminio.End // what the server made of it
	end   geminio.End
}

// retryEnv is a retry client and the servers it gets to.
type retryEnv struct {
	c      *C
	re     geminio.End
	d      *cliDlg
	mu     vsync.Quiet
	dials  []*dialRec
	plan   []string // kinds of the next dials; then "ok"
	got    chan *dialRec
	closed atomic.Bool
	link   func() LinkOpt
	slow   time.Duration
	msgs   chan string // received by the client
	raw    chan string // read by the client, if it has a raw reader
	reader bool
	sraw   chan string // read by the servers
	strict atomic.Bool // no dial fails for now: what waits goes on waiting
	rpcs   map[string]string
	hijack retryHijack
	turn   chan struct{}
}

func (x *retryEnv) dial() (net.Conn, error) {
	c := x.c
	r := &dialRec{start: time.Now(), kind: "ok"}
	x.mu.Lock()
	if len(x.plan) > 0 {
		r.kind, x.plan = x.plan[0], x.plan[1:]
	}
	x.dials = append(x.dials, r)
	slow := x.slow
	x.mu.Unlock()
	c.Ev("dials", r.kind)
	time.Sleep(slow)
	if r.kind == "error" {
		return nil, errors.New("dial refused")
	}
	l := c.NewLink(x.link())
	x.mu.Lock()
	r.l = l
	x.mu.Unlock()
	switch r.kind {
	case "stall":
	case "eof":
		l.B.Close()
	case "reset":
		l.Break(true)
	default:
		if r.kind == "cut" {
			l.CutAfter(c.Bool(), c.Range(1, 100), c.Bool())
		}
		d := &srvDlg{dlg{c: c}}
		if r.kind == "refuse" {
			d.getID = func(uint64, []byte) (uint64, error) { return 0, errors.New("not now") }
		}
		go func() {
			end, err := server.NewEndWithConn(l.B, c.srvOpts(d, func(o *server.EndOptions) {
				o.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "srv", RPC: func(_ context.Context, q geminio.Request, r geminio.Response) {
					r.SetData(append([]byte("srv:"), q.Data()...))
				}})
			}))
			if err != nil {
				return
			}
			c.Cleanup(func() { c.Quiet(2*time.Minute, func() { end.Close() }) })
			x.mu.Lock()
			r.end = end
			x.mu.Unlock()
			x.attend(end)
			x.got <- r
		}()
	}
	return l.A, nil
}

func (c *C) newRetry() *retryEnv {
	x := &retryEnv{c: c, got: make(chan *dialRec, 1000), msgs: make(chan string, 1000), raw: make(chan string, 1000), sraw: make(chan string, 10000), reader: c.Bool(), rpcs: map[string]string{}, turn: make(chan struct{}, 1)}
	lo := LinkOpt{}
	if c.Bool() {
		lo.Latency = time.Duration(c.Range(1, 200)) * time.Millisecond
	}
	x.link = func() LinkOpt { return lo }
	x.d = &cliDlg{dlg{c: c}}
	var err error
	ok := c.Do("NewRetryEnd", func() {
		x.re, err = client.NewRetryEndWithDialer(x.dial, given(c, c.cliOpts(x.d, func(o *client.EndOptions) {
			o.SetMeta([]byte("retry"))
			o.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "local", RPC: x.serve("local")})
		}))...)
	})
	if !ok {
		return nil
	}
	if err != nil {
		c.Violate("retry-construct", "construction failed: %v", err)
		return nil
	}
	x.rpcs["local"] = "local"
	c.Cleanup(func() { c.Quiet(3*time.Minute, func() { x.closed.Store(true); x.re.Close() }) })
	return x
}

func (x *retryEnv) serve(as string) geminio.RPC {
	return func(_ context.Context, q geminio.Request, r geminio.Response) {
		r.SetData([]byte(as + ":" + string(q.Data())))
	}
}

// users keep using the client, whatever happens, until it's closed.
func (x *retryEnv) users() {
	c := x.c
	for i := c.N(4); i >= 0; i-- {
		k := c.N(4)
		go func() {
			for n := 0; !x.closed.Load(); n++ {
				ctx, cancel := context.WithTimeout(bg, 3*time.Second)
				switch k {
				case 0:
					x.re.Call(ctx, "srv", x.re.NewRequest([]byte("u")))
				case 1:
					x.re.Publish(ctx, x.re.NewMessage([]byte("u")))
				case 2:
					x.re.Write([]byte("u"))
				case 3:
					if s, err := x.re.OpenStream(); err == nil {
						s.Close()
					}
				}
				cancel()
				c.Count("user_operations", 1)
				time.Sleep(time.Duration(300+c.N(1500)) * time.Millisecond)
			}
		}()
	}
	// streams the server opens are echoed
	as := c.Bool()
	go func() {
		for !x.closed.Load() {
			var s net.Conn
			var err error
			if as {
				s, err = x.re.AcceptStream()
			} else {
				s, err = x.re.Accept()
			}
			if err != nil {
				x.wait("AcceptStream", err)
				time.Sleep(500 * time.Millisecond)
				continue
			}
			go func() {
				buf := make([]byte, 200)
				for {
					n, err := s.Read(buf)
					if err != nil {
						return
					}
					s.Write(buf[:n])
				}
			}()
		}
	}()
	go func() {
		for !x.closed.Load() {
			m, err := x.re.Receive(bg)
			if err != nil {
				x.wait("Receive", err)
				time.Sleep(500 * time.Millisecond)
				continue
			}
			x.msgs <- string(m.Data())
			m.Done()
		}
	}()
	if x.reader {
		go func() {
			buf := make([]byte, 200)
			for !x.closed.Load() {
				n, err := x.re.Read(buf)
				if err != nil {
					x.wait("Read", err)
					time.Sleep(500 * time.Millisecond)
					continue
				}
				x.raw <- string(buf[:n])
			}
		}()
	}
}

// wait sees what ended an operation which waits.
func (x *retryEnv) wait(what string, err error) {
	if x.strict.Load() && !x.closed.Load() {
		x.c.Violate("retry-wait", "a pending %s fails across a reconnection in which every dial succeeds: %v", what, err)
	}
}

// attend does what the server's application does with a connection.
func (x *retryEnv) attend(end geminio.End) {
	go func() {
		for {
			s, err := end.AcceptStream()
			if err != nil {
				return
			}
			go func() {
				buf := make([]byte, 200)
				for {
					n, err := s.Read(buf)
					if err != nil {
						return
					}
					s.Write(buf[:n])
				}
			}()
		}
	}()
	go func() {
		for {
			m, err := end.Receive(bg)
			if err != nil {
				return
			}
			m.Done()
		}
	}()
	go func() {
		buf := make([]byte, 200)
		for {
			n, err := end.Read(buf)
			if err != nil {
				return
			}
			if string(buf[:n]) != "u" {
				x.sraw <- string(buf[:n])
			}
		}
	}()
}

func (x *retryEnv) nDials() int { x.mu.Lock(); defer x.mu.Unlock(); return len(x.dials) }

// lose ends the current connection.
func (x *retryEnv) lose(r *dialRec) string {
	c := x.c
	k := []string{"reset", "eof", "server close", "server's net close", "client's net close", "dead towards the server"}[c.N(6)]
	c.Ev("losses", k)
	switch k {
	case "reset":
		r.l.Break(true)
	case "eof":
		r.l.Break(false)
	case "server close":
		if !c.DoIn(2*time.Minute, "server End.Close", func() { r.end.Close() }) {
			return k
		}
	case "server's net close":
		r.l.B.Close()
	case "client's net close":
		r.l.A.Close()
	case "dead towards the server":
		r.l.Lose(true, false)
	}
	return k
}

var retryPlans = []string{"error", "error", "stall", "refuse", "eof", "reset"}

// works verifies the whole service over the connection r.
func (x *retryEnv) works(r *dialRec, why string) bool {
	c := x.c
	end := r.end
	x.mu.Lock()
	rpcs := map[string]string{}
	for k, v := range x.rpcs {
		rpcs[k] = v
	}
	hijack := x.hijack
	x.mu.Unlock()
	call := func(s geminio.RPCer, who, method, want string) bool {
		ctx, cancel := context.WithTimeout(bg, 8*time.Second)
		defer cancel()
		arg := fmt.Sprint(c.N(1000))
		rsp, err := s.Call(ctx, method, s.NewRequest([]byte(arg)))
		if err != nil {
			c.Violate("retry-call", "%s: %s's call of %q fails: %v", why, who, method, err)
			return false
		}
		if string(rsp.Data()) != want+":"+arg {
			c.Violate("retry-call-data", "%s: %s's call of %q was answered %q, want %q", why, who, method, rsp.Data(), want+":"+arg)
			return false
		}
		c.Ev("calls_after", who)
		return true
	}
	ok := true
	if !c.DoIn(2*time.Minute, "exchange after reconnecting", func() {
		for m, want := range rpcs {
			if hijack.unknown {
				continue
			}
			if hijack.of(m) {
				want = hijack.as
			}
			if !call(end, "server", m, want) {
				ok = false
				return
			}
		}
		if m := fmt.Sprint("hj-", c.N(9)); !hijack.unknown && hijack.of(m) && !call(end, "server", m, hijack.as) {
			ok = false
			return
		}
		if !call(x.re, "client", "srv", "srv") {
			ok = false
			return
		}
		// messages
		ctx, cancel := context.WithTimeout(bg, 8*time.Second)
		defer cancel()
		if err := x.re.Publish(ctx, x.re.NewMessage([]byte("m"))); err != nil {
			c.Violate("retry-publish", "%s: the client's Publish fails: %v", why, err)
			ok = false
			return
		}
		tok := fmt.Sprint("tok", c.U64())
		if err := end.Publish(ctx, end.NewMessage([]byte(tok))); err != nil {
			c.Violate("retry-publish", "%s: the server's Publish fails: %v", why, err)
			ok = false
			return
		}
		for m := range x.msgs {
			if m == tok {
				break
			}
		}
		if !x.asyncs(why) || !x.raws(r, why) || !x.names(r, why) || !x.hears(r, why) {
			ok = false
			return
		}
		// streams, both ways
		for i, f := range []func(...*options.OpenStreamOptions) (geminio.Stream, error){x.re.OpenStream, end.OpenStream} {
			s, err := f()
			if err != nil {
				c.Violate("retry-open", "%s: OpenStream by side %d fails: %v", why, i, err)
				ok = false
				return
			}
			if i == 0 {
				in := false
				for _, l := range x.re.ListStreams() {
					in = in || l.StreamID() == s.StreamID()
				}
				if !in {
					c.Violate("retry-list", "%s: ListStreams lacks the open stream %d", why, s.StreamID())
					ok = false
				}
			}
			w := c.Bytes(c.Range(1, 100))
			s.Write(w)
			s.SetReadDeadline(time.Now().Add(8 * time.Second))
			got, err := readFull(s, len(w))
			if err != nil || !bytes.Equal(got, w) {
				c.Violate("retry-stream", "%s: a stream opened by side %d does not echo: %v", why, i, err)
				ok = false
				return
			}
			s.Close()
		}
		c.Ev("service_verified", len(rpcs), hijack.as != "")
	}) {
		return false
	}
	return ok && !c.Failed()
}

// asyncs verifies the asynchronous operations.
func (x *retryEnv) asyncs(why string) bool {
	c := x.c
	ctx, cancel := context.WithTimeout(bg, 8*time.Second)
	defer cancel()
	t := time.NewTimer(9 * time.Second)
	defer t.Stop()
	arg := fmt.Sprint(c.N(1000))
	var ch chan *geminio.Call
	if c.Bool() {
		ch = make(chan *geminio.Call, 1)
	}
	call, err := x.re.CallAsync(ctx, "srv", x.re.NewRequest([]byte(arg)), ch)
	if err != nil {
		c.Violate("retry-call", "%s: CallAsync fails: %v", why, err)
		return false
	}
	select {
	case call = <-call.Done:
	case <-t.C:
		c.Violate("retry-call", "%s: CallAsync's call is not completed", why)
		return false
	}
	if call.Error != nil || string(call.Response.Data()) != "srv:"+arg {
		c.Violate("retry-call", "%s: CallAsync's call is completed with %v", why, call.Error)
		return false
	}
	var pch chan *geminio.Publish
	if c.Bool() {
		pch = make(chan *geminio.Publish, 1)
	}
	pub, err := x.re.PublishAsync(ctx, x.re.NewMessage([]byte("m")), pch)
	if err != nil {
		c.Violate("retry-publish", "%s: PublishAsync fails: %v", why, err)
		return false
	}
	select {
	case pub = <-pub.Done:
	case <-t.C:
		c.Violate("retry-publish", "%s: PublishAsync's message is not completed", why)
		return false
	}
	if pub.Error != nil {
		c.Violate("retry-publish", "%s: PublishAsync's message is completed with %v", why, pub.Error)
		return false
	}
	c.Ev("asyncs_after")
	return true
}

// raws verifies the raw bytes and the deadlines.
func (x *retryEnv) raws(r *dialRec, why string) bool {
	c := x.c
	t := time.NewTimer(8 * time.Second)
	defer t.Stop()
	tok := fmt.Sprint("tok", c.U64())
	if n, err := x.re.Write([]byte(tok)); err != nil || n != len(tok) {
		c.Violate("retry-raw", "%s: the client's raw Write returned %d, %v", why, n, err)
		return false
	}
	for got := ""; got != tok; {
		select {
		case got = <-x.sraw:
		case <-t.C:
			c.Violate("retry-raw", "%s: raw bytes written by the client do not reach the server", why)
			return false
		}
	}
	tok = fmt.Sprint("tok", c.U64())
	if n, err := r.end.Write([]byte(tok)); err != nil || n != len(tok) {
		c.Violate("retry-raw", "%s: the server's raw Write returned %d, %v", why, n, err)
		return false
	}
	if x.reader {
		for got := ""; got != tok; {
			select {
			case got = <-x.raw:
			case <-t.C:
				c.Violate("retry-raw", "%s: raw bytes written by the server do not reach the client's reader", why)
				return false
			}
		}
		c.Ev("raw_after", "reader")
		return true
	}
	set := []func(time.Time) error{x.re.SetReadDeadline, x.re.SetDeadline}[c.N(2)]
	if err := set(time.Now().Add(8 * time.Second)); err != nil {
		c.Violate("retry-raw", "%s: the client's deadline cannot be set: %v", why, err)
		return false
	}
	got, err := readFull(x.re, len(tok))
	if err != nil || string(got) != tok {
		c.Violate("retry-raw", "%s: the client reads %q and %v of the %q the server wrote", why, got, err, tok)
		return false
	}
	t0, d := time.Now(), time.Duration(c.Range(1, 900))*time.Millisecond
	set(t0.Add(d))
	n, err := x.re.Read(make([]byte, 10))
	if took := time.Since(t0); !errors.Is(err, os.ErrDeadlineExceeded) || n != 0 || took < d || took > d+2*time.Second {
		c.Violate("retry-deadline", "%s: Read under a deadline in %v returned %d, %v after %v", why, d, n, err, took)
		return false
	}
	x.re.SetDeadline(time.Time{})
	// writing under a deadline far away
	x.re.SetWriteDeadline(time.Now().Add(time.Hour))
	if n, err := x.re.Write([]byte("u")); n != 1 || err != nil {
		c.Violate("retry-deadline", "%s: Write long before its deadline returned %d, %v", why, n, err)
		return false
	}
	if err := x.re.SetWriteDeadline(time.Time{}); err != nil {
		c.Violate("retry-raw", "%s: the client's deadline cannot be set: %v", why, err)
		return false
	}
	c.Ev("raw_after", "deadlines")
	return true
}

// names verifies what the client says of itself.
func (x *retryEnv) names(r *dialRec, why string) bool {
	re, end := x.re, r.end
	if re.ClientID() != end.ClientID() || re.StreamID() != end.StreamID() || string(re.Meta()) != "retry" || string(end.Meta()) != "retry" ||
		re.LocalAddr() != r.l.A.LocalAddr() || re.RemoteAddr() != r.l.A.RemoteAddr() || re.Addr() != re.LocalAddr() {
		x.c.Violate("retry-identity", "%s: the client says: client %d, stream %d, meta %q, %v to %v; the server: client %d, stream %d, meta %q; the connection: %v to %v", why,
			re.ClientID(), re.StreamID(), re.Meta(), re.LocalAddr(), re.RemoteAddr(), end.ClientID(), end.StreamID(), end.Meta(), r.l.A.LocalAddr(), r.l.A.RemoteAddr())
		return false
	}
	return true
}

// change registers things, as an application does at any time.
func (x *retryEnv) change() {
	c := x.c
	x.turn <- struct{}{} // one after another, or the last is unknown
	defer func() { <-x.turn }()
	for i := c.N(3); i > 0; i-- {
		m, as := fmt.Sprint("m", c.N(4)), fmt.Sprint("v", c.N(1000))
		var err error
		if !c.DoIn(3*time.Minute, "Register", func() { err = x.re.Register(bg, m, x.serve(as)) }) {
			return
		}
		x.mu.Lock()
		if err == nil {
			x.rpcs[m] = as
		} else {
			delete(x.rpcs, m) // either
		}
		x.mu.Unlock()
		c.Ev("retry_registers", err == nil)
	}
	if c.Chance(30) {
		as := fmt.Sprint("h", c.N(1000))
		f := func(_ context.Context, _ string, q geminio.Request, r geminio.Response) {
			r.SetData([]byte(as + ":" + string(q.Data())))
		}
		h := retryHijack{as: as, match: true}
		var hos []*options.HijackOptions
		if p := []string{"^hj-", "^hj-", "^hj-", "^m1$", "!^m", ""}[c.N(6)]; p != "" {
			if p[0] == '!' {
				p, h.match = p[1:], false
			}
			h.pattern = regexp.MustCompile(p)
			ho := options.Hijack()
			ho.SetMatch(h.match, p)
			hos = given(c, ho)
		}
		var err error
		if !c.DoIn(3*time.Minute, "Hijack", func() { err = x.re.Hijack(f, hos...) }) {
			return
		}
		h.unknown = err != nil
		x.mu.Lock()
		x.hijack = h
		x.mu.Unlock()
		c.Ev("retry_hijacks", h.match, h.pattern != nil, err == nil)
	}
}

// hears verifies what the client's delegate is told while the connection r is up.
func (x *retryEnv) hears(r *dialRec, why string) bool {
	c, id := x.c, r.end.ClientID()
	count := func(kind string, is func(e dEv) bool) func() int {
		return func() int {
			n := 0
			for _, e := range x.d.Of(kind) {
				if e.Client == id && is(e) {
					n++
				}
			}
			return n
		}
	}
	once := func(what string, n func() int) bool {
		for i := 0; i < 100 && n() == 0; i++ {
			time.Sleep(100 * time.Millisecond)
		}
		c.Settle()
		if got := n(); got != 1 {
			c.Violate("retry-delegate", "%s: the delegate saw %d times: %s\n%s", why, got, what, showEvs(x.d.All()))
			return false
		}
		c.Ev("delegate_after", what)
		return true
	}
	if !once("the connection online", count("connon", func(dEv) bool { return true })) {
		return false
	}
	m := fmt.Sprint("heard", c.U64())
	if err := r.end.Register(bg, m, func(context.Context, geminio.Request, geminio.Response) {}); err != nil {
		c.Violate("retry-delegate", "%s: the server's Register failed: %v", why, err)
		return false
	}
	if !once("a registration of the server", count("reg", func(e dEv) bool { return e.Method == m && e.Dlg == r.end.StreamID() })) {
		return false
	}
	meta := fmt.Sprint("meta", c.U64())
	oo := options.OpenStream()
	oo.SetMeta([]byte(meta))
	s, err := r.end.OpenStream(given(x.c, oo)...)
	if err != nil {
		c.Violate("retry-delegate", "%s: OpenStream failed: %v", why, err)
		return false
	}
	is := func(e dEv) bool { return e.Dlg == s.StreamID() && e.Meta == meta }
	if !once("a stream of the server online", count("dlgon", is)) {
		return false
	}
	s.Close()
	return once("a stream of the server offline", count("dlgoff", is))
}

// next waits for the connection which comes up after those before.
func (x *retryEnv) next(limit time.Duration, why string) *dialRec {
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case r := <-x.got:
		return r
	case <-t.C:
		x.c.Violate("retry-none", "%s: no new connection came up within %v (%d dials so far)\n%s", why, limit, x.nDials(), stacks())
		return nil
	}
}

func retryService(c *C) {
	x := c.newRetry()
	if x == nil {
		return
	}
	x.users()
	r := x.next(time.Minute, "at first")
	if r == nil {
		return
	}
	x.change()
	if !x.works(r, "at first") {
		return
	}
	good := 1
	why := ""
	for round, n := 1, c.Range(1, 4); round <= n; round++ {
		if c.Bool() {
			x.change()
		}
		c.sleepUpTo(c.Pick(10, 3000, 30000))
		fails := c.N(4)
		limit := 12 * time.Second
		x.mu.Lock()
		for i := 0; i < fails; i++ {
			k := retryPlans[c.N(len(retryPlans))]
			x.plan = append(x.plan, k)
			limit += 16 * time.Second
		}
		plan := fmt.Sprint(x.plan)
		x.mu.Unlock()
		if len(x.got) > 0 {
			c.Violate("retry-again", "a second connection was made while the first was up")
			return
		}
		lost, gone := time.Now(), r.end.ClientID()
		x.strict.Store(fails == 0)
		k := x.lose(r)
		if k == "dead towards the server" {
			limit += 2*hbEvery + 30*time.Second + 5*time.Second
		}
		if k == "server close" {
			limit += 60 * time.Second
		}
		why = fmt.Sprintf("round %d after %s, then dials %s", round, k, plan)
		if c.Chance(30) { // registered during the outage
			c.sleepUpTo(4000)
			x.change()
		}
		if r = x.next(limit, why); r == nil {
			return
		}
		good++
		c.Sample("%s: up after %v", why, time.Since(lost))
		// the client says when it is ready
		ready := false
		for i := 0; i < 100; i++ {
			if len(x.d.Of("reonline")) == good-1 {
				ready = true
				break
			}
			time.Sleep(100 * time.Millisecond)
		}
		c.Settle()
		if n := len(x.d.Of("reonline")); !ready || n != good-1 {
			c.Violate("retry-reonline", "%s: the delegate saw %d EndReOnline after %d reconnections", why, n, good-1)
			return
		}
		offs := 0
		for _, e := range x.d.Of("connoff") {
			if e.Client == gone {
				offs++
			}
		}
		if offs != 1 {
			c.Violate("retry-delegate", "%s: the delegate saw the lost connection go offline %d times\n%s", why, offs, showEvs(x.d.All()))
			return
		}
		if id := x.d.Of("reonline")[good-2].Client; id != r.end.ClientID() {
			c.Violate("retry-reonline-id", "%s: EndReOnline with client %d, which is %d", why, id, r.end.ClientID())
		}
		if !x.works(r, why) {
			return
		}
	}
	c.sleepUpTo(30000)
	if len(x.got) > 0 {
		c.Violate("retry-again", "%s: a second connection was made while the first was up", why)
	}
	x.finish("at the end")
}

// finish closes the client and verifies that nothing is left of it.
func (x *retryEnv) finish(why string) {
	c := x.c
	x.closed.Store(true)
	n := c.Range(1, 3)
	var fs []func()
	for i := 0; i < n; i++ {
		fs = append(fs, func() { x.re.Close() })
	}
	var wg sync.WaitGroup
	done := make(chan struct{})
	var at time.Time
	for _, f := range fs {
		wg.Add(1)
		go func() { defer wg.Done(); f(); x.mu.Lock(); at = time.Now(); x.mu.Unlock() }()
	}
	go func() { wg.Wait(); close(done) }()
	if !c.Wait(2*time.Minute, "Close", done) {
		return
	}
	time.Sleep(2 * time.Minute)
	c.Settle()
	x.mu.Lock()
	defer x.mu.Unlock()
	for i, r := range x.dials {
		if r.start.After(at) {
			c.Violate("retry-dial-after-close", "%s: dial %d started %v after Close had returned", why, i, r.start.Sub(at))
			return
		}
		if r.l != nil && !r.l.A.Closed() {
			c.Violate("retry-open-conn", "%s: connection %d (%s) is still open 2 min after Close", why, i, r.kind)
			return
		}
	}
	c.Ev("closed_for_good", len(x.dials))
	var err error
	if c.DoIn(time.Minute, "Call after Close", func() { _, err = x.re.Call(bg, "srv", x.re.NewRequest(nil)) }) && err == nil {
		c.Violate("retry-use-after-close", "%s: a call succeeds after Close", why)
	}
}

// retryFlapping: losses at any instant, also in the middle of reconnecting.
func retryFlapping(c *C) {
	x := c.newRetry()
	if x == nil {
		return
	}
	x.users()
	r := x.next(time.Minute, "at first")
	if r == nil {
		return
	}
	x.change()
	why := ""
	for i, n := 0, c.Range(1, 6); i < n; i++ {
		c.sleepUpTo(c.Pick(5, 1500, 8000))
		x.mu.Lock()
		if c.Chance(40) {
			ks := append([]string{"cut", "cut"}, retryPlans...)
			x.plan = append(x.plan, ks[c.N(len(ks))])
		}
		cur := x.dials[len(x.dials)-1]
		l := cur.l
		x.mu.Unlock()
		if l == nil { // just dialling
			continue
		}
		d := c.Bool()
		why += fmt.Sprintf(" %v:%s", rel(c, time.Now()), cur.kind)
		l.Break(d)
		c.Ev("flaps")
		if c.Chance(20) {
			go x.change()
		}
	}
	// then it gets better
	x.mu.Lock()
	x.plan = nil
	x.mu.Unlock()
	time.Sleep(100 * time.Second)
	c.Settle()
	x.mu.Lock()
	last := x.dials[len(x.dials)-1]
	x.mu.Unlock()
	if last.end == nil || last.l == nil || last.l.A.Closed() || last.l.B.Closed() {
		c.Violate("retry-none", "100 s after the last of the losses%s: no connection is up (%d dials, the last %v ago: %s)\n%s", why, x.nDials(), time.Since(last.start), last.kind, stacks())
		return
	}
	for len(x.got) > 0 {
		<-x.got
	}
	on := 0
	for _, e := range x.d.Of("reonline") {
		if e.At.After(last.start) {
			on++
		}
	}
	x.mu.Lock()
	nd, up := len(x.dials), 0
	for _, r := range x.dials {
		if r.l != nil && !r.l.A.Closed() {
			up++
		}
	}
	x.mu.Unlock()
	if up != 1 {
		c.Violate("retry-conns", "after the losses%s: the client has %d connections open", why, up)
	}
	if nd > 1 && on != 1 {
		c.Violate("retry-reonline", "after the losses%s: the delegate saw %d EndReOnline for the connection which stays", why, on)
		return
	}
	if !x.works(last, "after the losses"+why) {
		return
	}
	x.finish("after the losses" + why)
}

// retryClose: Close at any instant.
func retryClose(c *C) {
	x := c.newRetry()
	if x == nil {
		return
	}
	x.users()
	r := x.next(time.Minute, "at first")
	if r == nil {
		return
	}
	if c.Bool() {
		x.change()
	}
	x.mu.Lock()
	for i := c.N(4); i > 0; i-- {
		x.plan = append(x.plan, retryPlans[c.N(len(retryPlans))])
	}
	if c.Bool() {
		x.slow = time.Duration(c.Range(1, 6000)) * time.Millisecond
	}
	plan := fmt.Sprint(x.plan)
	x.mu.Unlock()
	c.sleepUpTo(c.Pick(10, 3000))
	k := "nothing"
	if c.Chance(90) {
		k = x.lose(r)
	}
	if c.Bool() { // at the borders of its phases
		t := time.Duration(c.Range(1, 6)) * time.Second
		time.Sleep(t + time.Duration(c.N(9)-4)*time.Microsecond)
	} else {
		c.sleepUpTo(c.Pick(50, 5000, 30000))
	}
	c.Ev("close_instant", k, plan, x.nDials())
	x.finish(fmt.Sprintf("Close at %v after %s, dials %s (each taking %v)", rel(c, time.Now()), k, plan, x.slow))
}
