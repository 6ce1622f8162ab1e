package verif

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/server"

	"verif/vsync"
)

func init() {
	register(&Prop{ID: "C25",
		Rule: "Over loopback TCP or a unix socket a case lets up to 12 clients, good ones (each with its own meta) and bad ones (closing at once, sending garbage or half a handshake, stalling up to the server's own timeout, refused by the delegate) connect in a drawn order and overlap to one listener served by 1-6 AcceptEnd/Accept callers. Every accepted connection must give exactly one result, every good client one End with its meta and ID which exchanges verified data with that client only, bad ones errors only, and good clients must get through promptly whenever more callers wait than clients stall. Then the listener is closed, idle, with callers waiting or while clients still arrive: waiting callers return an error in bounded time, the established Ends keep working.",
		Scens: []*Scen{
			{Name: "mix", Mode: Real, Quick: 64, Thorough: 2500, Batch: 6, Fn: listenMix},
			{Name: "closing", Mode: Real, Quick: 64, Thorough: 2500, Batch: 6, Fn: listenClosing},
			{Name: "slow", Mode: Real, Quick: 8, Thorough: 64, Batch: 1, Fn: listenSlow},
			{Name: "storm", Mode: Real, Quick: 8, Thorough: 120, Batch: 1, Fn: listenStorm},
		}})
}

type accepted struct {
	end geminio.End
	err error
	at  time.Time
}

type listening struct {
	c      *C
	ln     server.Listener
	netw   string
	sd     *srvDlg
	refuse string // metas with this prefix are refused
	closed atomic.Bool

	mu   vsync.Quiet
	got  []accepted
	late []error // what callers got once it was closed
	wg   sync.WaitGroup
}

func (c *C) listen(opts func(*server.EndOptions)) *listening {
	x := &listening{c: c, netw: "tcp", refuse: "refuse"}
	addr := "127.0.0.1:0"
	if c.Chance(30) {
		dir, err := os.MkdirTemp("", "verif-sock")
		if err == nil {
			c.Cleanup(func() { os.Remove(filepath.Join(dir, "s")); os.Remove(dir) })
			x.netw, addr = "unix", filepath.Join(dir, "s")
		}
	}
	x.sd = &srvDlg{dlg{c: c}}
	x.sd.getID = func(_ uint64, meta []byte) (uint64, error) {
		if strings.HasPrefix(string(meta), x.refuse) {
			return 0, errors.New("refused")
		}
		return 0, nil
	}
	ln, err := server.Listen(x.netw, addr, given(c, c.srvOpts(x.sd, opts))...)
	if err != nil {
		c.Inconclusive("listen: %v", err)
		return nil
	}
	x.ln = ln
	c.Cleanup(func() {
		x.closed.Store(true)
		ln.Close()
		x.mu.Lock()
		got := x.got
		x.mu.Unlock()
		c.Quiet(time.Minute, func() {
			var wg sync.WaitGroup
			for _, a := range got {
				if a.end != nil {
					wg.Add(1)
					go func() { defer wg.Done(); a.end.Close() }()
				}
			}
			wg.Wait()
		})
	})
	return x
}

// callers accept until the listener is closed.
func (x *listening) callers(n int) {
	for i := 0; i < n; i++ {
		plain := x.c.Chance(30)
		x.wg.Add(1)
		go func() {
			defer x.wg.Done()
			for {
				a := accepted{}
				if plain {
					var cn net.Conn
					cn, a.err = x.ln.Accept()
					if a.err == nil {
						e, ok := cn.(geminio.End)
						if !ok {
							x.c.Violate("listen-type", "Accept returned a %T which is no End", cn)
							return
						}
						a.end = e
					} else if cn != nil {
						x.c.Violate("listen-both", "Accept returned both a conn and %v", a.err)
					}
				} else {
					a.end, a.err = x.ln.AcceptEnd()
					if a.err != nil && a.end != nil {
						x.c.Violate("listen-both", "AcceptEnd returned both an End and %v", a.err)
					}
					if a.err == nil && a.end == nil {
						x.c.Violate("listen-none", "AcceptEnd returned neither an End nor an error")
					}
				}
				a.at = time.Now()
				if a.err != nil && errors.Is(a.err, net.ErrClosed) {
					x.mu.Lock()
					x.late = append(x.late, a.err)
					x.mu.Unlock()
					x.c.Ev("accept_closed")
					if !x.closed.Load() {
						x.c.Violate("listen-closed", "AcceptEnd of an open listener: %v", a.err)
					}
					return
				}
				x.c.Ev("accept_result", a.err == nil)
				x.mu.Lock()
				x.got = append(x.got, a)
				x.mu.Unlock()
			}
		}()
	}
}

func (x *listening) results() (ends []geminio.End, errs []error) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, a := range x.got {
		if a.err == nil {
			ends = append(ends, a.end)
		} else {
			errs = append(errs, a.err)
		}
	}
	return
}

type lclient struct {
	meta string
	bad  string
	end  geminio.End
	err  error
	took time.Duration
	sent bool // it may have been accepted
}

// connect is a good client, or one refused.
func (x *listening) connect(l *lclient) {
	c := x.c
	t0 := time.Now()
	o := c.cliOpts(nil, func(o *client.EndOptions) { o.SetMeta([]byte(l.meta)) })
	addr := x.ln.Addr().String()
	switch c.N(3) {
	case 0:
		l.end, l.err = client.NewEnd(x.netw, addr, o)
	case 1:
		l.end, l.err = client.NewEndWithDialer(func() (net.Conn, error) { return net.Dial(x.netw, addr) }, o)
	case 2:
		cn, err := net.Dial(x.netw, addr)
		if err != nil {
			l.err = err
			break
		}
		l.end, l.err = client.NewEndWithConn(cn, o)
	}
	l.took = time.Since(t0)
	c.Ev("connect", l.bad, l.err == nil)
	if l.err == nil {
		c.Cleanup(func() { c.Quiet(time.Minute, func() { l.end.Close() }) })
	}
}

// misbehave is a bad client; it holds its connection for at most hold.
func (x *listening) misbehave(l *lclient, hold time.Duration) {
	c := x.c
	if l.bad == "refused" {
		x.connect(l)
		if l.err == nil {
			c.Violate("listen-refused", "a client the server refused was constructed")
		}
		return
	}
	cn, err := net.Dial(x.netw, x.ln.Addr().String())
	if err != nil {
		l.err = err
		return
	}
	defer cn.Close()
	l.sent = true
	c.Ev("bad_client", l.bad)
	pkt := mkConn(1, 0, 0, true, []byte("bad"))
	switch l.bad {
	case "close":
	case "garbage":
		b := rawPkt(0xEE, c.U64(), c.Bytes(c.N(100)))
		cn.Write(b)
		cn.SetReadDeadline(time.Now().Add(20 * time.Second))
		io.Copy(io.Discard, cn)
	case "half":
		cn.Write(pkt[:c.Range(1, len(pkt)-1)])
		if c.Bool() {
			time.Sleep(hold)
		}
	case "stall":
		time.Sleep(hold)
	case "other":
		cn.Write(mkStream(3, 1, []byte("x")))
		cn.Write(mkSession(5, 1, true, nil, ""))
		time.Sleep(hold / 4)
	}
}

var lbad = []string{"close", "garbage", "half", "stall", "refused", "other"}

// exchange verifies that the Ends are connected to each other.
func (c *C) talk(what string, a, b geminio.End) bool {
	f := c.NewFlow(what, a, b)
	g := c.NewFlow(what, b, a)
	return c.All("exchange: "+what, func() { f.Full(c.Range(1, 4), 64, 100, nil) }, func() { g.Full(c.Range(1, 4), 64, 100, nil) })
}

// match finds each constructed client's End; extra tells that Ends of clients
// which failed may be there too.
func (x *listening) match(good []*lclient, extra bool) (map[*lclient]geminio.End, bool) {
	c := x.c
	ends, _ := x.results()
	by := map[string]geminio.End{}
	for _, e := range ends {
		m := string(e.Meta())
		if by[m] != nil {
			c.Violate("listen-twice", "the client with meta %q was returned twice", m)
			return nil, false
		}
		by[m] = e
	}
	out := map[*lclient]geminio.End{}
	ids := map[uint64]string{}
	for _, l := range good {
		if l.err != nil {
			continue
		}
		e := by[l.meta]
		if e == nil {
			c.Violate("listen-missing", "the client with meta %q connected, but no AcceptEnd returned it (%d were returned)", l.meta, len(ends))
			return nil, false
		}
		delete(by, l.meta)
		out[l] = e
		if e.ClientID() != l.end.ClientID() {
			c.Violate("listen-id", "the client with meta %q has ID %d, its End on the server %d", l.meta, l.end.ClientID(), e.ClientID())
		}
		if o, ok := ids[e.ClientID()]; ok {
			c.Violate("listen-sameid", "clients %q and %q both have ID %d", o, l.meta, e.ClientID())
		}
		ids[e.ClientID()] = l.meta
	}
	if len(by) > 0 && !extra {
		for m := range by {
			c.Violate("listen-extra", "AcceptEnd returned an End with meta %q which no client constructed", m)
		}
	}
	return out, !c.Failed()
}

func (x *listening) close(idle time.Duration) bool {
	c := x.c
	x.closed.Store(true)
	if !c.Do("Listener.Close", func() {
		if err := x.ln.Close(); err != nil {
			c.Violate("listen-close", "closing the listener: %v", err)
		}
	}) {
		return false
	}
	done := make(chan struct{})
	go func() { x.wg.Wait(); close(done) }()
	return c.Wait(idle, "AcceptEnd after the listener was closed", done)
}

// listenSlow has clients that take seconds for their handshake, and mute ones
// until the server gives them up; whatever they leave behind, they and those
// after them each have one result.
func listenSlow(c *C) {
	x := c.listen(nil)
	if x == nil {
		return
	}
	mute, slow := c.N(2), c.N(3)
	if mute+slow == 0 {
		mute = 1
	}
	nc := mute + slow + c.N(3)
	x.callers(nc)
	var good []*lclient
	var fns []func()
	var up sync.WaitGroup
	up.Add(mute + slow)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < mute; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cn, err := net.Dial(x.netw, x.ln.Addr().String())
			up.Done()
			if err != nil {
				return
			}
			defer cn.Close()
			c.Ev("bad_client", "mute")
			<-stop
		}()
	}
	for i := 0; i < slow; i++ {
		l := &lclient{meta: fmt.Sprintf("slow client %d of case %d", i, c.K)}
		good = append(good, l)
		d := time.Duration(c.Range(1000, 7500)) * time.Millisecond
		o := c.cliOpts(nil, func(o *client.EndOptions) { o.SetMeta([]byte(l.meta)) })
		fns = append(fns, func() {
			cn, err := net.Dial(x.netw, x.ln.Addr().String())
			up.Done()
			if err != nil {
				l.err = err
				return
			}
			time.Sleep(d)
			l.end, l.err = client.NewEndWithConn(cn, o)
			c.Ev("connect", "slow", l.err == nil)
			if l.err == nil {
				c.Cleanup(func() { c.Quiet(time.Minute, func() { l.end.Close() }) })
			}
		})
	}
	n := c.Range(1, 4)
	for i := 0; i < n; i++ {
		l := &lclient{meta: fmt.Sprintf("client %d of case %d", i, c.K)}
		good = append(good, l)
		// some at once, some when all is over
		d := time.Duration(c.Pick(0, 500, 3000, 13000)) * time.Millisecond
		fns = append(fns, func() {
			up.Wait()
			time.Sleep(d)
			// the callers may all wait for the others
			meta := l.meta
			for i, end := 0, time.Now().Add(40*time.Second); ; i++ {
				l.meta = fmt.Sprintf("%s attempt %d", meta, i)
				x.connect(l)
				if l.err == nil || time.Now().After(end) {
					return
				}
				time.Sleep(time.Second)
			}
		})
	}
	defer func() { close(stop); wg.Wait() }()
	if !c.All("connecting clients while others are slow", fns...) {
		return
	}
	for _, l := range good {
		if l.err != nil {
			c.ViolateTimed("listen-good", "client %q among %d mute and %d slow ones did not connect: %v", l.meta, mute, slow, l.err)
			return
		}
	}
	for i := 0; ; i++ {
		ends, errs := x.results()
		if len(ends) >= len(good) && len(errs) >= mute {
			break
		}
		if i > 300 {
			c.ViolateTimed("listen-results", "%d good and %d mute clients gave %d Ends and %d errors", len(good), mute, len(ends), len(errs))
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	m, ok := x.match(good, true)
	if !ok {
		return
	}
	for _, l := range good {
		if !c.talk(l.meta, l.end, m[l]) {
			return
		}
	}
	c.Sample("%d callers, %d mute, %d slow, %d others", nc, mute, slow, n)
}

func listenMix(c *C) {
	x := c.listen(nil)
	if x == nil {
		return
	}
	n := c.Range(1, 12)
	nc := c.Range(1, 6)
	if c.Chance(30) {
		nc = n + 1
	}
	badPct := c.Pick(0, 30, 60)
	hold := time.Duration(c.Range(100, 1200)) * time.Millisecond
	if nc > n {
		hold = time.Duration(c.Range(3000, 4000)) * time.Millisecond
	}
	var good, bad []*lclient
	var fns []func()
	for i := 0; i < n; i++ {
		l := &lclient{meta: fmt.Sprintf("client %d of case %d", i, c.K)}
		d := time.Duration(0)
		if c.Bool() {
			d = time.Duration(c.N(60)) * time.Millisecond
		}
		if c.Chance(badPct) {
			l.bad = lbad[c.N(len(lbad))]
			l.meta = x.refuse + l.meta
			bad = append(bad, l)
			fns = append(fns, func() { time.Sleep(d); x.misbehave(l, hold) })
		} else {
			good = append(good, l)
			fns = append(fns, func() { time.Sleep(d); x.connect(l) })
		}
	}
	first := c.Bool()
	if first {
		x.callers(nc)
	}
	var wg sync.WaitGroup
	for _, f := range fns {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	if !first {
		time.Sleep(time.Duration(c.N(50)) * time.Millisecond)
		x.callers(nc)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	if !c.Wait(2*time.Minute, "connecting clients, good and bad", done) {
		return
	}
	for _, l := range good {
		if l.err != nil {
			c.ViolateTimed("listen-good", "good client %q among %d others (%d bad) did not connect: %v after %v", l.meta, n-1, len(bad), l.err, l.took)
			return
		}
		if nc > n && l.took > 2500*time.Millisecond {
			c.ViolateTimed("listen-delayed", "good client %q took %v to connect although %d AcceptEnd callers wait and only %d clients are bad", l.meta, l.took, nc, len(bad))
			return
		}
	}
	// every one gives a result
	for i := 0; ; i++ {
		ends, errs := x.results()
		if len(ends)+len(errs) >= n {
			if len(ends) != len(good) || len(errs) != len(bad) {
				c.Violate("listen-results", "%d good and %d bad clients gave %d Ends and %d errors: %v", len(good), len(bad), len(ends), len(errs), errs)
				return
			}
			break
		}
		if i > 600 {
			c.ViolateTimed("listen-results", "%d good and %d bad clients gave %d Ends and %d errors within a minute", len(good), len(bad), len(ends), len(errs))
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	m, ok := x.match(good, false)
	if !ok {
		return
	}
	closeFirst := c.Bool()
	if closeFirst && !x.close(15*time.Second) {
		return
	}
	for _, l := range good {
		if !c.talk(l.meta, l.end, m[l]) {
			return
		}
	}
	if !closeFirst {
		if !x.close(15 * time.Second) {
			return
		}
		for _, l := range good {
			if !c.talk("after the listener was closed", l.end, m[l]) {
				return
			}
			p, ok := (&Env{c: c, Cli: l.end, Srv: m[l]}).OpenPair(c.N(2))
			if !ok {
				return
			}
			f := c.NewFlow("a stream after the listener was closed", p.o, p.a)
			if !c.Do("exchange", func() { f.Full(2, 64, 100, nil) }) {
				return
			}
		}
	}
	x.after(nc)
}

// after checks a closed listener.
func (x *listening) after(nc int) {
	c := x.c
	x.mu.Lock()
	late := len(x.late)
	x.mu.Unlock()
	if late != nc {
		c.Violate("listen-late", "%d AcceptEnd callers saw %d closings of the listener", nc, late)
	}
	if !c.Do("AcceptEnd of a closed listener", func() {
		if e, err := x.ln.AcceptEnd(); err == nil || e != nil {
			c.Violate("listen-after", "AcceptEnd of a closed listener: %v, %v", e, err)
		}
	}) {
		return
	}
	if e, err := client.NewEnd(x.netw, x.ln.Addr().String(), c.cliOpts(nil, nil)); err == nil {
		e.Close()
		c.Violate("listen-dial", "a client connected to a closed listener")
	}
}

func listenClosing(c *C) {
	x := c.listen(nil)
	if x == nil {
		return
	}
	nc := c.Range(1, 6)
	x.callers(nc)
	n := c.N(8)
	var good []*lclient
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		l := &lclient{meta: fmt.Sprintf("client %d of case %d", i, c.K)}
		d := time.Duration(c.N(30)) * time.Millisecond
		wg.Add(1)
		if c.Chance(25) {
			l.bad = lbad[c.N(len(lbad))]
			l.meta = x.refuse + l.meta
			go func() { defer wg.Done(); time.Sleep(d); x.misbehave(l, 300*time.Millisecond) }()
			continue
		}
		good = append(good, l)
		go func() { defer wg.Done(); time.Sleep(d); x.connect(l) }()
	}
	if c.Bool() {
		time.Sleep(time.Duration(c.N(40)) * time.Millisecond)
	} else if c.Bool() {
		wg.Wait()
	}
	// handshakes going on may take up to their timeout
	if !x.close(45 * time.Second) {
		return
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	if !c.Wait(2*time.Minute, "clients of a closing listener", done) {
		return
	}
	m, ok := x.match(good, true)
	if !ok {
		return
	}
	c.Count("connected_while_closing", len(m))
	for l, e := range m {
		if !c.talk("across the listener's close", l.end, e) {
			return
		}
	}
	x.after(nc)
}

// listenStorm: many clients come and go.
func listenStorm(c *C) {
	x := c.listen(nil)
	if x == nil {
		return
	}
	x.callers(4)
	var wg sync.WaitGroup
	var mu vsync.Quiet
	var all []*lclient
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20 && !c.Failed(); i++ {
				l := &lclient{meta: fmt.Sprintf("client %d/%d of case %d", w, i, c.K)}
				if c.Chance(20) {
					l.bad = lbad[c.N(len(lbad))]
					l.meta = x.refuse + l.meta
					x.misbehave(l, 50*time.Millisecond)
					continue
				}
				x.connect(l)
				if l.err != nil {
					c.ViolateTimed("listen-good", "good client %q did not connect: %v after %v", l.meta, l.err, l.took)
					return
				}
				mu.Lock()
				all = append(all, l)
				mu.Unlock()
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	if !c.Wait(3*time.Minute, "a storm of clients", done) || c.Failed() {
		return
	}
	if !x.close(45 * time.Second) {
		return
	}
	m, ok := x.match(all, false)
	if !ok {
		return
	}
	var fns []func()
	for l, e := range m {
		fns = append(fns, func() {
			c.talk(l.meta, l.end, e)
		})
	}
	if c.All("exchanges of a storm of clients", fns...) {
		x.after(4)
	}
}
