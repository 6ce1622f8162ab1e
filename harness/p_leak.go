package verif

import (
	"context"
	"errors"
	"fmt"
	"net"
	"reflect"
	"runtime"
	"strings"
	"time"
	"unsafe"
	"weak"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"github.com/singchia/go-timer/v2"

	"verif/vsync"
)

func init() {
	register(&Prop{ID: "C24",
		Rule: "A case drives Ends through a lifecycle: blocked and racing operations followed by any ending (see C11), handshakes refused by the delegate, cut after any number of bytes, stalled or answered with garbage, construction waiting for registrations which never come, only one application calling Close, streams opened, used and closed by the hundreds. Afterwards, in virtual time, no goroutine started by the library may remain, both transports must have been closed by the library, and streams closed while their End lives must leave the goroutine count where it was and become garbage (weak pointers).",
		Scens: []*Scen{
			{Name: "blocked", Mode: Bubble, LeakBad: true, Quick: 120, Thorough: 5000, Batch: 10, Fn: func(c *C) { endBlocked(c, true) }},
			{Name: "racing", Mode: Bubble, LeakBad: true, Quick: 80, Thorough: 4000, Batch: 10, Fn: func(c *C) { endRacing(c, true) }},
			{Name: "handshake", Mode: Bubble, LeakBad: true, Quick: 320, Thorough: 10000, Batch: 20, Fn: leakHandshake},
			{Name: "oneside", Mode: Bubble, LeakBad: true, Quick: 160, Thorough: 5000, Batch: 20, Fn: leakOneSide},
			{Name: "streams", Mode: Bubble, LeakBad: true, Quick: 80, Thorough: 3000, Batch: 10, Fn: leakStreams},
			{Name: "wall", Mode: Real, LeakBad: true, Quick: 16, Thorough: 300, Batch: 4, Fn: func(c *C) { endRacing(c, true) }},
		}})
}

// closedTransports verifies that the library closed both ends of the link.
func (c *C) closedTransports(e *Env, why string) bool {
	if e.Link == nil {
		return true
	}
	if !e.Link.A.Closed() || !e.Link.B.Closed() {
		c.ViolateTimed("net-open", "the network connection is still open: client's closed %v, server's closed %v (%s)",
			e.Link.A.Closed(), e.Link.B.Closed(), why)
		return false
	}
	c.Ev("transports_closed")
	return true
}

// libLeft returns the library's goroutines, without idle ones of timers.
func libLeft() []string {
	var out []string
	for _, g := range leftovers(true) {
		if strings.Contains(g, "singchia/geminio") || strings.Contains(g, "singchia/yafsm") ||
			strings.Contains(g, "singchia/go-timer/v2/pkg/synchub") || strings.Contains(g, "singchia/go-hammer") {
			out = append(out, g)
		}
	}
	return out
}

func leakHandshake(c *C) {
	o := EnvOpt{Link: c.LinkOf()}
	what := ""
	switch c.N(4) {
	case 0:
		what = "GetClientID refuses"
		o.SD = func(d *srvDlg) { d.getID = func(uint64, []byte) (uint64, error) { return 0, errors.New("no") } }
	case 1:
		what = "server's ConnOnline refuses"
		o.SD = func(d *srvDlg) { d.onConn = func() error { return errors.New("no") } }
	case 2: // construction waits for what never comes
		what = "missing registrations"
		o.Cli = func(o *client.EndOptions) { o.SetWaitRemoteRPCs("never") }
		if c.Bool() {
			o.Srv = func(o *server.EndOptions) { o.SetWaitRemoteRPCs("never", "ever") }
		}
	case 3:
		what = "accepted"
	}
	e := &Env{c: c}
	e.Link = c.NewLink(o.Link)
	e.CD, e.SD = &cliDlg{dlg{c: c}}, &srvDlg{dlg{c: c}}
	if o.SD != nil {
		o.SD(e.SD)
	}
	cut := ""
	a := c.Bool()
	switch k := c.N(7); {
	case k == 0:
		n, d := c.Range(0, 400), c.Bool()
		cut = fmt.Sprintf("cut after %d bytes", n)
		time.AfterFunc(150*time.Second, func() { e.Link.Break(d) })
		e.Link.CutAfter(a, n, d)
	case k == 1:
		cut = "one direction lost"
		e.Link.Lose(a, !a)
	case k == 2:
		cut = "both directions lost"
		e.Link.Lose(true, true)
	case k == 3:
		cut = "broken meanwhile"
		d, t := c.Bool(), time.Duration(c.N(11000))*time.Millisecond
		if c.Bool() {
			t = time.Duration(c.N(200)) * time.Millisecond
		}
		time.AfterFunc(t, func() { e.Link.Break(d) })
	case k == 4:
		cut = "closed meanwhile"
		t := time.Duration(c.N(200)) * time.Millisecond
		x := net.Conn(e.Link.A)
		if a {
			x = e.Link.B
		}
		time.AfterFunc(t, func() { x.Close() })
	case what == "missing registrations":
		cut = "broken late"
		d := c.Bool()
		time.AfterFunc(time.Duration(c.N(100))*time.Second, func() { e.Link.Break(d) })
	}
	var cerr, serr error
	co, so := c.cliOpts(e.CD, o.Cli), c.srvOpts(e.SD, o.Srv)
	// refused or lost ones need 10s plus 30s of closing
	if !c.All("End construction ("+what+", "+cut+")",
		func() {
			x, err := client.NewEndWithConn(e.Link.A, co)
			if cerr = err; err == nil {
				e.Cli = x
			} else if x != nil {
				c.Violate("both", "client construction returned both an End and %v", err)
			}
		},
		func() {
			x, err := server.NewEndWithConn(e.Link.B, so)
			if serr = err; err == nil {
				e.Srv = x
			} else if x != nil {
				c.Violate("both", "server construction returned both an End and %v", err)
			}
		}) {
		return
	}
	c.Ev("constructed", what, cut, cerr == nil, serr == nil)
	c.Count("refused", b2i(cerr != nil)+b2i(serr != nil))
	if !c.All("closing what was constructed",
		func() {
			if e.Cli != nil {
				e.Cli.Close()
			}
		},
		func() {
			if e.Srv != nil {
				e.Srv.Close()
			}
		}) {
		return
	}
	time.Sleep(2 * time.Minute)
	c.closedTransports(e, what+", "+cut)
	c.Sample("%s, %s: client %v, server %v", what, cut, cerr, serr)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// leakOneSide: an application which never calls Close leaves nothing behind
// either once the connection is over, except a timer of its own.
func leakOneSide(c *C) {
	o := c.Stock()
	cf, sf := o.Cli, o.Srv
	ct, st := timer.NewTimer(), timer.NewTimer()
	c.Cleanup(func() { ct.Close(); st.Close() })
	o.Cli = func(o *client.EndOptions) { cf(o); o.SetTimer(ct) }
	o.Srv = func(o *server.EndOptions) { sf(o); o.SetTimer(st) }
	o.NoClose = true
	e := c.NewEnv(o)
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(4))
	if !ok {
		return
	}
	p := c.newPends()
	for _, x := range ps {
		for side := 0; side < 2; side++ {
			s := x.at(side)
			if !c.Do("Register", func() { s.Register(bg, "block", p.block) }) {
				return
			}
		}
	}
	if c.Bool() {
		for side := 0; side < 2; side++ {
			for _, x := range ps {
				p.onStream(x.at(side), true, false)
			}
			p.onEnd(e.End(side), 0, true)
		}
	}
	c.sleepUpTo(200)
	x := c.ending(e)
	if len(x.closes) > 1 { // one side only
		x.closes = x.closes[:1]
	}
	if !x.run(c) || !p.wait(4*time.Minute, x.name) {
		return
	}
	for i := 0; i < 24; i++ {
		p.release()
		time.Sleep(10 * time.Second)
	}
	c.Settle()
	if left := libLeft(); len(left) > 0 {
		c.Violate("leak", "%d goroutines of the library remain 4 minutes after %s, when not both applications call Close:\n%s", len(left), x.name, cut(left, 4))
		return
	}
	c.closedTransports(e, x.name+", without Close on both sides")
}

type wptr struct {
	what string
	p    weak.Pointer[byte]
}

func weakOf(what string, x any) wptr {
	v := reflect.ValueOf(x)
	if v.Kind() != reflect.Pointer {
		return wptr{}
	}
	return wptr{what, weak.Make((*byte)(unsafe.Pointer(v.Pointer())))}
}

// leakStreams opens, uses and closes many streams on living Ends.
func leakStreams(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	p := c.newPends()
	round := func(n int) []wptr {
		var mu vsync.Quiet
		var ws []wptr
		var fns []func()
		for i := 0; i < n; i++ {
			side := c.N(2)
			pr, ok := e.OpenPair(side)
			if !ok {
				return nil
			}
			use, how := c.N(8), c.N(4)
			ws = append(ws, weakOf(fmt.Sprintf("opened stream (use %d, close %d)", use, how), pr.o),
				weakOf(fmt.Sprintf("accepted stream (use %d, close %d)", use, how), pr.a))
			fns = append(fns, func() {
				a, b := pr.o, pr.a
				if c.Bool() {
					a, b = b, a
				}
				switch use {
				case 0:
				case 1:
					a.Write([]byte("unread"))
				case 2:
					b.Register(bg, "echo", func(_ context.Context, r geminio.Request, w geminio.Response) { w.SetData(r.Data()) })
					if _, err := a.Call(bg, "echo", a.NewRequest([]byte("x"))); err != nil {
						c.Violate("call", "Call: %v", err)
					}
				case 3:
					a.Register(bg, "block", p.block)
					o := options.Call()
					o.SetTimeout(50 * time.Millisecond)
					b.Call(bg, "block", b.NewRequest(nil), o)
				case 4:
					for i := 0; i < 5; i++ {
						a.PublishAsync(bg, a.NewMessage([]byte("m")), nil)
					}
				case 5:
					a.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
					a.Read(make([]byte, 1))
					// the runtime keeps stopped timers for a while
					b.SetDeadline(time.Now().Add(30 * time.Second))
				case 6:
					a.Register(bg, "block", p.block)
					go b.Call(bg, "block", b.NewRequest(nil))
					go b.Read(make([]byte, 1))
					go a.Receive(bg)
					c.sleepUpTo(10)
				case 7:
					ctx, cancel := context.WithCancel(bg)
					a.Register(bg, "block", p.block)
					time.AfterFunc(5*time.Millisecond, cancel)
					b.Call(ctx, "block", b.NewRequest(nil))
				}
				c.sleepUpTo(20)
				switch how {
				case 0:
					a.Close()
				case 1:
					b.Close()
				case 2:
					a.Close()
					c.sleepUpTo(50)
					b.Close()
				case 3:
					go b.Close()
					a.Close()
				}
				mu.Lock()
				defer mu.Unlock()
				c.Ev("stream_cycle", use, how)
			})
		}
		if !c.All("using and closing streams", fns...) {
			return nil
		}
		return ws
	}
	settle := func() {
		for i := 0; i < 8; i++ { // handlers may start late
			p.release()
			time.Sleep(10 * time.Second)
		}
		c.Settle()
	}
	if round(2) == nil {
		return
	}
	settle()
	base := libLeft()
	n := c.Range(5, 60)
	ws := round(n)
	if ws == nil {
		return
	}
	// the harness's own closures go out of scope with round
	settle()
	now := libLeft()
	if len(now) > len(base) {
		c.Violate("stream-leak", "%d goroutines of the library before, %d after opening and closing %d streams:\n%s", len(base), len(now), n, cut(now, 30))
		return
	}
	for i := 0; i < 5; i++ {
		runtime.GC()
	}
	alive := map[string]int{}
	for _, w := range ws {
		if w.p != (weak.Pointer[byte]{}) && w.p.Value() != nil {
			alive[w.what]++
		}
	}
	if len(alive) > 0 {
		c.Violate("stream-garbage", "of %d streams opened, closed and forgotten these are still referenced: %v", n, alive)
	}
	c.Ev("streams_collected", len(ws))
	if ids := e.Cli.ListStreams(); len(ids) != 1 {
		c.Violate("list", "%d streams listed after all were closed", len(ids))
	}
}
