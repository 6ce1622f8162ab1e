package verif

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/application"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/server"

	"verif/vsync"
)

func init() {
	register(&Prop{ID: "C19",
		Rule: "A case draws the methods each side registers - with its construction or later, from one or several goroutines, at drawn instants and in drawn order, some twice - and those each side waits for, constructs both Ends at once over a drawn transport and compares the return of each construction with the registrations it had to wait for; every method waited for is called at once. Other cases call registered, later registered and unregistered methods with the remote check on, on several streams and from several goroutines, while registrations go on: what was registered before must go through, what never was must fail at once without a packet, and the stream must work all the time.",
		Scens: []*Scen{
			{Name: "wait", Mode: Bubble, Quick: 400, Thorough: 16000, Batch: 20, Fn: regWait},
			{Name: "check", Mode: Bubble, Quick: 240, Thorough: 10000, Batch: 10, Fn: regCheck},
			{Name: "wall", Mode: Real, Quick: 24, Thorough: 400, Batch: 6, Fn: regWait},
		}})
}

// regPlan is what one side registers and waits for.
type regPlan struct {
	with  []string // with the construction
	later []regLater
	wait  []string // of the other side's
}

type regLater struct {
	method string
	after  time.Duration // after the construction of its side
	at, ok time.Time     // when Register was called and returned
}

func (c *C) regName() string {
	switch c.N(8) {
	case 0:
		return ""
	case 1:
		return "method with spaces, \"quotes\" and ünïcödé"
	}
	return fmt.Sprint("m", c.N(12))
}

func echoAs(as string) geminio.RPC {
	return func(_ context.Context, q geminio.Request, r geminio.Response) {
		r.SetData([]byte(as + ":" + string(q.Data())))
	}
}

func regWait(c *C) {
	o := c.Stock()
	if o.Link.Cap > 0 && o.Link.Cap < 16 {
		o.Link.Cap = 16
	}
	var ps [2]regPlan
	for i := range ps {
		p := &ps[i]
		for j := c.N(5); j > 0; j-- {
			p.with = append(p.with, c.regName())
		}
		max := 3000
		if c.Mode == Real {
			max = 100
		}
		if c.Bool() {
			max = 3
		}
		for j := c.N(6); j > 0; j-- {
			p.later = append(p.later, regLater{method: c.regName(), after: time.Duration(c.N(max*1000)) * time.Microsecond})
		}
	}
	// what comes after a construction which itself waits would never come
	waitLater := c.N(3) // -1.. which side may wait for later ones; 2: none
	for i := range ps {
		q := &ps[1-i]
		var can []string
		can = append(can, q.with...)
		if waitLater == i {
			for _, l := range q.later {
				can = append(can, l.method)
			}
		}
		for _, m := range can {
			if c.Chance(60) {
				ps[i].wait = append(ps[i].wait, m)
			}
		}
		c.shuffle(ps[i].wait)
		if len(ps[i].wait) > 0 && c.Chance(20) {
			ps[i].wait = append(ps[i].wait, ps[i].wait[0])
		}
	}
	local := func(i int) (out []*geminio.MethodRPC) {
		for _, m := range ps[i].with {
			out = append(out, &geminio.MethodRPC{Method: m, RPC: echoAs(m)})
		}
		return
	}
	check := [2]bool{c.Bool(), c.Bool()}
	co, so := o.Cli, o.Srv
	o.Cli = func(x *client.EndOptions) {
		co(x)
		if len(ps[0].with) > 0 {
			x.SetRegisterLocalRPCs(local(0)...)
		}
		if len(ps[0].wait) > 0 {
			x.SetWaitRemoteRPCs(ps[0].wait...)
		}
		if check[0] {
			x.SetRemoteRPCCheck()
		}
	}
	o.Srv = func(x *server.EndOptions) {
		so(x)
		if len(ps[1].with) > 0 {
			x.SetRegisterLocalRPCs(local(1)...)
		}
		if len(ps[1].wait) > 0 {
			x.SetWaitRemoteRPCs(ps[1].wait...)
		}
		if check[1] {
			x.SetRemoteRPCCheck()
		}
	}
	e := &Env{c: c}
	if o.TCP {
		a, b, err := c.tcpPair()
		if err != nil {
			c.Inconclusive("tcp: %v", err)
			return
		}
		e.cn, e.sn = a, b
		c.Cleanup(func() { a.Close(); b.Close() })
	} else {
		e.Link = c.NewLink(o.Link)
		e.cn, e.sn = e.Link.A, e.Link.B
	}
	c.Cleanup(func() { e.closeAll() })
	cl, sl := given(c, c.cliOpts(nil, o.Cli)), given(c, c.srvOpts(nil, o.Srv))
	var ends [2]geminio.End
	var errs [2]error
	var ret [2]time.Time
	var retOf [2]chan struct{}
	for i := range retOf {
		retOf[i] = make(chan struct{})
	}
	var fns []func()
	t0 := time.Now()
	delays := [2]time.Duration{}
	if c.Chance(30) {
		delays[c.N(2)] = time.Duration(c.N(500)) * time.Millisecond
	}
	for i := 0; i < 2; i++ {
		fns = append(fns, func() {
			time.Sleep(delays[i])
			if i == 0 {
				ends[0], errs[0] = client.NewEndWithConn(e.cn, cl...)
			} else {
				ends[1], errs[1] = server.NewEndWithConn(e.sn, sl...)
			}
			ret[i] = time.Now()
			if errs[i] != nil {
				return
			}
			close(retOf[i])
			// all it waited for is there: call it at once
			for _, m := range ps[i].wait {
				c.regCall(ends[i], fmt.Sprintf("side %d, right after construction", i), m, true)
			}
		})
		groups := make([][]int, c.Range(1, 3))
		for j := range ps[i].later {
			g := c.N(len(groups))
			groups[g] = append(groups[g], j)
		}
		for _, g := range groups {
			if len(g) == 0 {
				continue
			}
			fns = append(fns, func() {
				select {
				case <-retOf[i]:
				case <-time.After(c.bound):
					return
				}
				for _, j := range g {
					l := &ps[i].later[j]
					time.Sleep(time.Until(ret[i].Add(l.after)))
					l.at = time.Now()
					err := ends[i].Register(bg, l.method, echoAs(l.method))
					if err != nil {
						c.Violate("reg-err", "side %d: registering %q: %v", i, l.method, err)
						return
					}
					l.ok = time.Now()
					c.Ev("registered_later", i, j)
				}
			})
		}
	}
	if !c.All("construction and registrations", fns...) {
		return
	}
	for i := 0; i < 2; i++ {
		if errs[i] != nil {
			c.Violate("construct", "construction of side %d: %v (waiting for %q)", i, errs[i], ps[i].wait)
			return
		}
	}
	e.Cli, e.Srv = ends[0], ends[1]
	lat := 4*(o.Link.Latency+o.Link.Jitter) + 300*time.Millisecond
	if o.Link.MaxWrite > 0 || o.Link.Cap > 0 {
		lat += 2 * time.Second
	}
	if c.Mode == Real {
		lat = 10 * time.Second
	}
	for i := 0; i < 2; i++ {
		// when could it return, when had it to
		var lo, hi time.Time
		hi = maxT(t0.Add(delays[0]), t0.Add(delays[1]))
		for _, m := range ps[i].wait {
			var first, done time.Time
			for _, w := range ps[1-i].with {
				if w == m {
					first, done = t0.Add(delays[1-i]), ret[1-i]
					if done.After(ret[i]) { // it waits itself, after registering
						done = maxT(t0.Add(delays[0]), t0.Add(delays[1]))
					}
				}
			}
			if first.IsZero() {
				for _, l := range ps[1-i].later {
					if l.method == m && (first.IsZero() || l.at.Before(first)) {
						first = l.at
					}
					if l.method == m && (done.IsZero() || l.ok.Before(done)) {
						done = l.ok
					}
				}
			}
			lo, hi = maxT(lo, first), maxT(hi, done)
		}
		if len(ps[i].wait) == 0 {
			continue
		}
		c.Ev("waits_judged", i, len(ps[i].wait))
		if ret[i].Before(lo) {
			c.Violate("wait-early", "side %d was constructed %v before the last of the methods it waits for (%q) was even being registered", i, lo.Sub(ret[i]), ps[i].wait)
			return
		}
		if ret[i].After(hi.Add(lat * time.Duration(2+len(ps[0].with)+len(ps[1].with)))) {
			c.ViolateTimed("wait-late", "side %d was constructed %v after all the methods it waits for (%q) had been registered", i, ret[i].Sub(hi), ps[i].wait)
			return
		}
	}
	// everything registered can be called
	for i := 0; i < 2; i++ {
		all := append([]string(nil), ps[1-i].with...)
		for _, l := range ps[1-i].later {
			all = append(all, l.method)
		}
		for _, m := range all {
			if !c.regCall(ends[i], fmt.Sprintf("side %d", i), m, true) {
				return
			}
		}
		c.regCall(ends[i], fmt.Sprintf("side %d (check: %v)", i, check[i]), "never registered", false)
	}
}

func (c *C) shuffle(s []string) {
	for i := len(s) - 1; i > 0; i-- {
		j := c.N(i + 1)
		s[i], s[j] = s[j], s[i]
	}
}

func (c *C) regCall(s geminio.RPCer, who, method string, want bool) bool {
	arg := fmt.Sprint(c.N(1000))
	var rsp geminio.Response
	var err error
	if !c.Do(fmt.Sprintf("%s: Call(%q)", who, method), func() {
		rsp, err = s.Call(bg, method, s.NewRequest([]byte(arg)))
	}) {
		return false
	}
	if !want {
		if err == nil {
			c.Violate("reg-bogus", "%s: calling %q, which was never registered, succeeded", who, method)
		}
		return err != nil
	}
	if err != nil {
		c.Violate("reg-call", "%s: calling %q, which is registered: %v", who, method, err)
		return false
	}
	if string(rsp.Data()) != method+":"+arg {
		c.Violate("reg-call-data", "%s: calling %q was answered %q", who, method, rsp.Data())
		return false
	}
	c.Ev("registered_called")
	return true
}

func regCheck(c *C) {
	o := c.Stock()
	check := [2]bool{true, true}
	if k := c.N(3); k < 2 {
		check[k] = false
	}
	co, so := o.Cli, o.Srv
	o.Cli = func(x *client.EndOptions) {
		co(x)
		if check[0] {
			x.SetRemoteRPCCheck()
		}
	}
	o.Srv = func(x *server.EndOptions) {
		so(x)
		if check[1] {
			x.SetRemoteRPCCheck()
		}
	}
	e := c.NewEnv(o)
	if e == nil {
		return
	}
	pairs, ok := e.Pairs(c.N(3))
	if !ok {
		return
	}
	type regState struct {
		mu   vsync.Quiet
		from map[string]time.Time // method -> when Register was called
		done map[string]bool      // Register returned
	}
	var stop atomic.Bool
	var workers sync.WaitGroup
	var fns []func()
	for pi, p := range pairs {
		for side := 0; side < 2; side++ { // side calls, the other registers
			st := &regState{from: map[string]time.Time{}, done: map[string]bool{}}
			caller, owner := p.at(side), p.at(1-side)
			who := fmt.Sprintf("stream %d side %d", pi, side)
			n := c.Range(0, 6)
			workers.Add(1)
			fns = append(fns, func() {
				defer workers.Done()
				for i := 0; i < n; i++ {
					c.sleepUpTo(40)
					m := fmt.Sprint("m", i)
					st.mu.Lock()
					st.from[m] = time.Now()
					st.mu.Unlock()
					if err := owner.Register(bg, m, echoAs(m)); err != nil {
						c.Violate("reg-err", "%s: registering %q: %v", who, m, err)
						return
					}
					st.mu.Lock()
					st.done[m] = true
					st.mu.Unlock()
					c.Ev("registered", pi, side)
				}
				time.Sleep(30 * time.Millisecond)
			})
			for k := c.Range(1, 2); k > 0; k-- {
				fns = append(fns, func() {
					for i := 0; (!stop.Load() || i < 5) && !c.Failed() && i < 300; i++ {
						m := fmt.Sprint("m", c.N(8))
						if c.Chance(20) {
							m = "never"
						}
						st.mu.Lock()
						before := st.done[m]
						st.mu.Unlock()
						arg := fmt.Sprint(c.N(1000))
						t0 := time.Now()
						var rsp geminio.Response
						var err error
						async := c.Chance(30)
						if async {
							var call *geminio.Call
							call, err = caller.CallAsync(bg, m, caller.NewRequest([]byte(arg)), make(chan *geminio.Call, 1))
							if err == nil {
								r := <-call.Done
								rsp, err = r.Response, r.Error
							}
						} else {
							rsp, err = caller.Call(bg, m, caller.NewRequest([]byte(arg)))
						}
						took := time.Since(t0)
						st.mu.Lock()
						_, begun := st.from[m]
						st.mu.Unlock()
						switch {
						case before && err != nil:
							c.Violate("check-registered", "%s: calling %q (async: %v), registered before: %v", who, m, async, err)
							return
						case !begun && err == nil:
							c.Violate("check-bogus", "%s: calling %q, never registered, succeeded", who, m)
							return
						case !begun && check[side] && !errors.Is(err, application.ErrRemoteRPCUnregistered):
							c.Violate("check-error", "%s: calling %q (async: %v), never registered, with the check: %v", who, m, async, err)
							return
						case !begun && check[side] && took > lagSum:
							c.ViolateTimed("check-slow", "%s: calling %q, never registered, failed only after %v", who, m, took)
							return
						case err == nil && string(rsp.Data()) != m+":"+arg:
							c.Violate("check-data", "%s: calling %q was answered %q", who, m, rsp.Data())
							return
						}
						c.Ev("checked_calls", side, before, err == nil)
						if err != nil {
							time.Sleep(time.Duration(1+c.N(5)) * time.Millisecond)
						}
					}
				})
			}
			// the rest of the stream
			f := c.NewFlow(who, caller, owner)
			fns = append(fns, func() {
				for i := 0; i < 10 && !c.Failed(); i++ {
					if f.Write(1+c.N(50)) != nil {
						c.Violate("check-stream", "%s: Write: %v", who, f.werr)
						return
					}
					if !f.ReadN(func() (int64, bool) { return f.written, true }, 64) {
						return
					}
					time.Sleep(time.Millisecond)
				}
			})
			pb := c.publisher(caller, owner)
			fns = append(fns, func() {
				for i := 0; i < 5 && !c.Failed(); i++ {
					r := pb.newRec(0, i, 60)
					done := make(chan bool, 1)
					go func() { _, err := pb.recvOne(bg); done <- err == nil }()
					if !pb.check(r, caller.Publish(bg, pb.message(r))) || !<-done {
						return
					}
				}
			})
		}
	}
	go func() { workers.Wait(); stop.Store(true) }()
	if !c.All("registrations and calls", fns...) || c.Failed() {
		return
	}
	// calls which failed the check were never sent
	if e.Link != nil {
		for side, w := range []*WireLog{e.Link.AB, e.Link.BA} {
			if !check[side] {
				continue
			}
			for _, p := range w.Of(tRequest) {
				if string(p.Payload) != "" && containsNever(p.Payload) {
					c.Violate("check-sent", "side %d sent a request for a method never registered", side)
					return
				}
			}
		}
	}
}

func containsNever(b []byte) bool {
	// the method is the base64 key of the payload
	return len(b) > 8 && jsonKey(b[8:]) == "never"
}
