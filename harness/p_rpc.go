package verif

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"

	"verif/vsync"
)

func init() {
	register(&Prop{ID: "C02",
		Rule: "A case opens 0-4 extra streams over a drawn transport and makes up to several hundred sync and async calls from up to 24 goroutines per direction with drawn data, custom bytes, handler delays (so responses are reordered), handler errors and method names, also nested calls from within handlers; every request carries a unique key checked at the handler and on return.",
		Scens: []*Scen{
			{Name: "calls", Mode: Bubble, Quick: 200, Thorough: 8000, Batch: 10, Fn: rpcCalls},
			{Name: "text", Mode: Bubble, Quick: 1, Thorough: 2, Known: "text-bytes", NoReal: true, Fn: textError},
			{Name: "burst", Mode: Bubble, Quick: 60, Thorough: 2000, Batch: 10, Fn: rpcBurst},
			{Name: "nested", Mode: Bubble, Quick: 60, Thorough: 1500, Batch: 10, Fn: rpcNested},
			{Name: "big", Mode: Bubble, Quick: 16, Thorough: 300, Batch: 4, Fn: rpcBig},
			{Name: "wall", Mode: Real, Quick: 32, Thorough: 400, Batch: 6, Fn: rpcCalls},
		}})
	register(&Prop{ID: "C03",
		Rule: "A case performs a random sequence of registrations, re-registrations, failing registrations, hijacks (random patterns, plain and negated, and invalid ones) and calls on both sides of 1-4 streams with a mixed set of method names, against a table model; a second scenario re-registers while calls are in flight and checks that the handler which ran was current at some moment of the call.",
		Scens: []*Scen{
			{Name: "model", Mode: Bubble, Quick: 200, Thorough: 8000, Batch: 20, Fn: rpcModel},
			{Name: "reregister", Mode: Bubble, Quick: 60, Thorough: 2000, Batch: 10, Fn: rpcReregister},
			{Name: "wall", Mode: Real, Quick: 16, Thorough: 200, Batch: 6, Fn: rpcReregister},
		}})
	register(&Prop{ID: "C04",
		Rule: "A case runs up to 40 concurrent sync and async calls with drawn timeout, context deadline, cancel instant and handler duration on a link of known latency in virtual time, so the required outcome and instant of each call and of its handler's context are known; expiry and response instants also coincide deliberately. A second scenario does so over a transport that stopped moving bytes. A third uses deadlines and timeouts no packet can carry as they are (years beyond 9999, year 1, odd time zones, the longest durations): they must act like any other deadline that far away or past and leave the connection whole.",
		Scens: []*Scen{
			{Name: "timing", Mode: Bubble, Quick: 240, Thorough: 10000, Batch: 20, Fn: rpcTiming},
			{Name: "race", Mode: Bubble, Quick: 80, Thorough: 3000, Batch: 20, Fn: rpcExpiryRace},
			{Name: "far", Mode: Bubble, Quick: 60, Thorough: 1500, Batch: 20, NoReal: true, Fn: rpcFar},
			{Name: "blocked", Mode: Bubble, Quick: 80, Thorough: 2000, Batch: 20, Fn: rpcBlocked},
		}})
	register(&Prop{ID: "C05",
		Rule: "A case starts up to 60 async calls per stream with nil, buffered, shared and unread channels, mixing results, handler errors, timeouts, cancellations, and in most cases a stream close, End close or connection loss at a drawn instant; deliveries on every Done channel are counted over two virtual minutes.",
		Scens: []*Scen{
			{Name: "mix", Mode: Bubble, Quick: 240, Thorough: 10000, Batch: 20, Fn: rpcAsync},
			{Name: "wall", Mode: Real, Quick: 16, Thorough: 200, Batch: 4, Fn: rpcAsync},
		}})
}

var methods = []string{"", "a", "echo", "echo2", "Echo", "svc/Method", "日本", "\xff\xfe\x00", "a.b.c", "with space", strings.Repeat("long", 200)}

func (c *C) method(i int) string {
	if i < len(methods) {
		return methods[i]
	}
	return fmt.Sprintf("m-%d-%d", i, c.N(1000))
}

func rpcCalls(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.Pick(0, 0, 1, 2, 4))
	if !ok {
		return
	}
	var fns []func()
	total := 0
	for _, p := range ps {
		for side := 0; side < 2; side++ {
			for m := c.N(3); m > 0; m-- {
				cl := c.caller(p.at(side), p.at(1-side), c.method(m+c.N(12)))
				if cl == nil {
					return
				}
				d := c.Pick(0, 0, 5, 50)
				cl.onExec = func(r *rpcRec) {
					if d > 0 {
						time.Sleep(time.Duration(c.N(d+1)) * time.Millisecond)
					}
				}
				max := c.Pick(0, 20, 400, 4000)
				g := c.Pick(1, 2, 6, 12)
				n := c.Range(1, 12)
				gap := c.gapFn()
				for i := 0; i < g; i++ {
					fns = append(fns, func() { cl.run(n, max, gap) })
				}
				total += g * n
				// the same method again on the next round would replace it
				break
			}
		}
	}
	c.All("calls", fns...)
	c.Sample("%d streams, %d calls from %d goroutines", len(ps), total, len(fns))
}

func rpcBurst(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(2))
	if !ok {
		return
	}
	var fns []func()
	for _, p := range ps {
		for side := 0; side < 2; side++ {
			cl := c.caller(p.at(side), p.at(1-side), "burst")
			if cl == nil {
				return
			}
			hold := c.Bool()
			gate := make(chan struct{})
			var once sync.Once
			if hold { // no handler ends before a while
				cl.onExec = func(*rpcRec) {
					once.Do(func() { time.AfterFunc(time.Duration(c.N(2000))*time.Millisecond, func() { close(gate) }) })
					<-gate
				}
			}
			for i := c.Range(40, 150); i > 0; i-- {
				fns = append(fns, func() { cl.run(1, 200, nil) })
			}
		}
	}
	c.All("call bursts", fns...)
	c.Sample("%d calls at once", len(fns))
}

// rpcNested has handlers call back, down to a drawn depth.
func rpcNested(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(2))
	if !ok {
		return
	}
	p := ps[len(ps)-1]
	var cl [2]*caller
	depth := sync.Map{}
	for side := 0; side < 2; side++ {
		cl[side] = c.newCaller(p.at(side), p.at(1-side), "nest")
		cl[side].onExec = func(r *rpcRec) {
			d, _ := depth.Load(r.key)
			if n, _ := d.(int); n > 0 {
				back := cl[1-side]
				rec := back.newRec(100, nil)
				depth.Store(rec.key, n-1)
				back.exec(rec)
			}
		}
		if err := p.at(1-side).Register(bg, "nest", cl[side].handle); err != nil {
			c.Violate("register", "%v", err)
			return
		}
	}
	var fns []func()
	for side := 0; side < 2; side++ {
		for g := c.Range(1, 6); g > 0; g-- {
			fns = append(fns, func() {
				for i := 0; i < 4; i++ {
					rec := cl[side].newRec(100, nil)
					depth.Store(rec.key, c.N(7))
					if !cl[side].exec(rec) {
						return
					}
				}
			})
		}
	}
	c.All("nested calls", fns...)
}

func rpcBig(c *C) {
	e := c.NewEnv(EnvOpt{Link: LinkOpt{Cap: c.Pick(1000, 65536), MaxRead: c.Pick(0, 1000)}})
	if e == nil {
		return
	}
	var fns []func()
	for side := 0; side < 2; side++ {
		cl := c.caller(e.End(side), e.End(1-side), "big")
		if cl == nil {
			return
		}
		for g := 0; g < 3; g++ {
			fns = append(fns, func() { cl.run(3, 200<<10, nil) })
		}
	}
	c.All("big calls", fns...)
}

// ---- C03 ------------------------------------------------------------------------

type hijackM struct {
	pat   string
	plain bool // no pattern: everything
	match bool
	id    int
}

var hijackPats = []string{"^echo", "o$", "a", "^$", "日", ".*", "^zz", "\\.", "[A-Z]", "(?i)ECHO2",
	"^b$", "^a$", "a.b", "(?s)a.b", "(?m)^b$", "\\s", "^.$", "echo|^a", "^[^/]*$", "E", "(a)+\\n?(b)", "^.*$", "", ""}

var hijackNames = []string{"a\nb", "b\na", "echo\n", "\necho", "ECHO", "aab", "svc/method", "a.b.c", " a", "b"}

func (h *hijackM) takes(m string, re func(p, m string) bool) bool {
	if h.plain {
		return true
	}
	return re(h.pat, m) == h.match
}

func rpcModel(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.Pick(0, 1, 2, 3))
	if !ok {
		return
	}
	type sideM struct {
		s     geminio.Stream // where handlers live
		peer  geminio.Stream // who calls
		table map[string]int
		hij   *hijackM
	}
	var ms []*sideM
	for _, p := range ps {
		for side := 0; side < 2; side++ {
			ms = append(ms, &sideM{s: p.at(side), peer: p.at(1 - side), table: map[string]int{}})
		}
	}
	names := append([]string(nil), methods[:8]...)
	for n := c.N(5); n > 0; n-- {
		names = append(names, hijackNames[c.N(len(hijackNames))])
	}
	nextID := 0
	answer := func(id int, rsp geminio.Response) { rsp.SetData([]byte(fmt.Sprintf("handler-%d", id))) }
	steps := c.Range(20, 70)
	for i := 0; i < steps && !c.Failed(); i++ {
		m := ms[c.N(len(ms))]
		name := names[c.N(len(names))]
		switch c.N(10) {
		case 0, 1, 2: // register
			nextID++
			id := nextID
			var err error
			if !c.Do("Register", func() {
				err = m.s.Register(bg, name, func(_ context.Context, _ geminio.Request, rsp geminio.Response) { answer(id, rsp) })
			}) {
				return
			}
			if err != nil {
				c.Violate("register", "Register(%q): %v", name, err)
				return
			}
			m.table[name] = id
			c.Ev("registered", name, id)
		case 3: // a registration that may fail
			d := time.Duration(c.N(3)) * time.Millisecond
			if c.Bool() {
				d = -1
			}
			ctx, cancel := context.WithTimeout(bg, d)
			nextID++
			id := nextID
			var err error
			if !c.Do("Register", func() {
				err = m.s.Register(ctx, name, func(_ context.Context, _ geminio.Request, rsp geminio.Response) { answer(id, rsp) })
			}) {
				cancel()
				return
			}
			cancel()
			if err == nil {
				m.table[name] = id
				c.Ev("registered", name, id)
			} else {
				c.Ev("register_failed", name)
			}
			time.Sleep(200 * time.Millisecond)
		case 4: // hijack
			if c.Chance(25) {
				o := options.Hijack()
				o.SetMatch(true, "(unclosed")
				if err := m.s.Hijack(func(context.Context, string, geminio.Request, geminio.Response) {}, o); err == nil {
					c.Violate("hijack-bad", "an invalid pattern was accepted")
					return
				}
				c.Ev("hijack_refused")
				break
			}
			nextID++
			h := &hijackM{id: nextID}
			fn := func(_ context.Context, method string, req geminio.Request, rsp geminio.Response) {
				rsp.SetData([]byte(fmt.Sprintf("hijack-%d:%s:%s", h.id, method, req.Method())))
			}
			var err error
			if c.Chance(20) {
				h.plain = true
				err = m.s.Hijack(fn)
			} else {
				h.pat, h.match = hijackPats[c.N(len(hijackPats))], c.Bool()
				o := options.Hijack()
				o.SetMatch(h.match, h.pat)
				err = m.s.Hijack(fn, given(c, o)...)
			}
			if err != nil {
				c.Violate("hijack", "Hijack(%q): %v", h.pat, err)
				return
			}
			m.hij = h
			c.Ev("hijacked", h.pat, h.match, h.plain)
		default:
			var rsp geminio.Response
			var err error
			async := c.Chance(20)
			if !c.Do("Call", func() {
				if async {
					var call *geminio.Call
					if call, err = m.peer.CallAsync(bg, name, m.peer.NewRequest(nil), nil); err == nil {
						<-call.Done
						rsp, err = call.Response, call.Error
					}
					return
				}
				rsp, err = m.peer.Call(bg, name, m.peer.NewRequest([]byte("x")))
			}) {
				return
			}
			want := ""
			if m.hij != nil && m.hij.takes(name, matchRe) {
				want = fmt.Sprintf("hijack-%d:%s:%s", m.hij.id, name, name)
			} else if id, ok := m.table[name]; ok {
				want = fmt.Sprintf("handler-%d", id)
			}
			got := ""
			if err == nil && rsp != nil {
				got = string(rsp.Data())
			}
			if want == "" {
				if err == nil || !strings.Contains(err.Error(), "no such rpc") {
					c.Violate("dispatch", "step %d: call of the unregistered %q on stream %d returned %q %v", i, name, m.s.StreamID(), got, err)
					return
				}
				c.Ev("called_unregistered", name)
				break
			}
			if err != nil || got != want {
				c.Violate("dispatch", "step %d: call of %q on stream %d was served by %q (%v), the rules select %q", i, name, m.s.StreamID(), got, err, want)
				return
			}
			c.Ev("called", name, want)
		}
	}
	c.Sample("%d steps on %d stream sides, %d handlers", steps, len(ms), nextID)
}

func rpcReregister(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(2))
	if !ok {
		return
	}
	p := ps[len(ps)-1]
	side := c.N(2)
	srv, cli := p.at(side), p.at(1-side)
	names := []string{"x", "y"}
	var mu vsync.Quiet
	began := map[string]int{} // latest version whose Register began
	ended := map[string]int{} // latest version whose Register returned
	reg := func(name string, v int) {
		mu.Lock()
		began[name] = v
		mu.Unlock()
		err := srv.Register(bg, name, func(_ context.Context, _ geminio.Request, rsp geminio.Response) {
			rsp.SetData([]byte(fmt.Sprintf("%s/%d", name, v)))
		})
		if err != nil {
			c.Violate("register", "%v", err)
		}
		mu.Lock()
		ended[name] = v
		mu.Unlock()
		c.Ev("registered", name, v)
	}
	for _, n := range names {
		reg(n, 1)
	}
	var fns []func()
	for _, n := range names {
		fns = append(fns, func() {
			for v := 2; v < 25; v++ {
				reg(n, v)
				time.Sleep(time.Duration(c.N(5)) * time.Millisecond)
			}
		})
		for g := 0; g < 3; g++ {
			fns = append(fns, func() {
				for i := 0; i < 20; i++ {
					mu.Lock()
					lo := ended[n]
					mu.Unlock()
					rsp, err := cli.Call(bg, n, cli.NewRequest(nil))
					mu.Lock()
					hi := began[n]
					mu.Unlock()
					if err != nil {
						c.Violate("rereg-call", "call of %q failed: %v", n, err)
						return
					}
					var v int
					if _, err := fmt.Sscanf(string(rsp.Data()), n+"/%d", &v); err != nil || v < lo || v > hi {
						c.Violate("rereg", "call of %q was served by %q; versions %d to %d were current during the call", n, rsp.Data(), lo, hi)
						return
					}
					c.Ev("called", n, v-lo)
					time.Sleep(time.Duration(c.N(4)) * time.Millisecond)
				}
			})
		}
	}
	c.All("re-registration", fns...)
}

// ---- C04 ------------------------------------------------------------------------

type tcall struct {
	rec        *rpcRec
	T, D, X    time.Duration // timeout, context deadline, cancel; 0 none
	viaReq     bool
	async      bool
	start, end time.Time
	rsp        geminio.Response
	err        error
}

func minPos(ds ...time.Duration) time.Duration {
	var m time.Duration
	for _, d := range ds {
		if d > 0 && (m == 0 || d < m) {
			m = d
		}
	}
	return m
}

func isTimeout(err error) bool {
	return errors.Is(err, context.DeadlineExceeded) || err != nil && strings.Contains(strings.ToLower(err.Error()), "timeout")
}

// do performs the call; it returns when it completed.
func (t *tcall) do(c *C, cl *caller) {
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	t.start = time.Now()
	if t.D > 0 {
		var c2 context.CancelFunc
		ctx, c2 = context.WithTimeout(ctx, t.D)
		defer c2()
	}
	if t.X > 0 {
		tm := time.AfterFunc(t.X, cancel)
		defer tm.Stop()
	}
	req := cl.request(t.rec)
	var opts []*options.CallOptions
	if t.T > 0 {
		if t.viaReq {
			req.SetTimeout(t.T)
		} else {
			o := options.Call()
			o.SetTimeout(t.T)
			opts = given(cl.c, o)
			if cl.c.Chance(30) { // the call's goes before the request's
				req.SetTimeout(t.T*2 + time.Second)
			}
		}
	}
	if t.async {
		call, err := cl.s.CallAsync(ctx, cl.method, req, nil, opts...)
		if err != nil {
			t.err = err
		} else {
			<-call.Done
			t.rsp, t.err = call.Response, call.Error
		}
	} else {
		t.rsp, t.err = cl.s.Call(ctx, cl.method, req, opts...)
	}
	t.end = time.Now()
}

// slack covers the library's 10ms timer ticks
const slack = 60 * time.Millisecond

// judge checks a finished call against the known round trip.
func (t *tcall) judge(c *C, cl *caller, oneWay time.Duration) bool {
	took := t.end.Sub(t.start)
	end := minPos(t.T, t.D, t.X)
	R := 2*oneWay + t.rec.delay
	desc := fmt.Sprintf("call (async %v) with timeout %v, deadline %v, cancel %v, response due after %v", t.async, t.T, t.D, t.X, R)
	ownErr := t.err != nil && t.rec.errText != "" && t.err.Error() == t.rec.errText
	responded := t.err == nil || ownErr
	if end == 0 || R+slack < end {
		if took > R+slack {
			c.Violate("late-response", "%s returned after %v", desc, took)
			return false
		}
		if !responded {
			c.Violate("early-end", "%s ended with %v after %v", desc, t.err, took)
			return false
		}
		return cl.judge(t.rec, t.rsp, t.err)
	}
	if took > min(end, R)+slack {
		c.Violate("late-end", "%s returned (%v) only after %v", desc, t.err, took)
		return false
	}
	if responded {
		if end+slack < R {
			c.Violate("impossible", "%s returned a response after %v", desc, took)
			return false
		}
		return cl.judge(t.rec, t.rsp, t.err)
	}
	if took+slack < min(end, R) {
		c.Violate("early-end", "%s ended with %v after %v", desc, t.err, took)
		return false
	}
	near := func(d time.Duration) bool { return d > 0 && d <= end+slack }
	switch {
	case near(t.X) && errors.Is(t.err, context.Canceled):
	case near(t.D) && errors.Is(t.err, context.DeadlineExceeded):
	case near(t.T) && isTimeout(t.err):
	default:
		c.Violate("end-error", "%s ended with the error %v", desc, t.err)
		return false
	}
	c.Ev("call_expired", fmt.Sprint(t.err))
	return true
}

// judgeCtx checks what the handler saw of the caller's limits.
func (t *tcall) judgeCtx(c *C, cl *caller, oneWay time.Duration) {
	cl.mu.Lock()
	r := *t.rec
	cl.mu.Unlock()
	if r.execs == 0 {
		return
	}
	desc := fmt.Sprintf("call (async %v) with timeout %v, deadline %v, cancel %v, handler of %v, one way %v", t.async, t.T, t.D, t.X, r.delay, oneWay)
	limit := minPos(t.T, t.D)
	if (limit > 0) != r.hctxHasDL {
		c.Violate("ctx-deadline", "%s: handler's context has a deadline: %v", desc, r.hctxHasDL)
		return
	}
	if limit > 0 {
		if d := r.hctxDL.Sub(t.start.Add(limit)); d > 5*time.Millisecond || d < -5*time.Millisecond {
			c.Violate("ctx-deadline", "%s: handler's deadline is %v off the earliest the caller set", desc, d)
			return
		}
	}
	if !r.watchCtx || r.delay == 0 {
		return
	}
	due := time.Duration(0)
	if limit > 0 {
		due = max(limit, oneWay)
	}
	R := 2*oneWay + r.delay
	if t.X > 0 && (limit == 0 || t.X+slack < limit) && t.X+slack < R {
		due = minPos(due, max(t.X+oneWay, oneWay))
	} else if t.X > 0 && t.X <= R+slack && (limit == 0 || t.X <= limit+slack) {
		return // a photo finish: either way
	}
	hEnd := oneWay + r.delay
	seen := time.Duration(-1)
	if !r.hctxDone.IsZero() {
		seen = r.hctxDone.Sub(t.start)
	}
	switch {
	case due > 0 && due+slack < hEnd && seen < 0:
		c.Violate("ctx-alive", "%s: the handler's context was not done when the handler ended", desc)
	case seen >= 0 && (due == 0 || seen+slack < due):
		c.Violate("ctx-early", "%s: the handler's context was done after %v: %v", desc, seen, r.hctxErr)
	case seen >= 0 && seen > due+slack:
		c.Violate("ctx-late", "%s: the handler's context was done only after %v", desc, seen)
	default:
		c.Ev("ctx_judged", seen >= 0)
	}
}

func rpcTiming(c *C) {
	lat := time.Duration(c.Pick(0, 0, 1, 20, 200)) * time.Millisecond
	e := c.NewEnv(EnvOpt{Link: LinkOpt{Latency: lat}})
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(3))
	if !ok {
		return
	}
	var fns []func()
	type run struct {
		cl *caller
		t  *tcall
	}
	var runs []run
	var longest time.Duration
	for _, p := range ps {
		for side := 0; side < 2; side++ {
			cl := c.caller(p.at(side), p.at(1-side), "timed")
			if cl == nil {
				return
			}
			dur := func(pct int) time.Duration {
				if !c.Chance(pct) {
					return 0
				}
				if c.Chance(10) {
					return time.Duration(1 + c.N(1000))
				}
				return time.Duration(1+c.N(1500)) * time.Millisecond
			}
			for i := c.Range(2, 14); i > 0; i-- {
				t := &tcall{rec: cl.newRec(50, nil), T: dur(40), D: dur(40), X: dur(40), viaReq: c.Bool(), async: c.Bool()}
				t.rec.delay, t.rec.watchCtx = dur(80), c.Chance(80)
				longest = max(longest, t.rec.delay)
				lag := time.Duration(c.N(300)) * time.Millisecond
				runs = append(runs, run{cl, t})
				fns = append(fns, func() {
					time.Sleep(lag)
					t.do(c, cl)
					t.judge(c, cl, lat)
				})
			}
		}
	}
	if !c.All("timed calls", fns...) || c.Failed() {
		return
	}
	time.Sleep(longest + 2*lat + time.Second) // handlers end, late responses arrive
	for _, r := range runs {
		r.t.judgeCtx(c, r.cl, lat)
		if n := r.cl.execs(r.t.rec); n > 1 {
			c.Violate("rpc-twice", "a call that was cut short was executed %d times", n)
		}
	}
	// the streams work normally afterwards
	var after []func()
	for _, r := range runs {
		after = append(after, func() { r.cl.run(1, 50, nil) })
	}
	c.All("calls after expiries", after...)
	c.Sample("%d timed calls, one way %v", len(runs), lat)
}

// rpcExpiryRace makes response and expiry coincide as exactly as possible.
func rpcExpiryRace(c *C) {
	lat := time.Duration(c.Pick(0, 10, 50)) * time.Millisecond
	e := c.NewEnv(EnvOpt{Link: LinkOpt{Latency: lat}})
	if e == nil {
		return
	}
	cl := c.caller(e.Cli, e.Srv, "race")
	if cl == nil {
		return
	}
	var fns []func()
	for i := 0; i < 30; i++ {
		t := &tcall{rec: cl.newRec(20, nil), async: c.Bool(), viaReq: c.Bool()}
		h := time.Duration(c.Range(1, 20)) * 10 * time.Millisecond
		t.rec.delay = h
		at := h + 2*lat + time.Duration(c.Range(-12, 2))*time.Millisecond
		if at <= 0 {
			at = time.Millisecond
		}
		switch c.N(3) {
		case 0:
			t.T = at
		case 1:
			t.D = at
		default:
			t.X = at
		}
		fns = append(fns, func() { t.do(c, cl); t.judge(c, cl, lat) })
	}
	if !c.All("racing calls", fns...) || c.Failed() {
		return
	}
	time.Sleep(time.Second)
	c.All("calls after the races", func() { cl.run(10, 50, nil) })
}

// rpcBlocked: the transport stops moving bytes; limits must hold all the same.
func rpcBlocked(c *C) {
	e := c.NewEnv(EnvOpt{Link: LinkOpt{Cap: c.Pick(1, 100, 5000)}})
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(2))
	if !ok {
		return
	}
	p := ps[len(ps)-1]
	cl := c.caller(p.o, p.a, "blocked")
	if cl == nil {
		return
	}
	e.Link.Hold(true, true)
	released := time.Duration(c.Range(2000, 4000)) * time.Millisecond
	time.AfterFunc(released, func() { e.Link.Hold(false, false) })
	var fns []func()
	n := c.Pick(3, 30, 120, 250)
	for i := 0; i < n; i++ {
		t := &tcall{rec: cl.newRec(100, nil), async: c.Bool(), viaReq: c.Bool()}
		d := time.Duration(c.Range(10, 1500)) * time.Millisecond
		switch c.N(3) {
		case 0:
			t.T = d
		case 1:
			t.D = d
		default:
			t.X = d
		}
		fns = append(fns, func() {
			t.do(c, cl)
			took := t.end.Sub(t.start)
			if t.err == nil || took > d+slack || took+slack < d {
				c.Violate("blocked-end", "transport blocked, %d calls: call (async %v) with timeout %v, deadline %v, cancel %v returned %v after %v",
					n, t.async, t.T, t.D, t.X, t.err, took)
				return
			}
			c.Ev("call_expired", fmt.Sprint(t.err))
		})
	}
	if !c.All("calls over a blocked transport", fns...) || c.Failed() {
		return
	}
	time.Sleep(5 * time.Second)
	c.All("calls after the blockage", func() { cl.run(10, 50, nil) })
}

// ---- C05 ------------------------------------------------------------------------

func rpcAsync(c *C) {
	o := c.Stock()
	ending := c.N(6) // 0,1 none, 2 stream close, 3 peer stream close, 4 End close, 5 link loss
	o.TCP = false
	e := c.NewEnv(o)
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(3))
	if !ok {
		return
	}
	p := ps[len(ps)-1]
	type acall struct {
		rec     *rpcRec
		call    *geminio.Call
		got     int
		wantErr bool // a limit was set, so an error is fine
		at      time.Time
		limit   time.Time // no later than this, if set
	}
	var mu vsync.Quiet
	byCall := map[*geminio.Call]*acall{}
	var list []*acall
	var early []*geminio.Call
	var shutAt time.Time
	deliver := func(x *geminio.Call, ac *acall, cl *caller) {
		mu.Lock()
		defer mu.Unlock()
		if x == nil {
			c.Violate("async-nil", "nil delivered on Done")
			return
		}
		a := byCall[x]
		if a == nil {
			// CallAsync has not returned yet
			early = append(early, x)
			return
		}
		a.got++
		a.at = time.Now()
	}
	shared := make(chan *geminio.Call, c.Pick(0, 1, 100))
	go func() {
		for x := range shared {
			if c.Chance(20) {
				time.Sleep(time.Millisecond)
			}
			deliver(x, nil, nil)
		}
	}()
	var callers []*caller
	for side := 0; side < 2; side++ {
		cl := c.caller(p.at(side), p.at(1-side), "async")
		if cl == nil {
			return
		}
		callers = append(callers, cl)
	}
	perSide := c.Range(3, 60)
	if ending >= 2 {
		wait := time.Duration(c.N(300)) * time.Millisecond
		if c.Chance(30) {
			wait = 0
		}
		time.AfterFunc(wait, func() {
			mu.Lock()
			shutAt = time.Now()
			mu.Unlock()
			c.Ev("ending", ending)
			switch ending {
			case 2:
				p.at(0).Close()
			case 3:
				p.at(1).Close()
			case 4:
				e.End(c.N(2)).Close()
			case 5:
				if e.Link != nil {
					e.Link.Break(c.Bool())
				}
			}
		})
	}
	fastCancel := c.Chance(30)
	var fns []func()
	for _, cl := range callers {
		for i := 0; i < perSide; i++ {
			rec := cl.newRec(60, nil)
			rec.delay = time.Duration(c.Pick(0, 0, 1, 50, 400)) * time.Millisecond
			lag := time.Duration(c.N(300)) * time.Millisecond
			kind := c.N(5)
			chKind := c.N(4)
			d := time.Duration(1+c.N(400)) * time.Millisecond
			if kind < 3 && c.Mode == Bubble && c.Chance(40) {
				// no answer in time, only the limit can end it
				rec.delay = 10 * time.Minute
			}
			fns = append(fns, func() {
				if c.Chance(70) {
					time.Sleep(lag)
				}
				ctx := bg
				a := &acall{rec: rec}
				req := cl.request(rec)
				defer func(t time.Time) {
					if now := time.Now(); a.wantErr {
						mu.Lock()
						a.limit = maxT(t.Add(d), now)
						mu.Unlock()
					}
				}(time.Now())
				switch kind {
				case 0:
					req.SetTimeout(d)
					a.wantErr = true
				case 1:
					var cancel context.CancelFunc
					ctx, cancel = context.WithCancel(bg)
					if fastCancel {
						d = 0
					}
					time.AfterFunc(d, cancel)
					a.wantErr = true
				case 2:
					var cancel context.CancelFunc
					ctx, cancel = context.WithTimeout(bg, d)
					time.AfterFunc(time.Minute, cancel)
					a.wantErr = true
				}
				var ch chan *geminio.Call
				switch chKind {
				case 0:
					ch = shared
				case 1:
					ch = make(chan *geminio.Call, 3)
				case 2:
					ch = make(chan *geminio.Call)
				}
				call, err := cl.s.CallAsync(ctx, cl.method, req, ch)
				if err != nil {
					mu.Lock()
					ended := !shutAt.IsZero()
					mu.Unlock()
					if !ended && !a.wantErr {
						c.Violate("async-err", "CallAsync: %v", err)
					}
					c.Ev("async_refused")
					return
				}
				a.call = call
				mu.Lock()
				byCall[call] = a
				list = append(list, a)
				mu.Unlock()
				if call.Done == nil || ch != nil && call.Done != ch {
					c.Violate("async-chan", "CallAsync's Call has another Done channel than given")
					return
				}
				c.Ev("async_started", kind, chKind)
				if chKind != 0 {
					go func() {
						for x := range call.Done {
							deliver(x, a, cl)
						}
					}()
				}
			})
		}
	}
	if !c.All("starting async calls", fns...) {
		return
	}
	settle := 2 * time.Minute
	if c.Mode == Real {
		settle = 3 * time.Second
		if ending == 5 || ending == 4 {
			settle = 6 * time.Second
		}
	}
	time.Sleep(settle)
	mu.Lock()
	defer mu.Unlock()
	for _, x := range early {
		if a := byCall[x]; a != nil {
			a.got++
		} else {
			c.Violate("async-foreign", "a Call no CallAsync returned was delivered on the shared channel")
			return
		}
	}
	for _, a := range list {
		if a.got != 1 {
			if a.got == 0 && c.Mode == Real {
				c.ViolateTimed("async-count", "an async call completed %d times (ending %d)", a.got, ending)
				return
			}
			c.Violate("async-count", "an async call completed %d times (ending %d)\n%s", a.got, ending, stacks())
			return
		}
		if !a.at.IsZero() && !a.limit.IsZero() && a.at.Sub(a.limit) > time.Second && (c.Mode == Bubble || a.at.Sub(a.limit) > 20*time.Second) {
			c.ViolateTimed("async-late", "an async call limited to %v completed at %v", rel(c, a.limit), rel(c, a.at))
			return
		}
		hasR, hasE := a.call.Response != nil, a.call.Error != nil
		if hasR == hasE {
			c.Violate("async-both", "an async call completed with response %v and error %v", a.call.Response, a.call.Error)
			return
		}
		cl := callers[0]
		callers[1].mu.Lock()
		if callers[1].reqs[a.rec.key] != nil {
			cl = callers[1]
		}
		callers[1].mu.Unlock()
		if hasE && (a.rec.errText == "" || a.call.Error.Error() != a.rec.errText) {
			if !a.wantErr && shutAt.IsZero() {
				c.Violate("async-error", "an async call without limit completed with %v", a.call.Error)
				return
			}
			c.Ev("async_cut", fmt.Sprint(a.call.Error))
			continue
		}
		if !cl.judge(a.rec, a.call.Response, a.call.Error) {
			return
		}
	}
	// the readers end
	for _, a := range list {
		if a.call.Done != shared {
			close(a.call.Done)
		}
	}
	close(shared)
	c.Sample("%d async calls, ending %d", len(list), ending)
}
