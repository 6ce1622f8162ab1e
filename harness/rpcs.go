package verif

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"regexp"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"

	"verif/vsync"
)

var bg = context.Background()

// ---- calls --------------------------------------------------------------------

type rpcRec struct {
	key              uint64
	data, custom     []byte
	rData, rCustom   []byte
	errText          string
	delay            time.Duration
	async            bool
	execs            int
	started, ended   time.Time
	hctxDL           time.Time
	hctxHasDL        bool
	hctxErr          error
	hctxDone         time.Time
	watchCtx         bool
	callStart        time.Time
	callEnd          time.Time
	callErr          error
	completions      int
	completionReused bool
}

// caller drives calls of one method from s, served on q, and judges them.
type caller struct {
	c      *C
	s, q   geminio.Stream
	method string
	mu     vsync.Quiet
	reqs   map[uint64]*rpcRec
	key    uint64
	onExec func(*rpcRec) // inside the handler
	kept   []keptRsp
}

type keptRsp struct {
	rec *rpcRec
	rsp geminio.Response
}

func (c *C) newCaller(s, q geminio.Stream, method string) *caller {
	return &caller{c: c, s: s, q: q, method: method, reqs: map[uint64]*rpcRec{}}
}

// caller registers a fresh handler on q and returns its driver.
func (c *C) caller(s, q geminio.Stream, method string) *caller {
	cl := c.newCaller(s, q, method)
	if err := q.Register(bg, method, cl.handle); err != nil {
		c.Violate("register", "Register(%q): %v", method, err)
		return nil
	}
	return cl
}

func (cl *caller) newRec(max int, r interface{ IntN(int) int }) *rpcRec {
	c := cl.c
	rec := &rpcRec{key: c.U64()}
	rec.data = append(u64b(rec.key), c.Bytes(c.Size(max))...)
	switch c.N(4) {
	case 0:
		rec.custom = c.Bytes(c.Size(200))
	case 1: // the key travels in the custom bytes, no data at all
		rec.custom = u64b(rec.key)
		rec.data = nil
	}
	if !c.Chance(15) { // else the handler sets no data
		rec.rData = c.Bytes(c.Size(max))
	}
	if c.Bool() {
		rec.rCustom = c.Bytes(c.Size(200))
	}
	if c.Chance(15) {
		rec.errText = fmt.Sprintf("failure %x é\"<>&\n%d", rec.key, c.N(9))
	}
	cl.mu.Lock()
	cl.reqs[rec.key] = rec
	cl.mu.Unlock()
	return rec
}

func (cl *caller) handle(ctx context.Context, req geminio.Request, rsp geminio.Response) {
	cl.serve(ctx, req, rsp)
}

func (cl *caller) serve(ctx context.Context, req geminio.Request, rsp geminio.Response) {
	c := cl.c
	var key uint64
	if d := req.Data(); len(d) >= 8 {
		key = binary.BigEndian.Uint64(d)
	} else if d := req.Custom(); len(d) >= 8 {
		key = binary.BigEndian.Uint64(d)
	}
	cl.mu.Lock()
	rec := cl.reqs[key]
	if rec != nil {
		rec.execs++
		rec.started = time.Now()
	}
	cl.mu.Unlock()
	if rec == nil {
		c.Violate("rpc-foreign", "handler of %q on stream %d got a request nobody sent to it: data %s custom %s",
			cl.method, cl.q.StreamID(), short(req.Data()), short(req.Custom()))
		return
	}
	if rec.execs > 1 {
		c.Violate("rpc-twice", "request %x of %q executed %d times", key, cl.method, rec.execs)
	}
	if !bytes.Equal(req.Data(), rec.data) || !bytes.Equal(req.Custom(), rec.custom) {
		c.Violate("rpc-request", "handler of %q saw data %s custom %s, sent %s %s", cl.method,
			short(req.Data()), short(req.Custom()), short(rec.data), short(rec.custom))
	}
	if req.Method() != cl.method || req.StreamID() != cl.q.StreamID() || req.ClientID() != cl.q.ClientID() {
		c.Violate("rpc-request", "handler of %q on stream %d client %d saw method %q stream %d client %d", cl.method,
			cl.q.StreamID(), cl.q.ClientID(), req.Method(), req.StreamID(), req.ClientID())
	}
	dl, has := ctx.Deadline()
	cl.mu.Lock()
	rec.hctxDL, rec.hctxHasDL = dl, has
	cl.mu.Unlock()
	c.Ev("rpc_executed", cl.method, len(req.Data()))
	if cl.onExec != nil {
		cl.onExec(rec)
	}
	if rec.delay > 0 {
		if rec.watchCtx {
			t := time.NewTimer(rec.delay)
			select {
			case <-ctx.Done():
				now := time.Now()
				cl.mu.Lock()
				rec.hctxErr, rec.hctxDone = ctx.Err(), now
				cl.mu.Unlock()
				<-t.C
			case <-t.C:
			}
			t.Stop()
		} else {
			time.Sleep(rec.delay)
		}
	}
	if !bytes.Equal(req.Data(), rec.data) || !bytes.Equal(req.Custom(), rec.custom) {
		c.Violate("rpc-request", "handler of %q saw its request change while it ran: data %s custom %s, sent %s %s", cl.method,
			short(req.Data()), short(req.Custom()), short(rec.data), short(rec.custom))
	}
	if rec.errText != "" {
		rsp.SetError(errors.New(rec.errText))
	}
	if rec.rData != nil {
		rsp.SetData(rec.rData)
	}
	if rec.rCustom != nil {
		rsp.SetCustom(rec.rCustom)
	}
	cl.mu.Lock()
	rec.ended = time.Now()
	cl.mu.Unlock()
}

func (cl *caller) request(rec *rpcRec) geminio.Request {
	if rec.custom != nil {
		if cl.c.Bool() {
			o := options.NewRequest()
			o.SetCustom(rec.custom)
			return cl.s.NewRequest(rec.data, given(cl.c, o)...)
		}
		r := cl.s.NewRequest(rec.data)
		r.SetCustom(rec.custom)
		return r
	}
	return cl.s.NewRequest(rec.data)
}

// execs reads how often the request ran.
func (cl *caller) execs(rec *rpcRec) int { cl.mu.Lock(); defer cl.mu.Unlock(); return rec.execs }

// ample draws a context and a timeout which never end what runs under them.
func (c *C) ample() (context.Context, context.CancelFunc, time.Duration) {
	ctx, cancel, d := bg, context.CancelFunc(func() {}), time.Duration(0)
	switch c.N(6) {
	case 0:
		ctx, cancel = context.WithCancel(bg)
	case 1:
		ctx, cancel = context.WithTimeout(bg, time.Hour)
	}
	if c.Chance(25) {
		d = 30 * time.Minute
	}
	return ctx, cancel, d
}

// judge checks a finished call that had no reason to fail but the handler's.
func (cl *caller) judge(rec *rpcRec, rsp geminio.Response, err error) bool {
	c := cl.c
	if n := cl.execs(rec); n != 1 && (err == nil || rec.errText != "" && err.Error() == rec.errText) {
		c.Violate("rpc-execs", "call of %q returned (%v) after %d executions", cl.method, err, n)
		return false
	}
	if err != nil {
		if rec.errText == "" {
			c.Violate("rpc-err", "call of %q on stream %d failed: %v", cl.method, cl.s.StreamID(), err)
			return false
		}
		if err.Error() != rec.errText {
			c.Violate("rpc-errtext", "call of %q returned the error %q, its handler set %q", cl.method, err, rec.errText)
			return false
		}
		c.Ev("rpc_errors", cl.method)
		return true
	}
	if rec.errText != "" {
		c.Violate("rpc-errlost", "call of %q succeeded although its handler set the error %q", cl.method, rec.errText)
		return false
	}
	if rsp == nil {
		c.Violate("rpc-nil", "call of %q returned neither response nor error", cl.method)
		return false
	}
	if !bytes.Equal(rsp.Data(), rec.rData) || !bytes.Equal(rsp.Custom(), rec.rCustom) {
		c.Violate("rpc-response", "call of %q returned data %s custom %s, its handler set %s %s", cl.method,
			short(rsp.Data()), short(rsp.Custom()), short(rec.rData), short(rec.rCustom))
		return false
	}
	if rsp.Method() != cl.method || rsp.StreamID() != cl.s.StreamID() || rsp.ClientID() != cl.s.ClientID() {
		c.Violate("rpc-response", "response to %q on stream %d: method %q stream %d client %d", cl.method, cl.s.StreamID(),
			rsp.Method(), rsp.StreamID(), rsp.ClientID())
		return false
	}
	if rsp.Error() != nil {
		c.Violate("rpc-response", "successful call of %q carries error %v", cl.method, rsp.Error())
		return false
	}
	c.Ev("rpc_ok", cl.method, len(rsp.Data()))
	// the application may keep it: look again later
	cl.mu.Lock()
	defer cl.mu.Unlock()
	for _, k := range cl.kept {
		if !bytes.Equal(k.rsp.Data(), k.rec.rData) || !bytes.Equal(k.rsp.Custom(), k.rec.rCustom) {
			c.Violate("rpc-response", "a response of %q changed after it was returned: data %s custom %s, its handler set %s %s", cl.method,
				short(k.rsp.Data()), short(k.rsp.Custom()), short(k.rec.rData), short(k.rec.rCustom))
			return false
		}
	}
	if cl.kept = append(cl.kept, keptRsp{rec, rsp}); len(cl.kept) > 4 {
		cl.kept = cl.kept[1:]
	}
	return true
}

// once makes one call and judges it.
func (cl *caller) once(max int) bool {
	rec := cl.newRec(max, nil)
	return cl.exec(rec)
}

func (cl *caller) exec(rec *rpcRec) bool {
	req := cl.request(rec)
	ctx, cancel, d := cl.c.ample()
	defer cancel()
	var opts []*options.CallOptions
	if d > 0 {
		if cl.c.Bool() {
			req.SetTimeout(d)
		} else {
			o := options.Call()
			o.SetTimeout(d)
			opts = given(cl.c, o)
		}
	}
	if rec.async {
		call, err := cl.s.CallAsync(ctx, cl.method, req, nil, opts...)
		if err != nil {
			cl.c.Violate("rpc-async", "CallAsync(%q): %v", cl.method, err)
			return false
		}
		done := <-call.Done
		if done != call {
			cl.c.Violate("rpc-async", "CallAsync(%q) delivered another call", cl.method)
			return false
		}
		if done.Error == nil && done.Response == nil {
			cl.c.Violate("rpc-nil", "CallAsync of %q completed with neither response nor error", cl.method)
			return false
		}
		return cl.judge(rec, done.Response, done.Error)
	}
	rsp, err := cl.s.Call(ctx, cl.method, req, opts...)
	return cl.judge(rec, rsp, err)
}

// run makes n calls one after another.
func (cl *caller) run(n, max int, gap func()) {
	for i := 0; i < n; i++ {
		rec := cl.newRec(max, nil)
		rec.async = cl.c.Chance(30)
		if !cl.exec(rec) {
			return
		}
		if gap != nil {
			gap()
		}
	}
}

// ---- messages -------------------------------------------------------------------

type ackPolicy int

const (
	ackDone ackPolicy = iota
	ackError
	ackNever
	ackLate
)

type msgRec struct {
	key          uint64
	seq          int // per publishing goroutine
	who          int
	data, custom []byte
	topic        string
	policy       ackPolicy
	errText      string
	delay        time.Duration // of the ack
	amo          bool          // at most once

	received  int
	recvAt    time.Time
	acking    bool // the receiver called Done or Error (or is about to)
	ackAt     time.Time
	order     int
	published bool
	pubErr    error
	pubStart  time.Time
	pubEnd    time.Time
}

// publisher drives messages from s to q and judges them.
type publisher struct {
	c    *C
	s, q geminio.Stream
	mu   vsync.Quiet
	recs map[uint64]*msgRec
	n    int // received
	last map[int]int
	wg   sync.WaitGroup // late acks
	sem  chan struct{}  // bounds what is published and not received
	// lossy: the stream may end, so errors need no explanation
	lossy bool
}

func (c *C) publisher(s, q geminio.Stream) *publisher {
	return &publisher{c: c, s: s, q: q, recs: map[uint64]*msgRec{}, last: map[int]int{}, sem: make(chan struct{}, 30)}
}

func (p *publisher) newRec(who, seq, max int) *msgRec {
	c := p.c
	r := &msgRec{key: c.U64(), who: who, seq: seq}
	r.data = append(u64b(r.key), c.Bytes(c.Size(max))...)
	switch c.N(4) {
	case 0:
		r.custom = c.Bytes(c.Size(200))
	case 1:
		r.custom = u64b(r.key)
		r.data = nil
	}
	if c.Bool() {
		r.topic = texts[c.N(len(texts))]
	}
	p.mu.Lock()
	p.recs[r.key] = r
	p.mu.Unlock()
	return r
}

func (p *publisher) message(r *msgRec) geminio.Message {
	o := options.NewMessage()
	viaOpt := p.c.Bool()
	if viaOpt {
		if r.custom != nil {
			o.SetCustom(r.custom)
		}
		if r.topic != "" {
			o.SetTopic(r.topic)
		}
	}
	if r.amo {
		o.SetCnss(options.CnssAtMostOnce)
	} else if p.c.Bool() {
		o.SetCnss(options.CnssAtLeastOnce)
	}
	m := p.s.NewMessage(r.data, given(p.c, o)...)
	if !viaOpt {
		if r.custom != nil {
			m.SetCustom(r.custom)
		}
		if r.topic != "" {
			m.SetTopic(r.topic)
		}
	}
	return m
}

// send publishes and waits for the outcome.
func (p *publisher) send(r *msgRec) error {
	m := p.message(r)
	ctx, cancel, d := p.c.ample()
	defer cancel()
	var opts []*options.PublishOptions
	if d > 0 {
		if p.c.Bool() {
			m.SetTimeout(d)
		} else {
			o := options.Publish()
			o.SetTimeout(d)
			opts = given(p.c, o)
		}
	}
	if r.amo || p.c.Chance(75) {
		return p.s.Publish(ctx, m, opts...)
	}
	x, err := p.s.PublishAsync(ctx, m, nil, opts...)
	if err != nil {
		return err
	}
	return (<-x.Done).Error
}

// recvOne receives one message, verifies it and acknowledges by its policy.
func (p *publisher) recvOne(ctx context.Context) (rec *msgRec, err error) {
	c := p.c
	m, err := p.q.Receive(ctx)
	if err != nil {
		return nil, err
	}
	if m == nil {
		c.Violate("msg-nil", "Receive returned neither message nor error")
		return nil, io.ErrUnexpectedEOF
	}
	var key uint64
	if d := m.Data(); len(d) >= 8 {
		key = binary.BigEndian.Uint64(d)
	} else if d := m.Custom(); len(d) >= 8 {
		key = binary.BigEndian.Uint64(d)
	}
	p.mu.Lock()
	rec = p.recs[key]
	if rec == nil {
		p.mu.Unlock()
		c.Violate("msg-foreign", "stream %d received a message nobody published to it: data %s custom %s topic %q",
			p.q.StreamID(), short(m.Data()), short(m.Custom()), m.Topic())
		return nil, io.ErrUnexpectedEOF
	}
	rec.received++
	rec.recvAt = time.Now()
	rec.order = p.n
	p.n++
	if rec.received > 1 {
		c.Violate("msg-twice", "message %d of publisher %d received %d times", rec.seq, rec.who, rec.received)
	}
	if rec.seq >= 0 {
		if l, ok := p.last[rec.who]; ok && l >= rec.seq && rec.received == 1 {
			c.Violate("msg-order", "publisher %d published %d before %d, they were received the other way round", rec.who, rec.seq, l)
		}
		p.last[rec.who] = rec.seq
	}
	p.mu.Unlock()
	select {
	case <-p.sem:
	default:
	}
	if !bytes.Equal(m.Data(), rec.data) || !bytes.Equal(m.Custom(), rec.custom) || m.Topic() != rec.topic {
		c.Violate("msg-content", "received data %s custom %s topic %q, published %s %s %q", short(m.Data()), short(m.Custom()), m.Topic(),
			short(rec.data), short(rec.custom), rec.topic)
	}
	if m.StreamID() != p.q.StreamID() || m.ClientID() != p.q.ClientID() {
		c.Violate("msg-content", "message on stream %d client %d says stream %d client %d", p.q.StreamID(), p.q.ClientID(), m.StreamID(), m.ClientID())
	}
	c.Ev("msg_received", rec.who, rec.seq)
	ack := func() {
		now := time.Now()
		p.mu.Lock()
		rec.acking = true
		rec.ackAt = now
		p.mu.Unlock()
		var err error
		if rec.policy == ackError {
			err = m.Error(errors.New(rec.errText))
		} else {
			err = m.Done()
		}
		if err != nil && !p.lossy {
			c.Violate("msg-ack", "acknowledging failed: %v", err)
		}
		c.Ev("msg_acked", int(rec.policy))
	}
	if rec.amo && c.Bool() {
		return rec, nil
	}
	switch rec.policy {
	case ackNever:
	case ackLate:
		p.wg.Add(1)
		go func() {
			defer p.wg.Done()
			time.Sleep(rec.delay)
			ack()
		}()
	default:
		ack()
	}
	return rec, nil
}

// receive receives n messages; it now and then gives up early and retries,
// which must lose nothing.
func (p *publisher) receive(n int, gap func()) {
	for i := 0; i < n; {
		ctx, cancel := bg, context.CancelFunc(func() {})
		if p.c.Chance(10) {
			ctx, cancel = context.WithTimeout(bg, time.Duration(1+p.c.N(20))*time.Millisecond)
			if p.c.Chance(40) { // which has ended already, maybe with a message there
				time.Sleep(time.Duration(p.c.N(30)) * time.Millisecond)
				cancel()
			}
		}
		_, err := p.recvOne(ctx)
		if err != nil {
			if ctx != bg && err == ctx.Err() {
				cancel()
				continue
			}
			cancel()
			if !p.lossy {
				p.c.Violate("msg-recv", "Receive failed after %d of %d: %v", i, n, err)
			}
			return
		}
		cancel()
		i++
		if gap != nil {
			gap()
		}
	}
	p.wg.Wait()
}

// check judges the result of a publish that had no reason to end but its ack.
func (p *publisher) check(r *msgRec, err error) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	r.published, r.pubErr, r.pubEnd = true, err, time.Now()
	switch {
	case err == nil && r.amo:
	case err == nil && r.policy == ackError:
		p.c.Violate("pub-rejected", "Publish returned nil although the receiver rejected the message with %q", r.errText)
		return false
	case err == nil && (r.received != 1 || !r.acking):
		p.c.Violate("pub-unacked", "Publish returned nil, but the message was received %d times and acknowledged: %v", r.received, r.acking)
		return false
	case err != nil && p.lossy:
	case err != nil && r.policy == ackError:
		if err.Error() != r.errText {
			p.c.Violate("pub-errtext", "Publish returned %q, the receiver rejected with %q", err, r.errText)
			return false
		}
		if !r.acking {
			p.c.Violate("pub-unacked", "Publish returned the rejection before it was made")
			return false
		}
	case err != nil:
		p.c.Violate("pub-err", "Publish failed: %v", err)
		return false
	}
	p.c.Ev("msg_published", r.who, r.seq, err == nil)
	return true
}

// publish publishes n messages one after another, each acknowledged.
func (p *publisher) publish(n, max int, gap func()) { p.publishAs(0, n, max, 0, gap) }

func (p *publisher) publishAs(who, n, max int, errPct int, gap func()) {
	for i := 0; i < n; i++ {
		r := p.newRec(who, i, max)
		if errPct > 0 && p.c.Chance(errPct) {
			r.policy, r.errText = ackError, fmt.Sprintf("rejected %x", r.key)
		} else if errPct > 0 && p.c.Chance(30) {
			r.policy, r.delay = ackLate, time.Duration(p.c.N(100))*time.Millisecond
		}
		p.sem <- struct{}{}
		err := p.send(r)
		if !p.check(r, err) {
			return
		}
		if gap != nil {
			gap()
		}
	}
}

func matchRe(p, m string) bool { return regexp.MustCompile(p).MatchString(m) }
