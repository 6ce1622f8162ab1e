package verif

import (
	"context"
	"errors"
	"math"
	"sync/atomic"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
)

// Deadlines of all kinds a context may have: far beyond what a packet can
// carry, long past, in zones of any offset.

func (c *C) farDeadline() (d time.Time, past bool) {
	zone := []*time.Location{time.UTC, time.Local, time.FixedZone("a", 30), time.FixedZone("b", -4521), time.FixedZone("c", 14*3600), time.FixedZone("d", 25*3600), time.FixedZone("e", -86399)}[c.N(7)]
	switch c.N(8) {
	case 0:
		d = time.Date(20000, 1, 2, 3, 4, 5, 6, time.UTC)
	case 1:
		d = time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC)
	case 2:
		d = time.Unix(1<<40, 0)
	case 3:
		d = time.Now().Add(math.MaxInt64)
	case 4:
		d = time.Now().Add(time.Duration(1+c.N(1000)) * time.Hour)
	case 5:
		d, past = time.Unix(-int64(c.Range(1, 1<<40)), 0), true
	case 6:
		d, past = time.Now().Add(-time.Duration(1+c.N(1000))*time.Hour), true
	default:
		d = time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	return d.In(zone), past
}

// farWorks: the End goes on working.
func (c *C) farWorks(ps []pair, d time.Time) bool {
	for _, p := range ps {
		var rsp geminio.Response
		var err error
		if !c.Do("a call afterwards", func() { rsp, err = p.o.Call(bg, "echo", p.o.NewRequest([]byte("after"))) }) {
			return false
		}
		if err != nil || string(rsp.Data()) != "after" {
			c.Violate("far-after", "after an operation with the context deadline %v, a plain call on stream %d returns %v", d, p.o.StreamID(), err)
			return false
		}
	}
	return true
}

func (c *C) farPairs() []pair {
	e := c.NewEnv(EnvOpt{})
	if e == nil {
		return nil
	}
	ps, ok := e.Pairs(2)
	if !ok {
		return nil
	}
	for _, p := range ps {
		if err := p.a.Register(bg, "echo", echoRPC); err != nil {
			c.Violate("setup", "Register: %v", err)
			return nil
		}
	}
	return ps
}

func rpcFar(c *C) {
	ps := c.farPairs()
	if ps == nil {
		return
	}
	p := ps[c.N(len(ps))]
	type seen struct {
		d  time.Time
		ok bool
	}
	got := make(chan seen, 8)
	if err := p.a.Register(bg, "far", func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		d, ok := ctx.Deadline()
		got <- seen{d, ok}
		rsp.SetData(req.Data())
	}); err != nil {
		c.Violate("setup", "Register: %v", err)
		return
	}
	for i := c.Range(2, 6); i > 0; i-- {
		d, past := c.farDeadline()
		ctx, cancel := context.WithDeadline(bg, d)
		var rsp geminio.Response
		var err error
		async := c.Bool()
		ok := c.Do("a call", func() {
			if !async {
				rsp, err = p.o.Call(ctx, "far", p.o.NewRequest([]byte("x")))
				return
			}
			var call *geminio.Call
			if call, err = p.o.CallAsync(ctx, "far", p.o.NewRequest([]byte("x")), nil); err == nil {
				call = <-call.Done
				rsp, err = call.Response, call.Error
			}
		})
		cancel()
		if !ok {
			return
		}
		c.Ev("far_call", d.Year(), past, async)
		if past {
			// the answer may be as quick as the one who watches the context
			if err != nil && !errors.Is(err, context.DeadlineExceeded) {
				c.Violate("far-past", "a call (async %v) whose context's deadline was %v returns %v", async, d, err)
				return
			}
			c.Settle()
			for len(got) > 0 {
				<-got
			}
		} else {
			if err != nil {
				c.Violate("far-err", "a call (async %v) with the context deadline %v returns %v", async, d, err)
				return
			}
			_ = rsp
			s := <-got
			// years beyond 9999 may be carried as the last one possible, or not at all
			if d.UTC().Year() <= 9999 && (!s.ok || !s.d.Equal(d)) || s.ok && d.UTC().Year() > 9999 && s.d.UTC().Year() < 9999 {
				c.Violate("far-deadline", "the caller's context deadline is %v, the handler's %v (%v)", d, s.d, s.ok)
				return
			}
		}
		if !c.farWorks(ps, d) {
			return
		}
	}
}

func msgFar(c *C) {
	ps := c.farPairs()
	if ps == nil {
		return
	}
	p := ps[c.N(len(ps))]
	var received atomic.Int32
	go func() {
		for {
			m, err := p.a.Receive(bg)
			if err != nil {
				return
			}
			received.Add(1)
			m.Done()
		}
	}()
	for i := c.Range(2, 6); i > 0; i-- {
		d, past := c.farDeadline()
		ctx, cancel := context.WithDeadline(bg, d)
		var err error
		async, once := c.Bool(), c.Chance(25)
		o := options.NewMessage()
		if once {
			o.SetCnss(options.CnssAtMostOnce)
		}
		before := received.Load()
		ok := c.Do("a publish", func() {
			if !async {
				err = p.o.Publish(ctx, p.o.NewMessage([]byte("x"), o))
				return
			}
			var pub *geminio.Publish
			if pub, err = p.o.PublishAsync(ctx, p.o.NewMessage([]byte("x"), o), nil); err == nil && !once {
				pub = <-pub.Done
				err = pub.Error
			}
		})
		cancel()
		if !ok {
			return
		}
		c.Settle()
		c.Ev("far_publish", d.Year(), past, async, once)
		n := received.Load() - before
		switch {
		case once && (err != nil || n > 1):
			c.Violate("far-once", "an at-most-once publish (async %v) with the context deadline %v returns %v, received %d times", async, d, err, n)
			return
		case once:
		case past && err != nil && !errors.Is(err, context.DeadlineExceeded), past && err == nil && n != 1:
			c.Violate("far-past", "a publish (async %v) whose context's deadline was %v returns %v", async, d, err)
			return
		case !past && (err != nil || n != 1):
			c.Violate("far-err", "a publish (async %v) with the context deadline %v returns %v, received %d times", async, d, err, n)
			return
		}
		if !c.farWorks(ps, d) {
			return
		}
	}
}

// Probes of a known finding: texts which aren't UTF-8 (Go strings may be)
// arrive altered, packets carry them as JSON strings.

const rawText = "a\xff\xfe\xc3b"

func textTopic(c *C) {
	ps := c.farPairs()
	if ps == nil {
		return
	}
	o := options.NewMessage()
	o.SetTopic(rawText)
	var topic string
	go func() {
		if m, err := ps[0].a.Receive(bg); err == nil {
			topic = m.Topic()
			m.Error(errors.New(rawText))
		}
	}()
	var err error
	if !c.Do("Publish", func() { err = ps[0].o.Publish(bg, ps[0].o.NewMessage([]byte("x"), o)) }) {
		return
	}
	c.Ev("text_probe")
	if err == nil {
		c.Violate("text-lost", "a rejected message's Publish returns nil")
		return
	}
	if topic != rawText || err.Error() != rawText {
		c.Violate("text-bytes", "the topic %q arrived as %q, the error %q as %q", rawText, topic, rawText, err)
	}
}

func textError(c *C) {
	ps := c.farPairs()
	if ps == nil {
		return
	}
	if err := ps[0].a.Register(bg, "fail", func(_ context.Context, _ geminio.Request, rsp geminio.Response) {
		rsp.SetError(errors.New(rawText))
	}); err != nil {
		c.Violate("setup", "Register: %v", err)
		return
	}
	var err error
	if !c.Do("Call", func() { _, err = ps[0].o.Call(bg, "fail", ps[0].o.NewRequest([]byte("x"))) }) {
		return
	}
	c.Ev("text_probe")
	if err == nil {
		c.Violate("text-lost", "a failed call returns no error")
	} else if err.Error() != rawText {
		c.Violate("text-bytes", "the handler's error %q arrived as %q", rawText, err)
	}
}

func textPeer(c *C) {
	e := c.NewEnv(EnvOpt{})
	if e == nil {
		return
	}
	o := options.OpenStream()
	o.SetPeer(rawText)
	p, ok := e.OpenPair(0, o)
	if !ok {
		return
	}
	c.Ev("text_probe")
	if p.o.Peer() != rawText || p.a.Peer() != rawText {
		c.Violate("text-bytes", "a stream opened for the peer %q reports %q and %q", rawText, p.o.Peer(), p.a.Peer())
	}
}

func textPacket(c *C) {
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Even))
	m := pf.NewMessagePacket([]byte("k"), []byte("v"))
	m.Data.Topic = rawText
	b, err := m.Encode()
	if err != nil {
		c.Violate("text-encode", "%v", err)
		return
	}
	x, _, err := packet.Decode(b)
	if err != nil {
		c.Violate("text-decode", "%v", err)
		return
	}
	c.Ev("text_probe")
	if got := x.(*packet.MessagePacket).Data.Topic; got != rawText {
		c.Violate("text-bytes", "the topic %q is decoded as %q", rawText, got)
	}
}
