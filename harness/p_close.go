package verif

import (
	"context"
	"encoding/binary"
	"errors"
	"io"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"

	"verif/vsync"
)

func init() {
	register(&Prop{ID: "C11",
		Rule: "A case blocks a drawn mix of operations on the Ends and up to 4 extra streams (reads, receives, calls into handlers that do not return, publishes nobody acknowledges, floods of writes/messages/opens nobody takes, accepts, registrations, on held or slow transports) and then ends the connection in a drawn way and instant: Close by either or both sides from several goroutines, broken or cut transport, closed net.Conn, silent peer, or a hand-made one that stays alive and takes part in the closing of streams and End only halfway. Every operation must return within the bound, those that cannot have succeeded with an error, Close itself too, and afterwards every operation must fail at once.",
		Scens: []*Scen{
			{Name: "blocked", Mode: Bubble, Quick: 240, Thorough: 12000, Batch: 10, Watch: 20, Fn: func(c *C) { endBlocked(c, false) }},
			{Name: "racing", Mode: Bubble, Quick: 160, Thorough: 9000, Batch: 8, Watch: 40, Fn: func(c *C) { endRacing(c, false) }},
			{Name: "stuck", Mode: Bubble, Quick: 80, Thorough: 3000, Batch: 10, Watch: 20, NoReal: true, Fn: endStuck},
			{Name: "halfway", Mode: Bubble, Quick: 80, Thorough: 3000, Batch: 10, Watch: 20, NoReal: true, Fn: endHalfway},
			{Name: "wall", Mode: Real, Quick: 16, Thorough: 400, Batch: 4, Fn: func(c *C) { endRacing(c, false) }},
			{Name: "unreceived", Mode: Bubble, Quick: 1, Thorough: 3, Known: "unreceived", NoReal: true, Fn: endUnreceived},
		}})
}

// ---- ways for a connection to end ------------------------------------------------

type ending struct {
	name   string
	do     func()
	closes []func() error // the End.Close calls it makes
	slow   bool           // only found out by the heartbeat
}

func (c *C) ending(e *Env) *ending {
	n := 13
	if c.Mode == Real {
		n = 7
	}
	x := &ending{}
	closeBy := func(ends ...geminio.End) {
		for _, en := range ends {
			x.closes = append(x.closes, en.Close)
		}
	}
	k := c.N(n)
	if e.Link == nil && (k == 4 || k == 5) {
		k = 6
	}
	switch k {
	case 0:
		x.name = "client close"
		closeBy(e.Cli)
	case 1:
		x.name = "server close"
		closeBy(e.Srv)
	case 2:
		x.name = "both close"
		closeBy(e.Cli, e.Srv)
	case 3:
		x.name = "many closes"
		for i := c.Range(2, 3); i > 0; i-- {
			closeBy(e.Cli, e.Srv)
		}
	case 4:
		x.name = "break"
		x.do = func() { e.Link.Break(false) }
	case 5:
		x.name = "reset"
		x.do = func() { e.Link.Break(true) }
	case 6:
		x.name = "net.Conn closed"
		cn := e.cn
		if c.Bool() {
			cn = e.sn
		}
		x.do = func() { cn.Close() }
	case 7:
		x.name, x.slow = "silence", true
		x.do = func() { e.Link.Blackhole(true, true) }
	case 8:
		x.name, x.slow = "client silent", true
		x.do = func() { e.Link.Lose(true, false); e.Link.Hold(false, false) }
	case 9:
		x.name, x.slow = "frozen", true
		x.do = func() { e.Link.Hold(true, true) }
	case 10: // frozen, then closed
		x.name, x.slow = "frozen+close", true
		x.do = func() { e.Link.Hold(c.Bool(), c.Bool()) }
		closeBy(e.End(c.N(2)))
	case 11:
		x.name, x.slow = "silence+close", true
		x.do = func() { e.Link.Blackhole(true, c.Bool()) }
		closeBy(e.End(c.N(2)))
	case 12: // after some more bytes
		x.name, x.slow = "cut", true // heartbeats bring the bytes at last
		a, m, d := c.Bool(), c.Range(0, 300), c.Bool()
		if c.Bool() {
			closeBy(e.End(c.N(2)))
		} else {
			m %= 60 // idle sides send 14 bytes each 20s
		}
		x.do = func() {
			e.Link.Hold(false, false)
			e.Link.CutAfter(a, m, d)
		}
	}
	return x
}

// run carries the ending out and waits for its Close calls.
func (x *ending) run(c *C) bool {
	c.Ev("ending", x.name)
	if x.do != nil {
		x.do()
	}
	var fns []func()
	for _, f := range x.closes {
		fns = append(fns, func() { f() })
	}
	if len(fns) == 0 {
		return true
	}
	t0 := time.Now()
	var wg sync.WaitGroup
	for _, f := range fns {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	if !c.Wait(2*time.Minute, "End.Close ("+x.name+")", done) {
		return false
	}
	c.Ev("closed_in", int(time.Since(t0)/time.Second))
	return true
}

// ---- pending operations -----------------------------------------------------------

type pend struct {
	what string
	must bool // cannot have succeeded
	ok   atomic.Bool
	done chan struct{}
}

type pends struct {
	c   *C
	mu  vsync.Quiet
	ps  []*pend
	rel chan struct{} // lets blocked handlers go
}

func (c *C) newPends() *pends {
	p := &pends{c: c, rel: make(chan struct{})}
	c.Cleanup(p.release)
	return p
}

func (p *pends) start(what string, must bool, f func() error) {
	x := &pend{what: what, must: must, done: make(chan struct{})}
	p.mu.Lock()
	p.ps = append(p.ps, x)
	p.mu.Unlock()
	go func() {
		defer close(x.done)
		if f() == nil {
			x.ok.Store(true)
		}
	}()
}

// release lets the handlers return.
func (p *pends) release() {
	p.mu.Lock()
	defer p.mu.Unlock()
	close(p.rel)
	p.rel = make(chan struct{})
}

// wait judges all: they must return within d.
func (p *pends) wait(d time.Duration, why string) bool {
	p.mu.Lock()
	ps := append([]*pend(nil), p.ps...)
	p.mu.Unlock()
	t := time.NewTimer(d)
	defer t.Stop()
	for _, x := range ps {
		select {
		case <-x.done:
		case <-t.C:
			p.c.ViolateTimed("blocked:"+x.what, "%s still blocked %v after %s\n%s", x.what, d, why, stacks())
			return false
		}
		if x.must && x.ok.Load() {
			p.c.Violate("succeeded:"+x.what, "%s returned no error although nothing could satisfy it (%s)", x.what, why)
			return false
		}
		p.c.Ev("unblocked", x.what, x.ok.Load())
	}
	return true
}

func (p *pends) block(ctx context.Context, req geminio.Request, rsp geminio.Response) {
	p.mu.Lock()
	r := p.rel
	p.mu.Unlock()
	<-r
}

// onStream blocks a drawn mix on one side of a stream. quiet: the other side
// sends nothing on it.
func (p *pends) onStream(s geminio.Stream, quiet bool, flood bool) {
	c := p.c
	if c.Chance(60) {
		p.start("Read", quiet, func() error { _, err := s.Read(make([]byte, 100)); return err })
	}
	if c.Chance(60) {
		for i := c.Pick(1, 1, 3); i > 0; i-- {
			p.start("Receive", quiet, func() error { _, err := s.Receive(bg); return err })
		}
	}
	for i := c.N(4); i > 0; i-- {
		var d time.Duration
		if c.Chance(30) {
			d = time.Hour
		}
		o := options.Call()
		o.SetTimeout(d)
		if c.Bool() {
			p.start("Call", true, func() error { _, err := s.Call(bg, "block", s.NewRequest([]byte("x")), o); return err })
		} else {
			p.start("CallAsync", true, func() error {
				x, err := s.CallAsync(bg, "block", s.NewRequest([]byte("x")), nil, o)
				if err == nil {
					err = (<-x.Done).Error
				}
				return err
			})
		}
	}
	if flood {
		for i := c.N(3); i > 0; i-- {
			if c.Bool() {
				p.start("Publish", true, func() error { return s.Publish(bg, s.NewMessage([]byte("m"))) })
			} else {
				p.start("PublishAsync", true, func() error {
					x, err := s.PublishAsync(bg, s.NewMessage([]byte("m")), nil)
					if err == nil {
						err = (<-x.Done).Error
					}
					return err
				})
			}
		}
		if c.Chance(40) { // more than fits anywhere
			n, sz := c.Pick(10, 100, 400), c.Pick(1, 100, 4000)
			p.start("writes", false, func() error {
				for i := 0; i < n; i++ {
					if _, err := s.Write(make([]byte, sz)); err != nil {
						return err
					}
				}
				return nil
			})
		}
		if c.Chance(40) {
			n, amo := c.Pick(5, 15, 25), c.Bool() // more stall the End: see the probe "unreceived"
			p.start("messages", false, func() error {
				o := options.NewMessage()
				if amo {
					o.SetCnss(options.CnssAtMostOnce)
				}
				var last *geminio.Publish
				for i := 0; i < n; i++ {
					x, err := s.PublishAsync(bg, s.NewMessage([]byte("m"), o), nil)
					if err != nil {
						return err
					}
					last = x // nil for at-most-once
				}
				if amo {
					return nil
				}
				return (<-last.Done).Error
			})
		}
	}
	if c.Chance(30) {
		p.start("registrations", false, func() error {
			for i := 0; i < 20; i++ {
				if err := s.Register(bg, "r"+itoa(uint64(i)), p.block); err != nil {
					return err
				}
			}
			return nil
		})
	}
}

// onEnd blocks accepts and opens.
func (p *pends) onEnd(en geminio.End, opens int, quiet bool) {
	c := p.c
	for i := c.N(3); i > 0; i-- {
		if c.Bool() {
			p.start("AcceptStream", quiet, func() error { _, err := en.AcceptStream(); return err })
		} else {
			p.start("Accept", quiet, func() error { _, err := en.Accept(); return err })
		}
	}
	for i := opens; i > 0; i-- {
		p.start("OpenStream", false, func() error { _, err := en.OpenStream(); return err })
	}
}

// emptied reads and receives what is left until an error comes.
func (c *C) emptied(what string, s geminio.Stream) bool {
	return c.All("draining "+what,
		func() {
			b := make([]byte, 4096)
			for {
				if _, err := s.Read(b); err != nil {
					if errors.Is(err, os.ErrDeadlineExceeded) {
						c.Violate("dead-read", "Read on %s says %v", what, err)
					}
					return
				}
			}
		},
		func() {
			for {
				if _, err := s.Receive(bg); err != nil {
					return
				}
			}
		})
}

// deadEnd verifies that the End's own operations fail at once.
func (c *C) deadEnd(what string, en geminio.End) bool {
	ok := true
	try := func(op string, f func() error) {
		if !ok {
			return
		}
		var err error
		if !c.DoIn(time.Minute, op+" on "+what, func() { err = f() }) {
			ok = false
			return
		}
		if err == nil {
			c.Violate("dead-op", "%s on %s succeeded", op, what)
			ok = false
		}
		c.Ev("dead_op", op)
	}
	accept := func(op string, f func() error) {
		// streams which came in before may still be handed out
		try(op, func() error {
			for i := 0; i < 2000; i++ {
				if err := f(); err != nil {
					return err
				}
			}
			return nil
		})
	}
	accept("AcceptStream", func() error { _, err := en.AcceptStream(); return err })
	accept("Accept", func() error { _, err := en.Accept(); return err })
	try("OpenStream", func() error { _, err := en.OpenStream(); return err })
	try("ListStreams", func() error { en.ListStreams(); return io.EOF })
	try("Close", func() error { en.Close(); return io.EOF })
	return ok
}

// afterEnd verifies both sides once the connection is gone.
func (c *C) afterEnd(e *Env, ps []pair, x *ending) {
	settle := 3 * time.Minute
	if c.Mode == Real {
		settle = 2 * time.Second
	}
	time.Sleep(settle)
	for side := 0; side < 2; side++ {
		name := []string{"client", "server"}[side] + " after " + x.name
		for _, p := range ps {
			if !c.emptied("the "+name, p.at(side)) || !c.deadOps("a stream of the "+name, p.at(side)) {
				return
			}
		}
		if !c.deadEnd("the "+name, e.End(side)) {
			return
		}
	}
}

// ---- C11 ----------------------------------------------------------------------

func endBlocked(c *C, clean bool) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(4))
	if !ok {
		return
	}
	p := c.newPends()
	flood := c.Chance(60)
	for _, x := range ps {
		for side := 0; side < 2; side++ {
			s := x.at(side)
			if !c.Do("Register", func() {
				if err := s.Register(bg, "block", p.block); err != nil {
					c.Violate("register", "Register: %v", err)
				}
			}) {
				return
			}
		}
	}
	if e.Link != nil && c.Chance(20) { // nothing gets through from now on
		e.Link.Hold(c.Bool(), c.Bool())
	}
	opens := 0
	if flood {
		opens = c.Pick(0, 2, 8, 60)
	}
	for side := 0; side < 2; side++ {
		for _, x := range ps {
			p.onStream(x.at(side), !flood, flood)
		}
		p.onEnd(e.End(side), opens, opens == 0)
	}
	c.sleepUpTo(300)
	x := c.ending(e)
	t0 := time.Now()
	if !x.run(c) {
		return
	}
	bound := 4 * time.Minute
	if !p.wait(bound, x.name) {
		return
	}
	c.Sample("%s with %d operations blocked, all back after %v", x.name, len(p.ps), time.Since(t0))
	c.afterEnd(e, ps, x)
	if clean {
		c.closedTransports(e, x.name)
	}
}

// endRacing lets loops of operations run into the ending.
func endRacing(c *C, clean bool) {
	o := c.Stock()
	e := c.NewEnv(o)
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(3))
	if !ok {
		return
	}
	p := c.newPends()

	loop := func(what string, f func() error) {
		var gap func()
		if c.Mode == Bubble {
			us, n := c.Pick(20, 300, 5000), 0
			gap = func() {
				if n++; n > 300 { // until a silent peer is noticed
					time.Sleep(time.Second)
				}
				time.Sleep(time.Duration(1+c.N(us)) * time.Microsecond)
			}
		} else {
			gap = func() { time.Sleep(time.Duration(c.N(300)) * time.Microsecond) }
		}
		p.start(what, true, func() error {
			for {
				if err := f(); err != nil {
					return err
				}
				gap()
			}
		})
	}

	for _, x := range ps {
		for side := 0; side < 2; side++ {
			s := x.at(side)
			q := x.at(1 - side)
			if !c.Do("Register", func() {
				q.Register(bg, "echo", func(_ context.Context, r geminio.Request, w geminio.Response) { w.SetData(r.Data()) })
			}) {
				return
			}
			if c.Chance(70) {
				loop("Call", func() error { _, err := s.Call(bg, "echo", s.NewRequest([]byte("x"))); return err })
			}
			if c.Chance(50) {
				ch := make(chan *geminio.Call, 16)
				loop("CallAsync", func() error {
					_, err := s.CallAsync(bg, "echo", s.NewRequest([]byte("x")), ch)
					if err != nil {
						return err
					}
					return (<-ch).Error
				})
			}
			if c.Chance(70) {
				loop("Publish", func() error { return s.Publish(bg, s.NewMessage([]byte("m"))) })
			}
			loop("Receive", func() error {
				m, err := q.Receive(bg)
				if err == nil {
					m.Done()
				}
				return err
			})
			if c.Chance(70) {
				loop("Write", func() error { _, err := s.Write([]byte("abc")); return err })
			}
			b := make([]byte, 64)
			p.start("Read", true, func() error {
				for {
					if _, err := q.Read(b); err != nil {
						return err
					}
				}
			})
			if c.Chance(40) {
				i := 0
				loop("Register", func() error { i++; return s.Register(bg, "r"+itoa(uint64(i%50)), p.block) })
			}
			if c.Chance(30) {
				loop("SetDeadline", func() error {
					s.SetReadDeadline(time.Now().Add(time.Hour))
					s.SetWriteDeadline(time.Now().Add(time.Hour))
					_, err := s.Write([]byte("d"))
					return err
				})
			}
		}
	}
	for side := 0; side < 2; side++ {
		en := e.End(side)
		if c.Chance(60) {
			loop("OpenStream", func() error {
				s, err := en.OpenStream()
				if err == nil {
					s.Write([]byte("hello"))
					s.Close()
				}
				return err
			})
		}
		loop("AcceptStream", func() error {
			s, err := e.End(1 - side).AcceptStream()
			if err == nil && c.Bool() {
				s.Close()
			}
			return err
		})
		if c.Chance(30) {
			loop("ListStreams", func() error {
				en.ListStreams()
				_, err := en.Write([]byte("l"))
				return err
			})
		}
	}
	c.sleepUpTo(200)
	x := c.ending(e)
	if !x.run(c) {
		return
	}
	bound := 4 * time.Minute
	if !p.wait(bound, x.name) {
		return
	}
	c.afterEnd(e, ps, x)
	if clean {
		c.closedTransports(e, x.name)
	}
}

// endStuck closes an End whose peer takes nothing any more, with all queues
// full.
func endStuck(c *C) {
	o := c.Stock()
	o.Link = LinkOpt{Cap: c.Range(1, 5000)}
	e := c.NewEnv(o)
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(4))
	if !ok {
		return
	}
	side := c.N(2)
	both := side == 0 && c.Chance(30)
	e.Link.Hold(side == 0 || both, side == 1 || both)
	p := c.newPends()
	for _, x := range ps {
		s := x.at(side)
		n, sz := c.Pick(5, 100, 300), c.Pick(1, 100, 4000)
		for i := c.Range(1, 3); i > 0; i-- {
			p.start("writes", false, func() error {
				for i := 0; i < n; i++ {
					if _, err := s.Write(make([]byte, sz)); err != nil {
						return err
					}
				}
				return nil
			})
		}
		if c.Bool() {
			p.start("Call", true, func() error { _, err := s.Call(bg, "block", s.NewRequest([]byte("x"))); return err })
		}
	}
	for i := c.N(5); i > 0; i-- {
		p.start("OpenStream", true, func() error { _, err := e.End(side).OpenStream(); return err })
	}
	c.sleepUpTo(100)
	x := &ending{name: "close of a stuck end", closes: []func() error{e.End(side).Close}}
	if c.Chance(30) { // a stream first
		s := ps[c.N(len(ps))].at(side)
		if !c.Do("Stream.Close", func() { s.Close() }) {
			return
		}
	}
	if !x.run(c) || !p.wait(4*time.Minute, x.name) {
		return
	}
	if side == 0 && !both {
		// the peer still writes to the closed transport and so finds out
		e.Link.Hold(false, false)
	}
	c.afterEnd(e, ps, x)
}

// endHalfway closes streams and the End against a hand-made peer which stays
// alive and takes part in the closing only as far as drawn.
func endHalfway(c *C) {
	l := c.NewLink(LinkOpt{})
	asClient := c.Bool() // the peer
	me, mine := l.A, l.B
	if !asClient {
		me, mine = l.B, l.A
	}
	how := func() func(func(byte), byte, byte) {
		acks, owns := c.Chance(60), c.Chance(30)
		ad, od := time.Duration(c.Pick(0, 0, 5, 5000, 29999))*time.Millisecond, time.Duration(c.Pick(0, 5, 20000))*time.Millisecond
		return func(send func(byte), ack, own byte) {
			go func() {
				time.Sleep(ad)
				if acks {
					send(ack)
				}
				time.Sleep(od)
				if owns {
					send(own)
				}
			}()
		}
	}
	stHow, cnHow := how(), how()
	lock := make(chan struct{}, 1)
	write := func(b []byte) {
		lock <- struct{}{}
		me.Write(b)
		<-lock
	}
	ready := make(chan struct{})
	go func() {
		var in []byte
		buf := make([]byte, 512)
		next := uint64(100)
		if asClient {
			write(mkConn(1, 0, 1, true, []byte("half")))
		}
		for {
			n, err := me.Read(buf)
			if err != nil {
				return
			}
			in = append(in, buf[:n]...)
			for len(in) >= 14 {
				k := int(binary.BigEndian.Uint32(in[10:14])) + 14
				if len(in) < k {
					break
				}
				p := WirePkt{Type: in[1], ID: binary.BigEndian.Uint64(in[2:10]), Payload: append([]byte(nil), in[14:k]...)}
				in = in[k:]
				switch p.Type {
				case tConn:
					write(mkConnAck(p.ID, 7, ""))
					close(ready)
				case tConnAck:
					close(ready)
				case tHB:
					write(rawPkt(tHBAck, p.ID, nil))
				case tSession:
					next += 2
					write(mkSessionAck(p.ID, binary.BigEndian.Uint64(p.Payload[2:10]), next, ""))
				case tDismiss:
					stHow(func(t byte) {
						c.Ev("halfway_stream", t)
						if t == tDismissAck {
							write(rawPkt(t, p.ID, append(u64b(p.Session()), "{}"...)))
						} else {
							write(mkDismiss(9000+p.ID, p.Session()))
						}
					}, tDismissAck, tDismiss)
				case tDisConn:
					cnHow(func(t byte) {
						c.Ev("halfway_conn", t)
						if t == tDisConnAck {
							write(mkDisConnAck(p.ID))
						} else {
							write(rawPkt(tDisConn, 9999, nil))
						}
					}, tDisConnAck, tDisConn)
				}
			}
		}
	}()
	if asClient {
		stop := make(chan struct{})
		c.Cleanup(func() { close(stop) })
		go func() {
			<-ready
			for id := uint64(20001); ; id += 2 {
				select {
				case <-stop:
					return
				case <-time.After(15 * time.Second):
				}
				write(rawPkt(tHB, id, nil))
			}
		}()
	}
	var en geminio.End
	var err error
	if !c.Do("End construction", func() {
		if asClient {
			en, err = server.NewEndWithConn(l.B, c.srvOpts(nil, nil))
		} else {
			en, err = client.NewEndWithConn(l.A, c.cliOpts(nil, nil))
		}
	}) {
		return
	}
	if err != nil {
		c.Violate("construct", "%v", err)
		return
	}
	c.Cleanup(func() { c.Quiet(2*time.Minute, func() { en.Close() }) })
	var ss []geminio.Stream
	for i := c.Range(1, 4); i > 0; i-- {
		var s geminio.Stream
		if !c.Do("OpenStream", func() { s, err = en.OpenStream() }) {
			return
		}
		if err != nil {
			c.Violate("open", "OpenStream: %v", err)
			return
		}
		ss = append(ss, s)
	}
	sp := make([]*pends, len(ss))
	for i, s := range ss {
		sp[i] = c.newPends()
		sp[i].onStream(s, true, false)
	}
	ep := c.newPends()
	ep.onStream(en, true, false)
	ep.onEnd(en, 0, true)
	c.sleepUpTo(500)
	for i, s := range ss {
		if c.Chance(70) {
			p := sp[i]
			p.start("Stream.Close", false, s.Close)
			if c.Chance(30) {
				p.start("Stream.Close", false, s.Close)
			}
			if c.Bool() {
				if !p.wait(time.Minute, "closing the stream against a peer that closes halfway") {
					return
				}
				if !c.deadOps("a stream closed against a peer that closes halfway", s) {
					return
				}
			}
		}
	}
	var s geminio.Stream
	if !c.Do("OpenStream", func() { s, err = en.OpenStream() }) {
		return
	}
	if err != nil {
		c.Violate("open-again", "OpenStream on the live End after streams were closed: %v", err)
		return
	}
	ep.onStream(s, true, false)
	c.sleepUpTo(500)
	ep.start("End.Close", false, en.Close)
	if !ep.wait(4*time.Minute, "Close of the End against a peer that closes halfway") {
		return
	}
	for _, p := range sp {
		if !p.wait(4*time.Minute, "Close of the End against a peer that closes halfway") {
			return
		}
	}
	for i := 0; i < 40 && !mine.Closed(); i++ {
		time.Sleep(time.Second)
	}
	if !mine.Closed() {
		c.ViolateTimed("halfway-open", "the network connection is still open after Close of the End against a peer that closes halfway")
	}
	if !c.deadEnd("the closed End", en) {
		return
	}
	c.Sample("peer is client %v, %d streams", asClient, len(ss))
}
