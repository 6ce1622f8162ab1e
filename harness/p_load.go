package verif

import (
	"context"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/server"
)

func init() {
	register(&Prop{ID: "C26",
		Rule: "A case runs, at once and without pauses, bulk traffic in both directions of 1-6 streams: many concurrent callers, publishers awaiting their acknowledgement or not, raw flows, opens and closes, with payloads from nothing to 100 KB, over transports from one byte of buffering up and slow or fast, and layer buffers from 1 packet up, while both applications serve, receive and read all the time, sometimes slowly. A watchdog on completed operations requires progress within 20 s of virtual time (30 s of wall time over real sockets with small socket buffers) and everything is verified as it completes.",
		Scens: []*Scen{
			{Name: "bulk", Mode: Bubble, Quick: 160, Thorough: 6000, Batch: 5, Watch: 120, Fn: loadBulk},
			{Name: "flood", Mode: Bubble, Quick: 120, Thorough: 5000, Batch: 5, Watch: 120, Fn: loadFlood},
			{Name: "tcp", Mode: Real, Quick: 16, Thorough: 300, Batch: 2, Fn: loadBulk},
		}})
}

// progress watches a counter until done.
func (c *C) progress(what string, n *atomic.Int64, done <-chan struct{}) bool {
	step := 20 * time.Second
	if c.Mode == Real {
		step = 30 * time.Second
	}
	last := n.Load()
	for {
		t := time.NewTimer(step)
		select {
		case <-done:
			t.Stop()
			return true
		case <-t.C:
		}
		now := n.Load()
		if now == last {
			select {
			case <-done:
				return true
			default:
			}
			c.ViolateTimed("stalled:"+what, "%s: nothing completed within %v, after %d operations\n%s", what, step, now, stacks())
			return false
		}
		c.Ev("progress_windows")
		last = now
	}
}

// loadLink draws a transport which is slow or small, not both to the extreme.
func (c *C) loadLink() LinkOpt {
	o := LinkOpt{}
	switch c.N(7) {
	case 0:
	case 1:
		o.Cap = c.Range(1, 40)
	case 2:
		o.Cap = c.Range(40, 2000)
		o.MaxRead = c.Range(1, 64)
	case 3: // slow: at most Cap bytes per Latency
		o.Cap = c.Range(4000, 64000)
		o.Latency = time.Duration(c.Range(1, 10)) * time.Millisecond
	case 4:
		o.Latency = time.Duration(c.Range(1, 200)) * time.Millisecond
	case 5:
		o.Jitter = time.Duration(c.Range(1, 30)) * time.Millisecond
		o.MaxWrite = c.Range(100, 2000)
	case 6:
		o.MaxRead = 1
		o.Cap = c.Range(1, 14)
	}
	return o
}

func (c *C) loadEnv() *Env {
	r, w := c.BufOf()
	r2, w2 := c.BufOf()
	o := EnvOpt{Link: c.loadLink(),
		Cli: func(o *client.EndOptions) { o.SetBufferSize(r, w) },
		Srv: func(o *server.EndOptions) { o.SetBufferSize(r2, w2) },
	}
	if c.Mode == Real {
		o.TCP = true
	}
	e := c.NewEnv(o)
	if e != nil && o.TCP && c.Chance(70) {
		for _, cn := range []net.Conn{e.cn, e.sn} {
			if t, ok := cn.(*net.TCPConn); ok {
				// a receive buffer below the loopback's segment size makes
				// the kernel wait for its timers
				t.SetReadBuffer(c.Range(128, 512) << 10)
				t.SetWriteBuffer(c.Range(4, 64) << 10)
			}
		}
	}
	return e
}

// loadBulk: every sender waits for what it did to complete, many senders.
func loadBulk(c *C) {
	e := c.loadEnv()
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.Pick(0, 1, 1, 2, 3, 5))
	if !ok {
		return
	}
	max := c.Pick(0, 100, 2000, 20000, 100000)
	n := c.Range(3, 40)
	switch {
	case max > 50000 || e.Link != nil && (e.Link.ab.o.MaxRead > 0 || e.Link.ab.o.Cap < 100):
		n = c.Range(2, 6)
		if max > 20000 {
			max = 20000
		}
	}
	var ops atomic.Int64
	slow := func() func() { // now and then an application which takes its time
		if c.Chance(20) {
			d := time.Duration(c.Range(1, 30)) * time.Millisecond
			return func() { ops.Add(1); time.Sleep(d) }
		}
		return func() { ops.Add(1) }
	}
	var fns []func()
	for _, p := range ps {
		for side := 0; side < 2; side++ {
			s, q := p.at(side), p.at(1-side)
			kinds := c.Range(1, 7)
			if kinds&1 != 0 {
				cl := c.caller(s, q, "load")
				if cl == nil {
					return
				}
				for i := c.Range(1, 10); i > 0; i-- {
					gap := slow()
					fns = append(fns, func() { cl.run(n, max, gap) })
				}
			}
			if kinds&2 != 0 {
				pb := c.publisher(s, q)
				pb.sem = make(chan struct{}, 1000)
				w := c.Range(1, 10)
				for who := 0; who < w; who++ {
					gap := slow()
					fns = append(fns, func() { pb.publishAs(who, n, max, 0, gap) })
				}
				gap := slow()
				fns = append(fns, func() { pb.receive(w*n, gap) })
			}
			if kinds&4 != 0 {
				f := c.NewFlow("load", s, q)
				gap := slow()
				fns = append(fns, func() { f.Full(n, max, c.Pick(1, 100, 10000)+max/50, gap) })
			}
		}
	}
	var stop atomic.Bool
	var churn sync.WaitGroup
	if c.Bool() {
		churn.Add(1)
		go func() {
			defer churn.Done()
			for i := 0; i < 20 && !stop.Load() && !c.Failed(); i++ {
				p, ok := e.OpenPair(c.N(2))
				if !ok {
					return
				}
				f := c.NewFlow("load, fresh stream", p.o, p.a)
				f.Full(2, 100, 100, nil)
				ops.Add(1)
				p.o.Close()
				if c.Bool() {
					p.a.Close()
				}
				time.Sleep(time.Millisecond)
			}
		}()
	}
	var wg sync.WaitGroup
	for _, f := range fns {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); stop.Store(true); churn.Wait(); close(done) }()
	c.progress("bulk traffic", &ops, done)
	c.Count("operations", int(ops.Load()))
	c.Sample("%d streams, %d functions of %d operations up to %d bytes", len(ps), len(fns), n, max)
}

// loadFlood: senders wait for nothing, receivers keep receiving and
// acknowledging.
func loadFlood(c *C) {
	e := c.loadEnv()
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.Pick(0, 0, 1, 2))
	if !ok {
		return
	}
	n := c.Pick(50, 200, 400)
	max := c.Pick(0, 100, 1000)
	if e.Link != nil && (e.Link.ab.o.MaxRead > 0 || e.Link.ab.o.Cap < 100) {
		max = c.Pick(0, 30)
	}
	var ops atomic.Int64
	var fns []func()
	both := c.Chance(80)
	for _, p := range ps {
		for side := 0; side < 2; side++ {
			if side == 1 && !both {
				continue
			}
			s, q := p.at(side), p.at(1-side)
			switch c.N(3) {
			case 0, 1: // messages
				pb := c.publisher(s, q)
				pb.sem = make(chan struct{}, 4*n)
				async := c.N(3)
				w := 1
				if async == 0 {
					w = c.Range(10, 100)
				}
				m := n/w + 1
				for who := 0; who < w; who++ {
					fns = append(fns, func() {
						if async == 0 {
							pb.publishAs(who, m, max, 0, func() { ops.Add(1) })
							return
						}
						ch := make(chan *geminio.Publish, m)
						for i := 0; i < m; i++ {
							r := pb.newRec(who, i, max)
							if _, err := s.PublishAsync(bg, pb.message(r), ch); err != nil {
								c.Violate("flood-pub", "PublishAsync: %v", err)
								return
							}
							ops.Add(1)
						}
						for i := 0; i < m; i++ {
							if x := <-ch; x.Error != nil {
								c.Violate("flood-ack", "PublishAsync completed with %v", x.Error)
								return
							}
							ops.Add(1)
						}
					})
				}
				fns = append(fns, func() { pb.receive(w*m, func() { ops.Add(1) }) })
			case 2: // calls
				cl := c.caller(s, q, "flood")
				if cl == nil {
					return
				}
				fns = append(fns, func() {
					ch := make(chan *geminio.Call, n)
					for i := 0; i < n; i++ {
						if _, err := s.CallAsync(bg, "echo", s.NewRequest(c.Bytes(c.Size(max))), ch); err != nil {
							c.Violate("flood-call", "CallAsync: %v", err)
							return
						}
						ops.Add(1)
					}
					for i := 0; i < n; i++ {
						if x := <-ch; x.Error != nil {
							c.Violate("flood-call", "CallAsync completed with %v", x.Error)
							return
						}
						ops.Add(1)
					}
				})
				q.Register(bg, "echo", echoRPC)
			}
		}
	}
	var wg sync.WaitGroup
	for _, f := range fns {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	c.progress("a flood", &ops, done)
	c.Count("operations", int(ops.Load()))
	c.Sample("%d streams, %d functions of %d operations up to %d bytes", len(ps), len(fns), n, max)
}

func echoRPC(_ context.Context, req geminio.Request, rsp geminio.Response) { rsp.SetData(req.Data()) }
