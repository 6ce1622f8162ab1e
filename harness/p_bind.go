package verif

import (
	"time"

	"github.com/singchia/geminio"

	"verif/vsync"
)

func init() {
	register(&Prop{ID: "C27",
		Rule: "A case makes requests and messages on up to 5 streams of one or two connections and gives them to other streams, from several goroutines and amid proper traffic on all of them: each such Call, CallAsync, Publish and PublishAsync must fail at the instant it is made, nothing may be executed, received or completed anywhere because of it, and afterwards the same object must work on its own stream, or, re-addressed, on another one. Identifiers and addresses of all requests and messages made at once on all streams of an End are compared.",
		Scens: []*Scen{
			{Name: "foreign", Mode: Bubble, Quick: 240, Thorough: 8000, Batch: 20, Fn: bindForeign},
			{Name: "ids", Mode: Bubble, Quick: 80, Thorough: 2000, Batch: 20, Fn: bindIDs},
			{Name: "wall", Mode: Real, Quick: 24, Thorough: 300, Batch: 6, Fn: bindForeign},
		}})
}

type bindLane struct {
	s, q geminio.Stream
	cl   *caller
	pb   *publisher
	env  int
}

func bindForeign(c *C) {
	o := c.Stock()
	var lanes []*bindLane
	for i := 0; i < c.Range(1, 2); i++ {
		e := c.NewEnv(o)
		if e == nil {
			return
		}
		ps, ok := e.Pairs(c.Range(1, 4))
		if !ok {
			return
		}
		side := c.N(2)
		for _, p := range ps {
			l := &bindLane{s: p.at(side), q: p.at(1 - side), env: i}
			if l.cl = c.caller(l.s, l.q, "m"); l.cl == nil {
				return
			}
			l.pb = c.publisher(l.s, l.q)
			lanes = append(lanes, l)
		}
		o = c.Stock()
	}
	var fns []func()
	var recv []func()
	for _, l := range lanes {
		l := l
		nCall, nPub := c.Range(2, 12), c.Range(2, 12)
		g := c.Range(1, 3)
		recv = append(recv, func() { l.pb.receive(nPub*g, nil) })
		for k := 0; k < g; k++ {
			k := k
			fns = append(fns, func() {
				for i := 0; i < nCall; i++ {
					if !c.bindCall(l, lanes) {
						return
					}
				}
				seqs := 0
				for i := 0; i < nPub; i++ {
					if !c.bindPub(l, lanes, k, seqs) {
						return
					}
					seqs++
				}
			})
		}
	}
	if !c.All("requests and messages on foreign streams", append(fns, recv...)...) {
		return
	}
	// what was refused must not come later either
	if c.Mode == Bubble {
		time.Sleep(time.Minute)
	} else {
		time.Sleep(50 * time.Millisecond)
	}
	for _, l := range lanes {
		l.pb.mu.Lock()
		for _, r := range l.pb.recs {
			if r.received != 1 {
				c.Violate("bind-msg", "a message published once on its own stream was received %d times", r.received)
			}
		}
		l.pb.mu.Unlock()
		l.cl.mu.Lock()
		for _, r := range l.cl.reqs {
			if r.execs != 1 {
				c.Violate("bind-rpc", "a request called once on its own stream was executed %d times", r.execs)
			}
		}
		l.cl.mu.Unlock()
	}
}

// other draws a stream with another address than l's.
func (c *C) bindOther(l *bindLane, lanes []*bindLane) *bindLane {
	for i := 0; i < 20; i++ {
		o := lanes[c.N(len(lanes))]
		if o != l && (o.s.StreamID() != l.s.StreamID() || o.s.ClientID() != l.s.ClientID()) {
			return o
		}
	}
	return nil
}

func (c *C) bindAtOnce(what string, t0 time.Time) {
	if c.Mode == Bubble && time.Since(t0) > lagSum {
		c.Violate("bind-late", "%s of a foreign object took %v to be refused", what, time.Since(t0))
	}
	c.Ev("foreign_refused", what)
}

func (c *C) bindCall(l *bindLane, lanes []*bindLane) bool {
	rec := l.cl.newRec(200, nil)
	req := l.cl.request(rec)
	for n := c.N(3); n > 0; n-- {
		o := c.bindOther(l, lanes)
		if o == nil {
			break
		}
		t0 := time.Now()
		if c.Bool() {
			rsp, err := o.s.Call(bg, "m", req)
			if err == nil || rsp != nil {
				c.Violate("bind-call", "a Call on stream %d of client %d with a request of stream %d, client %d returned %v, %v",
					o.s.StreamID(), o.s.ClientID(), l.s.StreamID(), l.s.ClientID(), rsp, err)
				return false
			}
			c.bindAtOnce("Call", t0)
		} else {
			ch := make(chan *geminio.Call, 4)
			call, err := o.s.CallAsync(bg, "m", req, ch)
			if err == nil || call != nil {
				c.Violate("bind-call", "a CallAsync on stream %d of client %d with a request of stream %d, client %d returned %v, %v",
					o.s.StreamID(), o.s.ClientID(), l.s.StreamID(), l.s.ClientID(), call, err)
				return false
			}
			c.bindAtOnce("CallAsync", t0)
			c.Cleanup(func() {
				if len(ch) != 0 {
					c.Violate("bind-done", "a refused CallAsync was completed")
				}
			})
		}
	}
	if o := c.bindOther(l, lanes); o != nil && o.env == l.env && c.Chance(30) {
		// re-addressed it belongs to the other one
		l.cl.mu.Lock()
		delete(l.cl.reqs, rec.key)
		l.cl.mu.Unlock()
		o.cl.mu.Lock()
		o.cl.reqs[rec.key] = rec
		o.cl.mu.Unlock()
		req.SetStreamID(o.s.StreamID())
		rsp, err := o.s.Call(bg, "m", req)
		c.Ev("readdressed", "rpc")
		return o.cl.judge(rec, rsp, err)
	}
	rsp, err := l.s.Call(bg, "m", req)
	return l.cl.judge(rec, rsp, err)
}

func (c *C) bindPub(l *bindLane, lanes []*bindLane, who, seq int) bool {
	rec := l.pb.newRec(who, seq, 200)
	rec.amo = c.Chance(20)
	m := l.pb.message(rec)
	for n := c.N(3); n > 0; n-- {
		o := c.bindOther(l, lanes)
		if o == nil {
			break
		}
		t0 := time.Now()
		if c.Bool() {
			if err := o.s.Publish(bg, m); err == nil {
				c.Violate("bind-pub", "Publish on stream %d of client %d took a message of stream %d, client %d",
					o.s.StreamID(), o.s.ClientID(), l.s.StreamID(), l.s.ClientID())
				return false
			}
			c.bindAtOnce("Publish", t0)
		} else {
			ch := make(chan *geminio.Publish, 4)
			p, err := o.s.PublishAsync(bg, m, ch)
			if err == nil || p != nil {
				c.Violate("bind-pub", "PublishAsync on stream %d of client %d took a message of stream %d, client %d: %v, %v",
					o.s.StreamID(), o.s.ClientID(), l.s.StreamID(), l.s.ClientID(), p, err)
				return false
			}
			c.bindAtOnce("PublishAsync", t0)
			c.Cleanup(func() {
				if len(ch) != 0 {
					c.Violate("bind-done", "a refused PublishAsync was completed")
				}
			})
		}
	}
	l.pb.sem <- struct{}{}
	err := l.s.Publish(bg, m)
	return l.pb.check(rec, err)
}

// bindIDs makes requests and messages on all streams of an End at once.
func bindIDs(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.Range(0, 5))
	if !ok {
		return
	}
	for side := 0; side < 2; side++ {
		var mu vsync.Quiet
		seen := map[uint64]string{}
		per := c.Range(5, 60)
		var fns []func()
		for i, p := range ps {
			s := p.at(side)
			for g := 0; g < c.Range(1, 4); g++ {
				fns = append(fns, func() {
					for n := 0; n < per; n++ {
						var id, sid, cid uint64
						what := "request"
						if c.Bool() {
							r := s.NewRequest([]byte{1})
							id, sid, cid = r.ID(), r.StreamID(), r.ClientID()
						} else {
							m := s.NewMessage([]byte{1})
							id, sid, cid = m.ID(), m.StreamID(), m.ClientID()
							what = "message"
						}
						if sid != s.StreamID() || cid != s.ClientID() {
							c.Violate("bind-address", "a %s made on stream %d of client %d says %d, %d", what, s.StreamID(), s.ClientID(), sid, cid)
							return
						}
						mu.Lock()
						old, dup := seen[id]
						seen[id] = what + " of stream " + itoa(uint64(i))
						mu.Unlock()
						if dup {
							c.Violate("bind-id", "a %s on stream %d has the ID %d of a %s", what, i, id, old)
							return
						}
						c.Ev("ids", side)
					}
				})
			}
		}
		if !c.All("making requests and messages", fns...) {
			return
		}
	}
}
