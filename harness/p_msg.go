package verif

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"

	"verif/vsync"
)

func init() {
	register(&Prop{ID: "C06",
		Rule: "A case publishes from 1-4 goroutines per direction on 1-4 streams over a drawn transport with drawn data, custom bytes and topics, while the receiver pauses, gives up and retries, and acknowledges at once, late, with an error or never; each message carries a unique key so that receipt, content, order per publisher, and the state of its acknowledgement at the moment Publish returned are known. The timing scenario fixes the link latency in virtual time and draws timeouts, context deadlines and cancellations, so the required result and instant of each Publish are known. The far scenario gives publishes deadlines and timeouts no packet can carry as they are.",
		Scens: []*Scen{
			{Name: "flows", Mode: Bubble, Quick: 240, Thorough: 8000, Batch: 10, Fn: msgFlows},
			{Name: "timing", Mode: Bubble, Quick: 240, Thorough: 8000, Batch: 20, Fn: msgTiming},
			{Name: "slow", Mode: Bubble, Quick: 80, Thorough: 2000, Batch: 10, Fn: msgSlow},
			{Name: "receivers", Mode: Bubble, Quick: 80, Thorough: 2000, Batch: 10, Fn: msgReceivers},
			{Name: "big", Mode: Bubble, Quick: 16, Thorough: 200, Batch: 4, Fn: msgBig},
			{Name: "far", Mode: Bubble, Quick: 60, Thorough: 1500, Batch: 20, NoReal: true, Fn: msgFar},
			{Name: "text", Mode: Bubble, Quick: 1, Thorough: 2, Known: "text-bytes", NoReal: true, Fn: textTopic},
			{Name: "wall", Mode: Real, Quick: 24, Thorough: 400, Batch: 6, Fn: msgFlows},
		}})
	register(&Prop{ID: "C07",
		Rule: "A case starts up to 30 unacknowledged async publishes at a time per direction with nil, buffered, shared and unread channels, mixing acknowledged, rejected, never acknowledged, timed out and cancelled ones, and in most cases a stream close, End close or connection loss at a drawn instant; deliveries on every Done channel are counted over two virtual minutes. A second scenario interleaves at-most-once and at-least-once messages to a receiver that is not receiving: at-most-once publishes must return at the instant they were made, and all arrive once, in order and unaltered. The far scenario gives publishes deadlines and timeouts no packet can carry as they are.",
		Scens: []*Scen{
			{Name: "mix", Mode: Bubble, Quick: 240, Thorough: 8000, Batch: 20, Fn: msgAsync},
			{Name: "atmostonce", Mode: Bubble, Quick: 160, Thorough: 4000, Batch: 20, Fn: msgAMO},
			{Name: "ordered", Mode: Bubble, Quick: 80, Thorough: 3000, Batch: 10, Fn: msgAsyncOrder},
			{Name: "far", Mode: Bubble, Quick: 60, Thorough: 1500, Batch: 20, NoReal: true, Fn: msgFar},
			{Name: "wall", Mode: Real, Quick: 16, Thorough: 200, Batch: 4, Fn: msgAsync},
		}})
}

func msgFlows(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.Pick(0, 1, 1, 2, 3))
	if !ok {
		return
	}
	n := c.Range(5, 40)
	if c.Tier == "thorough" && c.Chance(10) {
		n = 200
	}
	max := c.Pick(0, 60, 1000, 10000)
	var fns []func()
	for _, p := range ps {
		for side := 0; side < 2; side++ {
			pb := c.publisher(p.at(side), p.at(1-side))
			w := c.Range(1, 4)
			for who := 0; who < w; who++ {
				gap := c.gapFn()
				fns = append(fns, func() { pb.publishAs(who, n, max, 15, gap) })
			}
			gap := c.gapFn()
			fns = append(fns, func() { pb.receive(w*n, gap) })
		}
	}
	c.All("messages", fns...)
	c.Sample("%d streams, %d functions of %d messages up to %d bytes", len(ps), len(fns), n, max)
}

func msgBig(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(2))
	if !ok {
		return
	}
	var fns []func()
	for _, p := range ps {
		for side := 0; side < 2; side++ {
			pb := c.publisher(p.at(side), p.at(1-side))
			fns = append(fns, func() { pb.publish(4, 300000, nil) }, func() { pb.receive(4, nil) })
		}
	}
	c.All("big messages", fns...)
}

// msgReceivers has several goroutines receive from one stream.
func msgReceivers(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(2))
	if !ok {
		return
	}
	p := ps[len(ps)-1]
	side := c.N(2)
	pb := c.publisher(p.at(side), p.at(1-side))
	w, n, k := c.Range(1, 3), c.Range(5, 40), c.Range(2, 5)
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	var fns []func()
	var left sync.WaitGroup
	left.Add(w)
	for who := 0; who < w; who++ {
		fns = append(fns, func() {
			defer left.Done()
			for i := 0; i < n; i++ {
				r := pb.newRec(who, -1, 60)
				pb.sem <- struct{}{}
				if !pb.check(r, pb.send(r)) {
					return
				}
			}
		})
	}
	go func() { left.Wait(); cancel() }()
	for i := 0; i < k; i++ {
		gap := c.gapFn()
		fns = append(fns, func() {
			for {
				if _, err := pb.recvOne(ctx); err != nil {
					if !errors.Is(err, context.Canceled) {
						c.Violate("msg-recv", "Receive: %v", err)
					}
					return
				}
				gap()
			}
		})
	}
	if !c.All("concurrent receivers", fns...) {
		return
	}
	pb.mu.Lock()
	got := pb.n
	pb.mu.Unlock()
	if got != w*n {
		c.Violate("msg-lost", "%d messages acknowledged, %d received", w*n, got)
	}
}

// msgSlow lets messages pile up unreceived, then receives all, in order.
func msgSlow(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(3))
	if !ok {
		return
	}
	var fns []func()
	for _, p := range ps {
		for side := 0; side < 2; side++ {
			pb := c.publisher(p.at(side), p.at(1-side))
			n := c.Range(1, 30)
			rounds := c.Range(1, 3)
			pause := time.Duration(c.Range(100, 60000)) * time.Millisecond
			if c.Chance(40) {
				// more than the queues hold: the connection waits, but not
				// as long as to miss heartbeats
				n = c.Range(31, 200)
				pause = time.Duration(c.Range(100, 8000)) * time.Millisecond
			}
			fns = append(fns, func() {
				seq := 0
				for r := 0; r < rounds; r++ {
					var wg sync.WaitGroup
					for i := 0; i < n; i++ {
						rec := pb.newRec(0, seq, 200)
						seq++
						wg.Add(1)
						go func() {
							defer wg.Done()
							pb.check(rec, pb.send(rec))
						}()
						// the previous publish reached the stream before the next starts
						time.Sleep(time.Millisecond)
					}
					time.Sleep(pause)
					pb.mu.Lock()
					if pb.n != r*n {
						c.Violate("harness", "received %d", pb.n)
					}
					pb.mu.Unlock()
					pb.receive(n, nil)
					wg.Wait()
				}
			})
		}
	}
	c.All("slow receivers", fns...)
}

// ---- timed publishes ------------------------------------------------------------

type tpub struct {
	rec        *msgRec
	T, D, X    time.Duration
	viaMsg     bool
	async      bool
	start, end time.Time
	err        error
}

func (t *tpub) do(c *C, pb *publisher) {
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	t.start = time.Now()
	if t.D > 0 {
		var c2 context.CancelFunc
		ctx, c2 = context.WithTimeout(ctx, t.D)
		defer c2()
	}
	if t.X > 0 {
		tm := time.AfterFunc(t.X, cancel)
		defer tm.Stop()
	}
	m := pb.message(t.rec)
	var opts []*options.PublishOptions
	if t.T > 0 {
		if t.viaMsg {
			m.SetTimeout(t.T)
		} else {
			o := options.Publish()
			o.SetTimeout(t.T)
			opts = given(c, o)
			if c.Chance(30) { // the publish's goes before the message's
				m.SetTimeout(t.T*2 + time.Second)
			}
		}
	}
	if t.async {
		p, err := pb.s.PublishAsync(ctx, m, nil, opts...)
		if err != nil {
			t.err = err
		} else {
			x := <-p.Done
			if x != p || x.Message != m {
				c.Violate("pub-foreign", "PublishAsync delivered another Publish than its own")
			}
			t.err = x.Error
		}
	} else {
		t.err = pb.s.Publish(ctx, m, opts...)
	}
	t.end = time.Now()
}

func (t *tpub) judge(c *C, pb *publisher, oneWay time.Duration) bool {
	took := t.end.Sub(t.start)
	end := minPos(t.T, t.D, t.X)
	R := 2 * oneWay
	never := t.rec.policy == ackNever
	if t.rec.policy == ackLate {
		R += t.rec.delay
	}
	desc := fmt.Sprintf("publish (async %v) with timeout %v, deadline %v, cancel %v, ack due after %v (never %v)", t.async, t.T, t.D, t.X, R, never)
	own := t.err != nil && t.rec.errText != "" && t.err.Error() == t.rec.errText
	answered := t.err == nil || own
	if never && answered {
		c.Violate("pub-unacked", "%s: returned %v, nobody acknowledged it", desc, t.err)
		return false
	}
	if !never && (end == 0 || R+slack < end) {
		if took > R+slack {
			c.Violate("pub-late", "%s returned after %v", desc, took)
			return false
		}
		if answered && took < R {
			c.Violate("pub-impossible", "%s returned after %v", desc, took)
			return false
		}
		return pb.check(t.rec, t.err)
	}
	lim := end
	if !never {
		lim = min(end, R)
	}
	if took > lim+slack {
		c.Violate("pub-late-end", "%s returned (%v) only after %v", desc, t.err, took)
		return false
	}
	if answered {
		if took < R {
			c.Violate("pub-impossible", "%s returned %v after %v", desc, t.err, took)
			return false
		}
		return pb.check(t.rec, t.err)
	}
	if took+slack < lim {
		c.Violate("pub-early-end", "%s ended with %v after %v", desc, t.err, took)
		return false
	}
	near := func(d time.Duration) bool { return d > 0 && d <= end+slack }
	switch {
	case near(t.X) && errors.Is(t.err, context.Canceled):
	case near(t.D) && errors.Is(t.err, context.DeadlineExceeded):
	case near(t.T) && isTimeout(t.err):
	default:
		c.Violate("pub-end-error", "%s ended with the error %v", desc, t.err)
		return false
	}
	c.Ev("publish_expired", fmt.Sprint(t.err))
	return true
}

func (c *C) newTpub(pb *publisher, who, seq int) *tpub {
	t := &tpub{rec: pb.newRec(who, seq, 60), viaMsg: c.Bool(), async: c.Bool()}
	switch c.N(5) {
	case 0:
		t.rec.policy, t.rec.errText = ackError, fmt.Sprintf("rejected %x", t.rec.key)
	case 1:
		t.rec.policy = ackNever
	case 2, 3:
		t.rec.policy, t.rec.delay = ackLate, time.Duration(c.Range(1, 1000))*time.Millisecond
	}
	if c.Chance(40) {
		t.T = time.Duration(c.Range(1, 1000)) * time.Millisecond
	}
	if c.Chance(30) {
		t.D = time.Duration(c.Range(1, 1000)) * time.Millisecond
	}
	if c.Chance(30) {
		t.X = time.Duration(c.Range(1, 1000)) * time.Millisecond
	}
	if t.rec.policy == ackLate && c.Chance(20) && t.T > 0 { // coincide
		t.rec.delay = t.T
	}
	if t.rec.policy == ackNever && t.T+t.D+t.X == 0 {
		t.T = 300 * time.Millisecond
	}
	return t
}

func msgTiming(c *C) {
	lat := time.Duration(c.Pick(0, 0, 5, 40)) * time.Millisecond
	e := c.NewEnv(EnvOpt{Link: LinkOpt{Latency: lat}})
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(3))
	if !ok {
		return
	}
	type run struct {
		pb *publisher
		t  *tpub
	}
	var runs []run
	var fns []func()
	ctx, stop := context.WithCancel(bg)
	defer stop()
	var rcv sync.WaitGroup
	var pbs []*publisher
	for _, p := range ps {
		for side := 0; side < 2; side++ {
			pb := c.publisher(p.at(side), p.at(1-side))
			pbs = append(pbs, pb)
			rcv.Add(1)
			go func() {
				defer rcv.Done()
				for {
					if _, err := pb.recvOne(ctx); err != nil {
						if !errors.Is(err, context.Canceled) {
							c.Violate("msg-recv", "Receive: %v", err)
						}
						return
					}
				}
			}()
			// sequences, in which a timed out publish precedes the next
			for who := 0; who < c.Range(1, 3); who++ {
				var ts []*tpub
				for i := 0; i < c.Range(1, 8); i++ {
					ts = append(ts, c.newTpub(pb, who, i))
				}
				fns = append(fns, func() {
					for _, t := range ts {
						t.do(c, pb)
						if !t.judge(c, pb, lat) {
							return
						}
					}
				})
			}
			// and a crowd of single ones
			for i := 0; i < c.N(12); i++ {
				t := c.newTpub(pb, 100+i, 0)
				runs = append(runs, run{pb, t})
				fns = append(fns, func() { t.do(c, pb); t.judge(c, pb, lat) })
			}
		}
	}
	if !c.All("timed publishes", fns...) || c.Failed() {
		return
	}
	time.Sleep(2*time.Second + 2*lat)
	var after []func()
	for _, pb := range pbs {
		after = append(after, func() {
			r := pb.newRec(999, 0, 50)
			pb.check(r, pb.send(r))
		})
	}
	if !c.All("publishes after expiries", after...) {
		return
	}
	stop()
	c.Do("receivers", rcv.Wait)
	// what was published arrived: healthy link, receiver always ready
	for _, pb := range pbs {
		pb.mu.Lock()
		for _, r := range pb.recs {
			if r.received == 0 && r.acking {
				c.Violate("harness", "acked but not received")
			}
		}
		pb.mu.Unlock()
	}
	c.Sample("%d timed publishes, one way %v", len(runs), lat)
}

// ---- C07 --------------------------------------------------------------------------

// msgAMO: publishes to a receiver which is not receiving.
func msgAMO(c *C) {
	e := c.NewEnv(EnvOpt{Link: LinkOpt{Latency: time.Duration(c.Pick(0, 30)) * time.Millisecond}})
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(3))
	if !ok {
		return
	}
	var fns []func()
	for _, p := range ps {
		for side := 0; side < 2; side++ {
			pb := c.publisher(p.at(side), p.at(1-side))
			rounds, n := c.Range(1, 3), c.Range(1, 28)
			fns = append(fns, func() {
				seq := 0
				for r := 0; r < rounds; r++ {
					var wg sync.WaitGroup
					for i := 0; i < n; i++ {
						rec := pb.newRec(0, seq, 100)
						seq++
						rec.amo = c.Chance(70)
						if !rec.amo {
							wg.Add(1)
							go func() {
								defer wg.Done()
								pb.check(rec, pb.send(rec))
							}()
							time.Sleep(time.Millisecond)
							continue
						}
						rec.policy = ackPolicy(c.Pick(int(ackDone), int(ackNever)))
						m := pb.message(rec)
						var opts []*options.PublishOptions
						if c.Chance(20) {
							o := options.Publish()
							o.SetTimeout(time.Duration(c.Range(1, 500)) * time.Millisecond)
							opts = append(opts, o)
						}
						t0 := time.Now()
						var err error
						var pub *geminio.Publish
						if c.Bool() {
							err = pb.s.Publish(bg, m, opts...)
						} else {
							pub, err = pb.s.PublishAsync(bg, m, nil, opts...)
						}
						if d := time.Since(t0); d > lagSum {
							c.Violate("amo-waits", "an at-most-once publish took %v while nobody received", d)
							return
						}
						if err != nil {
							c.Violate("amo-err", "at-most-once publish: %v", err)
							return
						}
						if pub != nil {
							pb.wg.Add(1)
							go func() {
								defer pb.wg.Done()
								if x := <-pub.Done; x.Error != nil {
									c.Violate("amo-err", "at-most-once async publish completed with %v", x.Error)
								}
							}()
						}
						c.Ev("amo_published", seq)
					}
					time.Sleep(time.Duration(c.Range(50, 3000)) * time.Millisecond)
					pb.receive(n, nil)
					wg.Wait()
				}
				// nothing more arrives
				ctx, cancel := context.WithTimeout(bg, time.Second)
				defer cancel()
				if _, err := pb.recvOne(ctx); !errors.Is(err, context.DeadlineExceeded) {
					c.Violate("msg-extra", "an extra receive gave %v", err)
				}
			})
		}
	}
	c.All("at-most-once messages", fns...)
}

// msgAsyncOrder: async publishes of one goroutine arrive in order, each
// completing with its own result.
func msgAsyncOrder(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(3))
	if !ok {
		return
	}
	var fns []func()
	for _, p := range ps {
		for side := 0; side < 2; side++ {
			pb := c.publisher(p.at(side), p.at(1-side))
			n := c.Range(3, 60)
			shared := make(chan *geminio.Publish, c.Pick(0, 1, 100))
			gap := c.gapFn()
			fns = append(fns, func() {
				byPub := map[*geminio.Publish]*msgRec{}
				var mu vsync.Quiet
				var early []*geminio.Publish
				var wg sync.WaitGroup
				wg.Add(n)
				done := func(x *geminio.Publish) bool {
					r := byPub[x]
					if r == nil {
						early = append(early, x)
						return true
					}
					delete(byPub, x)
					wg.Done()
					return pb.check(r, x.Error)
				}
				stop := make(chan struct{})
				go func() {
					for {
						select {
						case x := <-shared:
							mu.Lock()
							done(x)
							mu.Unlock()
						case <-stop:
							return
						}
					}
				}()
				for i := 0; i < n; i++ {
					r := pb.newRec(0, i, 100)
					if c.Chance(20) {
						r.policy, r.errText = ackError, fmt.Sprintf("rejected %x", r.key)
					} else if c.Chance(30) {
						r.policy, r.delay = ackLate, time.Duration(c.N(200))*time.Millisecond
					}
					pb.sem <- struct{}{}
					x, err := pb.s.PublishAsync(bg, pb.message(r), shared)
					if err != nil {
						c.Violate("pub-async", "PublishAsync: %v", err)
						return
					}
					mu.Lock()
					byPub[x] = r
					for j, y := range early {
						if y == x {
							early = append(early[:j:j], early[j+1:]...)
							done(x)
							break
						}
					}
					mu.Unlock()
					gap()
				}
				wg.Wait()
				close(stop)
			}, func() { pb.receive(n, c.gapFn()) })
		}
	}
	c.All("ordered async publishes", fns...)
}

func msgAsync(c *C) {
	o := c.Stock()
	ending := c.N(6) // 0,1 none, 2 stream close, 3 peer stream close, 4 End close, 5 link loss
	o.TCP = false
	e := c.NewEnv(o)
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(3))
	if !ok {
		return
	}
	p := ps[len(ps)-1]
	type apub struct {
		rec     *msgRec
		pb      *publisher
		pub     *geminio.Publish
		got     int
		limited bool
	}
	var mu vsync.Quiet
	byPub := map[*geminio.Publish]*apub{}
	var list []*apub
	var early []*geminio.Publish
	var shutAt time.Time
	deliver := func(x *geminio.Publish) {
		mu.Lock()
		defer mu.Unlock()
		if x == nil {
			c.Violate("async-nil", "nil delivered on Done")
			return
		}
		a := byPub[x]
		if a == nil {
			early = append(early, x)
			return
		}
		a.got++
	}
	shared := make(chan *geminio.Publish, c.Pick(0, 1, 100))
	go func() {
		for x := range shared {
			deliver(x)
		}
	}()
	ctx, stop := context.WithCancel(bg)
	defer stop()
	var rcv sync.WaitGroup
	var pbs []*publisher
	for side := 0; side < 2; side++ {
		pb := c.publisher(p.at(side), p.at(1-side))
		pb.lossy = true
		pbs = append(pbs, pb)
		rcv.Add(1)
		go func() {
			defer rcv.Done()
			for {
				if _, err := pb.recvOne(ctx); err != nil {
					return
				}
			}
		}()
	}
	if ending >= 2 {
		wait := time.Duration(c.N(300)) * time.Millisecond
		if c.Chance(30) {
			wait = 0
		}
		time.AfterFunc(wait, func() {
			mu.Lock()
			shutAt = time.Now()
			mu.Unlock()
			c.Ev("ending", ending)
			switch ending {
			case 2:
				p.at(0).Close()
			case 3:
				p.at(1).Close()
			case 4:
				e.End(c.N(2)).Close()
			case 5:
				if e.Link != nil {
					e.Link.Break(c.Bool())
				}
			}
		})
	}
	perSide := c.Range(3, 28)
	var fns []func()
	for _, pb := range pbs {
		for i := 0; i < perSide; i++ {
			rec := pb.newRec(i, 0, 60)
			switch c.N(5) {
			case 0:
				rec.policy, rec.errText = ackError, fmt.Sprintf("rejected %x", rec.key)
			case 1:
				rec.policy = ackNever
			case 2:
				rec.policy, rec.delay = ackLate, time.Duration(c.N(400))*time.Millisecond
			}
			lag := time.Duration(c.N(300)) * time.Millisecond
			kind, chKind := c.N(5), c.N(4)
			d := time.Duration(1+c.N(400)) * time.Millisecond
			if rec.policy == ackNever {
				kind %= 3
			}
			if c.Chance(70) {
				lag = 0
			}
			fns = append(fns, func() {
				time.Sleep(lag)
				ctx := bg
				a := &apub{rec: rec, pb: pb}
				m := pb.message(rec)
				switch kind {
				case 0:
					m.SetTimeout(d)
					a.limited = true
				case 1:
					var cancel context.CancelFunc
					ctx, cancel = context.WithCancel(bg)
					time.AfterFunc(d, cancel)
					a.limited = true
				case 2:
					var cancel context.CancelFunc
					ctx, cancel = context.WithTimeout(bg, d)
					time.AfterFunc(time.Minute, cancel)
					a.limited = true
				}
				var ch chan *geminio.Publish
				switch chKind {
				case 0:
					ch = shared
				case 1:
					ch = make(chan *geminio.Publish, 3)
				case 2:
					ch = make(chan *geminio.Publish)
				}
				x, err := pb.s.PublishAsync(ctx, m, ch)
				if err != nil {
					mu.Lock()
					ended := !shutAt.IsZero()
					mu.Unlock()
					if !ended && !a.limited {
						c.Violate("async-err", "PublishAsync: %v", err)
					}
					c.Ev("async_refused")
					return
				}
				if x == nil || x.Done == nil || ch != nil && x.Done != ch || x.Message != m {
					c.Violate("async-chan", "PublishAsync returned an incomplete Publish")
					return
				}
				a.pub = x
				mu.Lock()
				byPub[x] = a
				list = append(list, a)
				mu.Unlock()
				c.Ev("async_started", kind, chKind)
				if chKind != 0 {
					go func() {
						for y := range x.Done {
							deliver(y)
						}
					}()
				}
			})
		}
	}
	if !c.All("starting async publishes", fns...) {
		return
	}
	settle := 2 * time.Minute
	if c.Mode == Real {
		settle = 6 * time.Second
	}
	time.Sleep(settle)
	stop()
	c.Do("receivers", rcv.Wait)
	mu.Lock()
	defer mu.Unlock()
	for _, x := range early {
		if a := byPub[x]; a != nil {
			a.got++
		} else {
			c.Violate("async-foreign", "a Publish no PublishAsync returned was delivered on the shared channel")
			return
		}
	}
	for _, a := range list {
		if a.got != 1 {
			if a.got == 0 && c.Mode == Real {
				c.ViolateTimed("async-count", "an async publish completed %d times (ending %d)", a.got, ending)
				return
			}
			c.Violate("async-count", "an async publish completed %d times (ending %d)\n%s", a.got, ending, stacks())
			return
		}
		err := a.pub.Error
		if err != nil && (a.rec.policy != ackError || err.Error() != a.rec.errText) {
			if !a.limited && shutAt.IsZero() {
				c.Violate("async-error", "an async publish without limit completed with %v", err)
				return
			}
			c.Ev("async_cut", fmt.Sprint(err))
			continue
		}
		if a.rec.policy == ackNever {
			c.Violate("pub-unacked", "an async publish completed with %v, nobody acknowledged it", err)
			return
		}
		if !a.pb.check(a.rec, err) {
			return
		}
	}
	for _, a := range list {
		if a.pub.Done != shared {
			close(a.pub.Done)
		}
	}
	close(shared)
	c.Sample("%d async publishes, ending %d", len(list), ending)
}
