package verif

import (
	"context"
	"errors"
	"math/rand/v2"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"

	"verif/vsync"
)

func init() {
	register(&Prop{ID: "C23",
		Rule: "Cases run in a binary built with the Go race detector (which sees the locks exactly as package sync would show them): a soup of every API operation from many goroutines on the same Ends, streams and retry Ends while streams and Ends are closed and connections break under them, and the workloads of the other checks (bulk traffic, floods, ends of connections, deadlines, registrations, stream pairing, hostile peers, retry, listener). Every report whose two accesses are both made by the library or its dependencies is a violation, and so are the runtime's fatal errors for unsynchronised use.",
		Scens: []*Scen{
			{Name: "soup", Mode: Bubble, Race: true, Quick: 96, Thorough: 3000, Batch: 6, Watch: 30, Fn: raceSoup},
			{Name: "soup-wall", Mode: Real, Race: true, Quick: 16, Thorough: 600, Batch: 2, Watch: 30, Fn: raceSoup},
			{Name: "soup-retry", Mode: Bubble, Race: true, Quick: 24, Thorough: 800, Batch: 3, Watch: 30, Fn: raceRetry},
			{Name: "ending", Mode: Bubble, Race: true, Quick: 24, Thorough: 1200, Batch: 3, Watch: 30, Fn: func(c *C) { endRacing(c, true) }},
			{Name: "blocked", Mode: Bubble, Race: true, Quick: 24, Thorough: 1200, Batch: 3, Watch: 30, Fn: func(c *C) { endBlocked(c, true) }},
			{Name: "others", Mode: Bubble, Race: true, Quick: 96, Thorough: 4000, Batch: 6, Watch: 30, Fn: raceOthers},
			{Name: "others-wall", Mode: Real, Race: true, Quick: 16, Thorough: 600, Batch: 2, Watch: 30, Fn: raceOthersWall},
		}})
}

func raceOthers(c *C) {
	fns := []func(*C){loadBulk, loadFlood, dlRead, dlWrite, regWait, regCheck, streamPairing, hostileAlone,
		func(c *C) { hostilePeers(c, c.Bool()) }, isoSiblings, isoEnds, rpcAsync, msgAsync, rpcReregister, rpcTiming, rpcExpiryRace,
		closeBoth, closeDrain, dlgRacing, dlgMany, earlyEnd, earlyStream, hsClient, hsServer, retryService, retryClose, leakStreams}
	fns[c.K%len(fns)](c)
}

func raceOthersWall(c *C) {
	fns := []func(*C){listenMix, listenStorm, loadBulk, dlgRacing, rpcAsync, streamPairing, regWait, hsAgree}
	fns[c.K%len(fns)](c)
}

// soup runs operations of all kinds on all it is given. It keeps clear of
// locks and counters of its own, which would order the library's accesses.
type soup struct {
	c    *C
	ops  atomic.Int64
	stop atomic.Bool
	wg   sync.WaitGroup
	sms  []geminio.Stream
	en   geminio.End
}

func (c *C) newSoup(en geminio.End) *soup { return &soup{c: c, en: en} }

func (s *soup) spawn(f func()) {
	s.wg.Add(1)
	go func() { defer s.wg.Done(); f() }()
}

// serve takes whatever comes to a stream.
func (s *soup) serve(sm geminio.Stream, register bool) {
	if register {
		sm.Register(bg, "echo", echoRPC)
	}
	for i := 1 + rand.IntN(2); i > 0; i-- {
		s.spawn(func() {
			b := make([]byte, 50)
			for !s.stop.Load() {
				_, err := sm.Read(b)
				if errors.Is(err, os.ErrDeadlineExceeded) {
					time.Sleep(time.Millisecond)
				} else if err != nil {
					return
				}
			}
		})
		s.spawn(func() {
			for n := 0; !s.stop.Load(); n++ {
				m, err := sm.Receive(bg)
				if err != nil {
					return
				}
				_, _, _, _ = m.Data(), m.Topic(), m.Custom(), m.ID()
				if n%5 == 4 {
					m.Error(errors.New("no"))
				} else {
					m.Done()
				}
			}
		})
	}
}

func (s *soup) once(sm geminio.Stream, fresh *[]geminio.Stream, r func(int) int) {
	en := s.en
	ctx := context.Background()
	cancel := func() {}
	if r(4) == 0 {
		ctx, cancel = context.WithTimeout(ctx, time.Duration(r(20)+1)*time.Millisecond)
	} else if r(6) == 0 {
		ctx, cancel = context.WithCancel(ctx)
		d := time.Duration(r(5)) * time.Millisecond
		stop := cancel
		go func() { time.Sleep(d); stop() }()
	}
	defer cancel()
	data := make([]byte, r(200))
	short := time.Duration(r(15)+1) * time.Millisecond
	switch r(20) {
	case 0, 1, 2:
		var o []*options.CallOptions
		if r(3) == 0 {
			x := options.Call()
			x.SetTimeout(short)
			o = append(o, x)
		}
		rsp, err := sm.Call(ctx, []string{"echo", "other", "none"}[r(3)], sm.NewRequest(data), o...)
		if err == nil {
			_, _, _ = rsp.Data(), rsp.Error(), rsp.Custom()
		}
	case 3, 4:
		call, err := sm.CallAsync(ctx, []string{"echo", "other"}[r(2)], sm.NewRequest(data), nil)
		if err == nil {
			s.spawn(func() {
				x := <-call.Done
				if x.Error == nil {
					_ = x.Response.Data()
				}
			})
		}
	case 5, 6:
		var o []*options.PublishOptions
		if r(3) == 0 {
			x := options.Publish()
			x.SetTimeout(short)
			o = append(o, x)
		}
		no := options.NewMessage()
		no.SetTopic("t")
		if r(3) == 0 {
			no.SetCnss(options.CnssAtMostOnce)
		}
		sm.Publish(ctx, sm.NewMessage(data, no), o...)
	case 7, 8:
		p, err := sm.PublishAsync(ctx, sm.NewMessage(data), nil)
		if err == nil && p != nil {
			s.spawn(func() { _ = (<-p.Done).Error })
		}
	case 9, 10, 11:
		sm.Write(data)
	case 12:
		t := time.Time{}
		switch r(3) {
		case 0:
			t = time.Now().Add(short)
		case 1:
			t = time.Now().Add(-time.Second)
		}
		[]func(time.Time) error{sm.SetDeadline, sm.SetReadDeadline, sm.SetWriteDeadline}[r(3)](t)
	case 13:
		sm.Register(ctx, []string{"echo", "other", "third"}[r(3)], echoRPC)
	case 14:
		if r(3) == 0 {
			ho := options.Hijack()
			ho.SetMatch(r(2) == 0, "^th")
			sm.Hijack(func(ctx context.Context, _ string, q geminio.Request, p geminio.Response) { echoRPC(ctx, q, p) },
				ho)
		}
	case 15:
		_, _, _, _, _ = sm.StreamID(), sm.ClientID(), sm.Meta(), sm.Peer(), sm.Side()
		sm.LocalAddr()
		sm.RemoteAddr()
	case 16:
		for _, x := range en.ListStreams() {
			x.StreamID()
			x.Meta()
		}
		en.Addr()
	case 17, 18:
		o := options.OpenStream()
		o.SetMeta(data)
		o.SetPeer("p")
		x, err := en.OpenStream(o)
		if err == nil {
			s.serve(x, r(2) == 0)
			if r(3) == 0 {
				x.Close()
			}
			if len(*fresh) < 10 {
				*fresh = append(*fresh, x)
				s.some(x, 5)
			}
		}
	case 19:
		if sm.StreamID() != 1 && r(3) == 0 {
			sm.Close()
		}
		time.Sleep(short)
	}
}

// run runs w goroutines on the streams.
func (s *soup) run(w, n int) {
	for ; w > 0; w-- {
		g := s.c.Sub()
		s.spawn(func() {
			fresh := append([]geminio.Stream(nil), s.sms...)
			k := 0
			for i := 0; i < n && !s.stop.Load(); i++ {
				s.once(fresh[g.IntN(len(fresh))], &fresh, g.IntN)
				k++
				if i%10 == 9 {
					time.Sleep(time.Millisecond)
				}
			}
			offRecord(func() { s.ops.Add(int64(k)) })
		})
	}
}

// some runs a few operations on one stream.
func (s *soup) some(sm geminio.Stream, n int) {
	s.spawn(func() {
		fresh := make([]geminio.Stream, 10)
		for i := 0; i < n && !s.stop.Load(); i++ {
			s.once(sm, &fresh, rand.IntN)
		}
	})
}

func (s *soup) accept() {
	en := s.en
	s.spawn(func() {
		for n := 0; ; n++ {
			var sm geminio.Stream
			if n%2 == 0 {
				x, err := en.AcceptStream()
				if err != nil {
					return
				}
				sm = x
			} else {
				x, err := en.Accept()
				if err != nil {
					return
				}
				sm = x.(geminio.Stream)
			}
			s.serve(sm, n%2 == 0)
			if n < 20 {
				s.some(sm, 5)
			}
		}
	})
}

func (s *soup) finish() {
	s.c.Count("operations", int(s.ops.Load()))
}

func raceSoup(c *C) {
	r, w := c.BufOf()
	o := EnvOpt{
		Cli: func(o *client.EndOptions) { o.SetBufferSize(r, w) },
		Srv: func(o *server.EndOptions) { o.SetBufferSize(r, w) },

		NoDelegates: c.Chance(70),
	}
	switch c.N(3) {
	case 0:
		o.Link = LinkOpt{Latency: time.Duration(c.Range(1, 10)) * time.Millisecond}
	case 1:
		o.Link = LinkOpt{Cap: c.Range(50, 2000)}
	}
	if c.Mode == Real {
		o.TCP = c.Bool()
	}
	e := c.NewEnv(o)
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.Range(1, 4))
	if !ok {
		return
	}
	a, b := c.newSoup(e.Cli), c.newSoup(e.Srv)
	for _, p := range ps {
		a.sms = append(a.sms, p.at(0))
		b.sms = append(b.sms, p.at(1))
		a.serve(p.at(0), c.Bool())
		b.serve(p.at(1), c.Bool())
	}
	for _, s := range []*soup{a, b} {
		s.accept()
		s.accept()
		s.run(c.Range(2, 10), c.Range(20, 80))
	}
	time.Sleep(time.Duration(c.Range(1, 60)) * time.Millisecond)
	done := make(chan struct{})
	var closes sync.WaitGroup
	for i := c.Range(1, 3); i > 0; i-- {
		en := []geminio.End{e.Cli, e.Srv}[c.N(2)]
		closes.Add(1)
		go func() { defer closes.Done(); en.Close() }()
	}
	if c.Chance(30) && e.Link != nil && c.Mode == Bubble {
		e.Link.Break(c.Bool())
	}
	go func() {
		if c.Mode == Real {
			// closing may wait for its own timeouts
			t := time.AfterFunc(4*time.Second, func() { e.cn.Close(); e.sn.Close() })
			defer t.Stop()
		}
		closes.Wait()
		a.stop.Store(true)
		b.stop.Store(true)
		e.Cli.Close()
		e.Srv.Close()
		a.wg.Wait()
		b.wg.Wait()
		close(done)
	}()
	if !c.soon(done) {
		c.Ev("not_over")
	}
	a.finish()
	b.finish()
	c.Ev("soup")
}

// raceRetry is the soup on a retry End whose connection breaks.
func raceRetry(c *C) {
	var mu vsync.Quiet
	var cur *Link
	srvs := make(chan geminio.End, 100)
	dial := func() (net.Conn, error) {
		mu.Lock()
		defer mu.Unlock()
		l := c.NewLink(LinkOpt{})
		cur = l
		go func() {
			en, err := server.NewEndWithConn(l.B)
			if err == nil {
				srvs <- en
			}
		}()
		return l.A, nil
	}
	re, err := client.NewRetryEndWithDialer(dial)
	if err != nil {
		c.Inconclusive("retry end: %v", err)
		return
	}
	a := c.newSoup(re)
	a.sms = append(a.sms, re)
	a.serve(re, true)
	a.accept()
	var ends []geminio.End
	over := make(chan struct{})
	taken := make(chan struct{})
	go func() {
		defer close(taken)
		for {
			select {
			case en := <-srvs:
				ends = append(ends, en)
				en.Register(bg, "echo", echoRPC)
				go func() {
					for {
						m, err := en.Receive(bg)
						if err != nil {
							return
						}
						m.Done()
					}
				}()
				go func() {
					for {
						if _, err := en.AcceptStream(); err != nil {
							return
						}
					}
				}()
				go func() {
					for i := 0; i < 20; i++ {
						en.Call(bg, "echo", en.NewRequest(nil))
						time.Sleep(10 * time.Millisecond)
					}
				}()
			case <-over:
				return
			}
		}
	}()
	a.run(c.Range(2, 8), c.Range(20, 60))
	for i := c.Range(1, 3); i > 0; i-- {
		time.Sleep(time.Duration(c.Range(1, 100)) * time.Millisecond)
		mu.Lock()
		l := cur
		mu.Unlock()
		l.Break(c.Bool())
		time.Sleep(time.Duration(c.Range(10, 6000)) * time.Millisecond)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		a.stop.Store(true)
		re.Close()
		re.Close()
		time.Sleep(10 * time.Second)
		mu.Lock()
		cur.Break(false)
		mu.Unlock()
		a.wg.Wait()
	}()
	if !c.soon(done) {
		c.Ev("not_over")
	}
	close(over)
	<-taken
	for _, en := range ends {
		en.Close()
	}
	a.finish()
}
