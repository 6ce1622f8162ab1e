package verif

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"github.com/singchia/go-timer/v2"

	"verif/vsync"
)

func init() {
	register(&Prop{ID: "C08",
		Rule: "A case opens up to 40 streams per direction from concurrent openers on both Ends with drawn metas and peer names (also empty and binary) while acceptors use AcceptStream, Accept or the accept callback, delegates delay the negotiation, and a drawn part of the streams is closed meanwhile from either side. Streams are matched by a key sent over them; identity, meta, peer, distinctness of live ids and, once settled, ListStreams of both sides are compared with the model, and no further accept may succeed.",
		Scens: []*Scen{
			{Name: "pairing", Mode: Bubble, Quick: 240, Thorough: 8000, Batch: 10, Fn: streamPairing},
			{Name: "text", Mode: Bubble, Quick: 1, Thorough: 2, Known: "text-bytes", NoReal: true, Fn: textPeer},
			{Name: "unaccepted", Mode: Bubble, Quick: 80, Thorough: 2000, Batch: 10, Fn: streamUnaccepted},
			{Name: "wall", Mode: Real, Quick: 24, Thorough: 400, Batch: 6, Fn: streamPairing},
		}})
	register(&Prop{ID: "C09",
		Rule: "A case delays one side's open, accept or End construction (sleeping delegates, held or slow transport, late AcceptStream) while the other side, whose call already returned, at once writes, publishes, calls and opens streams; everything must arrive unaltered once the delayed side is up.",
		Scens: []*Scen{
			{Name: "stream", Mode: Bubble, Quick: 400, Thorough: 8000, Batch: 20, Fn: earlyStream},
			{Name: "end", Mode: Bubble, Quick: 240, Thorough: 8000, Batch: 20, Fn: earlyEnd},
			{Name: "wall", Mode: Real, Quick: 24, Thorough: 400, Batch: 6, Fn: earlyEnd},
		}})
	register(&Prop{ID: "C10",
		Rule: "A case sends raw bytes and messages on one or both directions of 1-4 streams, then closes from one side, both at once, several goroutines or by closing the End, with the reader reading meanwhile or only up to a minute later; the reader must get all that was written before the close, then EOF; afterwards every operation on both sides must fail and ListStreams must not show the stream.",
		Scens: []*Scen{
			{Name: "close", Mode: Bubble, Quick: 320, Thorough: 10000, Batch: 20, Fn: closeDrain},
			{Name: "flow", Mode: Bubble, Quick: 80, Thorough: 3000, Batch: 10, Fn: closeFlow},
			{Name: "both", Mode: Bubble, Quick: 160, Thorough: 5000, Batch: 20, Fn: closeBoth},
			{Name: "wall", Mode: Real, Quick: 24, Thorough: 400, Batch: 6, Fn: closeFlow},
		}})
	register(&Prop{ID: "C21",
		Rule: "A case keeps calls, messages, raw flows, exact timeouts and deadlines going on 1-3 stable streams (and on a second End pair, in part sharing one timer) while other streams of the End are opened, abused (timeouts, cancellations, handler errors, rejected and never acknowledged messages, expired deadlines, unread data, failed registrations, hijacks) and closed, and other Ends sharing the timer are closed or lose their connection; the stable ones must behave as if alone.",
		Scens: []*Scen{
			{Name: "siblings", Mode: Bubble, Quick: 160, Thorough: 5000, Batch: 10, Fn: isoSiblings},
			{Name: "ends", Mode: Bubble, Quick: 120, Thorough: 4000, Batch: 10, Fn: isoEnds},
			{Name: "unreceived", Mode: Bubble, Quick: 1, Thorough: 3, Known: "unreceived", NoReal: true, Fn: isoUnreceived},
		}})
}

// ---- C08 ----------------------------------------------------------------------

type openRec struct {
	key      uint64
	side     int
	meta     []byte
	peer     string
	s, a     geminio.Stream
	accepted int
	closed   bool
}

func ids(ss []geminio.Stream) map[uint64]int {
	m := map[uint64]int{}
	for _, s := range ss {
		m[s.StreamID()]++
	}
	return m
}

func acceptOne(c *C, e geminio.End) (geminio.Stream, error) {
	if c.Bool() {
		return e.AcceptStream()
	}
	cn, err := e.Accept()
	if err != nil {
		return nil, err
	}
	s, ok := cn.(geminio.Stream)
	if !ok {
		c.Violate("accept-type", "Accept returned a %T", cn)
		return nil, io.ErrUnexpectedEOF
	}
	return s, nil
}

func readFull(s io.Reader, n int) ([]byte, error) {
	b := make([]byte, n)
	_, err := io.ReadFull(s, b)
	return b, err
}

var peers = []string{"", "peer", "svc-α", "a b", "x/y?z", "<&>\"'\\", "\n\t", "0"}

func streamPairing(c *C) {
	o := c.Stock()
	useFn := c.Chance(35)
	cbCh := make(chan geminio.Stream, 1000)
	cbs := map[geminio.Stream]int{}
	var cbMu vsync.Quiet
	srv := o.Srv
	if useFn {
		o.Srv = func(so *server.EndOptions) {
			srv(so)
			so.SetAcceptStreamFunc(func(s geminio.Stream) {
				cbMu.Lock()
				cbs[s]++
				n := cbs[s]
				cbMu.Unlock()
				if n > 1 {
					c.Violate("accept-twice", "the accept callback got stream %d twice", s.StreamID())
				}
				cbCh <- s
			})
		}
	}
	if c.Chance(40) {
		d := func(ev dEv) {
			if (ev.Kind == "dlgon" || ev.Kind == "dlgoff") && c.Chance(30) && c.Mode == Bubble {
				time.Sleep(time.Duration(c.N(40)) * time.Millisecond)
			}
		}
		o.CD = func(x *cliDlg) { x.onEv = d }
		o.SD = func(x *srvDlg) { x.onEv = d }
	}
	e := c.NewEnv(o)
	if e == nil {
		return
	}
	var mu vsync.Quiet
	byKey := map[uint64]*openRec{}
	live := [2]map[uint64]bool{{1: true}, {1: true}}
	perSide := [2]int{c.Range(0, 24), c.Range(1, 24)}
	closePct := c.Pick(0, 30, 100)
	var fns []func()
	var closers sync.WaitGroup
	up := func(side int, s geminio.Stream, what string) {
		id := s.StreamID()
		mu.Lock()
		dup := live[side][id]
		live[side][id] = true
		mu.Unlock()
		if dup {
			c.Violate("id-dup", "%s on side %d returned stream id %d which is in use", what, side, id)
		}
		if s.ClientID() != e.Cli.ClientID() {
			c.Violate("client-id", "%s: stream's client id %d, End's %d", what, s.ClientID(), e.Cli.ClientID())
		}
	}
	for side := 0; side < 2; side++ {
		n := perSide[side]
		k := c.Range(1, 4)
		var left atomic.Int64
		left.Store(int64(n))
		for i := 0; i < k; i++ {
			gap := c.gapFn()
			fns = append(fns, func() {
				for left.Add(-1) >= 0 {
					r := &openRec{key: c.U64(), side: side, peer: peers[c.N(len(peers))]}
					switch c.N(4) {
					case 0:
					case 1:
						r.meta = c.Bytes(c.Size(2000))
					default:
						r.meta = u64b(r.key)
					}
					mu.Lock()
					byKey[r.key] = r
					mu.Unlock()
					oo := options.OpenStream()
					if r.meta != nil {
						oo.SetMeta(r.meta)
					}
					if r.peer != "" || c.Bool() {
						oo.SetPeer(r.peer)
					}
					opts := given(c, oo)
					if r.meta == nil && r.peer == "" {
						opts = nil
					}
					s, err := e.End(side).OpenStream(opts...)
					if err != nil {
						c.Violate("open", "OpenStream on side %d: %v", side, err)
						return
					}
					up(side, s, "OpenStream")
					if !bytes.Equal(s.Meta(), r.meta) || s.Peer() != r.peer {
						c.Violate("opener-meta", "opened with meta %s peer %q, the stream says %s %q", short(r.meta), r.peer, short(s.Meta()), s.Peer())
					}
					if ids(e.End(side).ListStreams())[s.StreamID()] != 1 {
						c.Violate("list", "stream %d just opened on side %d is listed %d times", s.StreamID(), side, ids(e.End(side).ListStreams())[s.StreamID()])
					}
					mu.Lock()
					r.s = s
					mu.Unlock()
					if _, err := s.Write(u64b(r.key)); err != nil {
						c.Violate("first-write", "first Write: %v", err)
						return
					}
					c.Ev("opened", side, s.StreamID())
					gap()
				}
			})
		}
		// acceptors on the other side
		var acc atomic.Int64
		acc.Store(int64(n))
		for i := 0; i < c.Range(1, 3); i++ {
			gap := c.gapFn()
			fns = append(fns, func() {
				for acc.Add(-1) >= 0 {
					var s geminio.Stream
					var err error
					if useFn && side == 0 {
						s = <-cbCh
					} else {
						s, err = acceptOne(c, e.End(1-side))
					}
					if err != nil {
						c.Violate("accept", "AcceptStream on side %d: %v", 1-side, err)
						return
					}
					if ids(e.End(1 - side).ListStreams())[s.StreamID()] != 1 {
						c.Violate("list", "stream %d just accepted on side %d is listed %d times", s.StreamID(), 1-side, ids(e.End(1 - side).ListStreams())[s.StreamID()])
					}
					up(1-side, s, "AcceptStream")
					b, err := readFull(s, 8)
					if err != nil {
						c.Violate("first-read", "reading the key from accepted stream %d: %v", s.StreamID(), err)
						return
					}
					mu.Lock()
					r := byKey[binary.BigEndian.Uint64(b)]
					if r != nil {
						r.accepted++
						r.a = s
					}
					mu.Unlock()
					if r == nil || r.side != side {
						c.Violate("foreign-stream", "accepted stream %d carries a key nobody sent from side %d", s.StreamID(), side)
						return
					}
					if r.accepted > 1 {
						c.Violate("accept-twice", "one open was accepted %d times", r.accepted)
						return
					}
					if !bytes.Equal(s.Meta(), r.meta) || s.Peer() != r.peer {
						c.Violate("acceptor-meta", "opened with meta %s peer %q, the accepted stream says %s %q", short(r.meta), r.peer, short(s.Meta()), s.Peer())
					}
					c.Ev("accepted", 1-side, s.StreamID())
					if c.Chance(closePct) {
						closers.Add(1)
						go func() {
							defer closers.Done()
							if c.Bool() {
								time.Sleep(time.Duration(c.N(50)) * time.Millisecond)
							}
							mu.Lock()
							r.closed = true
							// the id may be drawn again from now on
							delete(live[0], s.StreamID())
							delete(live[1], s.StreamID())
							x := s
							if c.Bool() && r.s != nil {
								x = r.s
							}
							mu.Unlock()
							x.Close()
							c.Ev("closed", s.StreamID())
						}()
					}
					gap()
				}
			})
		}
	}
	if !c.All("opens and accepts", fns...) || c.Failed() {
		return
	}
	closers.Wait()
	settle := 35 * time.Second
	if c.Mode == Real {
		settle = 2 * time.Second
	}
	for _, r := range byKey {
		if r.s == nil || r.a == nil {
			c.Violate("unmatched", "an open has no accepted counterpart")
			return
		}
		if r.s.StreamID() != r.a.StreamID() {
			c.Violate("id-differs", "opener says stream %d, acceptor %d", r.s.StreamID(), r.a.StreamID())
			return
		}
	}
	check := func(what string) bool {
		time.Sleep(settle)
		want := map[uint64]bool{1: true}
		for _, r := range byKey {
			if !r.closed {
				want[r.s.StreamID()] = true
			}
		}
		for side := 0; side < 2; side++ {
			got := ids(e.End(side).ListStreams())
			for id, n := range got {
				if n != 1 || !want[id] {
					c.ViolateTimed("list", "%s: side %d lists stream %d (%d times), live: %v", what, side, id, n, want)
					return false
				}
			}
			if len(got) != len(want) {
				c.ViolateTimed("list", "%s: side %d lists %d streams, %d live", what, side, len(got), len(want))
				return false
			}
			c.Ev("listed", len(got))
		}
		return true
	}
	if !check("after opens and closes") {
		return
	}
	// nothing else can be accepted
	extra := make(chan int, 2)
	for side := 0; side < 2; side++ {
		if side == 1 && useFn {
			continue
		}
		go func() {
			if _, err := e.End(side).AcceptStream(); err == nil {
				extra <- side
			}
		}()
	}
	if len(cbCh) > 0 {
		c.Violate("accept-extra", "the accept callback fired %d times too often", len(cbCh))
	}
	// the live ones still work; then close them all
	var work []func()
	for _, r := range byKey {
		if !r.closed && c.Chance(50) {
			work = append(work, func() {
				b := c.Bytes(20)
				r.a.Write(b)
				got, err := readFull(r.s, 20)
				if err != nil || !bytes.Equal(got, b) {
					c.Violate("echo", "live stream %d delivered %x (%v) for %x", r.s.StreamID(), got, err, b)
				}
			})
		}
	}
	if !c.All("use of live streams", work...) || c.Failed() {
		return
	}
	for _, r := range byKey {
		if !r.closed {
			r.closed = true
			if c.Bool() {
				r.s.Close()
			}
			if c.Bool() {
				r.a.Close()
			} else {
				r.s.Close()
			}
		}
	}
	if !check("after closing all") {
		return
	}
	select {
	case side := <-extra:
		c.Violate("accept-extra", "side %d accepted a stream nobody opened", side)
	default:
	}
	c.Sample("%v opens, callback %v, %d%% closed early", perSide, useFn, closePct)
}

// streamUnaccepted: opens complete before anyone accepts, and every one is
// accepted later, in whatever order, with what was sent meanwhile; some are
// closed before being accepted.
func streamUnaccepted(c *C) {
	e := c.NewEnv(EnvOpt{Link: c.LinkOf()})
	if e == nil {
		return
	}
	side := c.N(2)
	n := c.Range(1, 28)
	recs := map[uint64]*openRec{}
	for i := 0; i < n; i++ {
		r := &openRec{key: c.U64(), side: side, closed: c.Chance(30)}
		r.meta = u64b(r.key)
		recs[r.key] = r
		var err error
		if !c.Do("OpenStream", func() {
			oo := options.OpenStream()
			oo.SetMeta(r.meta)
			r.s, err = e.End(side).OpenStream(given(c, oo)...)
		}) {
			return
		}
		if err != nil {
			c.Violate("open", "OpenStream %d of %d while nobody accepts: %v", i, n, err)
			return
		}
		r.s.Write(r.meta)
		if r.closed {
			r.s.Close()
		}
		c.Ev("opened", r.s.StreamID())
	}
	time.Sleep(time.Duration(c.N(40)) * time.Second)
	for i := 0; i < n; i++ {
		var s geminio.Stream
		var err error
		if !c.Do("AcceptStream", func() { s, err = acceptOne(c, e.End(1-side)) }) {
			return
		}
		if err != nil {
			c.Violate("accept", "AcceptStream %d of %d: %v", i, n, err)
			return
		}
		r := recs[binary.BigEndian.Uint64(append(s.Meta(), make([]byte, 8)...))]
		if r == nil || r.s.StreamID() != s.StreamID() || r.accepted > 0 {
			c.Violate("foreign-stream", "accepted stream %d with meta %s: not (or twice) the one opened", s.StreamID(), short(s.Meta()))
			return
		}
		r.accepted++
		r.a = s
		var b []byte
		if !c.Do("reading the key", func() { b, err = readFull(s, 8) }) {
			return
		}
		if err != nil || !bytes.Equal(b, r.meta) {
			c.Violate("first-read", "stream %d (closed before accepted: %v) delivered %x, %v", s.StreamID(), r.closed, b, err)
			return
		}
		if r.closed {
			if !c.Do("reading EOF", func() { _, err = s.Read(make([]byte, 8)) }) {
				return
			}
			if err != io.EOF {
				c.Violate("eof", "stream closed before it was accepted: Read gives %v", err)
				return
			}
		}
		c.Ev("accepted", s.StreamID())
	}
	time.Sleep(35 * time.Second)
	for sd := 0; sd < 2; sd++ {
		got := ids(e.End(sd).ListStreams())
		for _, r := range recs {
			if want := 1; (got[r.s.StreamID()] == want) == r.closed {
				c.Violate("list", "side %d lists stream %d %d times, closed %v", sd, r.s.StreamID(), got[r.s.StreamID()], r.closed)
				return
			}
		}
	}
}

// ---- C09 ----------------------------------------------------------------------

type early struct {
	f  *rawFlow
	pb *publisher
	cl *caller
	n  int
}

// sendFns uses the stream at once; recvFns is the other side, once it is up.
func (c *C) newEarly(s geminio.Stream) *early {
	return &early{f: c.NewFlow("early", s, nil), pb: c.publisher(s, nil), n: c.Range(1, 20)}
}

func (x *early) sendFns(c *C, handled bool) []func() {
	fns := []func(){
		func() {
			for i := 0; i < x.n; i++ {
				if err := x.f.Write(1 + c.Size(300)); err != nil {
					c.Violate("early-write", "Write right after coming up: %v", err)
				}
			}
		},
		func() { x.pb.publish(x.n, 200, nil) },
	}
	if handled {
		fns = append(fns, func() {
			req := x.pb.s.NewRequest([]byte("early"))
			rsp, err := x.pb.s.Call(bg, "early", req)
			switch {
			case err != nil && err.Error() == "no such rpc: early":
				c.Ev("early_call_unserved")
			case err != nil:
				c.Violate("early-call", "Call right after coming up: %v", err)
			case string(rsp.Data()) != "early!":
				c.Violate("early-call", "response %q", rsp.Data())
			default:
				c.Ev("early_call")
			}
		})
	}
	return fns
}

func (x *early) recvFns(c *C, q geminio.Stream, sent <-chan struct{}) []func() {
	x.f.r, x.pb.q = q, q
	return []func(){
		func() {
			// all is written without anyone reading, so it is known by then
			<-sent
			x.f.ReadN(func() (int64, bool) { return x.f.written, true }, 400)
			x.f.NoExtra()
		},
		func() { x.pb.receive(x.n, nil) },
	}
}

func (c *C) sleepUpTo(ms int) {
	if c.Chance(30) {
		return
	}
	d := time.Duration(c.N(ms)) * time.Millisecond
	if c.Mode == Real {
		d /= 100
	}
	time.Sleep(d)
}

func earlyStream(c *C) {
	o := EnvOpt{Link: c.LinkOf()}
	on := func(ev dEv) {
		if ev.Kind == "dlgon" {
			c.sleepUpTo(3000)
		}
	}
	if c.Bool() {
		o.CD = func(x *cliDlg) { x.onEv = on }
		o.SD = func(x *srvDlg) { x.onEv = on }
	}
	useFn := c.Chance(30)
	cb := make(chan geminio.Stream, 10)
	if useFn {
		o.Srv = func(so *server.EndOptions) {
			so.SetAcceptStreamFunc(func(s geminio.Stream) { cb <- s })
		}
	}
	e := c.NewEnv(o)
	if e == nil {
		return
	}
	var fns []func()
	for k := 0; k < c.Range(1, 4); k++ {
		opener := c.N(2)
		acceptWait, openHold := 0, false
		if c.Bool() {
			acceptWait = 3000
		} else {
			openHold = c.Bool()
		}
		fns = append(fns, func() {
			accept := func() (geminio.Stream, error) {
				if useFn && opener == 0 {
					return <-cb, nil
				}
				return e.End(1 - opener).AcceptStream()
			}
			type up struct {
				s  geminio.Stream
				x  *early
				ch chan struct{}
			}
			oUp, aUp := make(chan up, 1), make(chan up, 1)
			use := func(s geminio.Stream, to chan up) {
				u := up{s, c.newEarly(s), make(chan struct{})}
				to <- u
				ff := u.x.sendFns(c, true)
				go func() { ff[0](); close(u.ch) }()
				var wg sync.WaitGroup
				for _, f := range ff[1:] {
					wg.Add(1)
					go func() { defer wg.Done(); f() }()
				}
				wg.Wait()
			}
			var wg sync.WaitGroup
			wg.Add(4)
			serve := func(s geminio.Stream, err error) bool {
				if err != nil {
					c.Violate("open", "open/accept: %v", err)
					return false
				}
				go s.Register(bg, "early", func(_ context.Context, r geminio.Request, p geminio.Response) {
					p.SetData(append(append([]byte(nil), r.Data()...), '!'))
				})
				return true
			}
			key := u64b(c.U64())
			oo := options.OpenStream()
			oo.SetMeta(key)
			go func() {
				defer wg.Done()
				s, err := e.End(opener).OpenStream(given(c, oo)...)
				if !serve(s, err) {
					close(oUp)
					return
				}
				use(s, oUp)
			}()
			go func() {
				defer wg.Done()
				if openHold && e.Link != nil {
					// the accept side sends all before the opener learns of it
					e.Link.Hold(opener == 1, opener == 0)
					time.AfterFunc(time.Duration(c.Range(1, 2000))*time.Millisecond, func() { e.Link.Hold(false, false) })
				}
				c.sleepUpTo(acceptWait + 1)
				s, err := accept()
				if !serve(s, err) {
					close(aUp)
					return
				}
				if k == 0 && len(fns) == 1 && !bytes.Equal(s.Meta(), key) {
					c.Violate("meta", "accepted meta %s", short(s.Meta()))
				}
				use(s, aUp)
			}()
			// with several streams at once the accept order need not be the
			// open order, so pair them by id
			o, ok1 := <-oUp
			a, ok2 := <-aUp
			if !ok1 || !ok2 {
				wg.Add(-2)
				wg.Wait()
				return
			}
			registry.pair(c, e, opener, o.s, o.x, o.ch, a.s, a.x, a.ch)
			wg.Add(-2)
			wg.Wait()
		})
		if !c.All("early stream use", fns[len(fns)-1]) || c.Failed() {
			return
		}
	}
}

var registry pairReg

type pairReg struct{}

func (pairReg) pair(c *C, e *Env, opener int, o geminio.Stream, ox *early, och chan struct{}, a geminio.Stream, ax *early, ach chan struct{}) {
	if o.StreamID() != a.StreamID() {
		c.Violate("id-differs", "opener says stream %d, acceptor %d", o.StreamID(), a.StreamID())
		return
	}
	c.sleepUpTo(2000)
	var fns []func()
	fns = append(fns, ox.recvFns(c, a, och)...)
	fns = append(fns, ax.recvFns(c, o, ach)...)
	c.All("receiving what was sent early", fns...)
	c.Ev("early_pair", opener)
}

// earlyEnd: one End is up and used at once while the other's construction is
// still held up.
func earlyEnd(c *C) {
	o := EnvOpt{Link: c.LinkOf()}
	slowSide := c.N(2)
	hold := func(ev dEv) {
		switch ev.Kind {
		case "connon", "getid", "dlgon":
			c.sleepUpTo(4000)
		}
	}
	if c.Bool() {
		o.SD = func(x *srvDlg) { x.onEv = hold }
		o.CD = func(x *cliDlg) { x.onEv = hold }
	}
	local := &geminio.MethodRPC{Method: "early", RPC: func(_ context.Context, r geminio.Request, p geminio.Response) {
		p.SetData(append(append([]byte(nil), r.Data()...), '!'))
	}}
	e := &Env{c: c}
	if c.Mode == Real && c.Bool() {
		a, b, err := c.tcpPair()
		if err != nil {
			c.Inconclusive("tcp: %v", err)
			return
		}
		e.cn, e.sn = a, b
		c.Cleanup(func() { a.Close(); b.Close() })
	} else {
		e.Link = c.NewLink(o.Link)
		e.cn, e.sn = e.Link.A, e.Link.B
	}
	e.CD, e.SD = &cliDlg{dlg{c: c}}, &srvDlg{dlg{c: c}}
	if o.SD != nil {
		o.SD(e.SD)
		o.CD(e.CD)
	}
	if slowSide == 0 && e.Link != nil && c.Bool() {
		// the server's answers reach the client late
		e.Link.Hold(false, true)
		time.AfterFunc(time.Duration(c.Range(1, 3000))*time.Millisecond, func() { e.Link.Hold(false, false) })
	}
	opens := c.N(4)
	type up struct {
		s  geminio.End
		x  *early
		ch chan struct{}
	}
	ups := [2]chan up{make(chan up, 1), make(chan up, 1)}
	build := func(side int) func() {
		return func() {
			if c.Chance(30) {
				c.sleepUpTo(2000)
			}
			var end geminio.End
			var err error
			if side == 0 {
				end, err = client.NewEndWithConn(e.cn, c.cliOpts(e.CD, func(o *client.EndOptions) { o.SetRegisterLocalRPCs(local) }))
			} else {
				end, err = server.NewEndWithConn(e.sn, c.srvOpts(e.SD, func(o *server.EndOptions) { o.SetRegisterLocalRPCs(local) }))
			}
			if err != nil {
				c.Violate("construct", "side %d: %v", side, err)
				close(ups[side])
				return
			}
			u := up{end, c.newEarly(end), make(chan struct{})}
			ups[side] <- u
			var wg sync.WaitGroup
			ff := u.x.sendFns(c, true)
			go func() { ff[0](); close(u.ch) }()
			for _, f := range ff[1:] {
				wg.Add(1)
				go func() { defer wg.Done(); f() }()
			}
			for i := 0; i < opens; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					s, err := end.OpenStream()
					if err != nil {
						c.Violate("early-open", "OpenStream right after construction: %v", err)
						return
					}
					s.Write(u64b(s.StreamID()))
				}()
			}
			wg.Wait()
		}
	}
	ok := c.All("early End use", build(0), build(1), func() {
		a, ok1 := <-ups[0]
		b, ok2 := <-ups[1]
		if !ok1 || !ok2 {
			return
		}
		e.Cli, e.Srv = a.s, b.s
		c.Cleanup(e.closeAll)
		c.sleepUpTo(2000)
		fns := append(a.x.recvFns(c, b.s, a.ch), b.x.recvFns(c, a.s, b.ch)...)
		for _, end := range []geminio.End{a.s, b.s} {
			fns = append(fns, func() {
				for i := 0; i < opens; i++ {
					s, err := end.AcceptStream()
					if err != nil {
						c.Violate("accept", "AcceptStream: %v", err)
						return
					}
					k, err := readFull(s, 8)
					if err != nil || binary.BigEndian.Uint64(k) != s.StreamID() {
						c.Violate("early-open", "accepted stream %d delivered %x, %v", s.StreamID(), k, err)
					}
					c.Ev("early_open")
				}
			})
		}
		c.All("receiving what was sent early", fns...)
	})
	if !ok || c.Failed() {
		return
	}
	c.Ev("early_end", slowSide)
}

// ---- C10 ----------------------------------------------------------------------

// deadOps verifies that every operation on the closed stream fails.
func (c *C) deadOps(what string, s geminio.Stream) bool {
	ok := true
	try := func(op string, f func() error) {
		if !ok {
			return
		}
		var err error
		if !c.DoIn(time.Minute, op+" on "+what, func() { err = f() }) {
			ok = false
			return
		}
		if err == nil {
			c.Violate("dead-op", "%s on %s succeeded", op, what)
			ok = false
		}
		c.Ev("dead_op", op)
	}
	try("Write", func() error { _, err := s.Write([]byte("x")); return err })
	try("Read", func() error { _, err := s.Read(make([]byte, 4)); return err })
	try("Call", func() error { _, err := s.Call(bg, "m", s.NewRequest(nil)); return err })
	try("CallAsync", func() error {
		x, err := s.CallAsync(bg, "m", s.NewRequest(nil), nil)
		if err == nil {
			err = (<-x.Done).Error
		}
		return err
	})
	try("Publish", func() error { return s.Publish(bg, s.NewMessage([]byte("m"))) })
	try("PublishAsync", func() error {
		x, err := s.PublishAsync(bg, s.NewMessage([]byte("m")), nil)
		if err == nil {
			err = (<-x.Done).Error
		}
		return err
	})
	try("Receive", func() error { _, err := s.Receive(bg); return err })
	try("Register", func() error {
		return s.Register(bg, "m", func(context.Context, geminio.Request, geminio.Response) {})
	})
	return ok
}

// drainTo reads until an error and returns everything.
func drainTo(s geminio.Stream, bufMax int, c *C) ([]byte, error) {
	var out []byte
	for {
		b := make([]byte, 1+c.N(bufMax))
		n, err := s.Read(b)
		out = append(out, b[:n]...)
		if err != nil {
			return out, err
		}
	}
}

type drainSide struct {
	raw  []byte
	msgs [][]byte
}

func (c *C) fill(s geminio.Stream, d *drainSide, nRaw, nMsg int) bool {
	ok := true
	for i, j := 0, 0; (i < nRaw || j < nMsg) && ok; {
		if j >= nMsg || i < nRaw && c.Bool() {
			b := c.Bytes(1 + c.Size(500))
			if _, err := s.Write(b); err != nil {
				c.Violate("write", "Write: %v", err)
				ok = false
			}
			d.raw = append(d.raw, b...)
			i++
			continue
		}
		b := append(u64b(c.U64()), c.Bytes(c.Size(200))...)
		o := options.NewMessage()
		var err error
		if c.Bool() {
			o.SetCnss(options.CnssAtMostOnce)
			err = s.Publish(bg, s.NewMessage(b, o))
		} else {
			_, err = s.PublishAsync(bg, s.NewMessage(b), nil)
		}
		if err != nil {
			c.Violate("publish", "publish: %v", err)
			ok = false
		}
		d.msgs = append(d.msgs, b)
		j++
	}
	return ok
}

// drained verifies that s delivers exactly d, then EOF.
func (c *C) drained(what string, s geminio.Stream, d *drainSide) {
	bufMax := c.Pick(1, 50, 2000)
	fns := []func(){
		func() {
			got, err := drainTo(s, bufMax, c)
			if err != io.EOF || !bytes.Equal(got, d.raw) {
				c.Violate("drain-raw", "%s: %d of %d raw bytes (equal prefix %v), then %v", what, len(got), len(d.raw),
					bytes.HasPrefix(d.raw, got), err)
			}
			c.Ev("drained_raw", len(got))
		},
		func() {
			for i := 0; ; i++ {
				m, err := s.Receive(bg)
				if err != nil {
					if err != io.EOF || i != len(d.msgs) {
						c.Violate("drain-msg", "%s: %d of %d messages, then %v", what, i, len(d.msgs), err)
					}
					return
				}
				if i >= len(d.msgs) || !bytes.Equal(m.Data(), d.msgs[i]) {
					c.Violate("drain-msg", "%s: message %d of %d differs", what, i, len(d.msgs))
					return
				}
				if c.Bool() {
					m.Done()
				}
				c.Ev("drained_msg", i)
			}
		},
	}
	c.All("reading the rest of "+what, fns...)
}

func closeDrain(c *C) {
	o := c.Stock()
	e := c.NewEnv(o)
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.Pick(1, 1, 2, 4))
	if !ok {
		return
	}
	closeEnd := c.Chance(25)
	closer := c.N(2)
	first := 1
	if closeEnd {
		first = 0
	}
	ps = ps[first:]
	ds := make([]*drainSide, len(ps))
	for i, p := range ps {
		ds[i] = &drainSide{}
		if !c.Do("filling", func() { c.fill(p.at(closer), ds[i], c.Range(0, 30), c.Range(0, 28)) }) || c.Failed() {
			return
		}
	}
	delay := time.Duration(c.Pick(0, 1, 50, 5000, 60000)) * time.Millisecond
	var mu vsync.Quiet
	seq := 0
	_ = seq
	if closeEnd {
		go func() {
			c.Do("End.Close", func() { e.End(closer).Close() })
			mu.Lock()
			seq++
			mu.Unlock()
		}()
	} else {
		for _, p := range ps {
			k := c.Pick(1, 1, 2, 5)
			var fns []func()
			for i := 0; i < k; i++ {
				fns = append(fns, func() { p.at(closer).Close() })
			}
			if !c.All("Close", fns...) {
				return
			}
		}
	}
	c.Ev("closing", closeEnd, delay)
	time.Sleep(delay)
	for i, p := range ps {
		c.drained(fmt.Sprintf("stream %d (closed %v ago, End %v)", p.o.StreamID(), delay, closeEnd), p.at(1-closer), ds[i])
		if c.Failed() {
			return
		}
	}
	time.Sleep(31 * time.Second)
	for _, p := range ps {
		for side := 0; side < 2; side++ {
			if !c.deadOps(fmt.Sprintf("side %d of a closed stream (closer %d)", side, closer), p.at(side)) {
				return
			}
		}
	}
	if !closeEnd {
		for side := 0; side < 2; side++ {
			got := ids(e.End(side).ListStreams())
			for _, p := range ps {
				if got[p.o.StreamID()] > 0 {
					c.Violate("listed", "side %d still lists the closed stream %d", side, p.o.StreamID())
					return
				}
			}
			if got[1] != 1 {
				c.Violate("listed", "side %d lists the default stream %d times", side, got[1])
			}
		}
		// closing again is harmless, and the End works
		c.All("Close again", func() { ps[0].o.Close() }, func() { ps[0].a.Close() })
		f := c.NewFlow("default stream", e.End(closer), e.End(1-closer))
		c.All("the default stream afterwards", func() { f.Full(5, 100, 50, nil) })
	}
	c.Sample("%d streams, End %v, reader %v late", len(ps), closeEnd, delay)
}

// closeFlow closes after a long flow which is being read all along.
func closeFlow(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.Range(1, 3))
	if !ok {
		return
	}
	ps = ps[1:]
	var fns []func()
	for _, p := range ps {
		closer := c.N(2)
		n := c.Range(1, 200)
		f := c.NewFlow("flow to a close", p.at(closer), p.at(1-closer))
		pb := c.publisher(p.at(closer), p.at(1-closer))
		var done atomic.Bool
		gap := c.gapFn()
		m := c.Range(0, 30)
		var left sync.WaitGroup
		left.Add(2)
		fns = append(fns, func() {
			defer left.Done()
			for i := 0; i < n; i++ {
				if err := f.Write(1 + c.Size(500)); err != nil {
					c.Violate("write", "Write before the close: %v", err)
				}
				gap()
			}
		}, func() {
			defer left.Done()
			pb.publish(m, 100, nil)
		}, func() {
			left.Wait()
			done.Store(true)
			p.at(closer).Close()
			c.Ev("closed_flow", n)
		}, func() {
			bufMax := c.Pick(1, 30, 1000)
			for {
				b := make([]byte, 1+c.N(bufMax))
				k, err := p.at(1 - closer).Read(b)
				if k > 0 && !f.got(b[:k]) {
					return
				}
				if err != nil {
					if err != io.EOF || !done.Load() || f.read != f.written {
						c.Violate("drain-raw", "Read ended with %v after %d of %d bytes (closed: %v)", err, f.read, f.written, done.Load())
					}
					return
				}
			}
		}, func() {
			pb.receive(m, nil)
			if _, err := p.at(1 - closer).Receive(bg); err != io.EOF {
				c.Violate("drain-msg", "Receive after %d messages and the close: %v", m, err)
			}
		})
	}
	c.All("flows and closes", fns...)
}

// closeBoth closes from both sides at once, under traffic.
func closeBoth(c *C) {
	e := c.NewEnv(EnvOpt{Link: c.LinkOf()})
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.Range(1, 4))
	if !ok {
		return
	}
	ps = ps[1:]
	var fns []func()
	for _, p := range ps {
		gap := time.Duration(c.Pick(0, 0, 1, 30, 200)) * time.Millisecond
		lag := time.Duration(c.N(100)) * time.Millisecond
		for side := 0; side < 2; side++ {
			s := p.at(side)
			var sent []byte
			var mu vsync.Quiet
			stop := make(chan struct{})
			fns = append(fns, func() { // writer, until the close
				sem := 0
				for sem < 30 {
					select {
					case <-stop:
						return
					default:
					}
					b := c.Bytes(1 + c.N(50))
					mu.Lock()
					sent = append(sent, b...)
					mu.Unlock()
					if _, err := s.Write(b); err != nil {
						return
					}
					sem++
					time.Sleep(time.Duration(c.N(10)) * time.Millisecond)
				}
			}, func() { // reader on the other side
				got, err := drainTo(p.at(1-side), c.Pick(1, 100), c)
				mu.Lock()
				ok := bytes.HasPrefix(sent, got)
				mu.Unlock()
				if err != io.EOF || !ok {
					c.Violate("both-read", "under a close from both sides Read delivered %d bytes (prefix %v), then %v", len(got), ok, err)
				}
				c.Ev("both_read", len(got))
			}, func() {
				for {
					if _, err := s.Receive(bg); err != nil {
						if err != io.EOF {
							c.Violate("both-recv", "Receive: %v", err)
						}
						return
					}
				}
			}, func() {
				for i := 0; i < 20; i++ {
					if s.Publish(bg, s.NewMessage([]byte("x"), msgAtMostOnce)) != nil {
						return
					}
				}
			}, func() {
				time.Sleep(lag)
				if side == 1 {
					time.Sleep(gap)
				}
				close(stop)
				for i := 0; i < 3; i++ {
					s.Close()
				}
				c.Ev("both_closed", side)
			})
		}
	}
	if !c.All("closes from both sides", fns...) || c.Failed() {
		return
	}
	time.Sleep(31 * time.Second)
	for _, p := range ps {
		for side := 0; side < 2; side++ {
			if !c.deadOps(fmt.Sprintf("side %d of a stream closed by both", side), p.at(side)) {
				return
			}
			if ids(e.End(side).ListStreams())[p.o.StreamID()] > 0 {
				c.Violate("listed", "side %d still lists the closed stream", side)
			}
		}
	}
	f := c.NewFlow("default stream", e.Cli, e.Srv)
	c.All("the default stream afterwards", func() { f.Full(5, 100, 50, nil) })
}

var msgAtMostOnce = func() *options.NewMessageOptions {
	o := options.NewMessage()
	o.SetCnss(options.CnssAtMostOnce)
	return o
}()

// ---- C21 ----------------------------------------------------------------------

// steady keeps a pair busy and verifies it, until told to stop.
func (c *C) steady(what string, p pair, stop *atomic.Bool) []func() {
	var fns []func()
	for side := 0; side < 2; side++ {
		s, q := p.at(side), p.at(1-side)
		cl := c.caller(s, q, "steady")
		if cl == nil {
			return nil
		}
		fns = append(fns, func() { // calls
			for !stop.Load() && cl.once(100) {
				time.Sleep(time.Duration(c.N(20)) * time.Millisecond)
			}
		})
		f := c.NewFlow(what, s, q)
		fns = append(fns, func() { // raw with read deadlines in between
			for !stop.Load() && !c.Failed() {
				for i := 0; i < c.Range(1, 5); i++ {
					if f.Write(1+c.N(100)) != nil {
						c.Violate("steady-write", "%s: Write: %v", what, f.werr)
						return
					}
				}
				if !f.ReadN(func() (int64, bool) { return f.written, true }, 64) {
					return
				}
				if c.Chance(30) {
					d := time.Duration(c.Range(1, 200)) * time.Millisecond
					t0 := time.Now()
					q.SetReadDeadline(t0.Add(d))
					n, err := q.Read(make([]byte, 8))
					if el := time.Since(t0); n != 0 || !errors.Is(err, os.ErrDeadlineExceeded) || el < d || el > d+slack {
						c.Violate("steady-deadline", "%s: Read with a deadline in %v: %d, %v after %v", what, d, n, err, el)
						return
					}
					q.SetReadDeadline(time.Time{})
					c.Ev("steady_deadline")
				}
				time.Sleep(time.Duration(c.N(20)) * time.Millisecond)
			}
		})
		pb := c.publisher(s, q)
		turn := make(chan struct{})
		fns = append(fns, func() {
			for i := 0; !stop.Load() && !c.Failed(); i++ {
				r := pb.newRec(0, i, 60)
				turn <- struct{}{}
				if !pb.check(r, s.Publish(bg, pb.message(r))) {
					break
				}
				time.Sleep(time.Duration(c.N(20)) * time.Millisecond)
			}
			close(turn)
		}, func() {
			for range turn {
				if _, err := pb.recvOne(bg); err != nil {
					c.Violate("steady-recv", "%s: Receive: %v", what, err)
					return
				}
			}
		})
		slow := fmt.Sprintf("slow-%d", side)
		q.Register(bg, slow, func(ctx context.Context, _ geminio.Request, rsp geminio.Response) {
			time.Sleep(3 * time.Second)
		})
		fns = append(fns, func() { // exact timeouts
			for !stop.Load() && !c.Failed() {
				d := time.Duration(c.Range(20, 600)) * time.Millisecond
				req := s.NewRequest(nil)
				req.SetTimeout(d)
				t0 := time.Now()
				_, err := s.Call(bg, slow, req)
				if el := time.Since(t0); !isTimeout(err) || el+20*time.Millisecond < d || el > d+slack {
					c.Violate("steady-timeout", "%s: Call with timeout %v of a slow method: %v after %v", what, d, err, el)
					return
				}
				c.Ev("steady_timeout")
			}
		})
	}
	return fns
}

// abuse does a random thing on a fresh stream pair, bounded.
func (c *C) abuse(e *Env) bool {
	side := c.N(2)
	p, ok := e.OpenPair(side)
	if !ok {
		return false
	}
	s, q := p.o, p.a
	if c.Bool() {
		s, q = q, s
	}
	ctxIn := func(d time.Duration) context.Context {
		ctx, cancel := context.WithTimeout(bg, d)
		time.AfterFunc(d+time.Millisecond, cancel)
		return ctx
	}
	ms := func(n int) time.Duration { return time.Duration(1+c.N(n)) * time.Millisecond }
	reading := false // one Read at a time: others wait for a mutex, which stops virtual time
	for i := 0; i < c.Range(1, 6); i++ {
		k := c.N(12)
		if reading && (k == 4 || k == 9) {
			k = 0
		}
		c.Ev("abuse", k)
		switch k {
		case 0: // calls timing out
			q.Register(bg, "block", func(ctx context.Context, _ geminio.Request, _ geminio.Response) { time.Sleep(2 * time.Second) })
			var fns []func()
			for j := 0; j < c.Range(1, 10); j++ {
				d := ms(300)
				fns = append(fns, func() {
					r := s.NewRequest(nil)
					if c.Bool() {
						r.SetTimeout(d)
						s.Call(bg, "block", r)
					} else {
						s.Call(ctxIn(d), "block", r)
					}
				})
			}
			if !c.All("calls timing out", fns...) {
				return false
			}
		case 1: // no such method, handler error
			s.Call(ctxIn(ms(100)), "nope", s.NewRequest(nil))
			q.Register(bg, "err", func(_ context.Context, _ geminio.Request, r geminio.Response) { r.SetError(errors.New("x")) })
			s.Call(ctxIn(ms(100)), "err", s.NewRequest(nil))
		case 2: // never acknowledged
			m := s.NewMessage([]byte("x"))
			m.SetTimeout(ms(200))
			s.Publish(bg, m)
		case 3: // rejected
			s.PublishAsync(bg, s.NewMessage([]byte("y")), nil)
			if m, err := q.Receive(ctxIn(ms(500))); err == nil {
				m.Error(errors.New("no"))
			}
		case 4: // deadlines
			s.SetDeadline(time.Now().Add(ms(50)))
			s.Read(make([]byte, 5))
			q.SetReadDeadline(time.Now().Add(-time.Second))
			q.Read(make([]byte, 5))
			s.SetDeadline(time.Time{})
		case 5: // unread data
			for j := 0; j < 4; j++ {
				s.Write(c.Bytes(c.Range(1, 200)))
			}
		case 6: // unread messages
			for j := 0; j < 3; j++ {
				s.Publish(bg, s.NewMessage([]byte("z"), msgAtMostOnce))
			}
		case 7: // failing registration
			ctx, cancel := context.WithCancel(bg)
			cancel()
			s.Register(ctx, "steady", func(context.Context, geminio.Request, geminio.Response) {})
		case 8: // hijack
			q.Hijack(func(_ context.Context, _ string, _ geminio.Request, r geminio.Response) {
				r.SetData([]byte("hijacked"))
			})
			s.Call(ctxIn(ms(100)), "steady", s.NewRequest(nil))
		case 9: // pending operations while it is closed
			reading = true
			go func() { s.Read(make([]byte, 1)) }()
			go func() { q.Receive(bg) }()
			go func() { s.Call(bg, "nope2", s.NewRequest(nil)) }()
		case 10:
			s.Close()
			q.Close()
		case 11:
			time.Sleep(ms(100))
		}
	}
	if c.Chance(80) {
		if c.Bool() {
			s.Close()
		}
		if c.Bool() {
			q.Close()
		}
	}
	return true
}

func isoSiblings(c *C) {
	e := c.NewEnv(EnvOpt{Link: LinkOpt{Latency: time.Duration(c.Pick(0, 1)) * time.Millisecond}})
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(3))
	if !ok {
		return
	}
	if c.Bool() && len(ps) > 1 {
		ps = ps[1:]
	}
	var stop atomic.Bool
	var fns []func()
	for i, p := range ps {
		fns = append(fns, c.steady(fmt.Sprintf("steady stream %d", i), p, &stop)...)
	}
	// no listener, no other stream's registration leaks in
	fns = append(fns, func() {
		for i := 0; i < c.Range(2, 8); i++ {
			if !c.abuse(e) {
				break
			}
		}
		time.Sleep(time.Second)
		stop.Store(true)
	})
	if c.All("steady streams beside abused ones", fns...) {
		time.Sleep(4 * time.Second) // slow handlers
	}
}

func isoEnds(c *C) {
	var tmr timer.Timer
	var opt EnvOpt
	shared := c.Chance(70)
	if shared {
		tmr = timer.NewTimer()
		c.Cleanup(func() { tmr.Close() })
	}
	which := c.N(3) // who shares: clients, servers, both
	set := func() EnvOpt {
		opt = EnvOpt{}
		if shared {
			opt.Cli = func(o *client.EndOptions) {
				if which != 1 {
					o.SetTimer(tmr)
				}
			}
			opt.Srv = func(o *server.EndOptions) {
				if which != 0 {
					o.SetTimer(tmr)
				}
			}
		}
		return opt
	}
	e := c.NewEnv(set())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(2))
	if !ok {
		return
	}
	var stop atomic.Bool
	var fns []func()
	for i, p := range ps {
		fns = append(fns, c.steady(fmt.Sprintf("steady End, stream %d", i), p, &stop)...)
	}
	fns = append(fns, func() {
		defer stop.Store(true)
		for i := 0; i < c.Range(1, 4); i++ {
			x := c.NewEnv(set())
			if x == nil {
				return
			}
			if c.Bool() && !c.abuse(x) {
				return
			}
			if c.Chance(30) { // an operation pending on it
				go x.Cli.Call(bg, "nope", x.Cli.NewRequest(nil))
				go x.Srv.Receive(bg)
				go x.Cli.Read(make([]byte, 1))
			}
			k := c.N(4)
			c.Ev("other_end", k)
			switch k {
			case 0:
				c.Do("End.Close", func() { x.Cli.Close() })
			case 1:
				c.Do("End.Close", func() { x.Srv.Close() })
			case 2:
				x.Link.Break(c.Bool())
			case 3:
				c.All("End.Close", func() { x.Srv.Close() }, func() { x.Cli.Close() })
			}
			time.Sleep(time.Duration(c.N(1500)) * time.Millisecond)
		}
		// a connection failing its handshake
		if c.Bool() {
			l := c.NewLink(LinkOpt{})
			so := set()
			go func() { l.B.Write([]byte("garbage garbage garbage")); l.B.Close() }()
			c.Do("a failing construction", func() {
				_, err := client.NewEndWithConn(l.A, c.cliOpts(nil, so.Cli))
				if err == nil {
					c.Violate("harness", "garbage was accepted")
				}
			})
		}
		time.Sleep(time.Duration(c.N(1500)) * time.Millisecond)
	})
	if c.All("a steady End beside others", fns...) {
		time.Sleep(4 * time.Second)
	}
}

var _ net.Conn
