package verif

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"github.com/singchia/go-timer/v2"

	"verif/vsync"
)

func init() {
	register(&Prop{ID: "C22",
		Rule: "Good connections run verified calls, messages, raw data, deadlines and exact timeouts while 1-4 hand-made peers, clients of the same server (same delegate and often the same timer) or servers of other clients, send drawn packet sequences: garbage bytes, every packet type with drawn, small, foreign or seen IDs, stale and repeated control packets, broken JSON, wrong lengths, before, during, instead of and after the handshake, answering what the library sends properly, wrongly, twice or never, while the application works on that End; then they vanish, close, fall silent or are closed. The process must survive, the good connections must not notice, every operation on the bad one must return, its transport must be closed and no goroutine may remain.",
		Scens: []*Scen{
			{Name: "client", Mode: Bubble, LeakBad: true, Quick: 160, Thorough: 9000, Batch: 8, Watch: 60, Fn: func(c *C) { hostilePeers(c, true) }},
			{Name: "server", Mode: Bubble, LeakBad: true, Quick: 80, Thorough: 5000, Batch: 8, Watch: 60, Fn: func(c *C) { hostilePeers(c, false) }},
			{Name: "alone", Mode: Bubble, LeakBad: true, Quick: 240, Thorough: 12000, Batch: 20, Watch: 60, Fn: hostileAlone},
			{Name: "wall", Mode: Real, Quick: 8, Thorough: 200, Batch: 1, Fn: func(c *C) { hostilePeers(c, c.Bool()) }},
		}})
}

// hostile is the hand-made peer of one connection.
type hostile struct {
	c      *C
	l      *Link
	me     *MemConn
	log    *WireLog // what the library sends to it
	server bool     // it plays the server
	lock   chan struct{}
	ctrl   int // percentage of packets of the conn layer, out of state, which mostly end it

	mu   vsync.Quiet
	ids  []uint64
	sess []uint64
	neg  []uint64
}

func (h *hostile) write(b []byte) bool {
	select {
	case h.lock <- struct{}{}:
	case <-time.After(time.Minute):
		return false
	}
	defer func() { <-h.lock }()
	_, err := h.me.Write(b)
	return err == nil
}

func (h *hostile) note(p WirePkt) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.ids = append(h.ids, p.ID)
	switch p.Type {
	case tSession:
		if len(p.Payload) >= 10 {
			h.neg = append(h.neg, binary.BigEndian.Uint64(p.Payload[2:]))
		}
	case tSessionAck:
		if len(p.Payload) >= 18 {
			h.sess = append(h.sess, binary.BigEndian.Uint64(p.Payload[10:]))
		}
	default:
		if s := p.Session(); s != 0 {
			h.sess = append(h.sess, s)
		}
	}
}

func (h *hostile) pick(xs []uint64) (uint64, bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(xs) == 0 {
		return 0, false
	}
	// rather the latest
	n := len(xs)
	if n > 6 && h.c.Chance(70) {
		return xs[n-1-h.c.N(6)], true
	}
	return xs[h.c.N(n)], true
}

func (h *hostile) id() uint64 {
	switch h.c.N(4) {
	case 0:
		return uint64(h.c.N(12))
	case 1:
		return h.c.U64()
	default:
		h.mu.Lock()
		xs := h.ids
		h.mu.Unlock()
		if v, ok := h.pick(xs); ok {
			if h.c.Chance(20) {
				v++
			}
			return v
		}
	}
	return uint64(1 + h.c.N(5))
}

func (h *hostile) session() uint64 {
	switch h.c.N(8) {
	case 0:
		return uint64(h.c.N(6))
	case 1:
		return h.c.U64()
	case 2, 3, 4:
		h.mu.Lock()
		xs := h.sess
		if h.c.Chance(30) {
			xs = h.neg
		}
		h.mu.Unlock()
		if v, ok := h.pick(xs); ok {
			return v
		}
	}
	return 1
}

var hostTypes = []byte{tConn, tConnAck, tDisConn, tDisConnAck, tHB, tHBAck, tSession, tSessionAck, tDismiss, tDismissAck,
	tMessage, tMessageAck, tStream, tRequest, tResponse, tReqCancel, tRegister, tRegisterAck}

func (h *hostile) body() []byte {
	c := h.c
	switch c.N(8) {
	case 0:
		return nil
	case 1:
		return []byte("null")
	case 2:
		return []byte(`{"error":"e"}`)
	case 3:
		return []byte(`{"timeout":-5,"deadline":"0001-01-01T00:00:00Z","context":{"deadline":"9999-12-31T23:59:59Z"}}`)
	case 4:
		return []byte(`{"key":"ZWNobw==","value":"AAAA","timeout":9223372036854775807}`)
	case 5:
		return []byte(`{"key":` + string(c.Bytes(c.N(5))))
	}
	m := msgData{Key: []byte([]string{"echo", "slow", "err", "nope", ""}[c.N(5)]), Value: c.Bytes(c.N(50))}
	if c.Chance(20) {
		m.Error = "err"
	}
	return js(m)
}

// packet draws one: mostly understandable.
func (h *hostile) packet() []byte {
	c := h.c
	t := hostTypes[c.N(len(hostTypes))]
	for t < tSession && t != tHB && t != tHBAck && !c.Chance(h.ctrl) {
		t = hostTypes[c.N(len(hostTypes))]
	}
	var b []byte
	switch t {
	case tConn:
		b = mkConn(h.id(), c.U64(), byte(c.N(16)), c.Bool(), c.Bytes(c.N(20)))
	case tConnAck:
		b = mkConnAck(h.id(), c.U64(), []string{"", "no"}[c.N(2)])
	case tDisConn:
		b = rawPkt(t, h.id(), nil)
	case tDisConnAck:
		b = mkDisConnAck(h.id())
	case tHB, tHBAck:
		b = rawPkt(t, h.id(), nil)
	case tSession:
		b = mkSession(h.id(), h.session(), c.Bool(), c.Bytes(c.N(20)), []string{"", "p"}[c.N(2)])
	case tSessionAck:
		h.mu.Lock()
		xs := h.neg
		h.mu.Unlock()
		n, ok := h.pick(xs)
		if !ok || c.Chance(30) {
			n = h.session()
		}
		b = mkSessionAck(h.id(), n, h.session(), []string{"", "no"}[c.N(2)])
	case tDismiss, tDismissAck:
		s := h.session()
		if s == 1 && c.Chance(80) {
			s = 2
		}
		b = rawPkt(t, h.id(), append(u64b(s), h.tail()...))
	case tStream, tRegister:
		b = rawPkt(t, h.id(), append(u64b(h.session()), c.Bytes(c.N(60))...))
	case tReqCancel:
		b = rawPkt(t, h.id(), append(u64b(h.session()), byte(c.N(4)), byte(c.N(4))))
	default:
		b = rawPkt(t, h.id(), append(u64b(h.session()), h.tail()...))
	}
	return b
}

// tail is a JSON body: it mostly parses, what doesn't ends the connection.
func (h *hostile) tail() []byte {
	for {
		b := h.body()
		if jsonOK(b) || h.c.Chance(h.ctrl/4) {
			return b
		}
	}
}

// junk damages a packet or makes one up; the library may give up on it.
func (h *hostile) junk() []byte {
	c := h.c
	b := h.packet()
	switch c.N(7) {
	case 0: // any type
		b[1] = byte(c.N(256))
	case 1: // flipped bits
		for i := c.Range(1, 4); i > 0; i-- {
			if k := c.N(len(b)); k < 10 || k > 11 {
				b[k] ^= 1 << c.N(8)
			}
		}
	case 2: // shorter, consistently
		if len(b) > 14 {
			b = b[:14+c.N(len(b)-14)]
			binary.BigEndian.PutUint32(b[10:], uint32(len(b)-14))
		}
	case 3: // shorter than said
		b = b[:c.Range(1, len(b))]
	case 4: // longer than said
		b = append(b, c.Bytes(c.Range(1, 40))...)
	case 5:
		b = c.Bytes(c.Range(1, 200))
		if len(b) >= 12 && b[0] == 1 {
			b[10], b[11] = 0, 0
		}
	case 6: // long
		b = rawPkt(hostTypes[c.N(len(hostTypes))], h.id(), c.Bytes(c.Range(1, 30000)))
	}
	if len(b) >= 12 && b[10] != 0 {
		b[10] = 0
	}
	return b
}

// answer answers what the library sent the way a peer should, or nil.
func (h *hostile) answer(p WirePkt) []byte {
	c := h.c
	switch p.Type {
	case tConn:
		return mkConnAck(p.ID, c.U64()|1, "")
	case tDisConn:
		return mkDisConnAck(p.ID)
	case tHB:
		return rawPkt(tHBAck, p.ID, nil)
	case tSession:
		if len(p.Payload) < 10 {
			return nil
		}
		n := binary.BigEndian.Uint64(p.Payload[2:])
		s := n
		if p.Payload[1]&0x10 != 0 || c.Chance(20) {
			s = uint64(1000 + c.N(20))
		}
		h.mu.Lock()
		h.sess = append(h.sess, s)
		h.mu.Unlock()
		return mkSessionAck(p.ID, n, s, "")
	case tDismiss:
		return rawPkt(tDismissAck, p.ID, append(u64b(p.Session()), []byte("{}")...))
	case tMessage:
		return mkData(tMessageAck, p.ID, p.Session(), msgData{})
	case tRequest:
		return mkData(tResponse, p.ID, p.Session(), msgData{Value: []byte("r")})
	case tRegister:
		return rawPkt(tRegisterAck, p.ID, append(u64b(p.Session()), []byte("{}")...))
	}
	return nil
}

// react reads what the library sends and answers in its way.
func (h *hostile) react(good int) {
	c := h.c
	var in []byte
	buf := make([]byte, 512)
	var pool sync.WaitGroup
	defer pool.Wait()
	for {
		n, err := h.me.Read(buf)
		if err != nil {
			return
		}
		in = append(in, buf[:n]...)
		for len(in) >= 14 {
			k := int(binary.BigEndian.Uint32(in[10:14])) + 14
			if len(in) < k {
				break
			}
			p := WirePkt{Type: in[1], ID: binary.BigEndian.Uint64(in[2:10]), Payload: append([]byte(nil), in[14:k]...)}
			in = in[k:]
			h.note(p)
			a := h.answer(p)
			if a == nil {
				continue
			}
			c.Ev("hostile_saw", p.Type)
			if !c.Chance(good) {
				switch c.N(6) {
				case 0:
					a = nil
				case 1: // twice
					a = append(a, a...)
				case 2: // with an error
					switch p.Type {
					case tSession:
						a = mkSessionAck(p.ID, 0, 0, "no")
					case tMessage, tRequest:
						a = mkData(a[1], p.ID, p.Session(), msgData{Error: "no"})
					}
				case 3: // to another ID
					binary.BigEndian.PutUint64(a[2:], h.id())
				case 4: // another type
					a[1] = hostTypes[c.N(len(hostTypes))]
					if a[1] == tConn || a[1] == tDisConn {
						a[1] = tHBAck
						a = a[:14]
						binary.BigEndian.PutUint32(a[10:], 0)
					}
				case 5: // another session
					if len(a) >= 22 && p.Type >= tDismiss {
						binary.BigEndian.PutUint64(a[14:], h.session())
					}
				}
			}
			if a == nil {
				continue
			}
			d := time.Duration(0)
			if c.Chance(30) {
				d = time.Duration(c.N(500)) * time.Millisecond
			}
			if d == 0 {
				if !h.write(a) {
					return
				}
				continue
			}
			pool.Add(1)
			time.AfterFunc(d, func() { defer pool.Done(); h.write(a) })
		}
	}
}

// script sends packets of its own.
func (h *hostile) script() (how string) {
	c := h.c
	before, greet, after := 0, true, c.N(60)
	if c.Chance(15) {
		before = c.N(4)
	}
	if c.Chance(10) {
		greet = false
	}
	junkAt := -1
	if c.Chance(40) {
		junkAt = c.N(after + 1)
	}
	how = fmt.Sprintf("%d packets before, greeting %v, %d after, junk at %d", before, greet, after, junkAt)
	for i := 0; i < before; i++ {
		b := h.packet()
		if c.Chance(20) {
			b = h.junk()
		}
		if !h.write(b) {
			return
		}
		c.Ev("hostile_packets", "before", b[1%len(b)])
	}
	if greet && !h.server {
		var id uint64 = 1
		if c.Chance(20) {
			id = h.id()
		}
		b := mkConn(id, c.U64(), byte(c.N(4)), c.Bool(), c.Bytes(c.N(20)))
		if c.Chance(10) {
			b = append(b, b...)
		}
		if !h.write(b) {
			return
		}
	}
	if c.Chance(70) { // at the same time, or once it is through
		c.sleepUpTo(100)
	}
	burst := c.Bool()
	for i := 0; i < after; i++ {
		b := h.packet()
		if i == junkAt {
			b = h.junk()
		}
		if !h.write(b) {
			return
		}
		t := byte(0)
		if len(b) > 1 {
			t = b[1]
		}
		c.Ev("hostile_packets", "after", t, i == junkAt)
		if !burst || c.Chance(10) {
			c.sleepUpTo(50)
		}
	}
	return
}

// victim is the application's use of the End with a hostile peer.
type victim struct {
	c    *C
	wg   sync.WaitGroup
	stop atomic.Bool
	n    atomic.Int64
}

func (v *victim) spawn(f func()) {
	v.wg.Add(1)
	go func() { defer v.wg.Done(); f() }()
}

func (v *victim) stream(s geminio.Stream, depth int) {
	c := v.c
	if v.n.Add(1) > 60 {
		depth = 9
	}
	v.spawn(func() {
		buf := make([]byte, 100)
		for {
			n, err := s.Read(buf)
			if err != nil {
				return
			}
			c.Ev("victim_read", n > 0)
		}
	})
	v.spawn(func() {
		for {
			m, err := s.Receive(bg)
			if err != nil {
				return
			}
			c.Ev("victim_received", len(m.Data()))
			if c.Chance(20) {
				m.Error(errors.New("bad"))
			} else if c.Chance(90) {
				m.Done()
			}
		}
	})
	v.spawn(func() {
		ctx := func() context.Context {
			ctx, cancel := context.WithTimeout(bg, time.Duration(1+c.N(3000))*time.Millisecond)
			time.AfterFunc(3*time.Second, cancel)
			return ctx
		}
		s.Register(ctx(), "echo", func(_ context.Context, req geminio.Request, rsp geminio.Response) { rsp.SetData(req.Data()) })
		s.Register(ctx(), "slow", func(ctx context.Context, _ geminio.Request, _ geminio.Response) {
			select {
			case <-ctx.Done():
			case <-time.After(2 * time.Second):
			}
		})
		s.Register(ctx(), "err", func(_ context.Context, _ geminio.Request, rsp geminio.Response) { rsp.SetError(errors.New("err")) })
		if c.Chance(20) {
			s.Hijack(func(_ context.Context, m string, _ geminio.Request, rsp geminio.Response) { rsp.SetData([]byte(m)) })
		}
		for i := c.N(8); i > 0 && !v.stop.Load(); i-- {
			var err error
			k := c.N(6)
			switch k {
			case 0:
				_, err = s.Call(ctx(), "m", s.NewRequest([]byte("x")))
			case 1:
				err = s.Publish(ctx(), s.NewMessage([]byte("x")))
			case 2:
				_, err = s.CallAsync(ctx(), "m", s.NewRequest([]byte("x")), nil)
			case 3:
				_, err = s.PublishAsync(ctx(), s.NewMessage([]byte("x")), nil)
			case 4:
				_, err = s.Write(c.Bytes(c.N(50)))
			case 5:
				if depth > 0 && c.Chance(30) {
					err = s.Close()
				}
			}
			c.Ev("victim_op", k, err == nil)
			c.sleepUpTo(100)
		}
	})
}

func (v *victim) end(e geminio.End, accepts bool) {
	c := v.c
	v.stream(e, 0)
	if accepts {
		v.spawn(func() {
			for {
				s, err := e.AcceptStream()
				if err != nil {
					return
				}
				c.Ev("victim_accepted")
				v.stream(s, 1)
			}
		})
	}
	v.spawn(func() {
		for i := c.N(5); i > 0 && !v.stop.Load(); i-- {
			var opts []*options.OpenStreamOptions
			if c.Bool() {
				o := options.OpenStream()
				o.SetMeta([]byte("m"))
				opts = append(opts, o)
			}
			s, err := e.OpenStream(opts...)
			c.Ev("victim_opened", err == nil)
			if err == nil {
				v.stream(s, 1)
			}
			c.sleepUpTo(200)
		}
	})
}

func jsonOK(b []byte) bool {
	for _, x := range b {
		if x == '{' || x == 'n' {
			break
		}
		return false
	}
	return len(b) > 0 && (string(b) == "null" || b[len(b)-1] == '}')
}

// bad runs one connection with a hand-made peer to its end.
func (c *C) bad(asClient bool, cli func(*client.EndOptions), srv func(*server.EndOptions)) bool {
	l := c.NewLink(c.LinkOf())
	h := &hostile{c: c, l: l, server: !asClient, lock: make(chan struct{}, 1), me: l.A,
		ctrl: c.Pick(0, 0, 3, 30)}
	if !asClient {
		h.me = l.B
	}
	v := &victim{c: c}
	good := c.Pick(0, 50, 90, 100)
	var how string
	var peer sync.WaitGroup
	peer.Add(2)
	scripted := make(chan struct{})
	reacts := c.Chance(90)
	go func() {
		defer peer.Done()
		if reacts {
			h.react(good)
		}
	}()
	go func() { defer peer.Done(); how = h.script(); close(scripted) }()
	var end geminio.End
	var err error
	accepts := !asClient || c.Chance(70)
	acceptFn := func(s geminio.Stream) { v.stream(s, 1) }
	built := make(chan struct{})
	go func() {
		defer close(built)
		if asClient {
			end, err = server.NewEndWithConn(l.B, c.srvOpts(nil, func(o *server.EndOptions) {
				srv(o)
				if !accepts {
					o.SetAcceptStreamFunc(acceptFn)
				}
			}))
		} else {
			end, err = client.NewEndWithConn(l.A, c.cliOpts(nil, func(o *client.EndOptions) {
				cli(o) // a client has no accept callback
			}))
		}
	}()
	lim := 25 * time.Second // the handshake's 10 s, and closing
	if !reacts {
		lim = 45 * time.Second
	}
	if !c.Wait(lim, "End construction with a hostile peer", built) {
		return false
	}
	c.Ev("hostile_conn", asClient, err == nil)
	mine := l.B
	if !asClient {
		mine = l.A
	}
	if err == nil {
		v.end(end, accepts)
	}
	// its end
	select {
	case <-scripted:
	case <-time.After(time.Minute):
	}
	c.sleepUpTo(1000)
	silent := false
	k := c.N(7)
	if c.Mode == Real {
		k = c.Pick(0, 1, 2, 4) // not those taking 30 s and more
	}
	switch k {
	case 0:
		l.Break(true)
	case 1:
		l.Break(false)
	case 2:
		h.me.Close()
	case 3:
		l.Blackhole(true, true)
		silent = true
	case 4:
		h.write(rawPkt(tDisConn, 77777, nil))
		c.sleepUpTo(100)
		h.me.Close()
	case 5: // the application closes
		silent = true
	case 6: // the hostile peer stops in the middle of a packet
		b := mkStream(9, 1, make([]byte, 100))
		h.write(b[:c.Range(1, len(b)-1)])
		silent = true
	}
	v.stop.Store(true)
	if err == nil {
		done := make(chan struct{})
		go func() { v.wg.Wait(); close(done) }()
		if silent && (k == 5 || !asClient || c.Bool() || c.Mode == Real) {
			// a client finds no silent server, and a half sent packet is no silence
			c.sleepUpTo(3000)
			if !c.DoIn(2*time.Minute, "Close of an End with a hostile peer", func() { end.Close() }) {
				return false
			}
		}
		// hb interval up to 320 s
		if !c.Wait(13*time.Minute, fmt.Sprintf("an operation on an End with a hostile peer (%s; end %d)", how, k), done) {
			return false
		}
		if !c.DoIn(2*time.Minute, "Close of an End with a hostile peer", func() { end.Close() }) {
			return false
		}
	}
	for i := 0; i < 40 && !mine.Closed(); i++ {
		time.Sleep(time.Second)
	}
	if !mine.Closed() {
		c.ViolateTimed("hostile-open", "the network connection of a hostile peer is still open 40 s after its End's end %d (%s), construction: %v", k, how, err)
		return false
	}
	l.Break(true)
	peer.Wait()
	c.Ev("hostile_done", k)
	return true
}

func hostilePeers(c *C, asClient bool) {
	var tmr timer.Timer
	if c.Chance(60) {
		tmr = timer.NewTimer()
		c.Cleanup(func() { tmr.Close() })
	}
	sd := &srvDlg{dlg{c: c}}
	cd := &cliDlg{dlg{c: c}}
	cli := func(o *client.EndOptions) {
		o.SetDelegate(cd)
		if tmr != nil {
			o.SetTimer(tmr)
		}
	}
	srv := func(o *server.EndOptions) {
		o.SetDelegate(sd)
		if tmr != nil {
			o.SetTimer(tmr)
		}
	}
	e := c.NewEnv(EnvOpt{Cli: cli, Srv: srv, NoDelegates: true})
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(2))
	if !ok {
		return
	}
	var stop atomic.Bool
	var fns []func()
	for i, p := range ps {
		fns = append(fns, c.steady(fmt.Sprintf("good connection, stream %d", i), p, &stop)...)
	}
	if c.Failed() {
		return
	}
	var good sync.WaitGroup
	for _, f := range fns {
		good.Add(1)
		go func() { defer good.Done(); f() }()
	}
	var bad sync.WaitGroup
	n := c.Range(1, 4)
	if c.Mode == Real {
		n = c.Range(1, 2)
	}
	for i := 0; i < n; i++ {
		bad.Add(1)
		go func() { defer bad.Done(); c.bad(asClient, cli, srv) }()
		if c.Bool() {
			c.sleepUpTo(2000)
		}
	}
	done := make(chan struct{})
	go func() { bad.Wait(); close(done) }()
	// long silences are for the bad ones only
	select {
	case <-done:
	case <-time.After(3 * time.Second):
	}
	time.Sleep(500 * time.Millisecond)
	stop.Store(true)
	gd := make(chan struct{})
	go func() { good.Wait(); close(gd) }()
	if !c.Wait(time.Minute, "a good connection beside hostile peers", gd) {
		return
	}
	if !c.Wait(25*time.Minute, "handling hostile peers", done) || c.Failed() {
		return
	}
	time.Sleep(4 * time.Second)
	// still there, and others can come
	for i := 0; i < 2; i++ {
		if i == 1 {
			if e = c.NewEnv(EnvOpt{Cli: cli, Srv: srv, NoDelegates: true}); e == nil {
				return
			}
		}
		p, ok := e.OpenPair(c.N(2))
		if !ok {
			return
		}
		f := c.NewFlow(fmt.Sprint("good ", i), p.o, p.a)
		if !c.Do("exchange on a good connection", func() { f.Full(3, 64, 100, nil) }) {
			return
		}
	}
}

// hostileAlone: more of them, without good ones.
func hostileAlone(c *C) {
	n := c.Range(1, 3)
	var bad sync.WaitGroup
	for i := 0; i < n; i++ {
		asClient := c.Chance(60)
		bad.Add(1)
		go func() {
			defer bad.Done()
			c.bad(asClient, func(*client.EndOptions) {}, func(*server.EndOptions) {})
		}()
	}
	done := make(chan struct{})
	go func() { bad.Wait(); close(done) }()
	c.Wait(25*time.Minute, "handling hostile peers", done)
}
