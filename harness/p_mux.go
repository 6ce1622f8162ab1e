package verif

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/conn"
	"github.com/singchia/geminio/multiplexer"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"github.com/singchia/go-timer/v2"

	"verif/vsync"
)

func init() {
	register(&Prop{ID: "C29",
		Rule: "A case builds a client and a server Conn, and mostly dialogue managers on them, as conn/example and multiplexer/example do, over a drawn transport with drawn buffers, timers and client IDs; several goroutines per side and dialogue write numbered packets of several types, readers (Read or the channel, some slow) compare type, identifier, dialogue and content with what was written; dialogues are opened from both sides at once, accepted by channel or function, looked up, and closed by either or both sides behind their last packet; in the end a manager, a Conn or the transport goes, and every call has to return.",
		Scens: []*Scen{
			{Name: "conns", Mode: Bubble, Quick: 200, Thorough: 8000, Batch: 40, Fn: muxConns},
			{Name: "dialogues", Mode: Bubble, Quick: 240, Thorough: 8000, Batch: 40, Fn: muxDialogues},
			{Name: "wall", Mode: Real, Quick: 8, Thorough: 120, Batch: 4, Fn: muxDialogues},
		}})
}

// lay is the lower layers of a connection, side 0 is the client
type lay struct {
	c    *C
	link *Link
	nc   [2]net.Conn
	cn   [2]conn.Conn
	pf   [2]packet.PacketFactory
	tmr  [2]timer.Timer // those given
	meta []byte
}

func (c *C) newLay() *lay {
	l := &lay{c: c}
	if c.Mode == Real && c.Bool() {
		a, b, err := c.tcpPair()
		if err != nil {
			c.Inconclusive("tcp: %v", err)
			return nil
		}
		l.nc = [2]net.Conn{a, b}
		c.Cleanup(func() { a.Close(); b.Close() })
	} else {
		l.link = c.NewLink(c.LinkOf())
		l.nc = [2]net.Conn{l.link.A, l.link.B}
	}
	l.pf = [2]packet.PacketFactory{packet.NewPacketFactory(id.NewIDCounter(id.Odd)), packet.NewPacketFactory(id.NewIDCounter(id.Even))}
	var co []conn.ClientConnOption
	var so []conn.ServerConnOption
	co = append(co, conn.OptionClientConnLogger(yieldLog{c}))
	so = append(so, conn.OptionServerConnLogger(yieldLog{c}))
	if c.Chance(80) {
		co = append(co, conn.OptionClientConnPacketFactory(l.pf[0]))
		so = append(so, conn.OptionServerConnPacketFactory(l.pf[1]))
	}
	if c.Bool() {
		l.meta = c.Bytes(1 + c.N(60))
		co = append(co, conn.OptionClientConnMeta(l.meta))
	}
	for i := range l.tmr {
		if c.Bool() {
			t := timer.NewTimer()
			l.tmr[i] = t
			c.Cleanup(func() { t.Close() })
		}
	}
	if l.tmr[0] != nil {
		co = append(co, conn.OptionClientConnTimer(l.tmr[0]))
	}
	if l.tmr[1] != nil {
		so = append(so, conn.OptionServerConnTimer(l.tmr[1]))
	}
	r, w := c.BufOf()
	co = append(co, conn.OptionClientConnBufferSize(r, w))
	r, w = c.BufOf()
	so = append(so, conn.OptionServerConnBufferSize(r, w))
	wantID := uint64(0)
	if c.Chance(30) {
		wantID = 1 + uint64(c.N(1<<30))
		so = append(so, conn.OptionServerConnClientID(wantID))
	}
	dial := c.Bool()
	var errs [2]error
	if !c.All("conn construction",
		func() {
			var x *conn.ClientConn
			if dial {
				x, errs[0] = conn.NewClientConnWithDialer(func() (net.Conn, error) { return l.nc[0], nil }, co...)
			} else {
				x, errs[0] = conn.NewClientConn(l.nc[0], co...)
			}
			l.cn[0] = x
		},
		func() {
			var x *conn.ServerConn
			x, errs[1] = conn.NewServerConn(l.nc[1], so...)
			l.cn[1] = x
		}) {
		return nil
	}
	if errs[0] != nil || errs[1] != nil {
		c.Violate("construct", "constructing the conns failed: client %v, server %v", errs[0], errs[1])
		return nil
	}
	a, b := l.cn[0], l.cn[1]
	switch {
	case a.ClientID() == 0 || a.ClientID() != b.ClientID() || wantID != 0 && a.ClientID() != wantID:
		c.Violate("client-id", "client ID %d at the client, %d at the server, given %d", a.ClientID(), b.ClientID(), wantID)
	case !bytes.Equal(a.Meta(), l.meta) || !bytes.Equal(b.Meta(), l.meta):
		c.Violate("meta", "meta %q at the client, %q at the server, given %q", a.Meta(), b.Meta(), l.meta)
	case a.Side() != geminio.InitiatorSide || b.Side() != geminio.RecipientSide:
		c.Violate("side", "sides %v and %v", a.Side(), b.Side())
	case a.LocalAddr().String() != b.RemoteAddr().String() || a.RemoteAddr().String() != b.LocalAddr().String():
		c.Violate("addr", "addresses %v-%v and %v-%v", a.LocalAddr(), a.RemoteAddr(), b.LocalAddr(), b.RemoteAddr())
	default:
		return l
	}
	return nil
}

// pktRec is a packet as its writer made it
type pktRec struct {
	typ  packet.Type
	id   uint64
	sid  uint64
	key  []byte
	data []byte
}

func makePkt(r interface{ IntN(int) int }, pf packet.PacketFactory, sid uint64, body []byte) (packet.Packet, pktRec) {
	key := []byte(fmt.Sprintf("k%d", r.IntN(1000)))
	x := pktRec{sid: sid, key: key, data: body}
	var pkt packet.Packet
	switch r.IntN(5) {
	case 0:
		p := pf.NewMessagePacketWithSessionID(sid, key, body, nil)
		pkt = p
	case 1:
		p := pf.NewStreamPacketWithSessionID(sid, body)
		x.key = nil
		pkt = p
	case 2:
		p := pf.NewRequestPacketWithIDAndSessionID(pf.NewPacketID(), sid, key, body)
		pkt = p
	case 3:
		p := pf.NewResponsePacket(pf.NewPacketID(), key, body, nil)
		p.SetSessionID(sid)
		pkt = p
	default:
		p := pf.NewMessagePacketWithIDAndSessionID(pf.NewPacketID(), sid, key, body)
		pkt = p
	}
	x.typ, x.id = pkt.Type(), pkt.ID()
	return pkt, x
}

func seePkt(pkt packet.Packet) (pktRec, bool) {
	x := pktRec{typ: pkt.Type(), id: pkt.ID()}
	if s, ok := pkt.(packet.SessionAbove); ok {
		x.sid = s.SessionID()
	}
	switch p := pkt.(type) {
	case *packet.MessagePacket:
		x.key, x.data = p.Data.Key, p.Data.Value
	case *packet.RequestPacket:
		x.key, x.data = p.Data.Key, p.Data.Value
	case *packet.ResponsePacket:
		x.key, x.data = p.Data.Key, p.Data.Value
	case *packet.StreamPacket:
		x.data = p.Data
	default:
		return x, false
	}
	return x, true
}

// pktFlow is packets from several writers of one side to the reader at the other
type pktFlow struct {
	c    *C
	name string
	mu   vsync.Quiet
	sent [][]pktRec
	got  []int
	eof  bool
}

func newPktFlow(c *C, name string, writers int) *pktFlow {
	return &pktFlow{c: c, name: name, sent: make([][]pktRec, writers), got: make([]int, writers)}
}

// write has writer w write n packets; it ends early when write fails
func (f *pktFlow) write(w, n, max int, pf packet.PacketFactory, sid uint64, write func(packet.Packet) error, gap func()) error {
	r := f.c.Sub()
	for i := 0; i < n; i++ {
		body := make([]byte, 8, 8+max)
		binary.BigEndian.PutUint32(body, uint32(w))
		f.mu.Lock()
		seq := len(f.sent[w])
		f.mu.Unlock()
		binary.BigEndian.PutUint32(body[4:], uint32(seq))
		body = append(body, fillBytes(r, sizeOf(r, max))...)
		// packets on a dialogue get its ID whatever they were made with
		to := r.Uint64N(6)
		if sid == 0 || r.IntN(3) == 0 {
			to = r.Uint64()
		}
		pkt, rec := makePkt(r, pf, to, body)
		if sid != 0 {
			rec.sid = sid
		}
		f.mu.Lock()
		f.sent[w] = append(f.sent[w], rec)
		f.mu.Unlock()
		if err := write(pkt); err != nil {
			return err
		}
		f.c.Ev("packet_written", f.name)
		if gap != nil {
			gap()
		}
	}
	return nil
}

// took checks a packet that came out
func (f *pktFlow) took(pkt packet.Packet) bool {
	x, ok := seePkt(pkt)
	if !ok || len(x.data) < 8 {
		f.c.Violate("foreign", "%s: a packet nobody wrote came out: %s %v", f.name, pkt.Type().String(), x)
		return false
	}
	w, seq := int(binary.BigEndian.Uint32(x.data)), int(binary.BigEndian.Uint32(x.data[4:]))
	f.mu.Lock()
	defer f.mu.Unlock()
	if w >= len(f.sent) || seq >= len(f.sent[w]) {
		f.c.Violate("foreign", "%s: a packet of writer %d, number %d, came out, none such was written", f.name, w, seq)
		return false
	}
	if seq != f.got[w] {
		f.c.Violate("order", "%s: packet %d of writer %d came out where %d was due", f.name, seq, w, f.got[w])
		return false
	}
	f.got[w]++
	want := f.sent[w][seq]
	if x.typ != want.typ || x.id != want.id || x.sid != want.sid || !bytes.Equal(x.key, want.key) || !bytes.Equal(x.data, want.data) {
		f.c.Violate("altered", "%s: packet %d of writer %d came out as type %v id %d dialogue %d key %q %s, written type %v id %d dialogue %d key %q %s", f.name, seq, w,
			x.typ, x.id, x.sid, x.key, short(x.data), want.typ, want.id, want.sid, want.key, short(want.data))
		return false
	}
	f.c.Ev("packet_read", f.name)
	return true
}

// read takes packets until the end, by Read or by the channel
func (f *pktFlow) read(read func() (packet.Packet, error), ch <-chan packet.Packet, gap func()) {
	for {
		var pkt packet.Packet
		if ch != nil {
			var ok bool
			if pkt, ok = <-ch; !ok {
				f.mu.Lock()
				f.eof = true
				f.mu.Unlock()
				return
			}
		} else {
			var err error
			if pkt, err = read(); err != nil {
				if err != io.EOF {
					f.c.Violate("read-error", "%s: Read: %v", f.name, err)
				}
				f.mu.Lock()
				f.eof = true
				f.mu.Unlock()
				return
			}
		}
		if !f.took(pkt) {
			return
		}
		if gap != nil {
			gap()
		}
	}
}

// missing describes what was written and didn't come out
func (f *pktFlow) missing() string {
	f.mu.Lock()
	defer f.mu.Unlock()
	for w := range f.sent {
		if f.got[w] != len(f.sent[w]) {
			return fmt.Sprintf("%s: %d of %d packets of writer %d came out", f.name, f.got[w], len(f.sent[w]), w)
		}
	}
	return ""
}

func (f *pktFlow) complete() bool { return f.missing() == "" }

// gapOf is how a reader or writer takes its time
func (c *C) gapOf() func() {
	if c.Chance(60) {
		return nil
	}
	r := c.Sub()
	pct, ms := c.Pick(5, 50), c.Pick(1, 20)
	if c.Mode == Real {
		ms = 1
	}
	return func() {
		if r.IntN(100) < pct {
			time.Sleep(time.Duration(1+r.IntN(ms*1000)) * time.Microsecond)
		}
	}
}

func muxConns(c *C) {
	l := c.newLay()
	if l == nil {
		return
	}
	c.Cleanup(func() { l.cn[0].Close(); l.cn[1].Close() })
	if c.Chance(30) { // heartbeats go on meanwhile
		time.Sleep(time.Duration(c.N(120)) * time.Second)
	}
	writers := [2]int{c.N(4), c.N(4)}
	var fl [2]*pktFlow // by the writing side
	var readers sync.WaitGroup
	for s := range fl {
		f := newPktFlow(c, []string{"client's", "server's"}[s], writers[s])
		fl[s] = f
		to := l.cn[1-s]
		var ch <-chan packet.Packet
		if c.Bool() {
			ch = to.ChannelRead()
		}
		gap := c.gapOf()
		readers.Add(1)
		go func() { defer readers.Done(); f.read(to.Read, ch, gap) }()
	}
	n, max := c.Pick(1, 10, 60, 150), c.Pick(10, 300, 4000)
	var fns []func()
	for s := range fl {
		for w := 0; w < writers[s]; w++ {
			gap := c.gapOf()
			fns = append(fns, func() {
				if err := fl[s].write(w, n, max, l.pf[s], 0, l.cn[s].Write, gap); err != nil {
					c.Violate("write", "%s Write: %v", fl[s].name, err)
				}
			})
		}
	}
	ending := c.N(5)
	var gone [2]bool // whose packets must all have come
	if !c.All("writing packets", fns...) {
		return
	}
	switch ending {
	case 0, 1: // one side closes behind its packets, the other side's may be lost then
		s := c.N(2)
		if c.Bool() {
			if !muxArrive(c, fl[1-s]) {
				return
			}
			gone[1-s] = true
		}
		l.cn[s].Close()
		gone[s] = true
		if c.Chance(30) {
			l.cn[s].Close()
		}
	case 2: // both, when all has come
		if !muxArrive(c, fl[0]) || !muxArrive(c, fl[1]) {
			return
		}
		gone = [2]bool{true, true}
		go l.cn[0].Close()
		l.cn[1].Close()
	case 3:
		if !muxArrive(c, fl[0]) || !muxArrive(c, fl[1]) {
			return
		}
		gone = [2]bool{true, true}
		l.cut()
	case 4: // in the middle
		l.cut()
	}
	c.Ev("ended", ending)
	if !c.Do("the readers reach the end", readers.Wait) {
		return
	}
	for s, f := range fl {
		if m := f.missing(); m != "" && gone[s] {
			c.Violate("lost", "ending %d: %s", ending, m)
			return
		}
	}
	for s := range l.cn {
		var err error
		pkt := l.pf[s].NewMessagePacket([]byte("late"), nil)
		if !c.Do("Write after the end", func() {
			for i := 0; i < 200 && err == nil; i++ {
				err = l.cn[s].Write(pkt)
			}
			_, rerr := l.cn[s].Read()
			if rerr != io.EOF {
				c.Violate("read-end", "Read after the end: %v", rerr)
			}
		}) {
			return
		}
		if err != io.EOF {
			c.Violate("write-end", "Write on the ended conn of side %d: %v", s, err)
		}
	}
	if l.link != nil {
		time.Sleep(31 * time.Second)
		if !l.link.A.Closed() || !l.link.B.Closed() {
			c.Violate("net-conn", "ending %d: net.Conn closed at the client: %v, at the server: %v", ending, l.link.A.Closed(), l.link.B.Closed())
		}
	}
	c.Sample("%d+%d writers of %d packets, ending %d", writers[0], writers[1], n, ending)
}

func (l *lay) cut() {
	if l.link != nil {
		l.link.Break(l.c.Bool())
		return
	}
	l.nc[l.c.N(2)].Close()
}

func muxArrive(c *C, f *pktFlow) bool {
	end := time.Now().Add(c.bound)
	for !f.complete() {
		if c.Failed() {
			return false
		}
		if time.Now().After(end) {
			c.ViolateTimed("stalled", "%s and the conn is up", f.missing())
			return false
		}
		time.Sleep(10 * time.Millisecond)
	}
	return true
}

// ---- dialogues --------------------------------------------------------------

// dgRec is what became of a dialogue on one side
type mgrSide struct {
	c        *C
	side     int
	mp       multiplexer.Multiplexer
	byFn     bool
	acc      chan multiplexer.Dialogue
	mu       vsync.Quiet
	closed   map[uint64]int
	reports  bool
	watchers sync.WaitGroup
}

func (m *mgrSide) sawClosed(d multiplexer.Dialogue) {
	m.mu.Lock()
	m.closed[d.DialogueID()]++
	m.mu.Unlock()
	m.c.Ev("dialogue_closed", m.side, d.DialogueID())
}

func (l *lay) newMgr(s int) *mgrSide {
	c := l.c
	m := &mgrSide{c: c, side: s, acc: make(chan multiplexer.Dialogue, 1000), closed: map[uint64]int{}, byFn: c.Bool()}
	opts := []multiplexer.MultiplexerOption{multiplexer.OptionLogger(yieldLog{c}), multiplexer.OptionPacketFactory(l.pf[s])}
	if l.tmr[s] != nil {
		opts = append(opts, multiplexer.OptionTimer(l.tmr[s]))
	}
	if c.Bool() {
		r, w := c.BufOf()
		opts = append(opts, multiplexer.OptionBufferSize(r, w))
	}
	if m.byFn {
		opts = append(opts, multiplexer.OptionMultiplexerAcceptFunc(func(d multiplexer.Dialogue) { m.acc <- d }))
	} else {
		opts = append(opts, multiplexer.OptionMultiplexerAcceptDialogue())
	}
	how := c.N(3)
	switch how {
	case 0:
		opts = append(opts, multiplexer.OptionMultiplexerClosedFunc(m.sawClosed))
	case 1:
		opts = append(opts, multiplexer.OptionMultiplexerClosedDialogue())
	}
	m.reports = how < 2
	mp, err := multiplexer.NewDialogueMgr(l.cn[s], opts...)
	if err != nil {
		c.Violate("mgr", "NewDialogueMgr: %v", err)
		return nil
	}
	m.mp = mp
	watch := func(next func() (multiplexer.Dialogue, error), see func(multiplexer.Dialogue)) {
		m.watchers.Add(1)
		go func() {
			defer m.watchers.Done()
			for {
				d, err := next()
				if err != nil {
					if err != io.EOF {
						c.Violate("accept-end", "AcceptDialogue or ClosedDialogue of side %d: %v", s, err)
					}
					return
				}
				see(d)
			}
		}()
	}
	if m.byFn {
		if _, err := mp.AcceptDialogue(); err != multiplexer.ErrAcceptChNotEnabled {
			c.Violate("accept-fn", "AcceptDialogue with an accept function: %v", err)
		}
	} else {
		watch(mp.AcceptDialogue, func(d multiplexer.Dialogue) { m.acc <- d })
	}
	if how == 1 {
		watch(mp.ClosedDialogue, m.sawClosed)
	} else if _, err := mp.ClosedDialogue(); err != multiplexer.ErrClosedChNotEnabled {
		c.Violate("closed-off", "ClosedDialogue without its channel: %v", err)
	}
	return m
}

type dgPair struct {
	opener int
	meta   []byte
	peer   string
	d      [2]multiplexer.Dialogue // by side
	fl     [2]*pktFlow             // by writing side
	shut   bool
}

func muxDialogues(c *C) {
	l := c.newLay()
	if l == nil {
		return
	}
	c.Cleanup(func() { l.cn[0].Close(); l.cn[1].Close() })
	var ms [2]*mgrSide
	order := c.N(2)
	for i := 0; i < 2; i++ {
		s := order ^ i
		if ms[s] = l.newMgr(s); ms[s] == nil {
			return
		}
		if i == 0 {
			c.sleepUpTo(100)
		}
	}
	var ps []*dgPair
	// the default dialogue
	p0 := &dgPair{meta: l.meta}
	for s, m := range ms {
		ds := m.mp.ListDialogues()
		if len(ds) != 1 || ds[0].DialogueID() != 1 || ds[0].ClientID() != l.cn[0].ClientID() || !bytes.Equal(ds[0].Meta(), l.meta) {
			c.Violate("default", "a new manager of side %d lists %d dialogues", s, len(ds))
			return
		}
		p0.d[s] = ds[0]
	}
	ps = append(ps, p0)
	// open from both sides
	n := [2]int{c.Pick(0, 1, 3, 8, 40), c.Pick(0, 1, 3, 8)}
	if c.Mode == Real || n[0] == 40 && c.Chance(70) {
		n[0] = c.N(4)
	}
	par := c.Bool()
	var opened [2][]*dgPair
	var fns []func()
	for s := range ms {
		var seq []func()
		for i := 0; i < n[s]; i++ {
			p := &dgPair{opener: s, meta: append([]byte(fmt.Sprintf("%d-%d-", s, i)), c.Bytes(c.N(40))...), peer: fmt.Sprintf("peer%d", c.N(3))}
			opened[s] = append(opened[s], p)
			seq = append(seq, func() {
				d, err := ms[s].mp.OpenDialogue(p.meta, p.peer)
				if err != nil {
					c.Violate("open", "OpenDialogue on side %d: %v", s, err)
					return
				}
				p.d[s] = d
				c.Ev("dialogue_opened", s, d.DialogueID())
			})
		}
		if par {
			fns = append(fns, seq...)
		} else {
			fns = append(fns, func() {
				for _, f := range seq {
					f()
				}
			})
		}
	}
	if !c.All("OpenDialogue", fns...) || c.Failed() {
		return
	}
	for s, m := range ms {
		byMeta := map[string]*dgPair{}
		for _, p := range opened[1-s] {
			byMeta[string(p.meta)] = p
		}
		for range opened[1-s] {
			var d multiplexer.Dialogue
			if !c.Do("the accept of a dialogue", func() { d = <-m.acc }) {
				return
			}
			p := byMeta[string(d.Meta())]
			if p == nil || p.d[s] != nil {
				c.Violate("accept", "side %d accepted a dialogue with meta %q which none, or another, belongs to", s, d.Meta())
				return
			}
			p.d[s] = d
			o := p.d[1-s]
			if d.DialogueID() != o.DialogueID() || d.Peer() != p.peer || o.Peer() != p.peer || !bytes.Equal(o.Meta(), p.meta) || d.ClientID() != l.cn[0].ClientID() || o.ClientID() != l.cn[0].ClientID() {
				c.Violate("agree", "dialogue %d (peer %q meta %q) was accepted as %d (peer %q meta %q)", o.DialogueID(), o.Peer(), o.Meta(), d.DialogueID(), d.Peer(), d.Meta())
				return
			}
			c.Ev("dialogue_accepted", s, d.DialogueID())
		}
	}
	ps = append(append(ps, opened[0]...), opened[1]...)
	check := func(when string) bool {
		for s, m := range ms {
			want := map[uint64]multiplexer.Dialogue{}
			for _, p := range ps {
				if !p.shut {
					want[p.d[s].DialogueID()] = p.d[s]
				}
			}
			live := 0
			for _, p := range ps {
				if !p.shut {
					live++
				}
			}
			if len(want) != live {
				c.Violate("distinct", "%s: dialogues of side %d share an ID", when, s)
				return false
			}
			ds := m.mp.ListDialogues()
			for _, d := range ds {
				if want[d.DialogueID()] != d {
					c.Violate("list", "%s: side %d lists dialogue %d, which isn't there", when, s, d.DialogueID())
					return false
				}
			}
			if len(ds) != live {
				c.Violate("list", "%s: side %d lists %d dialogues of %d", when, s, len(ds), live)
				return false
			}
			for _, p := range ps {
				d, err := m.mp.GetDialogue(l.cn[s].ClientID(), p.d[s].DialogueID())
				if p.shut && want[p.d[s].DialogueID()] == nil && err == nil || !p.shut && (err != nil || d != p.d[s]) {
					c.Violate("get", "%s: GetDialogue of %d on side %d (closed %v): %v", when, p.d[s].DialogueID(), s, p.shut, err)
					return false
				}
			}
			if _, err := m.mp.GetDialogue(l.cn[s].ClientID()+1, 1); err == nil {
				c.Violate("get", "%s: GetDialogue of another client succeeded", when)
				return false
			}
		}
		return true
	}
	if !check("opened") {
		return
	}
	// packets
	cnt, max := c.Pick(1, 10, 60), c.Pick(10, 300, 3000)
	if n[0] > 10 {
		cnt = 5
	}
	var readers sync.WaitGroup
	fns = nil
	for _, p := range ps {
		for s := range ms {
			ws := c.Range(0, 2)
			f := newPktFlow(c, fmt.Sprintf("dialogue %d of side %d", p.d[s].DialogueID(), s), ws)
			p.fl[s] = f
			to := p.d[1-s]
			var ch <-chan packet.Packet
			if c.Bool() {
				ch = to.ReadC()
			}
			gap := c.gapOf()
			readers.Add(1)
			go func() { defer readers.Done(); f.read(to.Read, ch, gap) }()
			for w := 0; w < ws; w++ {
				gap := c.gapOf()
				write := p.d[s].Write
				if c.Bool() {
					write = p.d[s].WriteWait
				}
				fns = append(fns, func() {
					if err := f.write(w, cnt, max, l.pf[s], p.d[s].DialogueID(), write, gap); err != nil {
						c.Violate("write", "%s: Write: %v", f.name, err)
					}
				})
			}
		}
	}
	if !c.All("writing packets", fns...) {
		return
	}
	// close some behind their packets
	wantClosed := [2]map[uint64]int{{}, {}}
	var cls []func()
	for _, p := range ps[1:] {
		if c.Chance(50) {
			continue
		}
		p.shut = true
		who := c.N(3)
		if who == 2 || c.Bool() {
			// the closer discards nothing, but what comes to a closed dialogue may be late
			if !muxArrive(c, p.fl[0]) || !muxArrive(c, p.fl[1]) {
				return
			}
		}
		for s := range ms {
			wantClosed[s][p.d[s].DialogueID()]++
			if who == s || who == 2 {
				cls = append(cls, p.d[s].Close)
				if c.Chance(20) {
					cls = append(cls, p.d[s].Close)
				}
			}
		}
	}
	if !c.All("Close of dialogues", cls...) {
		return
	}
	for _, p := range ps {
		if !muxArrive(c, p.fl[0]) || !muxArrive(c, p.fl[1]) {
			return
		}
	}
	for _, p := range ps {
		if !p.shut {
			continue
		}
		for s := range ms {
			end := func() bool { p.fl[1-s].mu.Lock(); defer p.fl[1-s].mu.Unlock(); return p.fl[1-s].eof }
			t := time.Now()
			for !end() {
				if time.Since(t) > c.bound {
					c.ViolateTimed("no-eof", "dialogue %d is closed and side %d reads no end", p.d[s].DialogueID(), s)
					return
				}
				time.Sleep(10 * time.Millisecond)
			}
			if !c.Do("Write on a closed dialogue", func() {
				var err error
				for i := 0; i < 200 && err == nil; i++ {
					err = p.d[s].Write(l.pf[s].NewMessagePacket([]byte("late"), nil))
				}
				if err != io.EOF {
					c.Violate("write-closed", "Write on the closed dialogue %d: %v", p.d[s].DialogueID(), err)
				}
			}) {
				return
			}
		}
	}
	if c.Mode == Bubble {
		time.Sleep(time.Second)
		c.Settle()
	} else {
		time.Sleep(500 * time.Millisecond)
	}
	if c.Failed() || !check("closed some") {
		return
	}
	for s, m := range ms {
		m.mu.Lock()
		for id, k := range wantClosed[s] {
			if m.reports && m.closed[id] != k {
				c.Violate("closed-report", "the end of dialogue %d was reported %d times on side %d", id, m.closed[id], s)
			}
		}
		for id, k := range m.closed {
			if k > wantClosed[s][id] {
				c.Violate("closed-report", "the end of dialogue %d was reported %d times on side %d, it ended %d times", id, k, s, wantClosed[s][id])
			}
		}
		m.mu.Unlock()
	}
	if c.Failed() {
		return
	}
	// and all the rest
	ending := c.N(4)
	switch ending {
	case 0: // as the examples do
		s := c.N(2)
		if !c.Do("Close of a manager", ms[s].mp.Close) {
			return
		}
		if _, err := ms[s].mp.OpenDialogue(nil, ""); err == nil {
			c.Violate("open-closed", "OpenDialogue of a closed manager succeeded")
		}
		l.cn[s].Close()
	case 1:
		if !c.All("Close of both managers", ms[0].mp.Close, ms[1].mp.Close, ms[0].mp.Close) {
			return
		}
		l.cn[c.N(2)].Close()
	case 2:
		l.cn[c.N(2)].Close()
	case 3:
		l.cut()
	}
	c.Ev("ended", ending)
	if !c.All("the readers and watchers reach the end", readers.Wait, ms[0].watchers.Wait, ms[1].watchers.Wait) {
		return
	}
	for s, m := range ms {
		if !c.All("operations after the end",
			func() {
				for i := 0; i < 3; i++ {
					if _, err := m.mp.OpenDialogue(nil, ""); err == nil {
						c.Violate("open-ended", "OpenDialogue on side %d succeeded after the end", s)
					}
				}
			},
			func() {
				var err error
				for i := 0; i < 200 && err == nil; i++ {
					err = p0.d[s].Write(l.pf[s].NewMessagePacket([]byte("late"), nil))
				}
				if err != io.EOF {
					c.Violate("write-ended", "Write after the end: %v", err)
				}
			},
			m.mp.Close, m.mp.Close, l.cn[s].Close) {
			return
		}
		m.mu.Lock()
		for id, k := range m.closed {
			if k > 1 && wantClosed[s][id] == 0 {
				c.Violate("closed-report", "the end of dialogue %d was reported %d times on side %d", id, k, s)
			}
		}
		m.mu.Unlock()
	}
	c.Sample("%d+%d dialogues, %d packets per writer, ending %d", n[0], n[1], cnt, ending)
}
