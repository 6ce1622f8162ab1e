package verif

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/server"

	"verif/vsync"
)

func init() {
	register(&Prop{ID: "C15",
		Rule: "A case connects 1-6 clients at once, each with a drawn meta (absent, empty, binary, large), wanted ID and transport, to servers whose delegate echoes, replaces, leaves to the library, delays or refuses the ID, or refuses at ConnOnline, with drawn error texts; every pair of Ends (or of errors), every delegate call and the handshake packets on the wire are compared with what was drawn. Other cases put a hand-made or stalled peer on one side: mute, answering late or never, answering with an error, garbage, half an answer, or closing, and require the constructor's result and its time.",
		Scens: []*Scen{
			{Name: "agree", Mode: Bubble, Quick: 300, Thorough: 12000, Batch: 20, Fn: hsAgree},
			{Name: "client", Mode: Bubble, Quick: 300, Thorough: 10000, Batch: 20, Fn: hsClient},
			{Name: "server", Mode: Bubble, Quick: 300, Thorough: 10000, Batch: 20, Fn: hsServer},
			{Name: "wall", Mode: Real, Quick: 24, Thorough: 400, Batch: 6, Fn: hsAgree},
		}})
}

// freshIDs are all IDs which servers of this process drew themselves.
var freshIDs = struct {
	vsync.Quiet
	m map[uint64]bool
}{m: map[uint64]bool{}}

// errText draws an error text: not empty, valid UTF-8.
func (c *C) errText() string {
	switch c.N(6) {
	case 0:
		return "no"
	case 1:
		return "refused: \"quoted\"\n\t\\ <&> \u2028 ünïcödé 世界"
	case 2:
		return strings.Repeat("long ", c.Range(10, 2000))
	case 3:
		return "connection closed"
	case 4:
		return " "
	}
	return fmt.Sprintf("error %d", c.N(1000))
}

func (c *C) metaOf() []byte {
	switch c.N(6) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return c.Bytes(c.Range(1, 9))
	case 3:
		return []byte("{\"a\": \"b\"}\x00\xff\"")
	case 4:
		return c.Bytes(c.Size(20000))
	}
	return []byte(fmt.Sprintf("client %d", c.N(100)))
}

type hsCase struct {
	meta    []byte
	wanted  *uint64
	mode    string // echo fixed fresh refuse refuse-online none preset
	delay   time.Duration
	give    uint64
	text    string
	e       *Env
	ce, se  error
	ct, st  time.Duration
	noID    bool
	started time.Time
}

func hsAgree(c *C) {
	n := c.Range(1, 6)
	cases := make([]*hsCase, n)
	opts := make([]EnvOpt, n)
	for i := range cases {
		h := &hsCase{meta: c.metaOf()}
		cases[i] = h
		if c.Bool() {
			w := c.U64()
			switch c.N(5) {
			case 0:
				w = uint64(c.Range(1, 4))
			case 1:
				w = 1<<64 - 1
			case 2:
				w = 0
			}
			h.wanted = &w
		}
		h.give = c.U64() | 1
		h.text = c.errText()
		h.mode = []string{"echo", "fixed", "fresh", "refuse", "refuse-id", "refuse-online", "none", "preset"}[c.N(8)]
		if c.Mode == Bubble && c.Chance(25) {
			h.delay = time.Duration(c.Range(1, 9300)) * time.Millisecond
		}
		o := EnvOpt{Link: c.LinkOf(), NoDelegates: h.mode == "none" || h.mode == "preset"}
		if c.Mode == Real {
			o.TCP = c.Bool()
		}
		if len(h.meta) > 500 { // on a slow transport it takes its time
			o.Link.MaxWrite, o.Link.MaxRead = 0, 0
			o.Link.Cap = 0
		}
		cr, cw := c.BufOf()
		sr, sw := c.BufOf()
		o.Cli = func(o *client.EndOptions) {
			o.SetBufferSize(cr, cw)
			if h.meta != nil {
				o.SetMeta(h.meta)
			}
			if h.wanted != nil {
				o.SetClientID(*h.wanted)
			}
		}
		o.Srv = func(o *server.EndOptions) {
			o.SetBufferSize(sr, sw)
			if h.mode == "preset" {
				o.SetClientID(h.give)
			}
		}
		o.SD = func(d *srvDlg) {
			early := c.Bool()
			d.getID = func(wanted uint64, meta []byte) (uint64, error) {
				if early {
					time.Sleep(h.delay)
				}
				switch h.mode {
				case "echo":
					return wanted, nil
				case "fixed":
					return h.give, nil
				case "refuse":
					return 0, errors.New(h.text)
				case "refuse-id":
					return h.give, errors.New(h.text)
				}
				return 0, nil
			}
			d.onConn = func() error {
				if !early {
					time.Sleep(h.delay)
				}
				if h.mode == "refuse-online" {
					return errors.New(h.text)
				}
				return nil
			}
		}
		opts[i] = o
	}
	var fs []func()
	for i := range cases {
		h := cases[i]
		fs = append(fs, func() {
			h.started = time.Now()
			h.e, h.ce, h.se = c.TryEnv(opts[i])
			h.ct = time.Since(h.started)
		})
	}
	if !c.All("connecting", fs...) {
		return
	}
	for i, h := range cases {
		if h.e == nil {
			return
		}
		h.judge(c, i)
	}
	if c.Failed() {
		return
	}
	// those connected work, whatever happened to the others
	for i, h := range cases {
		if h.e.Cli == nil {
			continue
		}
		side := c.N(2)
		p, ok := h.e.OpenPair(side)
		if !ok {
			return
		}
		if p.o.ClientID() != h.e.Cli.ClientID() || p.a.ClientID() != h.e.Cli.ClientID() {
			c.Violate("hs-stream-id", "client %d: a stream has client IDs %d and %d, the End %d", i, p.o.ClientID(), p.a.ClientID(), h.e.Cli.ClientID())
		}
		f := c.NewFlow(fmt.Sprint("after handshake ", i), p.o, p.a)
		c.Do("exchange after the handshake", func() { f.Full(3, 64, 100, nil) })
	}
}

func (h *hsCase) judge(c *C, i int) {
	wanted := uint64(0)
	if h.wanted != nil {
		wanted = *h.wanted
	}
	c.Ev("handshake", h.mode, len(h.meta), h.wanted != nil, h.ce == nil)
	d := h.e.SD
	if d != nil {
		ids := d.Of("getid")
		if len(ids) != 1 || ids[0].Client != wanted || ids[0].Meta != string(h.meta) {
			c.Violate("hs-getid", "client %d (wanted %d, meta %s): the server's delegate was asked for an ID %d times: %s", i, wanted, short(h.meta), len(ids), showEvs(ids))
			return
		}
	}
	refused := strings.HasPrefix(h.mode, "refuse")
	if refused {
		if h.ce == nil || h.se == nil || h.e.Cli != nil || h.e.Srv != nil {
			c.Violate("hs-refused", "client %d was refused (%s) but the client got %v, the server %v", i, h.mode, h.ce, h.se)
			return
		}
		if h.ce.Error() != h.text {
			c.Violate("hs-text", "client %d was refused with %q but its construction failed with %q", i, h.text, h.ce)
		}
		want := 0
		if h.mode == "refuse-online" {
			want = 1
		}
		if on := d.Of("connon"); len(on) != want {
			c.Violate("hs-refused-online", "client %d was refused (%s) but ConnOnline was called %d times", i, h.mode, len(on))
		}
		c.Ev("refusals_checked", h.mode)
		return
	}
	if h.ce != nil || h.se != nil {
		c.Violate("hs-failed", "client %d (%s, delegate took %v, transport %+v) did not connect: client %v, server %v", i, h.mode, h.delay, h.e.Link, h.ce, h.se)
		return
	}
	id, sid := h.e.Cli.ClientID(), h.e.Srv.ClientID()
	if id != sid || id == 0 {
		c.Violate("hs-id", "client %d (%s): the client's End has ID %d, the server's %d", i, h.mode, id, sid)
		return
	}
	want := uint64(0)
	switch h.mode {
	case "echo":
		want = wanted
	case "fixed", "preset":
		want = h.give
	}
	if want != 0 {
		if id != want {
			c.Violate("hs-id-given", "client %d (%s): has ID %d instead of %d", i, h.mode, id, want)
		}
	} else {
		freshIDs.Lock()
		if freshIDs.m[id] {
			c.Violate("hs-id-fresh", "client %d (%s): was given ID %d which another client of this server process has", i, h.mode, id)
		}
		freshIDs.m[id] = true
		freshIDs.Unlock()
		c.Ev("fresh_ids")
	}
	for k, m := range [][]byte{h.e.Cli.Meta(), h.e.Srv.Meta()} {
		if !bytes.Equal(m, h.meta) {
			c.Violate("hs-meta", "client %d: meta %s became %s on side %d", i, short(h.meta), short(m), k)
		}
	}
	if d != nil {
		on := d.Of("connon")
		if len(on) != 1 || on[0].Client != id || on[0].Meta != string(h.meta) {
			c.Violate("hs-online", "client %d (ID %d, meta %s): the server's ConnOnline calls were %s", i, id, short(h.meta), showEvs(on))
		}
		if off := d.Of("connoff"); len(off) != 0 {
			c.Violate("hs-offline", "client %d: ConnOffline was called for a connection which is up", i)
		}
	}
}

func showEvs(es []dEv) string {
	s := ""
	for _, e := range es {
		s += fmt.Sprintf("[%s client %d stream %d meta %s %s]", e.Kind, e.Client, e.Dlg, short([]byte(e.Meta)), e.Method)
	}
	if s == "" {
		return "none"
	}
	return s
}

const hsLimit = 10 * time.Second

// hsClient: the library's client against a hand-made server.
func hsClient(c *C) {
	o := LinkOpt{}
	if c.Bool() {
		o.MaxRead = c.Range(1, 9)
	}
	l := c.NewLink(o)
	d := &cliDlg{dlg{c: c}}
	meta, wanted := c.Bytes(c.Size(300)), c.U64()
	acq := c.Bool()
	after := time.Duration(c.N(9800)) * time.Millisecond
	id := c.U64() | 1
	text := c.errText()
	kind := []string{"mute", "answer", "late", "refuse", "close", "break", "garbage", "half", "deaf", "other", "data"}[c.N(11)]
	if kind == "late" {
		after = hsLimit + time.Duration(c.Range(200, 9000))*time.Millisecond
	}
	if kind == "deaf" {
		l.Lose(true, false)
	}
	cutAt := c.Range(1, 20)
	junk := rawPkt(0xEE, c.U64(), c.Bytes(c.N(100)))
	go func() {
		var p WirePkt
		for n := 0; ; n++ {
			if ps := l.AB.Of(tConn); len(ps) > 0 {
				p = ps[0]
				break
			}
			if n > 20 {
				if kind != "deaf" {
					return
				}
				break
			}
			time.Sleep(time.Millisecond)
		}
		time.Sleep(after)
		ack := mkConnAck(p.ID, id, "")
		switch kind {
		case "answer", "late":
			l.B.Write(ack)
		case "refuse":
			l.B.Write(mkConnAck(p.ID, id, text))
		case "close":
			l.B.Close()
		case "break":
			l.Break(true)
		case "half":
			l.B.Write(ack[:cutAt])
		case "garbage":
			l.B.Write(junk)
		case "other": // the answer to something else
			l.B.Write(mkConnAck(p.ID+2, id, ""))
		case "data": // data instead of an answer
			l.B.Write(mkData(tMessage, 2, 1, msgData{Value: []byte("x")}))
			l.B.Write(mkStream(4, 1, []byte("x")))
		}
	}()
	var end geminio.End
	var err error
	t0 := time.Now()
	if !c.DoIn(25*time.Second, "client construction against a server: "+kind, func() {
		end, err = client.NewEndWithConn(l.A, given(c, c.cliOpts(d, func(o *client.EndOptions) {
			o.SetMeta(meta)
			if acq {
				o.SetClientID(wanted)
			}
		}))...)
	}) {
		return
	}
	took := time.Since(t0)
	slack := 500 * time.Millisecond
	c.Ev("client_construction", kind, err == nil, after/(100*time.Millisecond), len(meta), o.MaxRead)
	ps := l.AB.Of(tConn)
	if len(ps) != 1 {
		c.Violate("hs-wire", "the client sent %d conn packets", len(ps))
		return
	}
	if err != nil && end != nil {
		c.Violate("hs-both", "construction returned an End and %v", err)
	}
	fails := func(lo, hi time.Duration) {
		if err == nil {
			c.Violate("hs-bogus", "construction succeeded against a server: %s", kind)
			return
		}
		if took > hi+slack {
			c.Violate("hs-late", "construction against a server (%s after %v) took %v", kind, after, took)
		}
		if took < lo-slack {
			c.Violate("hs-early", "construction against a server (%s after %v) gave up after %v: %v", kind, after, took, err)
		}
	}
	switch kind {
	case "answer":
		if err != nil {
			c.Violate("hs-answered", "the server answered after %v with ID %d, but construction failed: %v", after, id, err)
			return
		}
		if end.ClientID() != id || !bytes.Equal(end.Meta(), meta) {
			c.Violate("hs-id", "the server gave ID %d for meta %s, the End has %d and %s", id, short(meta), end.ClientID(), short(end.Meta()))
		}
		if took < after-slack || took > after+slack {
			c.Violate("hs-late", "the server answered after %v, construction took %v", after, took)
		}
	case "refuse":
		fails(after, after)
		if err != nil && err.Error() != text {
			c.Violate("hs-text", "refused with %q, construction failed with %q", text, err)
		}
	case "close", "break", "garbage":
		fails(after, after)
	default: // nothing usable arrives in time
		fails(hsLimit, hsLimit)
	}
	if err != nil && kind != "refuse" && kind != "other" {
		if off := d.Of("connoff"); len(off) != 0 {
			c.Violate("hs-offline", "the client's ConnOffline was called for a connection never up (%s)", kind)
		}
	}
	if end != nil {
		l.Break(true)
		c.Do("Close", func() { end.Close() })
	}
}

// hsServer: the library's server against a hand-made client.
func hsServer(c *C) {
	o := LinkOpt{}
	if c.Bool() {
		o.MaxRead = c.Range(1, 9)
	}
	l := c.NewLink(o)
	d := &srvDlg{dlg{c: c}}
	meta, wanted := c.Bytes(c.Size(300)), c.U64()
	after := time.Duration(c.N(9800)) * time.Millisecond
	kind := []string{"mute", "conn", "late", "close", "break", "garbage", "half", "hb", "session", "slow"}[c.N(10)]
	if kind == "late" {
		after = hsLimit + time.Duration(c.Range(200, 9000))*time.Millisecond
	}
	pktID := c.U64()
	pkt := mkConn(pktID, wanted, byte(c.Range(1, 4)), true, meta)
	cutAt := c.Range(1, len(pkt)-1)
	junk := rawPkt(0xEE, c.U64(), c.Bytes(c.N(100)))
	give := c.U64() | 1
	d.getID = func(uint64, []byte) (uint64, error) { return give, nil }
	go func() {
		buf := make([]byte, 512)
		for {
			if _, err := l.A.Read(buf); err != nil {
				return
			}
		}
	}()
	go func() {
		time.Sleep(after)
		switch kind {
		case "conn", "late":
			l.A.Write(pkt)
		case "close":
			if c.Bool() {
				l.A.Write(pkt[:cutAt])
			}
			l.A.Close()
		case "break":
			l.Break(true)
		case "half":
			l.A.Write(pkt[:cutAt])
		case "garbage":
			l.A.Write(junk)
		case "hb":
			l.A.Write(rawPkt(tHB, 1, nil))
		case "session":
			l.A.Write(mkSession(1, 1, true, nil, ""))
		case "slow": // byte after byte, until it is too late or not
			step := (hsLimit - after - time.Second) / time.Duration(len(pkt))
			if step < 0 {
				step = 0
			}
			for i := range pkt {
				l.A.Write(pkt[i : i+1])
				time.Sleep(step)
			}
		}
	}()
	var end geminio.End
	var err error
	t0 := time.Now()
	if !c.DoIn(25*time.Second, "server construction against a client: "+kind, func() {
		end, err = server.NewEndWithConn(l.B, c.srvOpts(d, nil))
	}) {
		return
	}
	took := time.Since(t0)
	slack := 500 * time.Millisecond
	c.Ev("server_construction", kind, err == nil, after/(100*time.Millisecond), len(meta), o.MaxRead)
	if err != nil && end != nil {
		c.Violate("hs-both", "construction returned an End and %v", err)
	}
	switch kind {
	case "conn", "slow":
		if err != nil {
			c.Violate("hs-answered", "a client connected after %v (%s), but construction failed: %v", after, kind, err)
			return
		}
		if end.ClientID() != give || !bytes.Equal(end.Meta(), meta) {
			c.Violate("hs-id", "the delegate gave ID %d for meta %s, the End has %d and %s", give, short(meta), end.ClientID(), short(end.Meta()))
		}
		c.Settle()
		acks := l.BA.Of(tConnAck)
		if len(acks) != 1 || acks[0].ID != pktID || acks[0].Payload[0]&1 != 0 || !bytes.Equal(acks[0].Payload[1:9], u64b(give)) {
			c.Violate("hs-wire", "a client connecting with packet %d was answered with %d acks: %+v", pktID, len(acks), acks)
		}
		if ids := d.Of("getid"); len(ids) != 1 || ids[0].Client != wanted || ids[0].Meta != string(meta) {
			c.Violate("hs-getid", "wanted %d with meta %s, the delegate was asked: %s", wanted, short(meta), showEvs(ids))
		}
	default:
		lim := hsLimit
		if kind == "close" || kind == "break" || kind == "garbage" {
			lim = after
		}
		if err == nil {
			c.Violate("hs-bogus", "construction succeeded with a client: %s", kind)
			break
		}
		if took > lim+slack {
			c.Violate("hs-late", "construction with a client (%s after %v) took %v", kind, after, took)
		}
		if kind != "hb" && kind != "session" && took < lim-slack {
			c.Violate("hs-early", "construction with a client (%s after %v) gave up after %v: %v", kind, after, took, err)
		}
		c.Settle()
		if on := d.Of("connon"); len(on) != 0 {
			c.Violate("hs-online", "ConnOnline was called with a client: %s", kind)
		}
		if off := d.Of("connoff"); len(off) != 0 {
			c.Violate("hs-offline", "ConnOffline was called with a client: %s", kind)
		}
	}
	if end != nil {
		l.Break(true)
		c.Do("Close", func() { end.Close() })
	}
}
