package verif

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"time"

	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
)

func init() {
	register(&Prop{ID: "C13",
		Rule: "A case draws a few hundred packets over all 18 types with random field values (edge sizes, extreme ids, all heartbeat and flag values), encodes them, parses the bytes with an independent parser of the published layout, and decodes them from a slice followed by foreign bytes and from a reader with random segmentation; and it decodes hand-made bytes.",
		Scens: []*Scen{
			{Name: "roundtrip", Mode: Plain, Quick: 48, Thorough: 4000, Batch: 50, Fn: codecRoundtrip},
			{Name: "stream", Mode: Plain, Quick: 24, Thorough: 1500, Batch: 50, Fn: codecStream},
			{Name: "text", Mode: Plain, Quick: 1, Thorough: 2, Known: "text-bytes", NoReal: true, Fn: textPacket},
			{Name: "foreign", Mode: Plain, Quick: 24, Thorough: 1500, Batch: 50, Fn: codecForeign},
		}})
	register(&Prop{ID: "C14",
		Rule: "A case feeds a few thousand byte strings to both decoders: random bytes, every truncation of valid packets, bit flips, changed types, every short length field, spliced packets, bodies which are not JSON.",
		Scens: []*Scen{
			{Name: "truncate", Mode: Plain, Quick: 16, Thorough: 600, Batch: 50, Fn: decTruncate},
			{Name: "mutate", Mode: Plain, Quick: 64, Thorough: 6000, Batch: 50, Fn: decMutate},
			{Name: "shortlen", Mode: Plain, Quick: 8, Thorough: 200, Batch: 50, Fn: decShortLen},
			{Name: "random", Mode: Plain, Quick: 24, Thorough: 3000, Batch: 50, Fn: decRandom},
			{Name: "badjson", Mode: Plain, Quick: 16, Thorough: 1000, Batch: 50, Fn: decBadJSON},
		}})
}

// pspec is an intended packet, independent of the library's types.
type pspec struct {
	typ     byte
	id      uint64
	sess    uint64
	neg     uint64
	client  uint64
	ret     byte
	b0, b1  byte // flag bytes
	cancel  uint16
	raw     []byte // stream data or method
	meta    []byte
	key     []byte
	val     []byte
	custom  []byte
	topic   string
	peer    string
	err     string
	timeout time.Duration
	dl, cdl time.Time
}

var allTypes = []byte{tConn, tConnAck, tDisConn, tDisConnAck, tHB, tHBAck, tSession, tSessionAck, tDismiss, tDismissAck,
	tMessage, tMessageAck, tStream, tRequest, tResponse, tReqCancel, tRegister, tRegisterAck}

var edgeU64 = []uint64{0, 1, 2, 0xFF, 0x100, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}

func anyU64(r *rand.Rand) uint64 {
	if r.IntN(3) == 0 {
		return edgeU64[r.IntN(len(edgeU64))]
	}
	return r.Uint64()
}

var texts = []string{"", "a", "topic", "boom", "\"quoted\"", "new\nline", "日本語", "\\back", "<html>&", "\u2028", "null", "{}", "ctx: deadline exceeded", "\x00\x01"}

func anyText(r *rand.Rand) string {
	s := texts[r.IntN(len(texts))]
	if r.IntN(4) == 0 {
		s += fmt.Sprint(r.Uint64())
	}
	return s
}

func anyBytes(r *rand.Rand, max int) []byte { return fillBytes(r, sizeOf(r, max)) }

func anyTime(r *rand.Rand) time.Time {
	switch r.IntN(4) {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(r.Int64N(1<<32), r.Int64N(1e9)).UTC()
	default:
		return time.Unix(1.7e9+r.Int64N(1e8), r.Int64N(1e9)).In(time.FixedZone("x", 60*r.IntN(1440)-720*60))
	}
}

func anySpec(r *rand.Rand, max int) pspec {
	p := pspec{typ: allTypes[r.IntN(len(allTypes))], id: anyU64(r)}
	switch p.typ {
	case tConn:
		p.client, p.meta = anyU64(r), anyBytes(r, max)
		p.b0 = byte(r.IntN(4))<<4 | byte(r.IntN(2))<<3 | byte(r.IntN(4))
	case tConnAck:
		p.client, p.err = anyU64(r), anyText(r)
		if p.err != "" {
			p.ret = 1
		}
	case tDisConnAck:
		if p.err = anyText(r); p.err != "" {
			p.ret = 1
		}
	case tSession:
		p.neg, p.meta, p.peer = anyU64(r), anyBytes(r, max), anyText(r)
		p.b0, p.b1 = byte(r.IntN(256)), byte(r.IntN(2))<<4|byte(r.IntN(16))
	case tSessionAck:
		p.neg, p.sess, p.err = anyU64(r), anyU64(r), anyText(r)
	case tDismiss:
		p.sess = anyU64(r)
	case tDismissAck, tRegisterAck:
		p.sess, p.err = anyU64(r), anyText(r)
	case tMessage, tRequest:
		p.sess, p.key, p.val, p.custom = anyU64(r), anyBytes(r, max), anyBytes(r, max), anyBytes(r, max)
		p.topic = anyText(r)
		if r.IntN(2) == 0 {
			p.timeout = time.Duration(r.Int64())
		}
		p.dl, p.cdl = anyTime(r), anyTime(r)
	case tMessageAck, tResponse:
		p.sess, p.err = anyU64(r), anyText(r)
		p.key, p.val, p.custom = anyBytes(r, max), anyBytes(r, max), anyBytes(r, max)
	case tStream, tRegister:
		p.sess, p.raw = anyU64(r), anyBytes(r, max)
	case tReqCancel:
		p.sess, p.cancel = anyU64(r), uint16(1+r.IntN(2))
	}
	return p
}

func errOf(s string) error {
	if s == "" {
		return nil
	}
	return errors.New(s)
}

// lib builds the packet through the library's factory.
func (p *pspec) lib(pf packet.PacketFactory) packet.Packet {
	fillMsg := func(d *packet.MessageData) {
		d.Key, d.Value, d.Custom, d.Topic = p.key, p.val, p.custom, p.topic
		d.Timeout, d.Deadline = p.timeout, p.dl
		d.Context.Deadline = p.cdl
	}
	switch p.typ {
	case tConn:
		hb := []packet.Heartbeat{packet.Heartbeat5, packet.Heartbeat20, packet.Heartbeat80, packet.Heartbeat320}[p.b0>>4&3]
		x := pf.NewConnPacket(p.client, p.b0&8 != 0, hb, p.meta)
		x.Retain, x.Clear = p.b0&1 != 0, p.b0&2 != 0
		x.PacketID = p.id
		return x
	case tConnAck:
		return pf.NewConnAckPacket(p.id, p.client, errOf(p.err))
	case tDisConn:
		x := pf.NewDisConnPacket()
		x.PacketID = p.id
		return x
	case tDisConnAck:
		return pf.NewDisConnAckPacket(p.id, errOf(p.err))
	case tHB:
		x := pf.NewHeartbeatPacket()
		x.PacketID = p.id
		return x
	case tHBAck:
		return pf.NewHeartbeatAckPacket(p.id)
	case tSession:
		x := pf.NewSessionPacket(p.neg, p.b1&0x10 != 0, p.meta, p.peer)
		x.Priority, x.Qos = p.b0, int8(p.b1&15)
		x.PacketID = p.id
		return x
	case tSessionAck:
		return pf.NewSessionAckPacket(p.id, p.neg, p.sess, errOf(p.err))
	case tDismiss:
		x := pf.NewDismissPacket(p.sess)
		x.PacketID = p.id
		return x
	case tDismissAck:
		return pf.NewDismissAckPacket(p.id, p.sess, errOf(p.err))
	case tMessage:
		x := pf.NewMessagePacketWithIDAndSessionID(p.id, p.sess, nil, nil)
		fillMsg(x.Data)
		return x
	case tRequest:
		x := pf.NewRequestPacketWithIDAndSessionID(p.id, p.sess, nil, nil)
		fillMsg(x.Data)
		return x
	case tMessageAck:
		x := pf.NewMessageAckPacketWithSessionID(p.sess, p.id, errOf(p.err))
		fillMsg(x.Data)
		return x
	case tResponse:
		x := pf.NewResponsePacket(p.id, p.key, p.val, errOf(p.err))
		x.SetSessionID(p.sess)
		x.Data.Custom = p.custom
		return x
	case tStream:
		x := pf.NewStreamPacketWithSessionID(p.sess, p.raw)
		x.PacketID = p.id
		return x
	case tRegister:
		x := pf.NewRegisterPacketWithSessionID(p.sess, p.raw)
		x.PacketID = p.id
		return x
	case tRegisterAck:
		return pf.NewRegisterAckPacketWithSessionID(p.sess, p.id, errOf(p.err))
	case tReqCancel:
		return pf.NewRequestCancelPacketWithIDAndSessionID(p.id, p.sess, packet.RequestCancelType(p.cancel))
	}
	panic("type")
}

type jsAny struct {
	Key      []byte        `json:"key,omitempty"`
	Value    []byte        `json:"value,omitempty"`
	Topic    string        `json:"topic,omitempty"`
	Custom   []byte        `json:"custom,omitempty"`
	Error    string        `json:"error,omitempty"`
	Meta     []byte        `json:"meta,omitempty"`
	Peer     string        `json:"peer,omitempty"`
	Timeout  time.Duration `json:"timeout,omitempty"`
	Deadline *time.Time    `json:"deadline,omitempty"`
	Context  *struct {
		Deadline *time.Time `json:"deadline,omitempty"`
	} `json:"context,omitempty"`
}

func fixedLen(t byte) int {
	switch t {
	case tConn, tSession, tReqCancel:
		return 10
	case tConnAck:
		return 9
	case tDisConnAck:
		return 1
	case tSessionAck:
		return 18
	case tDisConn, tHB, tHBAck:
		return 0
	}
	return 8
}

func hasJSON(t byte) bool {
	switch t {
	case tDisConn, tHB, tHBAck, tStream, tRegister, tReqCancel:
		return false
	}
	return true
}

func be(b []byte) uint64 { return binary.BigEndian.Uint64(b) }

// bytes builds the wire form by the published layout.
func (p *pspec) bytes() []byte {
	var f []byte
	switch p.typ {
	case tConn:
		f = append([]byte{p.b0, 0}, u64b(p.client)...)
	case tConnAck:
		f = append([]byte{p.ret}, u64b(p.client)...)
	case tDisConnAck:
		f = []byte{p.ret}
	case tDisConn, tHB, tHBAck:
	case tSession:
		f = append([]byte{p.b0, p.b1}, u64b(p.neg)...)
	case tSessionAck:
		f = append(append([]byte{0, 0}, u64b(p.neg)...), u64b(p.sess)...)
	case tReqCancel:
		f = append(u64b(p.sess), byte(p.cancel>>8), byte(p.cancel))
	case tStream, tRegister:
		f = append(u64b(p.sess), p.raw...)
	default:
		f = u64b(p.sess)
	}
	if hasJSON(p.typ) {
		j := jsAny{Key: p.key, Value: p.val, Topic: p.topic, Custom: p.custom, Error: p.err, Meta: p.meta, Peer: p.peer, Timeout: p.timeout}
		if !p.dl.IsZero() {
			j.Deadline = &p.dl
		}
		if !p.cdl.IsZero() {
			j.Context = &struct {
				Deadline *time.Time `json:"deadline,omitempty"`
			}{&p.cdl}
		}
		f = append(f, js(j)...)
	}
	return rawPkt(p.typ, p.id, f)
}

func sameTime(t *time.Time, w time.Time) bool {
	if t == nil {
		return w.IsZero()
	}
	return t.Equal(w)
}

// wire checks bytes the library produced against the intended packet.
func (p *pspec) wire(b []byte) error {
	if len(b) < 14 {
		return fmt.Errorf("only %d bytes", len(b))
	}
	if b[0] != 1 || b[1] != p.typ || be(b[2:]) != p.id {
		return fmt.Errorf("header %x", b[:14])
	}
	n := int(binary.BigEndian.Uint32(b[10:]))
	pl := b[14:]
	// packets without payload carry length 0
	if len(pl) != n {
		return fmt.Errorf("length field %d, payload %d", n, len(pl))
	}
	fl := fixedLen(p.typ)
	if len(pl) < fl {
		return fmt.Errorf("payload of %d", len(pl))
	}
	want := p.bytes()[14:]
	if p.typ == tStream || p.typ == tRegister {
		fl = len(want)
		if len(pl) != len(want) {
			return fmt.Errorf("payload of %d, want %d", len(pl), len(want))
		}
	}
	if !bytes.Equal(pl[:fl], want[:fl]) {
		return fmt.Errorf("fixed part %s, want %s", short(pl[:fl]), short(want[:fl]))
	}
	if !hasJSON(p.typ) {
		if len(pl) != fl {
			return fmt.Errorf("%d bytes after the fixed part", len(pl)-fl)
		}
		return nil
	}
	var j jsAny
	if err := json.Unmarshal(pl[fl:], &j); err != nil {
		return fmt.Errorf("json: %v", err)
	}
	var cdl *time.Time
	if j.Context != nil {
		cdl = j.Context.Deadline
	}
	return p.cmp(j.Key, j.Value, j.Custom, j.Meta, j.Topic, j.Error, j.Peer, j.Timeout, j.Deadline, cdl)
}

func (p *pspec) cmp(key, val, custom, meta []byte, topic, e, peer string, to time.Duration, dl, cdl *time.Time) error {
	for _, x := range []struct {
		n    string
		a, b []byte
	}{{"key", key, p.key}, {"value", val, p.val}, {"custom", custom, p.custom}, {"meta", meta, p.meta},
		{"topic", []byte(topic), []byte(p.topic)}, {"error", []byte(e), []byte(p.err)}, {"peer", []byte(peer), []byte(p.peer)}} {
		if !bytes.Equal(x.a, x.b) {
			return fmt.Errorf("%s %s, want %s", x.n, short(x.a), short(x.b))
		}
	}
	if to != p.timeout || !sameTime(dl, p.dl) || !sameTime(cdl, p.cdl) {
		return fmt.Errorf("timeout %v deadline %v context %v, want %v %v %v", to, dl, cdl, p.timeout, p.dl, p.cdl)
	}
	return nil
}

// same checks a packet the library decoded against the intended one.
func (p *pspec) same(x packet.Packet) error {
	if x == nil {
		return errors.New("nil packet")
	}
	if byte(x.Type()) != p.typ || x.ID() != p.id {
		return fmt.Errorf("type %#x id %d", x.Type(), x.ID())
	}
	sess := func(s uint64) error {
		if s != p.sess {
			return fmt.Errorf("session %d, want %d", s, p.sess)
		}
		return nil
	}
	msg := func(d *packet.MessageData) error {
		return p.cmp(d.Key, d.Value, d.Custom, nil, d.Topic, d.Error, "", d.Timeout, &d.Deadline, &d.Context.Deadline)
	}
	none := (*time.Time)(nil)
	ok := false
	var err error
	switch p.typ {
	case tConn:
		var y *packet.ConnPacket
		if y, ok = x.(*packet.ConnPacket); ok {
			hb := []packet.Heartbeat{5, 20, 80, 320}[p.b0>>4&3]
			if y.Heartbeat != hb || y.ClientIDAcquire() != (p.b0&8 != 0) || y.Retain != (p.b0&1 != 0) || y.Clear != (p.b0&2 != 0) || y.ClientID != p.client {
				err = fmt.Errorf("flags %+v client %d", y.ConnFlags, y.ClientID)
			} else {
				err = p.cmp(nil, nil, nil, y.ConnData.Meta, "", y.ConnData.Error, "", 0, none, none)
			}
		}
	case tConnAck:
		var y *packet.ConnAckPacket
		if y, ok = x.(*packet.ConnAckPacket); ok {
			if y.ClientID != p.client || byte(y.RetCode) != p.ret {
				err = fmt.Errorf("client %d ret %d", y.ClientID, y.RetCode)
			} else {
				err = p.cmp(nil, nil, nil, y.ConnData.Meta, "", y.ConnData.Error, "", 0, none, none)
			}
		}
	case tDisConnAck:
		var y *packet.DisConnAckPacket
		if y, ok = x.(*packet.DisConnAckPacket); ok {
			if byte(y.RetCode) != p.ret {
				err = fmt.Errorf("ret %d", y.RetCode)
			} else {
				err = p.cmp(nil, nil, nil, y.ConnData.Meta, "", y.ConnData.Error, "", 0, none, none)
			}
		}
	case tDisConn:
		_, ok = x.(*packet.DisConnPacket)
	case tHB:
		_, ok = x.(*packet.HeartbeatPacket)
	case tHBAck:
		_, ok = x.(*packet.HeartbeatAckPacket)
	case tSession:
		var y *packet.SessionPacket
		if y, ok = x.(*packet.SessionPacket); ok {
			if y.NegotiateID() != p.neg || y.SessionIDAcquire() != (p.b1&0x10 != 0) || y.Priority != p.b0 || byte(y.Qos) != p.b1&15 {
				err = fmt.Errorf("neg %d flags %+v", y.NegotiateID(), y.SessionFlags)
			} else {
				err = p.cmp(nil, nil, nil, y.SessionData.Meta, "", y.SessionData.Error, y.SessionData.Peer, 0, none, none)
			}
		}
	case tSessionAck:
		var y *packet.SessionAckPacket
		if y, ok = x.(*packet.SessionAckPacket); ok {
			if y.NegotiateID() != p.neg {
				err = fmt.Errorf("neg %d", y.NegotiateID())
			} else if err = sess(y.SessionID()); err == nil {
				err = p.cmp(nil, nil, nil, y.SessionData.Meta, "", y.SessionData.Error, y.SessionData.Peer, 0, none, none)
			}
		}
	case tDismiss:
		var y *packet.DismissPacket
		if y, ok = x.(*packet.DismissPacket); ok {
			err = sess(y.SessionID())
		}
	case tDismissAck:
		var y *packet.DismissAckPacket
		if y, ok = x.(*packet.DismissAckPacket); ok {
			if err = sess(y.SessionID()); err == nil {
				err = p.cmp(nil, nil, nil, nil, "", y.SessionData.Error, "", 0, none, none)
			}
		}
	case tMessage:
		var y *packet.MessagePacket
		if y, ok = x.(*packet.MessagePacket); ok {
			if err = sess(y.SessionID()); err == nil {
				err = msg(y.Data)
			}
		}
	case tRequest:
		var y *packet.RequestPacket
		if y, ok = x.(*packet.RequestPacket); ok {
			if err = sess(y.SessionID()); err == nil {
				err = msg(y.Data)
			}
		}
	case tMessageAck:
		var y *packet.MessageAckPacket
		if y, ok = x.(*packet.MessageAckPacket); ok {
			if err = sess(y.SessionID()); err == nil {
				err = msg(y.Data)
			}
		}
	case tResponse:
		var y *packet.ResponsePacket
		if y, ok = x.(*packet.ResponsePacket); ok {
			if err = sess(y.SessionID()); err == nil {
				err = msg(y.Data)
			}
		}
	case tStream:
		var y *packet.StreamPacket
		if y, ok = x.(*packet.StreamPacket); ok {
			if err = sess(y.SessionID()); err == nil && !bytes.Equal(y.Data, p.raw) {
				err = fmt.Errorf("data %s, want %s", short(y.Data), short(p.raw))
			}
		}
	case tRegister:
		var y *packet.RegisterPacket
		if y, ok = x.(*packet.RegisterPacket); ok {
			if err = sess(y.SessionID()); err == nil && y.Method() != string(p.raw) {
				err = fmt.Errorf("method %q", y.Method())
			}
		}
	case tRegisterAck:
		var y *packet.RegisterAckPacket
		if y, ok = x.(*packet.RegisterAckPacket); ok {
			if err = sess(y.SessionID()); err == nil {
				err = p.cmp(nil, nil, nil, nil, "", y.RegisterData.Error, "", 0, none, none)
			}
		}
	case tReqCancel:
		var y *packet.RequestCancelPacket
		if y, ok = x.(*packet.RequestCancelPacket); ok {
			err = sess(y.SessionID())
		}
	}
	if !ok {
		return fmt.Errorf("it is a %T", x)
	}
	return err
}

// segReader returns few bytes at a time.
type segReader struct {
	r   *rand.Rand
	b   []byte
	max int
	end error
}

func (s *segReader) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, s.end
	}
	n := min(len(p), len(s.b), 1+s.r.IntN(s.max))
	copy(p, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

// shortWriter accepts few bytes at a time.
type shortWriter struct {
	r   *rand.Rand
	b   []byte
	max int
}

func (s *shortWriter) Write(p []byte) (int, error) {
	n := min(len(p), 1+s.r.IntN(s.max))
	s.b = append(s.b, p[:n]...)
	return n, nil
}

// guarded runs fn, reporting a panic as a violation.
func (c *C) guarded(key string, in []byte, fn func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			c.Violate("panic:"+key, "%s panicked on %x: %v\n%s", key, clip(in, 64), r, stacks())
			ok = false
		}
	}()
	fn()
	return true
}

func clip(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

// oneEach gives every packet type its turn before random ones.
func oneEach(r *rand.Rand, i, max int) pspec {
	for {
		p := anySpec(r, max)
		if i >= len(allTypes) || p.typ == allTypes[i] {
			return p
		}
	}
}

func codecRoundtrip(c *C) {
	r := c.Sub()
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Odd))
	max := c.Pick(40, 300, 5000)
	if c.K%16 == 15 {
		max = 300000
	}
	for i := 0; i < 220 && !c.Failed(); i++ {
		p := oneEach(r, i, max)
		name := packet.Type(p.typ).String()
		x := p.lib(pf)
		var b []byte
		var err error
		if !c.guarded("Encode", nil, func() { b, err = packet.Encode(x) }) {
			return
		}
		if err != nil {
			c.Violate("encode-err", "encoding a %s failed: %v", name, err)
			return
		}
		if err := p.wire(b); err != nil {
			c.Violate("layout", "the encoding of a %s departs from the published layout: %v; bytes %x", name, err, clip(b, 80))
			return
		}
		// slice decoder, with foreign bytes behind
		in := append(append([]byte(nil), b...), fillBytes(r, r.IntN(40))...)
		keep := append([]byte(nil), in...)
		var y packet.Packet
		var n uint32
		if !c.guarded("Decode", in, func() { y, n, err = packet.Decode(in) }) {
			return
		}
		if err != nil {
			c.Violate("decode", "Decode of an encoded %s failed: %v; bytes %x", name, err, clip(b, 80))
			return
		}
		if err := p.same(y); err != nil {
			c.Violate("decode", "Decode of an encoded %s gives a different packet: %v", name, err)
			return
		}
		if int(n) != len(b)-14 {
			c.Violate("consumed", "Decode of a %s with payload of %d reports %d consumed", name, len(b)-14, n)
			return
		}
		if !bytes.Equal(in, keep) {
			c.Violate("decode-writes", "Decode of a %s changed its input", name)
			return
		}
		var b1 []byte
		if !c.guarded("re-Encode", in, func() { b1, err = packet.Encode(y) }) {
			return
		}
		if err != nil || !bytes.Equal(b, b1) {
			c.Violate("reencode", "a %s decoded from a slice encodes differently: %v; bytes %x, were %x", name, err, clip(b1, 80), clip(b, 80))
			return
		}
		// reader, any segmentation, exactly the packet's bytes
		sr := &segReader{r: r, b: append([]byte(nil), in...), max: c.Pick(1, 3, 17, 1<<20), end: io.ErrUnexpectedEOF}
		if !c.guarded("DecodeFromReader", in, func() { y, err = packet.DecodeFromReader(sr) }) {
			return
		}
		if err != nil {
			c.Violate("decode-reader", "DecodeFromReader of an encoded %s failed: %v; bytes %x", name, err, clip(b, 80))
			return
		}
		if err := p.same(y); err != nil {
			c.Violate("decode-reader", "DecodeFromReader of an encoded %s gives a different packet: %v", name, err)
			return
		}
		if len(sr.b) != len(in)-len(b) {
			c.Violate("consumed-reader", "DecodeFromReader of a %s of %d bytes consumed %d", name, len(b), len(in)-len(sr.b))
			return
		}
		// what was decoded encodes to the same bytes
		var b2 []byte
		if !c.guarded("re-Encode", in, func() { b2, err = packet.Encode(y) }) {
			return
		}
		if err != nil || p.wire(b2) != nil || !bytes.Equal(b, b2) {
			c.Violate("reencode", "a %s decoded from a reader encodes differently: %v %v; bytes %x, were %x", name, err, p.wire(b2), clip(b2, 80), clip(b, 80))
			return
		}
		// writer that takes a few bytes at a time
		w := &shortWriter{r: r, max: c.Pick(1, 5, 100, 1<<20)}
		if !c.guarded("EncodeToWriter", nil, func() { err = packet.EncodeToWriter(x, w) }) {
			return
		}
		if err != nil || !bytes.Equal(w.b, b) {
			c.Violate("encode-writer", "EncodeToWriter of a %s wrote %d bytes (%v), Encode gives %d", name, len(w.b), err, len(b))
			return
		}
		c.Ev("packets_roundtripped", name, len(b))
		if i < 2 {
			c.Sample("%s of %d bytes", name, len(b))
		}
	}
}

// codecStream decodes a run of packets from one reader.
func codecStream(c *C) {
	r := c.Sub()
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Even))
	var ps []pspec
	var all bytes.Buffer
	for i := 0; i < c.Range(20, 120); i++ {
		p := anySpec(r, 400)
		ps = append(ps, p)
		if err := packet.EncodeToWriter(p.lib(pf), &all); err != nil {
			c.Violate("encode-err", "%v", err)
			return
		}
	}
	sr := &segReader{r: r, b: all.Bytes(), max: c.Pick(1, 2, 13, 600, 1<<20), end: io.EOF}
	var ys []packet.Packet
	for i := range ps {
		var y packet.Packet
		var err error
		if !c.guarded("DecodeFromReader", sr.b, func() { y, err = packet.DecodeFromReader(sr) }) {
			return
		}
		if err == nil {
			err = ps[i].same(y)
		}
		if err != nil {
			c.Violate("run", "packet %d (%s) of a run of %d: %v", i, packet.Type(ps[i].typ), len(ps), err)
			return
		}
		c.Ev("packets_in_run", ps[i].typ)
		ys = append(ys, y)
	}
	for i, y := range ys { // those decoded later leave it alone
		if err := ps[i].same(y); err != nil {
			c.Violate("run-kept", "packet %d (%s) of a run of %d was changed by decoding those behind it: %v", i, packet.Type(ps[i].typ), len(ps), err)
			return
		}
	}
	if _, err := packet.DecodeFromReader(sr); err == nil {
		c.Violate("run-end", "decoding after the last packet succeeded")
	}
}

// codecForeign decodes bytes made by the harness.
func codecForeign(c *C) {
	r := c.Sub()
	for i := 0; i < 200; i++ {
		p := oneEach(r, i, 500)
		b := p.bytes()
		name := packet.Type(p.typ).String()
		var y packet.Packet
		var err error
		var n uint32
		if !c.guarded("Decode", b, func() { y, n, err = packet.Decode(b) }) {
			return
		}
		if err == nil {
			err = p.same(y)
		}
		if err != nil || int(n) != len(b)-14 {
			c.Violate("foreign", "Decode of a well-formed %s made by hand: %v (consumed %d of %d); bytes %x", name, err, n, len(b)-14, clip(b, 80))
			return
		}
		sr := &segReader{r: r, b: append([]byte(nil), b...), max: 1 + r.IntN(50), end: io.EOF}
		if !c.guarded("DecodeFromReader", b, func() { y, err = packet.DecodeFromReader(sr) }) {
			return
		}
		if err == nil {
			err = p.same(y)
		}
		if err != nil || len(sr.b) != 0 {
			c.Violate("foreign-reader", "DecodeFromReader of a well-formed %s made by hand: %v (%d bytes left); bytes %x", name, err, len(sr.b), clip(b, 80))
			return
		}
		b2, err := packet.Encode(y)
		if err != nil || p.wire(b2) != nil {
			c.Violate("foreign-reencode", "a %s decoded from hand-made bytes encodes differently: %v %v", name, err, p.wire(b2))
			return
		}
		c.Ev("foreign_packets", name, len(b))
	}
}

// ---- C14 ----------------------------------------------------------------------

// both feeds bytes to both decoders; it returns their errors.
func (c *C) both(b []byte) (e1, e2 error, ok bool) {
	// an exact-capacity copy: reading beyond it panics
	in := append(make([]byte, 0, len(b)), b...)
	var y1, y2 packet.Packet
	ok = c.guarded("Decode", b, func() { y1, _, e1 = packet.Decode(in) }) &&
		c.guarded("DecodeFromReader", b, func() { y2, e2 = packet.DecodeFromReader(bytes.NewReader(in)) })
	if !ok {
		return
	}
	c.Count("inputs", 1)
	if e1 == nil {
		if y1 == nil {
			c.Violate("nil-nil", "Decode returned neither packet nor error for %x", clip(b, 64))
			return e1, e2, false
		}
		c.Ev("accepted", y1.Type(), len(b))
	} else {
		c.Ev("rejected", fmt.Sprint(e1))
	}
	if e2 == nil && y2 == nil {
		c.Violate("nil-nil", "DecodeFromReader returned neither packet nor error for %x", clip(b, 64))
		return e1, e2, false
	}
	return
}

// clampLen keeps the length field from asking for gigabytes.
func clampLen(b []byte) {
	if len(b) >= 14 {
		b[10] = 0
		b[11] &= 0x0F
	}
}

func decTruncate(c *C) {
	r := c.Sub()
	for i := 0; i < 40; i++ {
		p := oneEach(r, i, 60)
		b := p.bytes()
		for n := 0; n < len(b); n++ {
			e1, e2, ok := c.both(b[:n])
			if !ok {
				return
			}
			if e1 == nil || e2 == nil {
				c.Violate("truncated", "%d of the %d bytes of a %s are accepted: Decode %v, DecodeFromReader %v",
					n, len(b), packet.Type(p.typ), e1, e2)
				return
			}
		}
		e1, e2, ok := c.both(b)
		if !ok {
			return
		}
		if e1 != nil || e2 != nil {
			c.Violate("whole", "a whole %s is rejected: %v, %v", packet.Type(p.typ), e1, e2)
			return
		}
	}
}

func decShortLen(c *C) {
	r := c.Sub()
	for _, t := range allTypes {
		for n := 0; n < fixedLen(t); n++ {
			for extra := 0; extra < 3; extra++ {
				pl := fillBytes(r, n)
				b := rawPkt(t, anyU64(r), pl)
				// other bytes may follow in the buffer
				b = append(b, fillBytes(r, extra*20)...)
				e1, e2, ok := c.both(b)
				if !ok {
					return
				}
				if e1 == nil || e2 == nil {
					c.Violate("short", "a %s with a payload of %d is accepted: Decode %v, DecodeFromReader %v", packet.Type(t), n, e1, e2)
					return
				}
			}
		}
	}
	// lengths far beyond what is there (no such reader: it would allocate them)
	for _, t := range allTypes {
		for _, n := range []uint32{1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + uint32(r.IntN(1000)), 1<<32 - 14, 1<<32 - 1 - uint32(r.IntN(30)), 1<<16 + uint32(r.IntN(100)), 300} {
			b := rawPkt(t, anyU64(r), fillBytes(r, r.IntN(200)))
			binary.BigEndian.PutUint32(b[10:], n)
			var y packet.Packet
			var err error
			if !c.guarded("Decode", b, func() { y, _, err = packet.Decode(b) }) {
				return
			}
			c.Count("inputs", 1)
			if err == nil {
				c.Violate("truncated", "a %s of %d bytes which states a length of %d is accepted: %v", packet.Type(t), len(b), n, y)
				return
			}
		}
	}
	// types that do not exist
	known := map[byte]bool{}
	for _, t := range allTypes {
		known[t] = true
	}
	for t := 0; t < 256; t++ {
		if known[byte(t)] {
			continue
		}
		b := rawPkt(byte(t), anyU64(r), fillBytes(r, r.IntN(40)))
		e1, e2, ok := c.both(b)
		if !ok {
			return
		}
		if e1 == nil || e2 == nil {
			c.Violate("unknown-type", "type %#x is accepted: Decode %v, DecodeFromReader %v", t, e1, e2)
			return
		}
	}
	// payload bytes beyond the stated length must not matter
	for i := 0; i < 60; i++ {
		p := oneEach(r, i, 60)
		b := p.bytes()
		for j := 0; j < 4; j++ {
			in := append(append([]byte(nil), b...), fillBytes(r, r.IntN(60))...)
			var y packet.Packet
			var err error
			if !c.guarded("Decode", in, func() { y, _, err = packet.Decode(in) }) {
				return
			}
			if err == nil {
				err = p.same(y)
			}
			if err != nil {
				c.Violate("beyond", "bytes behind a %s change what it decodes to: %v", packet.Type(p.typ), err)
				return
			}
			// a shorter stated length must not let the rest leak in
			if p.typ == tStream || p.typ == tRegister {
				cut := r.IntN(len(p.raw) + 1)
				in = append([]byte(nil), b...)
				binary.BigEndian.PutUint32(in[10:], uint32(8+cut))
				q := p
				q.raw = p.raw[:cut]
				if !c.guarded("Decode", in, func() { y, _, err = packet.Decode(in) }) {
					return
				}
				if err == nil {
					err = q.same(y)
				}
				if err != nil {
					c.Violate("beyond", "a %s with stated length %d of %d: %v", packet.Type(p.typ), 8+cut, len(b)-14, err)
					return
				}
			}
			c.Ev("beyond_checked", p.typ, len(in))
		}
	}
}

// decBadJSON: bodies which are not JSON.
func decBadJSON(c *C) {
	r := c.Sub()
	for i := 0; i < 300; i++ {
		p := oneEach(r, i, 60)
		if !hasJSON(p.typ) {
			continue
		}
		b, at := p.bytes(), 14+fixedLen(p.typ)
		switch r.IntN(4) {
		case 0: // cut short
			b = b[:at+r.IntN(len(b)-at)]
		case 1:
			b = append(b, fillBytes(r, 1+r.IntN(20))...)
		case 2:
			b = append(b[:at], fillBytes(r, r.IntN(60))...)
		case 3:
			for n := 1 + r.IntN(3); n > 0; n-- {
				b[at+r.IntN(len(b)-at)] = "{}[]\",:x\x00\\"[r.IntN(10)]
			}
		}
		if json.Valid(b[at:]) {
			continue
		}
		binary.BigEndian.PutUint32(b[10:], uint32(len(b)-14))
		e1, e2, ok := c.both(b)
		if !ok {
			return
		}
		if e1 == nil || e2 == nil {
			c.Violate("badjson", "a %s whose body is not JSON is accepted: Decode %v, DecodeFromReader %v; bytes %x", packet.Type(p.typ), e1, e2, clip(b, 120))
			return
		}
	}
}

func decMutate(c *C) {
	r := c.Sub()
	for i := 0; i < 900; i++ {
		p := anySpec(r, 80)
		b := p.bytes()
		for m := 0; m <= r.IntN(4); m++ {
			switch r.IntN(7) {
			case 0:
				b[r.IntN(len(b))] ^= 1 << r.IntN(8)
			case 1:
				b[1] = allTypes[r.IntN(len(allTypes))]
			case 2:
				binary.BigEndian.PutUint32(b[10:], uint32(r.IntN(len(b)+4)))
			case 3:
				if n := r.IntN(len(b)); n > 14 {
					b = b[:n]
				}
			case 4:
				b[r.IntN(len(b))] = byte(r.IntN(256))
			case 5:
				q := anySpec(r, 40)
				qb := q.bytes()
				at := 14 + r.IntN(len(b)-13)
				b = append(append(append([]byte(nil), b[:at]...), qb[r.IntN(len(qb)):]...), b[at:]...)
			case 6:
				if len(b) > 14 {
					at := 14 + r.IntN(len(b)-14)
					b = append(b[:at], b[min(len(b), at+1+r.IntN(8)):]...)
				}
				if r.IntN(2) == 0 { // keep it consistent
					binary.BigEndian.PutUint32(b[10:], uint32(len(b)-14))
				}
			}
		}
		clampLen(b)
		if _, _, ok := c.both(b); !ok {
			return
		}
	}
}

func decRandom(c *C) {
	r := c.Sub()
	for i := 0; i < 1500; i++ {
		b := fillBytes(r, r.IntN(80))
		if len(b) > 1 && r.IntN(2) == 0 {
			b[1] = allTypes[r.IntN(len(allTypes))]
		}
		if len(b) >= 14 && r.IntN(2) == 0 {
			binary.BigEndian.PutUint32(b[10:], uint32(r.IntN(len(b)-13)))
		}
		clampLen(b)
		if _, _, ok := c.both(b); !ok {
			return
		}
	}
}
