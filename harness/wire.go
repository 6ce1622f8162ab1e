package verif

import (
	"encoding/binary"
	"encoding/json"
	"sync"
	"time"
)

// Independent knowledge of the wire format (not taken from the library's
// codec): 14-byte big-endian header, then a type-specific payload.

const (
	tConn        = 0x01
	tConnAck     = 0x02
	tDisConn     = 0x11
	tDisConnAck  = 0x12
	tHB          = 0x21
	tHBAck       = 0x22
	tSession     = 0x31
	tSessionAck  = 0x32
	tDismiss     = 0x41
	tDismissAck  = 0x42
	tMessage     = 0x51
	tMessageAck  = 0x52
	tStream      = 0x61
	tRequest     = 0x71
	tResponse    = 0x72
	tReqCancel   = 0x73
	tRegister    = 0x81
	tRegisterAck = 0x82
)

type WirePkt struct {
	At      time.Time
	Type    byte
	ID      uint64
	Payload []byte
}

func (p WirePkt) Session() uint64 {
	switch p.Type {
	case tMessage, tMessageAck, tStream, tRequest, tResponse, tReqCancel, tRegister, tRegisterAck, tDismiss, tDismissAck:
		if len(p.Payload) >= 8 {
			return binary.BigEndian.Uint64(p.Payload)
		}
	}
	return 0
}

// WireLog parses one direction of a link.
type WireLog struct {
	c    *C
	dir  string
	mu   sync.Mutex
	buf  []byte
	Pkts []WirePkt
	Bad  string
	keep int
}

func (w *WireLog) feed(b []byte) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.Bad != "" {
		return
	}
	w.buf = append(w.buf, b...)
	for len(w.buf) >= 14 {
		if w.buf[0] != 1 {
			w.Bad = "bad version byte"
			return
		}
		n := int(binary.BigEndian.Uint32(w.buf[10:14]))
		if len(w.buf) < 14+n {
			return
		}
		p := WirePkt{At: time.Now(), Type: w.buf[1], ID: binary.BigEndian.Uint64(w.buf[2:10])}
		pl := w.buf[14 : 14+n]
		if len(pl) > 4096 {
			pl = pl[:4096]
		}
		p.Payload = append([]byte(nil), pl...)
		w.buf = w.buf[14+n:]
		w.Pkts = append(w.Pkts, p)
		w.c.Ev("wire_packets", w.dir, p.Type)
	}
}

func (w *WireLog) Of(t byte) []WirePkt {
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []WirePkt
	for _, p := range w.Pkts {
		if p.Type == t {
			out = append(out, p)
		}
	}
	return out
}

func (w *WireLog) All() []WirePkt {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]WirePkt(nil), w.Pkts...)
}

// ---- hand-made packets, for peers the library did not write --------------

func rawPkt(t byte, id uint64, payload []byte) []byte {
	b := make([]byte, 14, 14+len(payload))
	b[0], b[1] = 1, t
	binary.BigEndian.PutUint64(b[2:], id)
	binary.BigEndian.PutUint32(b[10:], uint32(len(payload)))
	return append(b, payload...)
}

func u64b(v uint64) []byte { return binary.BigEndian.AppendUint64(nil, v) }

type connData struct {
	Meta  []byte `json:"meta,omitempty"`
	Error string `json:"error,omitempty"`
}

func js(v any) []byte { b, _ := json.Marshal(v); return b }

func mkConn(id, clientID uint64, hb byte, acquire bool, meta []byte) []byte {
	p := make([]byte, 2)
	p[0] = hb << 4
	if acquire {
		p[0] |= 8
	}
	p = append(p, u64b(clientID)...)
	return rawPkt(tConn, id, append(p, js(connData{Meta: meta})...))
}

func mkConnAck(id, clientID uint64, errText string) []byte {
	p := []byte{0}
	if errText != "" {
		p[0] = 1
	}
	p = append(p, u64b(clientID)...)
	return rawPkt(tConnAck, id, append(p, js(connData{Error: errText})...))
}

func mkDisConnAck(id uint64) []byte {
	return rawPkt(tDisConnAck, id, append([]byte{0}, js(connData{})...))
}

type sessData struct {
	Meta  []byte `json:"meta,omitempty"`
	Peer  string `json:"peer,omitempty"`
	Error string `json:"error,omitempty"`
}

func mkSession(id, neg uint64, acquire bool, meta []byte, peer string) []byte {
	p := make([]byte, 2)
	if acquire {
		p[1] |= 0x10
	}
	p = append(p, u64b(neg)...)
	return rawPkt(tSession, id, append(p, js(sessData{Meta: meta, Peer: peer})...))
}

func mkSessionAck(id, neg, sess uint64, errText string) []byte {
	p := make([]byte, 2)
	p = append(p, u64b(neg)...)
	p = append(p, u64b(sess)...)
	return rawPkt(tSessionAck, id, append(p, js(sessData{Error: errText})...))
}

type msgData struct {
	Key    []byte `json:"key,omitempty"`
	Value  []byte `json:"value,omitempty"`
	Topic  string `json:"topic,omitempty"`
	Custom []byte `json:"custom,omitempty"`
	Error  string `json:"error,omitempty"`
}

func mkData(t byte, id, sess uint64, d msgData) []byte {
	return rawPkt(t, id, append(u64b(sess), js(d)...))
}
func mkStream(id, sess uint64, b []byte) []byte { return rawPkt(tStream, id, append(u64b(sess), b...)) }
func mkDismiss(id, sess uint64) []byte {
	return rawPkt(tDismiss, id, append(u64b(sess), []byte("{}")...))
}

// jsonKey returns the key (the method of a request) of a data packet's body.
func jsonKey(b []byte) string {
	var d msgData
	if json.Unmarshal(b, &d) != nil {
		return ""
	}
	return string(d.Key)
}
