package verif

import (
	"errors"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// An in-memory transport with controllable buffering, latency, segmentation
// and faults. Built on sync.Cond so that it blocks durably inside a synctest
// bubble. Each direction is tapped by an independent packet parser.

type LinkOpt struct {
	Cap      int           // bytes buffered per direction (default 64 KiB)
	Latency  time.Duration // delay of each written chunk
	Jitter   time.Duration
	MaxRead  int // a read returns at most this many bytes (0: no limit)
	MaxWrite int // a write is cut in chunks of at most this many bytes
}

var linkSeq atomic.Uint64

type memAddr string

func (a memAddr) Network() string { return "mem" }
func (a memAddr) String() string  { return string(a) }

type chunk struct {
	b  []byte
	at time.Time
}

type half struct {
	c      *C
	mu     sync.Mutex
	cond   *sync.Cond
	o      LinkOpt
	buf    []byte
	fly    []chunk
	flyN   int
	last   time.Time
	wEOF   bool  // writer closed
	rGone  bool  // reader closed
	rerr   error // forced
	werr   error
	stall  bool  // delivered nothing any more (bytes are swallowed)
	lost   bool  // so are the end of the stream and resets
	hold   bool  // reader blocked, bytes kept
	limit  int64 // break after this many bytes delivered to buf (<0 none)
	total  int64
	onLim  func()
	tap    func(b []byte)
	writes int
}

func newHalf(c *C, o LinkOpt) *half {
	h := &half{c: c, o: o, limit: -1}
	h.cond = sync.NewCond(&h.mu)
	return h
}

func (h *half) write(b []byte) (int, error) {
	n := 0
	for n < len(b) {
		k := len(b) - n
		if h.o.MaxWrite > 0 && k > h.o.MaxWrite {
			k = h.o.MaxWrite
		}
		h.mu.Lock()
		for h.werr == nil && !h.wEOF && (!h.rGone || h.lost) && len(h.buf)+h.flyN >= h.o.Cap {
			h.cond.Wait()
		}
		if h.werr != nil {
			e := h.werr
			h.mu.Unlock()
			return n, e
		}
		if h.wEOF {
			h.mu.Unlock()
			return n, net.ErrClosed
		}
		if h.rGone && !h.lost {
			h.mu.Unlock()
			return n, syscall.EPIPE
		}
		if room := h.o.Cap - len(h.buf) - h.flyN; k > room {
			k = room
		}
		part := b[n : n+k]
		var fire func()
		if h.limit >= 0 && h.total+int64(k) >= h.limit {
			part = part[:h.limit-h.total]
			k = len(part)
			fire = h.onLim
			h.limit = -1
		}
		h.total += int64(k)
		h.writes++
		if h.tap != nil {
			h.tap(part)
		}
		switch {
		case h.stall:
		case h.o.Latency > 0 || h.o.Jitter > 0:
			d := h.o.Latency
			if h.o.Jitter > 0 {
				d += time.Duration(h.c.N(int(h.o.Jitter)))
			}
			at := time.Now().Add(d)
			if at.Before(h.last) {
				at = h.last
			}
			h.last = at
			h.fly = append(h.fly, chunk{append([]byte(nil), part...), at})
			h.flyN += k
			time.AfterFunc(time.Until(at), h.land)
		default:
			h.buf = append(h.buf, part...)
			h.cond.Broadcast()
		}
		h.mu.Unlock()
		n += k
		if fire != nil {
			fire()
		}
	}
	return n, nil
}

func (h *half) land() {
	h.mu.Lock()
	now := time.Now()
	for len(h.fly) > 0 && !h.fly[0].at.After(now) {
		h.buf = append(h.buf, h.fly[0].b...)
		h.flyN -= len(h.fly[0].b)
		h.fly = h.fly[1:]
	}
	h.cond.Broadcast()
	h.mu.Unlock()
}

func (h *half) read(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.rGone {
			return 0, net.ErrClosed
		}
		if h.rerr != nil {
			return 0, h.rerr
		}
		if len(h.buf) > 0 && !h.hold {
			n := len(b)
			if h.o.MaxRead > 0 && n > h.o.MaxRead {
				n = h.o.MaxRead
			}
			n = copy(b[:n], h.buf)
			h.buf = h.buf[n:]
			if len(h.buf) == 0 {
				h.buf = nil
			}
			h.cond.Broadcast()
			return n, nil
		}
		if h.wEOF && len(h.fly) == 0 && !h.hold && !h.lost {
			return 0, io.EOF
		}
		if len(b) == 0 {
			return 0, nil
		}
		h.cond.Wait()
	}
}

func (h *half) set(f func()) {
	h.mu.Lock()
	f()
	h.cond.Broadcast()
	h.mu.Unlock()
}

type MemConn struct {
	link         *Link
	in, out      *half
	laddr, raddr memAddr
	closes       atomic.Int32
	closedAt     atomic.Int64
}

func (m *MemConn) Read(b []byte) (int, error)  { return m.in.read(b) }
func (m *MemConn) Write(b []byte) (int, error) { return m.out.write(b) }
func (m *MemConn) Close() error {
	if m.closes.Add(1) > 1 {
		return net.ErrClosed
	}
	m.in.set(func() { m.in.rGone = true })
	m.out.set(func() { m.out.wEOF = true })
	return nil
}
func (m *MemConn) Closed() bool                       { return m.closes.Load() > 0 }
func (m *MemConn) LocalAddr() net.Addr                { return m.laddr }
func (m *MemConn) RemoteAddr() net.Addr               { return m.raddr }
func (m *MemConn) SetDeadline(time.Time) error        { return errors.New("unsupported") }
func (m *MemConn) SetReadDeadline(time.Time) error    { return errors.New("unsupported") }
func (m *MemConn) SetWriteDeadline(t time.Time) error { return errors.New("unsupported") }

// Link joins two MemConns. A is the client side, B the server side.
type Link struct {
	c      *C
	A, B   *MemConn
	ab, ba *half
	AB, BA *WireLog
}

func (c *C) NewLink(o LinkOpt) *Link {
	if o.Cap <= 0 {
		o.Cap = 64 << 10
	}
	id := linkSeq.Add(1)
	l := &Link{c: c, ab: newHalf(c, o), ba: newHalf(c, o)}
	aa, ba := memAddr("mem-a-"+itoa(id)), memAddr("mem-b-"+itoa(id))
	l.A = &MemConn{link: l, in: l.ba, out: l.ab, laddr: aa, raddr: ba}
	l.B = &MemConn{link: l, in: l.ab, out: l.ba, laddr: ba, raddr: aa}
	l.AB = &WireLog{c: c, dir: "ab"}
	l.BA = &WireLog{c: c, dir: "ba"}
	l.ab.tap = l.AB.feed
	l.ba.tap = l.BA.feed
	c.Cleanup(func() { l.Break(true) })
	return l
}

func itoa(u uint64) string {
	if u == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	for u > 0 {
		i--
		b[i] = byte('0' + u%10)
		u /= 10
	}
	return string(b[i:])
}

// Break kills the connection in both directions, as a reset would; with
// discard the bytes still in flight are lost, otherwise they can be read.
func (l *Link) Break(discard bool) {
	for _, h := range []*half{l.ab, l.ba} {
		h.set(func() {
			h.stall, h.lost = false, false
			if h.werr == nil {
				h.werr = syscall.ECONNRESET
			}
			if discard {
				if h.rerr == nil {
					h.rerr = syscall.ECONNRESET
				}
			} else {
				h.wEOF = true
				// in-flight chunks land at once
				for _, f := range h.fly {
					h.buf = append(h.buf, f.b...)
				}
				h.fly, h.flyN = nil, 0
			}
		})
	}
}

// Blackhole makes directions silently swallow all bytes from now on.
func (l *Link) Blackhole(ab, ba bool) {
	if ab {
		l.ab.set(func() { l.ab.stall = true; l.ab.fly, l.ab.flyN = nil, 0 })
	}
	if ba {
		l.ba.set(func() { l.ba.stall = true; l.ba.fly, l.ba.flyN = nil, 0 })
	}
}

// Lose makes directions swallow the end of the stream and resets as well: the
// side which reads learns nothing any more.
func (l *Link) Lose(ab, ba bool) {
	l.Blackhole(ab, ba)
	if ab {
		l.ab.set(func() { l.ab.lost = true })
	}
	if ba {
		l.ba.set(func() { l.ba.lost = true })
	}
}

// Hold keeps delivered bytes from being read until released.
func (l *Link) Hold(ab, ba bool) {
	l.ab.set(func() { l.ab.hold = ab })
	l.ba.set(func() { l.ba.hold = ba })
}

// CutAfter breaks the link once n more bytes were written in a direction.
func (l *Link) CutAfter(fromA bool, n int, discard bool) {
	h := l.ba
	if fromA {
		h = l.ab
	}
	h.set(func() {
		h.limit = h.total + int64(n)
		h.onLim = func() { l.Break(discard) }
	})
}

func (h *half) sent() int64 { h.mu.Lock(); defer h.mu.Unlock(); return h.total }
