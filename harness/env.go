package verif

import (
	"errors"
	"fmt"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"verif/vsync"
)

// yieldLog is a logger which perturbs the schedule at the library's own log
// points and drops the text: one that yields, or takes its time.
type yieldLog struct{ c *C }

func (l yieldLog) y(f string) {
	c := l.c
	if c.sticky != 0 {
		h := c.sticky
		for i := 0; i < len(f); i++ {
			h = (h ^ uint64(f[i])) * 1099511628211
		}
		if (h>>32)%3 == 0 {
			offRecord(func() { vsync.Lag(1) })
			return
		}
	}
	if c.yprob == 0 && c.lag == 0 {
		return
	}
	var x uint64
	offRecord(func() { x = c.yield.Add(0x9E3779B97F4A7C15) })
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	if c.lag != 0 && (x>>20)%c.lag == 0 {
		offRecord(func() { vsync.Lag(1) })
	} else if c.yprob != 0 && x%c.yprob == 0 {
		runtime.Gosched()
	}
}
func (l yieldLog) Trace(v ...interface{})            { l.y("") }
func (l yieldLog) Tracef(f string, v ...interface{}) { l.y(f) }
func (l yieldLog) Debug(v ...interface{})            { l.y("") }
func (l yieldLog) Debugf(f string, v ...interface{}) { l.y(f) }
func (l yieldLog) Info(v ...interface{})             { l.y("") }
func (l yieldLog) Infof(f string, v ...interface{})  { l.y(f) }
func (l yieldLog) Warn(v ...interface{})             { l.y("") }
func (l yieldLog) Warnf(f string, v ...interface{})  { l.y(f) }
func (l yieldLog) Error(v ...interface{})            { l.y("") }
func (l yieldLog) Errorf(f string, v ...interface{}) { l.y(f) }

// ---- delegates that record ---------------------------------------------

type dEv struct {
	At     time.Time
	Kind   string // connon connoff hb getid dlgon dlgoff reg reonline
	Client uint64
	Dlg    uint64
	Meta   string
	Method string
}

type dlg struct {
	c      *C
	mu     vsync.Quiet
	evs    []dEv
	getID  func(wanted uint64, meta []byte) (uint64, error)
	onConn func() error
	onEv   func(dEv)
}

func (d *dlg) add(e dEv) {
	e.At = time.Now()
	d.mu.Lock()
	d.evs = append(d.evs, e)
	f := d.onEv
	d.mu.Unlock()
	d.c.Ev("delegate_events", e.Kind)
	if f != nil {
		f(e)
	}
}

func (d *dlg) Of(kind string) []dEv {
	d.mu.Lock()
	defer d.mu.Unlock()
	var out []dEv
	for _, e := range d.evs {
		if e.Kind == kind {
			out = append(out, e)
		}
	}
	return out
}

func (d *dlg) All() []dEv {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]dEv(nil), d.evs...)
}

func (d *dlg) ConnOnline(cn delegate.ConnDescriber) error {
	d.add(dEv{Kind: "connon", Client: cn.ClientID(), Meta: string(cn.Meta())})
	if d.onConn != nil {
		return d.onConn()
	}
	return nil
}
func (d *dlg) ConnOffline(cn delegate.ConnDescriber) error {
	d.add(dEv{Kind: "connoff", Client: cn.ClientID(), Meta: string(cn.Meta())})
	return nil
}
func (d *dlg) DialogueOnline(g delegate.DialogueDescriber) error {
	d.add(dEv{Kind: "dlgon", Client: g.ClientID(), Dlg: g.DialogueID(), Meta: string(g.Meta())})
	return nil
}
func (d *dlg) DialogueOffline(g delegate.DialogueDescriber) error {
	d.add(dEv{Kind: "dlgoff", Client: g.ClientID(), Dlg: g.DialogueID(), Meta: string(g.Meta())})
	return nil
}
func (d *dlg) RemoteRegistration(method string, clientID uint64, streamID uint64) {
	d.add(dEv{Kind: "reg", Client: clientID, Dlg: streamID, Method: method})
}

type cliDlg struct{ dlg }

func (d *cliDlg) EndReOnline(cd delegate.ClientDescriber) {
	d.add(dEv{Kind: "reonline", Client: cd.ClientID()})
}

type srvDlg struct{ dlg }

func (d *srvDlg) Heartbeat(cn delegate.ConnDescriber) error {
	d.add(dEv{Kind: "hb", Client: cn.ClientID()})
	return nil
}
func (d *srvDlg) GetClientID(wanted uint64, meta []byte) (uint64, error) {
	d.add(dEv{Kind: "getid", Client: wanted, Meta: string(meta)})
	if d.getID != nil {
		return d.getID(wanted, meta)
	}
	return 0, nil
}

var _ delegate.ClientDelegate = (*cliDlg)(nil)
var _ delegate.ServerDelegate = (*srvDlg)(nil)

// ---- a pair of ends ------------------------------------------------------

type EnvOpt struct {
	Link LinkOpt
	TCP  bool // loopback instead of the in-memory link (wall clock only)
	Cli  func(*client.EndOptions)
	Srv  func(*server.EndOptions)
	CD   func(*cliDlg)
	SD   func(*srvDlg)
	// NoDelegates leaves the delegates unset
	NoDelegates bool
	// NoClose leaves the Ends alone when the case is over
	NoClose bool
}

type Env struct {
	c        *C
	Link     *Link
	Cli, Srv geminio.End
	CD       *cliDlg
	SD       *srvDlg
	cn, sn   net.Conn
}

func (c *C) tcpPair() (net.Conn, net.Conn, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, nil, err
	}
	defer ln.Close()
	type res struct {
		cn  net.Conn
		err error
	}
	ch := make(chan res, 1)
	go func() { cn, err := ln.Accept(); ch <- res{cn, err} }()
	a, err := net.Dial("tcp", ln.Addr().String())
	if err != nil {
		return nil, nil, err
	}
	r := <-ch
	return a, r.cn, r.err
}

func (c *C) cliOpts(d *cliDlg, f func(*client.EndOptions)) *client.EndOptions {
	o := client.NewEndOptions()
	o.SetLog(yieldLog{c})
	if d != nil {
		o.SetDelegate(d)
	}
	if f != nil {
		f(o)
	}
	return o
}

func (c *C) srvOpts(d *srvDlg, f func(*server.EndOptions)) *server.EndOptions {
	o := server.NewEndOptions()
	o.SetLog(yieldLog{c})
	if d != nil {
		o.SetDelegate(d)
	}
	if f != nil {
		f(o)
	}
	return o
}

// TryEnv constructs both ends concurrently; it records a hang but not an error.
func (c *C) TryEnv(o EnvOpt) (e *Env, cerr, serr error) {
	e = &Env{c: c}
	if o.TCP {
		a, b, err := c.tcpPair()
		if err != nil {
			c.Inconclusive("tcp: %v", err)
			return nil, err, err
		}
		e.cn, e.sn = a, b
		c.Cleanup(func() { a.Close(); b.Close() })
	} else {
		e.Link = c.NewLink(o.Link)
		e.cn, e.sn = e.Link.A, e.Link.B
	}
	if !o.NoDelegates {
		e.CD, e.SD = &cliDlg{dlg{c: c}}, &srvDlg{dlg{c: c}}
		if o.CD != nil {
			o.CD(e.CD)
		}
		if o.SD != nil {
			o.SD(e.SD)
		}
	}
	cos, sos := given(c, c.cliOpts(e.CD, o.Cli)), given(c, c.srvOpts(e.SD, o.Srv))
	var cli, srv geminio.End
	cerr, serr = errors.New("did not return"), errors.New("did not return")
	ok := c.All("End construction",
		func() { cli, cerr = client.NewEndWithConn(e.cn, cos...) },
		func() { srv, serr = server.NewEndWithConn(e.sn, sos...) })
	if !ok {
		return nil, errHang, errHang
	}
	if cerr == nil {
		e.Cli = cli
	}
	if serr == nil {
		e.Srv = srv
	}
	if !o.NoClose {
		c.Cleanup(func() { e.closeAll() })
	}
	return e, cerr, serr
}

var errHang = errors.New("did not return")

// NewEnv is TryEnv where failing is a violation.
func (c *C) NewEnv(o EnvOpt) *Env {
	e, cerr, serr := c.TryEnv(o)
	if cerr == errHang {
		return nil
	}
	if e == nil {
		return nil
	}
	if cerr != nil || serr != nil {
		c.Violate("construct", "constructing the ends failed: client %v, server %v", cerr, serr)
		return nil
	}
	return e
}

// closeAll closes both ends, bounded.
func (e *Env) closeAll() {
	e.c.Quiet(2*time.Minute, func() {
		var wg sync.WaitGroup
		for _, x := range []geminio.End{e.Cli, e.Srv} {
			if x != nil {
				wg.Add(1)
				go func() { defer wg.Done(); x.Close() }()
			}
		}
		wg.Wait()
	})
}

// side 0 is the client, 1 the server
func (e *Env) End(side int) geminio.End {
	if side == 0 {
		return e.Cli
	}
	return e.Srv
}

type pair struct {
	o, a geminio.Stream // opener's and acceptor's
	side int            // who opened
}

// at returns the stream of the given side
func (p pair) at(side int) geminio.Stream {
	if p.side == side {
		return p.o
	}
	return p.a
}

// OpenPair opens a stream on one side while accepting on the other.
func (e *Env) OpenPair(side int, opts ...*options.OpenStreamOptions) (pair, bool) {
	var p pair
	p.side = side
	var oerr, aerr error
	ok := e.c.All("OpenStream/AcceptStream",
		func() { p.o, oerr = e.End(side).OpenStream(opts...) },
		func() { p.a, aerr = e.End(1 - side).AcceptStream() })
	if !ok {
		return p, false
	}
	if oerr != nil || aerr != nil {
		e.c.Violate("open", "open by side %d: %v, accept: %v", side, oerr, aerr)
		return p, false
	}
	e.c.Ev("streams_opened", side)
	return p, true
}

// Pairs returns the default stream and n more opened from random sides.
func (e *Env) Pairs(n int) ([]pair, bool) {
	ps := []pair{{o: e.Cli, a: e.Srv, side: 0}}
	for i := 0; i < n; i++ {
		p, ok := e.OpenPair(e.c.N(2))
		if !ok {
			return nil, false
		}
		ps = append(ps, p)
	}
	return ps, true
}

// LinkOf draws transport conditions.
func (c *C) LinkOf() LinkOpt {
	o := LinkOpt{}
	switch c.N(6) {
	case 0:
	case 1:
		o.Cap = c.Range(1, 64)
	case 2:
		o.MaxRead = c.Range(1, 7)
	case 3:
		o.Latency = time.Duration(c.Range(1, 50)) * time.Millisecond
	case 4:
		o.Latency = time.Duration(c.Range(0, 5)) * time.Millisecond
		o.Jitter = time.Duration(c.Range(1, 20)) * time.Millisecond
		o.MaxWrite = c.Range(1, 200)
	case 5:
		o.Cap = c.Range(64, 4096)
		o.MaxRead = c.Range(1, 512)
	}
	return o
}

// BufOf draws the library's own buffer sizes; 0 means unset.
func (c *C) BufOf() (int, int) {
	if c.Bool() {
		return -1, -1
	}
	return c.Pick(1, 2, 8, 64), c.Pick(1, 2, 8, 64)
}

// Stock draws an environment with varied transports and buffer sizes.
func (c *C) Stock() EnvOpt {
	r, w := c.BufOf()
	r2, w2 := c.BufOf()
	var meta []byte
	if c.Chance(40) {
		meta = c.Bytes(1 + c.N(100))
	}
	o := EnvOpt{Link: c.LinkOf(),
		Cli: func(o *client.EndOptions) {
			o.SetBufferSize(r, w)
			if meta != nil {
				o.SetMeta(meta)
			}
		},
		Srv: func(o *server.EndOptions) { o.SetBufferSize(r2, w2) },
	}
	if c.Mode == Real {
		o.TCP = c.Bool()
	}
	return o
}

// ---- raw flows -------------------------------------------------------------

// rawFlow writes a known byte sequence on one side of a stream, with at most
// `window` packets outstanding, and verifies what the other side reads.
type rawFlow struct {
	c       *C
	name    string
	w, r    geminio.Stream
	key     uint64
	mu      vsync.Quiet
	ends    []int64 // end offset of each outstanding packet
	lens    []int
	sem     chan struct{}
	written int64
	read    int64
	nread   int
	reuse   bool
	dl      int // percentage of reads under a deadline, past or soon
	werr    error
}

const rawWindow = 32

func (c *C) NewFlow(name string, w, r geminio.Stream) *rawFlow {
	return &rawFlow{c: c, name: name, w: w, r: r, key: c.U64(), sem: make(chan struct{}, rawWindow), reuse: true}
}

func (f *rawFlow) at(off int64, b []byte) {
	for i := range b {
		x := (f.key + uint64(off+int64(i))>>3) * 0x9E3779B97F4A7C15
		x ^= x >> 31
		x *= 0xD6E8FEB86659FD93
		b[i] = byte(x >> (8 * (uint64(off+int64(i)) & 7)))
	}
}

// Write writes one packet of n bytes.
func (f *rawFlow) Write(n int) error {
	f.sem <- struct{}{}
	return f.write(n)
}

func (f *rawFlow) write(n int) error {
	b := make([]byte, n)
	off := f.written
	f.at(off, b)
	f.mu.Lock()
	f.ends = append(f.ends, off+int64(n))
	f.lens = append(f.lens, n)
	f.mu.Unlock()
	m, err := f.w.Write(b)
	if err != nil {
		f.werr = err
		return err
	}
	if m != n {
		f.c.Violate("raw-write-count", "%s: Write of %d bytes returned %d, nil", f.name, n, m)
	}
	f.written += int64(n)
	if f.reuse { // the writer may reuse its buffer at once
		for i := range b {
			b[i] = 0xEE
		}
	}
	f.c.Ev("raw_writes", f.name, n)
	return nil
}

// Run writes n packets of sizes up to max.
func (f *rawFlow) Run(n, max int, gap func()) {
	r := f.c.Sub()
	zero := false
	for i := 0; i < n; i++ {
		sz := sizeOf(r, max)
		if sz == 0 && zero {
			sz = 1
		}
		zero = sz == 0
		if f.Write(sz) != nil {
			return
		}
		if gap != nil {
			gap()
		}
	}
}

// got accounts for a Read of n bytes; it verifies them.
func (f *rawFlow) got(b []byte) bool {
	n := len(b)
	want := make([]byte, n)
	f.at(f.read, want)
	for i := range b {
		if b[i] != want[i] {
			f.c.Violate("raw-bytes", "%s: byte %d of the stream is %#x, wrote %#x (read of %d at %d; %d written so far)",
				f.name, f.read+int64(i), b[i], want[i], n, f.read, f.written)
			return false
		}
	}
	f.mu.Lock()
	f.read += int64(n)
	f.nread++
	rel := 0
	for len(f.ends) > 0 && (f.ends[0] < f.read || f.ends[0] == f.read && (f.lens[0] > 0 || n == 0)) {
		f.ends, f.lens = f.ends[1:], f.lens[1:]
		rel++
		if n == 0 {
			break
		}
	}
	f.mu.Unlock()
	for ; rel > 0; rel-- {
		select {
		case <-f.sem:
		default:
		}
	}
	f.c.Ev("raw_reads", f.name, n)
	return true
}

// ReadN reads until total bytes were read; false when that failed.
func (f *rawFlow) ReadN(total func() (int64, bool), bufMax int) bool {
	r := f.c.Sub()
	for {
		if t, known := total(); known && f.read >= t {
			if f.read > t {
				f.c.Violate("raw-extra", "%s: read %d bytes, only %d were written", f.name, f.read, t)
				return false
			}
			return true
		}
		if t, known := total(); known && f.read < t && r.IntN(20) == 0 {
			// reading into nothing takes nothing
			if n, err := f.r.Read(nil); n != 0 || err != nil {
				f.c.Violate("raw-read-nothing", "%s: Read into an empty buffer returned %d, %v", f.name, n, err)
				return false
			}
		}
		buf := make([]byte, 1+r.IntN(bufMax))
		limited := f.dl > 0 && r.IntN(100) < f.dl
		if limited {
			d := time.Now().Add(time.Duration(r.IntN(20)-10) * time.Millisecond)
			if r.IntN(4) == 0 {
				d = time.Unix(1, 0)
			}
			f.r.SetReadDeadline(d)
		}
		n, err := f.r.Read(buf)
		if limited {
			f.r.SetReadDeadline(time.Time{})
			if n == 0 && errors.Is(err, os.ErrDeadlineExceeded) {
				f.c.Ev("raw_read_timeouts", f.name)
				// the next one waits: time must pass
				n, err = f.r.Read(buf)
			}
		}
		if n < 0 || n > len(buf) {
			f.c.Violate("raw-read-count", "%s: Read returned %d for a buffer of %d", f.name, n, len(buf))
			return false
		}
		if n > 0 || err == nil {
			if !f.got(buf[:n]) {
				return false
			}
		}
		if err != nil {
			f.c.Violate("raw-read-err", "%s: Read failed with %v after %d of %d bytes", f.name, err, f.read, f.written)
			return false
		}
	}
}

// NoExtra verifies that nothing more can be read.
func (f *rawFlow) NoExtra() {
	f.r.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
	buf := make([]byte, 64)
	for {
		n, err := f.r.Read(buf)
		if n > 0 {
			f.c.Violate("raw-extra", "%s: %d more bytes can be read than were written: %x", f.name, n, buf[:n])
			break
		}
		if err != nil {
			break
		}
	}
	f.r.SetReadDeadline(time.Time{})
}

// Full runs a complete flow: n packets up to max bytes, verified, then no extra.
func (f *rawFlow) Full(n, max, bufMax int, wgap func()) {
	var done atomic.Bool
	var total int64
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		f.Run(n, max, wgap)
		f.mu.Lock()
		total = f.written
		f.mu.Unlock()
		done.Store(true)
		if f.werr != nil {
			f.c.Violate("raw-write-err", "%s: Write failed with %v", f.name, f.werr)
			return
		}
		// a last marker byte so that the reader learns the end
		f.Write(1)
	}()
	ok := f.ReadN(func() (int64, bool) {
		if done.Load() {
			return total + 1, true
		}
		return 0, false
	}, bufMax)
	if ok {
		wg.Wait()
		f.NoExtra()
	}
}

func short(b []byte) string {
	if len(b) > 16 {
		return fmt.Sprintf("%x..(%d)", b[:16], len(b))
	}
	return fmt.Sprintf("%x", b)
}
