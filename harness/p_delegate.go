package verif

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"

	"verif/vsync"
)

func init() {
	register(&Prop{ID: "C16",
		Rule: "A case installs recording delegates on both Ends (sometimes slow ones) and, on the server, sometimes accept and closed callbacks, then opens, uses and closes streams from both sides, registers methods on them and ends the connection in any way (see C11) or cuts it in the middle; or connects several clients to one delegate, some refused, some lost; or is a hand-made client which repeats handshakes, opens, closes and registrations. When all is over the recorded notifications are compared with what happened: exactly once each, right IDs, meta, order and instants.",
		Scens: []*Scen{
			{Name: "life", Mode: Bubble, Quick: 240, Thorough: 10000, Batch: 10, Fn: dlgLife},
			{Name: "racing", Mode: Bubble, Quick: 120, Thorough: 6000, Batch: 10, Fn: dlgRacing},
			{Name: "many", Mode: Bubble, Quick: 160, Thorough: 6000, Batch: 20, Fn: dlgMany},
			{Name: "wire", Mode: Bubble, Quick: 160, Thorough: 6000, Batch: 20, NoReal: true, Fn: dlgWire},
			{Name: "wall", Mode: Real, Quick: 16, Thorough: 300, Batch: 4, Fn: dlgRacing},
		}})
}

type cbRec struct {
	at time.Time
	s  geminio.Stream
	id uint64
}

// dlgEnv is an environment all of whose notifications are recorded.
type dlgEnv struct {
	*Env
	c              *C
	useCB          bool
	mu             vsync.Quiet
	accs, closes   []cbRec
	accepted       chan geminio.Stream
	opened         [2][]*dlgStream // by opener
	failed         [2]int          // opens which failed
	regs           map[regKey]int
	regsFailed     map[regKey]int
	endAt          time.Time
	onlineAtReturn int
}

type regKey struct {
	side   int // who is told
	stream uint64
	method string
}

type dlgStream struct {
	s      geminio.Stream
	meta   string
	closed time.Time // when somebody first called Close, zero: never
	opened time.Time
	before time.Time
}

func (c *C) newDlgEnv() *dlgEnv {
	x := &dlgEnv{c: c, regs: map[regKey]int{}, regsFailed: map[regKey]int{}, accepted: make(chan geminio.Stream, 4096)}
	x.useCB = c.Bool()
	o := EnvOpt{Link: c.LinkOf()}
	if c.Mode == Real {
		o.TCP = c.Bool()
	}
	slow := time.Duration(0)
	if c.Chance(25) {
		slow = time.Duration(c.Range(1, 50)) * time.Millisecond
	}
	sl := func(dEv) { time.Sleep(slow) }
	o.CD = func(d *cliDlg) { d.onEv = sl }
	o.SD = func(d *srvDlg) { d.onEv = sl }
	nl := c.N(3)
	local := func(side int, f func(...*geminio.MethodRPC)) {
		var ms []*geminio.MethodRPC
		for i := 0; i < nl; i++ {
			m := fmt.Sprintf("local-%d-%d", side, i)
			ms = append(ms, &geminio.MethodRPC{Method: m, RPC: func(context.Context, geminio.Request, geminio.Response) {}})
			x.regs[regKey{1 - side, 1, m}]++
		}
		if nl > 0 {
			f(ms...)
		}
	}
	o.Cli = func(o *client.EndOptions) { local(0, o.SetRegisterLocalRPCs) }
	o.Srv = func(o *server.EndOptions) {
		local(1, o.SetRegisterLocalRPCs)
		if x.useCB {
			o.SetAcceptStreamFunc(func(s geminio.Stream) {
				c.Ev("accept_callbacks")
				x.mu.Lock()
				x.accs = append(x.accs, cbRec{time.Now(), s, s.StreamID()})
				x.mu.Unlock()
				time.Sleep(slow)
				x.accepted <- s
			})
			o.SetClosedStreamFunc(func(s geminio.Stream) {
				c.Ev("closed_callbacks")
				x.mu.Lock()
				x.closes = append(x.closes, cbRec{time.Now(), s, s.StreamID()})
				x.mu.Unlock()
			})
		}
	}
	x.Env = c.NewEnv(o)
	if x.Env == nil {
		return nil
	}
	return x
}

func (x *dlgEnv) open(side int) *dlgStream {
	d := &dlgStream{meta: string(x.c.metaOf()), before: time.Now()}
	oo := options.OpenStream()
	if d.meta != "" {
		oo.SetMeta([]byte(d.meta))
	}
	s, err := x.End(side).OpenStream(given(x.c, oo)...)
	x.mu.Lock()
	defer x.mu.Unlock()
	if err != nil {
		x.failed[side]++
		return nil
	}
	d.s, d.opened = s, time.Now()
	x.opened[side] = append(x.opened[side], d)
	return d
}

// reg registers a method on a stream of the given side.
func (x *dlgEnv) reg(side int, s geminio.Stream, method string) {
	err := s.Register(context.Background(), method, func(context.Context, geminio.Request, geminio.Response) {})
	x.mu.Lock()
	defer x.mu.Unlock()
	k := regKey{1 - side, s.StreamID(), method}
	if err != nil {
		x.regsFailed[k]++
	} else {
		x.regs[k]++
	}
	x.c.Ev("registrations", side, err == nil)
}

func (x *dlgEnv) dlg(side int) *dlg {
	if side == 0 {
		return &x.CD.dlg
	}
	return &x.SD.dlg
}

// settle waits until everything must be over.
func (x *dlgEnv) settle() {
	if x.c.Mode == Bubble {
		time.Sleep(150 * time.Second)
		x.c.Settle()
		return
	}
	// wall clock: until the expected notifications came, or long enough
	for i := 0; i < 600; i++ {
		if len(x.SD.Of("connoff")) > 0 && len(x.CD.Of("connoff")) > 0 {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	time.Sleep(100 * time.Millisecond)
}

// judge compares the notifications with what happened; the connection is over.
func (x *dlgEnv) judge(how string) {
	c := x.c
	x.mu.Lock()
	defer x.mu.Unlock()
	id := x.Cli.ClientID()
	bad := c.Violate
	if c.Mode == Real {
		bad = c.ViolateTimed
	}
	for side := 0; side < 2; side++ {
		d := x.dlg(side)
		who := [...]string{"client", "server"}[side]
		off := d.Of("connoff")
		if len(off) != 1 {
			bad("dlg-connoff", "%s: the %s's ConnOffline was called %d times: %s", how, who, len(off), showEvs(off))
			return
		}
		if off[0].Client != id {
			bad("dlg-connoff-id", "%s: the %s's ConnOffline was told of client %d, which is %d", how, who, off[0].Client, id)
		}
		if !x.endAt.IsZero() && off[0].At.Before(x.endAt) {
			bad("dlg-connoff-early", "%s: the %s's ConnOffline was called %v before the connection was ended", how, who, x.endAt.Sub(off[0].At))
		}
		on := d.Of("connon")
		if side == 1 && (len(on) != 1 || on[0].Client != id) {
			bad("dlg-connon", "%s: the server's ConnOnline was called %d times: %s", how, len(on), showEvs(on))
			return
		}
		if side == 0 && len(on) > 1 {
			bad("dlg-connon", "%s: the client's ConnOnline was called %d times", how, len(on))
		}
		if side == 1 && off[0].At.Before(on[0].At) {
			bad("dlg-order", "%s: ConnOffline before ConnOnline", how)
		}
		// the dialogues accepted by this side
		type st struct{ on, off []dEv }
		m := map[uint64]*st{}
		for _, e := range d.All() {
			if e.Kind != "dlgon" && e.Kind != "dlgoff" {
				continue
			}
			s := m[e.Dlg]
			if s == nil {
				s = &st{}
				m[e.Dlg] = s
			}
			if e.Client != id {
				bad("dlg-client", "%s: %s was told %s of stream %d with client %d, which is %d", how, who, e.Kind, e.Dlg, e.Client, id)
			}
			if e.Kind == "dlgon" {
				s.on = append(s.on, e)
			} else {
				if side == 1 && len(s.on) == 0 && e.Dlg != 1 && !x.mine(side, e.Dlg) && x.failed[side] == 0 {
					bad("dlg-order", "%s: %s was told stream %d went offline and not before that it went online", how, who, e.Dlg)
				}
				s.off = append(s.off, e)
			}
		}
		acc := map[uint64]bool{}
		for _, o := range x.opened[1-side] {
			sid := o.s.StreamID()
			acc[sid] = true
			s := m[sid]
			if s == nil || len(s.on) != 1 {
				n := 0
				if s != nil {
					n = len(s.on)
				}
				bad("dlg-online", "%s: %s was told %d times that stream %d (opened by its peer) is online", how, who, n, sid)
				return
			}
			if s.on[0].Meta != o.meta {
				bad("dlg-meta", "%s: %s was told of stream %d with meta %s instead of %s", how, who, sid, short([]byte(s.on[0].Meta)), short([]byte(o.meta)))
			}
			if s.on[0].At.Before(o.before) || s.on[0].At.After(o.opened) {
				bad("dlg-online-when", "%s: %s was told that stream %d is online %v after OpenStream was called and %v before it returned", how, who, sid,
					s.on[0].At.Sub(o.before), o.opened.Sub(s.on[0].At))
			}
		}
		extra := 0
		for sid, s := range m {
			if len(s.on) > 1 || len(s.off) > 1 {
				bad("dlg-twice", "%s: %s was told of stream %d: %s %s", how, who, sid, showEvs(s.on), showEvs(s.off))
				return
			}
			if sid == 1 || x.mine(side, sid) {
				continue // opened by itself: online is not notified
			}
			if !acc[sid] {
				extra++
			}
			if len(s.on) == 1 && len(s.off) != 1 {
				bad("dlg-offline", "%s: %s was told that stream %d is online but not that it ended", how, who, sid)
				return
			}
			if len(s.off) == 1 && len(s.on) != 1 && acc[sid] {
				bad("dlg-order", "%s: %s was told of the end of stream %d only", how, who, sid)
			}
			c.Ev("streams_judged", side)
			// not offline while it was up
			for _, o := range x.opened[1-side] {
				if o.s.StreamID() != sid {
					continue
				}
				lim := x.endAt
				if !o.closed.IsZero() && (lim.IsZero() || o.closed.Before(lim)) {
					lim = o.closed
				}
				if !lim.IsZero() && s.off[0].At.Before(lim) {
					bad("dlg-offline-early", "%s: %s was told that stream %d ended %v before anything ended it", how, who, sid, lim.Sub(s.off[0].At))
				}
				if !o.closed.IsZero() && !x.endAt.IsZero() && o.closed.Add(5*time.Second).Before(x.endAt) && s.off[0].At.After(o.closed.Add(5*time.Second)) {
					bad("dlg-offline-late", "%s: stream %d was closed %v before %s was told", how, sid, s.off[0].At.Sub(o.closed), who)
				}
			}
		}
		if extra > x.failed[1-side]+x.failed[side] {
			bad("dlg-unknown", "%s: %s was told of %d streams nobody opened", how, who, extra)
		}
		// registrations
		n := map[regKey]int{}
		for _, e := range d.Of("reg") {
			n[regKey{side, e.Dlg, e.Method}]++
			if e.Client != id {
				bad("dlg-reg-client", "%s: %s was told of a registration of client %d, which is %d", how, who, e.Client, id)
			}
		}
		for k, want := range x.regs {
			if k.side != side {
				continue
			}
			if n[k] < want || n[k] > want+x.regsFailed[k] {
				bad("dlg-reg", "%s: %s was told %d times that %q was registered on stream %d; it was %d times", how, who, n[k], k.method, k.stream, want)
				return
			}
			c.Ev("registrations_judged")
		}
		for k, got := range n {
			if got > x.regs[k]+x.regsFailed[k] {
				bad("dlg-reg-extra", "%s: %s was told %d times of the registration of %q on stream %d, which was registered %d times", how, who, got, k.method, k.stream, x.regs[k])
				return
			}
		}
	}
	if !x.useCB {
		return
	}
	na, ncl := map[uint64]int{}, map[uint64]int{}
	by := map[uint64]geminio.Stream{}
	for _, a := range x.accs {
		na[a.id]++
		by[a.id] = a.s
	}
	for _, a := range x.closes {
		ncl[a.id]++
		if s := by[a.id]; s != nil && s != a.s {
			bad("cb-closed-which", "%s: the closed callback for stream %d was given another stream", how, a.id)
		}
	}
	for _, o := range x.opened[0] {
		sid := o.s.StreamID()
		if na[sid] != 1 {
			bad("cb-accept", "%s: the accept callback was called %d times for stream %d", how, na[sid], sid)
			return
		}
	}
	for sid, n := range na {
		if n != 1 {
			bad("cb-accept", "%s: the accept callback was called %d times for stream %d", how, n, sid)
		}
		if ncl[sid] != 1 {
			bad("cb-closed", "%s: the closed callback was called %d times for stream %d which was accepted", how, ncl[sid], sid)
			return
		}
		c.Ev("callbacks_judged")
	}
	for sid, n := range ncl {
		if n > 1 {
			bad("cb-closed", "%s: the closed callback was called %d times for stream %d", how, n, sid)
		}
	}
}

func (x *dlgEnv) mine(side int, id uint64) bool {
	for _, o := range x.opened[side] {
		if o.s.StreamID() == id {
			return true
		}
	}
	return false
}

// acceptors take what comes, on both sides, until the end.
func (x *dlgEnv) acceptors() [2]chan geminio.Stream {
	var out [2]chan geminio.Stream
	for side := 0; side < 2; side++ {
		out[side] = make(chan geminio.Stream, 4096)
		if side == 1 && x.useCB {
			out[side] = x.accepted
			continue
		}
		go func() {
			for {
				s, err := x.End(side).AcceptStream()
				if err != nil {
					return
				}
				out[side] <- s
			}
		}()
	}
	return out
}

// dlgLife: one step after another, then any ending.
func dlgLife(c *C) {
	x := c.newDlgEnv()
	if x == nil {
		return
	}
	if on := x.SD.Of("connon"); len(on) != 1 {
		c.Violate("dlg-connon", "the Ends were constructed and the server's ConnOnline was called %d times", len(on))
		return
	}
	acc := x.acceptors()
	type live struct {
		d    *dlgStream
		peer geminio.Stream
		side int
	}
	var ls []*live
	if !c.DoIn(3*time.Minute, "a sequence of opens, registrations and closes", func() {
		for i, n := 0, c.Range(0, 14); i < n; i++ {
			switch k := c.N(6); {
			case k < 2 || len(ls) == 0:
				side := c.N(2)
				d := x.open(side)
				if d == nil {
					c.Violate("open", "OpenStream failed")
					return
				}
				l := &live{d: d, side: side}
				l.peer = <-acc[1-side]
				ls = append(ls, l)
			case k < 4: // register
				side := c.N(2)
				s := geminio.Stream(x.End(side))
				if j := c.N(len(ls) + 1); j < len(ls) {
					l := ls[j]
					s = l.peer
					if side == l.side {
						s = l.d.s
					}
				}
				x.reg(side, s, fmt.Sprint("m", c.N(4)))
			default: // close
				j := c.N(len(ls))
				l := ls[j]
				ls = append(ls[:j:j], ls[j+1:]...)
				l.d.closed = time.Now()
				switch c.N(3) {
				case 0:
					l.d.s.Close()
				case 1:
					l.peer.Close()
				default:
					go l.d.s.Close()
					l.peer.Close()
				}
				if c.Bool() {
					c.sleepUpTo(9000)
				}
			}
		}
	}) || c.Failed() {
		return
	}
	// notified in time, not only at the end
	c.sleepUpTo(50)
	x.endAt = time.Now()
	how := c.ending(x.Env)
	if !how.run(c) {
		return
	}
	x.settle()
	if c.Mode == Bubble && how.slow {
		time.Sleep(2 * time.Minute)
	}
	// whoever did not notice the end by itself is closed
	x.late()
	x.judge(how.name)
}

// late closes the Ends, as an application does at last.
func (x *dlgEnv) late() {
	x.closeAll()
	x.settle()
}

// dlgRacing: all at once, with the ending in the middle.
func dlgRacing(c *C) {
	x := c.newDlgEnv()
	if x == nil {
		return
	}
	x.acceptors()
	var wg sync.WaitGroup
	for i, n := 0, c.Range(1, 6); i < n; i++ {
		side, steps := c.N(2), c.Range(1, 6)
		r := c.Sub()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < steps; j++ {
				if r.IntN(3) == 0 {
					time.Sleep(time.Duration(r.IntN(20)) * time.Millisecond)
				}
				if r.IntN(4) == 0 {
					x.reg(side, x.End(side), fmt.Sprint("r", i, j))
					continue
				}
				d := x.open(side)
				if d == nil {
					return
				}
				if r.IntN(2) == 0 {
					x.reg(side, d.s, "a")
				}
				if r.IntN(3) > 0 {
					x.mu.Lock()
					d.closed = time.Now()
					x.mu.Unlock()
					d.s.Close()
				}
			}
		}()
	}
	if c.Bool() {
		wg.Wait()
	} else {
		c.sleepUpTo(60)
	}
	how := c.ending(x.Env)
	for c.Mode == Real && how.slow {
		how = c.ending(x.Env)
	}
	x.mu.Lock()
	x.endAt = time.Now()
	x.mu.Unlock()
	if !how.run(c) {
		return
	}
	x.settle()
	if c.Mode == Bubble && how.slow {
		time.Sleep(2 * time.Minute)
	}
	x.late()
	if !c.Wait(time.Minute, "opens and registrations", func() chan struct{} {
		ch := make(chan struct{})
		go func() { wg.Wait(); close(ch) }()
		return ch
	}()) {
		return
	}
	x.judge(how.name)
}

// dlgMany: several clients, one server delegate.
func dlgMany(c *C) {
	type cl struct {
		l        *Link
		id       uint64
		meta     string
		refuse   int // 0 no, 1 GetClientID, 2 ConnOnline
		cli, srv geminio.End
		ce, se   error
		atReturn int
		cut      bool
	}
	n := c.Range(2, 6)
	d := &srvDlg{dlg{c: c}}
	cls := make([]*cl, n)
	of := func(meta string) *cl {
		for _, x := range cls {
			if x.meta == meta {
				return x
			}
		}
		return nil
	}
	d.getID = func(w uint64, meta []byte) (uint64, error) {
		x := of(string(meta))
		if x == nil {
			c.Violate("dlg-meta", "GetClientID was called with an unknown meta %q", meta)
			return 0, nil
		}
		if x.refuse == 1 {
			return 0, errors.New("refused")
		}
		return x.id, nil
	}
	refuse := map[uint64]bool{}
	var fs []func()
	for i := range cls {
		x := &cl{l: c.NewLink(c.LinkOf()), id: uint64(1000 + 7*i), meta: fmt.Sprint("client ", i)}
		cls[i] = x
		if c.Chance(30) {
			x.refuse = c.Range(1, 2)
			refuse[x.id] = x.refuse == 2
		}
		// ConnOnline has no error per client in this delegate: the same object serves all
		od := &manyDlg{d, refuse}
		cut, cutA, disc := -1, c.Bool(), c.Bool()
		if c.Chance(20) {
			cut = c.N(120)
			x.cut = true
			x.l.CutAfter(cutA, cut, disc)
		}
		fs = append(fs, func() {
			x.cli, x.ce = client.NewEndWithConn(x.l.A, c.cliOpts(nil, func(o *client.EndOptions) { o.SetMeta([]byte(x.meta)) }))
		}, func() {
			o := server.NewEndOptions()
			o.SetLog(yieldLog{c})
			o.SetDelegate(od)
			x.srv, x.se = server.NewEndWithConn(x.l.B, o)
			for _, e := range d.Of("connon") {
				if e.Client == x.id {
					x.atReturn++
				}
			}
		})
	}
	if !c.All("connecting", fs...) {
		return
	}
	for _, x := range cls {
		if x.se == nil && x.atReturn != 1 {
			c.Violate("dlg-connon", "a server End was returned after %d ConnOnline calls for its client", x.atReturn)
		}
	}
	// end them one after another; the others stay
	offs := func(id uint64) (k int) {
		for _, e := range d.Of("connoff") {
			if e.Client == id {
				k++
			}
		}
		return
	}
	for _, i := range c.Sub().Perm(n) {
		x := cls[i]
		before := map[uint64]int{}
		for _, y := range cls {
			before[y.id] = offs(y.id)
		}
		up := x.cli != nil && x.srv != nil
		switch k := c.N(4); {
		case k == 0 && x.cli != nil:
			c.Do("Close", func() { x.cli.Close() })
		case k == 1 && x.srv != nil:
			c.Do("Close", func() { x.srv.Close() })
		default:
			x.l.Break(c.Bool())
		}
		time.Sleep(3 * time.Second)
		c.Settle()
		for _, y := range cls {
			if y == x || y.cut || y.cli == nil || y.srv == nil {
				continue
			}
			if k := offs(y.id); k != before[y.id] {
				c.Violate("dlg-other", "ending client %d made the delegate see ConnOffline of client %d", x.id, y.id)
			}
		}
		if up && x.se == nil && before[x.id] == 0 && offs(x.id) != 1 && !c.Failed() {
			c.Violate("dlg-connoff", "client %d ended 3 s ago and the delegate saw %d ConnOffline", x.id, offs(x.id))
		}
	}
	for _, x := range cls {
		c.Quiet(3*time.Minute, func() {
			if x.cli != nil {
				x.cli.Close()
			}
			if x.srv != nil {
				x.srv.Close()
			}
		})
	}
	time.Sleep(time.Minute)
	c.Settle()
	for _, x := range cls {
		on, off := 0, offs(x.id)
		for _, e := range d.Of("connon") {
			if e.Client == x.id {
				on++
			}
		}
		switch {
		case x.refuse == 1 && on+off > 0:
			c.Violate("dlg-refused", "client %d was refused its ID; ConnOnline was called %d times, ConnOffline %d", x.id, on, off)
		case x.refuse == 2 && (on > 1 || off > 0):
			c.Violate("dlg-refused", "client %d was refused online; ConnOnline was called %d times, ConnOffline %d", x.id, on, off)
		case x.refuse == 0 && (on != off || on > 1):
			c.Violate("dlg-connoff", "client %d (server constructed: %v): ConnOnline was called %d times, ConnOffline %d", x.id, x.se, on, off)
		case x.se == nil && on != 1:
			c.Violate("dlg-connon", "client %d: ConnOnline was called %d times", x.id, on)
		}
		c.Ev("clients_judged", x.refuse, x.se == nil)
	}
}

// manyDlg refuses some clients at ConnOnline.
type manyDlg struct {
	*srvDlg
	refuse map[uint64]bool
}

func (m *manyDlg) ConnOnline(cn delegate.ConnDescriber) error {
	m.srvDlg.ConnOnline(cn)
	if m.refuse[cn.ClientID()] {
		return errors.New("refused online")
	}
	return nil
}

// dlgWire: a hand-made client with its own idea of the protocol: handshakes,
// opens, closes and registrations repeated or out of turn.
func dlgWire(c *C) {
	l := c.NewLink(LinkOpt{})
	d := &srvDlg{dlg{c: c}}
	refuse := c.Chance(15)
	d.onConn = func() error {
		if refuse {
			return errors.New("no")
		}
		return nil
	}
	var en geminio.End
	var err error
	built := make(chan struct{})
	go func() {
		defer close(built)
		en, err = server.NewEndWithConn(l.B, c.srvOpts(d, nil))
	}()
	var mu vsync.Quiet
	var sess []uint64
	drained := make(chan struct{})
	go func() {
		defer close(drained)
		var in []byte
		buf := make([]byte, 512)
		for {
			n, err := l.A.Read(buf)
			if err != nil {
				return
			}
			in = append(in, buf[:n]...)
			for len(in) >= 14 {
				k := int(binary.BigEndian.Uint32(in[10:14])) + 14
				if len(in) < k {
					break
				}
				if in[1] == tSessionAck && k >= 14+18 {
					mu.Lock()
					sess = append(sess, binary.BigEndian.Uint64(in[14+10:]))
					mu.Unlock()
				}
				in = in[k:]
			}
		}
	}()
	id := uint64(1)
	again := mkConn(id, 0, byte(c.N(3)), true, []byte("m"))
	l.A.Write(again)
	regs := map[string]int{}
	for i, n := 0, c.N(25); i < n; i++ {
		id += 2
		mu.Lock()
		on := uint64(1)
		if len(sess) > 0 && c.Chance(80) {
			on = sess[c.N(len(sess))]
		}
		mu.Unlock()
		var b []byte
		switch c.N(8) {
		case 0:
			if c.Chance(30) {
				b = again
				if c.Bool() {
					b = mkConn(id, uint64(c.N(3)), byte(c.N(3)), c.Bool(), []byte("other"))
				}
			}
		case 1, 2, 3:
			b = mkSession(id, uint64(c.N(4))+2*uint64(i)*uint64(c.N(2)), true, []byte("s"), "p")
		case 4:
			b = mkDismiss(id, on)
			if c.Chance(30) {
				b = append(b, b...)
			}
		case 5:
			b = rawPkt(tDismissAck, id, append(u64b(on), "{}"...))
		case 6:
			m := fmt.Sprint("m", c.N(3))
			b = rawPkt(tRegister, id, append(u64b(on), m...))
			regs[m]++
		case 7:
			b = rawPkt(tHB, id, nil)
		}
		if b != nil {
			l.A.Write(b)
			c.Ev("wire_sent", b[1])
		}
		if c.Bool() {
			c.sleepUpTo(c.Pick(1, 100, 3000))
		}
	}
	if !c.Do("End construction", func() { <-built }) {
		return
	}
	switch c.N(4) {
	case 0:
		l.Break(c.Bool())
	case 1:
		l.A.Close()
	case 2:
		if err == nil {
			if !c.Do("End.Close", func() { en.Close() }) {
				return
			}
		}
	case 3: // silent
	}
	time.Sleep(4 * time.Minute)
	if err == nil && !c.Do("End.Close", func() { en.Close() }) {
		return
	}
	time.Sleep(time.Minute)
	l.Break(true)
	<-drained
	c.Settle()
	on, off := d.Of("connon"), d.Of("connoff")
	want := 1
	if refuse {
		want = 0
	}
	if len(on) != 1 || len(off) != want {
		c.Violate("dlg-wire-conn", "a hand-made client (refused: %v): ConnOnline was called %d times, ConnOffline %d times", refuse, len(on), len(off))
		return
	}
	up := map[uint64]int{}
	for _, e := range d.All() {
		if e.Kind == "dlgon" {
			if up[e.Dlg] != 0 {
				c.Violate("dlg-wire-online", "a hand-made client's stream %d was reported online twice", e.Dlg)
				return
			}
			up[e.Dlg] = 1
		}
		if e.Kind == "dlgoff" {
			if up[e.Dlg] != 1 && e.Dlg != 1 || up[e.Dlg] == 2 {
				c.Violate("dlg-wire-offline", "a hand-made client's stream %d was reported offline in state %d", e.Dlg, up[e.Dlg])
				return
			}
			up[e.Dlg] = 2
		}
	}
	for sid, st := range up {
		if st == 1 {
			c.Violate("dlg-wire-offline", "a hand-made client's stream %d was reported online and never offline", sid)
			return
		}
		c.Ev("streams_judged", st)
	}
	n := map[string]int{}
	for _, e := range d.Of("reg") {
		n[e.Method]++
	}
	for m, k := range n {
		if k > regs[m] {
			c.Violate("dlg-wire-reg", "a hand-made client registered %q %d times, %d were reported", m, regs[m], k)
		}
	}
}
