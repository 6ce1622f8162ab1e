package verif

import (
	"encoding/binary"
	"sync"
	"sync/atomic"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/server"
	"github.com/singchia/go-timer/v2"
)

func init() {
	register(&Prop{ID: "C17",
		Rule: "Virtual time lets a case idle for minutes to hours: connections with drawn transports and traffic patterns (none, sporadic, steady, one-way, bursts, or always more than a slow link takes) must stay up, with a heartbeat on the wire every 20 s, each answered with its ID and reported to the server's delegate, and work afterwards. Other cases make the client silent at a drawn instant (lost, frozen, one-way) or use a hand-made client which asks for any of the four intervals, beats at drawn times below the limit and then stops, with or without other traffic; the server must close that connection after twice the interval, not before, within the close timeout, and its delegate learn of it.",
		Scens: []*Scen{
			{Name: "idle", Mode: Bubble, NoReal: true, Quick: 60, Thorough: 1500, Batch: 4, Watch: 120, Fn: hbIdle},
			{Name: "busy", Mode: Bubble, NoReal: true, Quick: 32, Thorough: 800, Batch: 4, Watch: 120, Fn: hbBusy},
			{Name: "silent", Mode: Bubble, NoReal: true, Quick: 80, Thorough: 3000, Batch: 8, Watch: 120, Fn: hbSilent},
			{Name: "peer", Mode: Bubble, NoReal: true, Quick: 80, Thorough: 3000, Batch: 8, Watch: 120, Fn: hbPeer},
		}})
}

const hbEvery = 20 * time.Second

// background drives some traffic pattern until stopped.
func (c *C) background(e *Env, stop *atomic.Bool) (string, []func()) {
	p := pair{o: e.Cli, a: e.Srv, side: 0}
	k := c.N(5)
	var gap func()
	name := ""
	switch k {
	case 0:
		return "none", nil
	case 1:
		name = "sporadic"
		gap = func() { time.Sleep(time.Duration(c.Range(1, 90)) * time.Second) }
	case 2:
		name = "steady"
		gap = func() { time.Sleep(time.Duration(c.Range(1, 4)) * time.Second) }
	case 3:
		name = "bursts"
		n := 0
		gap = func() {
			if n++; n%10 == 0 {
				time.Sleep(time.Duration(c.Range(10, 60)) * time.Second)
			}
		}
	case 4:
		name = "just before the beat"
		gap = func() {
			d := time.Since(c.start) % hbEvery
			time.Sleep(hbEvery - d + time.Duration(c.N(40)-20)*time.Millisecond)
		}
	}
	var fns []func()
	side := c.N(2)
	if c.Bool() { // raw one way
		f := c.NewFlow("background", p.at(side), p.at(1-side))
		name += " raw"
		fns = append(fns, func() {
			for !stop.Load() && !c.Failed() {
				if f.Write(1+c.N(200)) != nil {
					c.Violate("hb-traffic", "Write failed during %s: %v", name, f.werr)
					return
				}
				if !f.ReadN(func() (int64, bool) { return f.written, true }, 300) {
					return
				}
				gap()
			}
		})
	} else {
		cl := c.caller(p.at(side), p.at(1-side), "background")
		name += " calls"
		fns = append(fns, func() {
			for !stop.Load() && cl != nil && cl.once(200) {
				gap()
			}
		})
	}
	return name, fns
}

func hbIdle(c *C) {
	o := c.Stock()
	if o.Link.Cap > 0 && o.Link.Cap < 8 {
		o.Link.Cap = 8
	}
	if c.Chance(20) {
		o.Link = LinkOpt{Latency: time.Duration(c.Range(1, 2000)) * time.Millisecond}
	}
	shared := ""
	if c.Chance(25) { // the application's own timer
		t := timer.NewTimer()
		c.Cleanup(t.Close)
		shared = "own timer"
		which := c.N(3)
		co, so := o.Cli, o.Srv
		o.Cli = func(x *client.EndOptions) {
			co(x)
			if which != 1 {
				x.SetTimer(t)
			}
		}
		o.Srv = func(x *server.EndOptions) {
			so(x)
			if which != 0 {
				x.SetTimer(t)
			}
		}
	}
	t0 := time.Now()
	e := c.NewEnv(o)
	if e == nil {
		return
	}
	lat := o.Link.Latency + o.Link.Jitter + time.Second
	up := time.Now()
	dur := time.Duration(c.Range(41, 600)) * time.Second
	if c.Tier == "thorough" && c.Chance(20) {
		dur *= 10
	} else if c.Chance(10) {
		dur *= 3
	}
	var stop atomic.Bool
	name, fns := c.background(e, &stop)
	done := make(chan struct{})
	go func() {
		defer close(done)
		var wg sync.WaitGroup
		for _, f := range fns {
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		}
		wg.Wait()
	}()
	time.Sleep(dur)
	stop.Store(true)
	end := time.Now()
	c.Sample("idle for %v with %s %s", dur, name, shared)
	beats, acks, told := e.Link.AB.Of(tHB), e.Link.BA.Of(tHBAck), e.SD.Of("hb")
	for i, b := range beats {
		lo, hi := up.Add(-lat-time.Second), up
		if i > 0 {
			lo, hi = beats[i-1].At, beats[i-1].At
		} else if t0.After(lo) {
			lo = t0
		}
		if b.At.Before(lo.Add(hbEvery-lat)) || b.At.After(hi.Add(hbEvery+lat)) {
			c.Violate("hb-interval", "heartbeat %d of a connection up since %v was sent at %v, the one before at %v (%s %s)", i, rel(c, up), rel(c, b.At), rel(c, lo), name, shared)
			return
		}
	}
	want := int(end.Sub(up) / hbEvery)
	if len(beats) < want-1 || len(beats) > want+1 {
		c.Violate("hb-count", "the client sent %d heartbeats in %v (%s %s)", len(beats), end.Sub(up), name, shared)
		return
	}
	ids := map[uint64]int{}
	for _, b := range beats {
		ids[b.ID]++
	}
	got := map[uint64]bool{}
	for _, a := range acks {
		if ids[a.ID] == 0 || got[a.ID] {
			c.Violate("hb-ack", "the server answered heartbeat %d, which the client sent %d times; answered already: %v", a.ID, ids[a.ID], got[a.ID])
		}
		got[a.ID] = true
	}
	for _, b := range beats {
		if !got[b.ID] && end.Sub(b.At) > 2*lat {
			c.Violate("hb-unanswered", "the heartbeat sent %v ago was not answered (%s %s)", end.Sub(b.At), name, shared)
			return
		}
	}
	if len(told) != len(acks) && !(len(beats) > 0 && end.Sub(beats[len(beats)-1].At) <= 2*lat) {
		c.Violate("hb-told", "%d heartbeats were answered, the server's delegate was told of %d", len(acks), len(told))
	}
	for _, x := range told {
		if x.Client != e.Cli.ClientID() {
			c.Violate("hb-told-id", "the delegate was told of a heartbeat of client %d, which is %d", x.Client, e.Cli.ClientID())
		}
	}
	if off := len(e.CD.Of("connoff")) + len(e.SD.Of("connoff")); off > 0 {
		c.Violate("hb-down", "an idle connection went down after %v (%s %s)", dur, name, shared)
		return
	}
	if !c.Wait(3*time.Minute, "traffic on an idle connection", done) {
		return
	}
	{
		p, ok := e.OpenPair(c.N(2))
		if !ok {
			return
		}
		f := c.NewFlow("after idling", p.o, p.a)
		c.Do("exchange after idling", func() { f.Full(3, 64, 100, nil) })
	}
	c.Count("virtual_minutes", int(dur/time.Minute))
}

// hbBusy keeps more traffic waiting than the link takes, for minutes.
func hbBusy(c *C) {
	o := c.Stock()
	// 20 to 100 packets of 100 bytes a second
	lat := time.Duration(c.Range(10, 50)) * time.Millisecond
	o.Link = LinkOpt{Cap: c.Range(120, 400), Latency: lat}
	e := c.NewEnv(o)
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.Range(1, 4))
	if !ok {
		return
	}
	up := time.Now()
	dur := time.Duration(c.Range(90, 300)) * time.Second
	var stop atomic.Bool
	var fns []func()
	back := c.Chance(40)
	for i, p := range ps {
		for side := 0; side < 2; side++ {
			if side == 1 && !back {
				continue
			}
			f := c.NewFlow("busy stream "+itoa(uint64(i)), p.at(side), p.at(1-side))
			var total atomic.Int64
			var done atomic.Bool
			fns = append(fns, func() {
				for !stop.Load() && !c.Failed() {
					n := 50 + c.N(50)
					total.Add(int64(n))
					if f.Write(n) != nil {
						c.Violate("hb-busy", "Write on a busy connection up for %v: %v", time.Since(up), f.werr)
						return
					}
				}
				total.Add(8)
				done.Store(true)
				f.Write(8)
			}, func() {
				f.ReadN(func() (int64, bool) { end := done.Load(); return total.Load(), end }, 200)
			})
		}
	}
	time.AfterFunc(dur, func() { stop.Store(true) })
	if !c.DoIn(dur+2*time.Minute, "traffic on a busy connection", func() {
		var wg sync.WaitGroup
		for _, f := range fns {
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		}
		wg.Wait()
	}) {
		return
	}
	beats, acks := e.Link.AB.Of(tHB), e.Link.BA.Of(tHBAck)
	if want := int(dur / hbEvery); len(beats) < want-2 || len(acks) < len(beats)-2 {
		c.Violate("hb-busy-count", "on a busy connection up for %v the client sent %d heartbeats, %d were answered", dur, len(beats), len(acks))
		return
	}
	if off := len(e.CD.Of("connoff")) + len(e.SD.Of("connoff")); off > 0 {
		c.Violate("hb-busy-down", "a busy connection went down")
	}
	c.Count("virtual_minutes", int(dur/time.Minute))
	c.Sample("busy for %v, %d heartbeats", dur, len(beats))
}

func hbSilent(c *C) {
	o := c.Stock()
	if o.Link.Cap > 0 && o.Link.Cap < 8 {
		o.Link.Cap = 8
	}
	e := c.NewEnv(o)
	if e == nil {
		return
	}
	var stop atomic.Bool
	toClient := c.Bool()
	if toClient { // the server keeps talking, the client's application reads
		go func() {
			buf := make([]byte, 100)
			for {
				if _, err := e.Cli.Read(buf); err != nil {
					return
				}
			}
		}()
		go func() {
			for !stop.Load() {
				if _, err := e.Srv.Write([]byte("still there?")); err != nil {
					return
				}
				time.Sleep(time.Duration(c.Range(1, 5)) * time.Second)
			}
		}()
	}
	defer stop.Store(true)
	time.Sleep(time.Duration(c.N(130000)) * time.Millisecond)
	how := ""
	switch c.N(4) {
	case 0:
		how = "lost both ways"
		e.Link.Lose(true, true)
	case 1:
		how = "lost towards the server"
		e.Link.Lose(true, false)
	case 2:
		how = "frozen both ways"
		e.Link.Hold(true, true)
	case 3:
		how = "frozen towards the server"
		e.Link.Hold(true, false)
	}
	c.Settle()
	silent := time.Now()
	last := e.SD.Of("connon")[0].At
	if hb := e.SD.Of("hb"); len(hb) > 0 {
		last = hb[len(hb)-1].At
	}
	recv := make(chan error, 1)
	go func() { _, err := e.Srv.Receive(bg); recv <- err }()
	limit := last.Add(2*hbEvery + 30*time.Second + time.Second)
	time.Sleep(last.Add(2*hbEvery - 100*time.Millisecond).Sub(silent))
	c.Settle()
	if n := len(e.SD.Of("connoff")); n != 0 {
		c.Violate("hb-early", "%s: the connection was ended %v after the last heartbeat, less than twice the interval", how, e.SD.Of("connoff")[0].At.Sub(last))
		return
	}
	if ps := e.Link.BA.Of(tDisConn); len(ps) > 0 {
		c.Violate("hb-early", "%s: the server started to close %v after the last heartbeat", how, ps[0].At.Sub(last))
	}
	time.Sleep(time.Until(limit))
	c.Settle()
	off := e.SD.Of("connoff")
	if len(off) != 1 {
		c.Violate("hb-undetected", "%s at %v: %v after the last heartbeat the server's delegate saw %d ConnOffline", how, rel(c, silent), time.Since(last), len(off))
		return
	}
	c.Ev("dead_peer_detected", how, toClient, off[0].At.Sub(last)/time.Second)
	if !e.Link.B.Closed() {
		c.Violate("hb-open", "%s: the server's network connection is still open after ConnOffline", how)
	}
	select {
	case err := <-recv:
		if err == nil {
			c.Violate("hb-receive", "%s: Receive on the dead connection succeeded", how)
		}
	case <-time.After(5 * time.Second):
		c.Violate("hb-receive", "%s: Receive still waits 5 s after the connection was found dead", how)
	}
}

var hbCodes = []time.Duration{5 * time.Second, 20 * time.Second, 80 * time.Second, 320 * time.Second}

func hbPeer(c *C) {
	l := c.NewLink(LinkOpt{})
	d := &srvDlg{dlg{c: c}}
	code := c.N(4)
	iv := hbCodes[code]
	var end geminio.End
	var err error
	so := c.srvOpts(d, nil)
	quiet := c.Chance(25) // nobody to tell
	if quiet {
		so.Delegate = nil
	}
	if !c.All("construction", func() {
		end, err = server.NewEndWithConn(l.B, so)
	}, func() { l.A.Write(mkConn(1, 0, byte(code), true, []byte("m"))) }) {
		return
	}
	if err != nil {
		c.Violate("construct", "%v", err)
		return
	}
	go func() { // the server's application reads
		buf := make([]byte, 100)
		for {
			if _, err := end.Read(buf); err != nil {
				return
			}
		}
	}()
	// the peer reads, and takes part in closing or not
	proper := c.Bool()
	go func() {
		var in []byte
		buf := make([]byte, 512)
		for {
			n, err := l.A.Read(buf)
			if err != nil {
				return
			}
			in = append(in, buf[:n]...)
			for len(in) >= 14 {
				k := int(binary.BigEndian.Uint32(in[10:14])) + 14
				if len(in) < k {
					break
				}
				t, id := in[1], binary.BigEndian.Uint64(in[2:10])
				in = in[k:]
				if t == tDisConn && proper {
					l.A.Write(mkDisConnAck(id))
					l.A.Write(rawPkt(tDisConn, 1001, nil))
				}
			}
		}
	}()
	last := time.Now()
	var sent []uint64
	n := c.N(8)
	traffic := c.N(3) // none, during, also after
	id := uint64(3)
	send := func(b []byte) bool {
		if _, err := l.A.Write(b); err != nil {
			c.Violate("hb-early", "the server ended the connection %v after a heartbeat (interval %v)", time.Since(last), iv)
			return false
		}
		return true
	}
	data := func(d time.Duration) bool { // pass d with some traffic
		for d > 0 {
			x := time.Duration(c.Range(1, int(2*iv/time.Second))) * time.Second / 2
			if x > d || traffic == 0 {
				x = d
			}
			time.Sleep(x)
			d -= x
			if d > 0 {
				id += 2
				if !send(mkStream(id, 1, []byte("data"))) {
					return false
				}
			}
		}
		return true
	}
	for i := 0; i < n; i++ {
		g := time.Duration(c.N(int((2*iv - 200*time.Millisecond) / time.Millisecond)))
		if c.Chance(25) {
			g = (2*iv - 200*time.Millisecond) / time.Millisecond
		}
		if !data(g * time.Millisecond) {
			return
		}
		id += 2
		if !send(rawPkt(tHB, id, nil)) {
			return
		}
		sent = append(sent, id)
		last = time.Now()
		c.Ev("beats_sent", code)
	}
	c.Settle()
	acks := l.BA.Of(tHBAck)
	if len(acks) != n || !quiet && len(d.Of("hb")) != n {
		c.Violate("hb-unanswered", "of %d heartbeats %d were answered and %d reported", n, len(acks), len(d.Of("hb")))
		return
	}
	for i, a := range acks {
		if a.ID != sent[i] {
			c.Violate("hb-ack", "heartbeat %d was answered with ID %d", sent[i], a.ID)
		}
	}
	// and stop
	if traffic == 2 {
		if !data(2*iv - 500*time.Millisecond) {
			return
		}
	} else {
		time.Sleep(2*iv - 500*time.Millisecond)
	}
	c.Settle()
	if ps := l.BA.Of(tDisConn); len(ps) > 0 || len(d.Of("connoff")) > 0 {
		c.Violate("hb-early", "the server ended the connection %v after the last heartbeat; interval %v", time.Since(last), iv)
		return
	}
	time.Sleep(time.Second)
	c.Settle()
	ps := l.BA.Of(tDisConn)
	if len(ps) != 1 {
		c.Violate("hb-undetected", "%v after the last heartbeat (interval %v, traffic %d) the server sent %d disconnects", time.Since(last), iv, traffic, len(ps))
		return
	}
	if !proper {
		time.Sleep(31 * time.Second)
	}
	c.Settle()
	off := d.Of("connoff")
	if !quiet && len(off) != 1 || !l.B.Closed() {
		c.Violate("hb-undetected", "%v after the last heartbeat (interval %v, peer answering: %v) ConnOffline was seen %d times, the network connection closed: %v",
			time.Since(last), iv, proper, len(off), l.B.Closed())
		return
	}
	c.Ev("dead_peer_detected", code, n, proper, traffic, quiet)
	c.DoIn(time.Minute, "Close", func() { end.Close() })
}
