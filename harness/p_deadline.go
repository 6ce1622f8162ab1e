package verif

import (
	"bytes"
	"errors"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/singchia/geminio"

	"verif/vsync"
)

func init() {
	register(&Prop{ID: "C12",
		Rule: "A case reads from and writes to 1-3 streams (some blocked by missing data or by back-pressure of a slow transport) from 1-3 goroutines while other goroutines set read, write and both deadlines to past, present, future and zero values at drawn instants; the log of deadlines and operations is checked: every ErrDeadlineExceeded needs a deadline in force that had passed, no operation outlasts one, other streams are unaffected, and what was read is exactly what the successful writes wrote.",
		Scens: []*Scen{
			{Name: "read", Mode: Bubble, Quick: 400, Thorough: 12000, Batch: 20, Fn: dlRead},
			{Name: "write", Mode: Bubble, Quick: 160, Thorough: 6000, Batch: 10, Fn: dlWrite},
			{Name: "wall", Mode: Real, Quick: 24, Thorough: 400, Batch: 4, Fn: dlRead},
		}})
}

type dlSet struct {
	t0, t1 time.Time
	d      time.Time
}

type dlOp struct {
	s, e   time.Time
	err    error
	n      int
	closed bool
}

// dlLog is the history of one direction's deadline and its operations.
type dlLog struct {
	c    *C
	name string
	mu   vsync.Quiet
	sets []dlSet
	ops  []dlOp
}

func (l *dlLog) set(f func(time.Time) error, d time.Time, logs ...*dlLog) {
	// setters of one direction do not overlap, or their order is unknown
	for _, x := range logs {
		x.mu.Lock()
	}
	t0 := time.Now()
	err := f(d)
	t1 := time.Now()
	for _, x := range logs {
		x.sets = append(x.sets, dlSet{t0, t1, d})
	}
	for i := len(logs) - 1; i >= 0; i-- {
		logs[i].mu.Unlock()
	}
	if err != nil {
		l.c.Violate("dl-set", "setting a deadline of %s: %v", l.name, err)
	}
}

var far = time.Date(9000, 1, 1, 0, 0, 0, 0, time.UTC)

func (l *dlLog) judge() {
	c := l.c
	late := 20 * time.Millisecond
	if c.Mode == Real {
		late = 3 * time.Second
	}
	hit, woken := 0, 0
	for _, o := range l.ops {
		dl := errors.Is(o.err, os.ErrDeadlineExceeded)
		may, must := false, time.Time{}
		for i, s := range l.sets {
			if s.d.IsZero() {
				continue
			}
			end0, end1 := far, far
			if i+1 < len(l.sets) {
				end0, end1 = l.sets[i+1].t0, l.sets[i+1].t1
			}
			// possibly in force [t0,end1], surely in force [t1,end0]
			lo := maxT(s.t0, s.d, o.s)
			if !lo.After(minT(end1, o.e)) {
				may = true
			}
			x := maxT(s.t1, s.d, o.s)
			if x.Before(end0) && (must.IsZero() || x.Before(must)) {
				must = x
			}
		}
		if dl {
			hit++
			if o.e.After(o.s) {
				woken++
			}
			if !may {
				c.Violate("dl-early", "%s: an operation from %v to %v failed with a deadline error, deadlines in force: %s", l.name,
					rel(c, o.s), rel(c, o.e), l.show(o.s, o.e))
				return
			}
			continue
		}
		if o.err != nil {
			c.Violate("dl-err", "%s failed with %v", l.name, o.err)
			return
		}
		if !must.IsZero() && o.e.Sub(must) > late {
			c.ViolateTimed("dl-late", "%s: an operation from %v to %v was not ended by the deadline which passed at %v: %s", l.name,
				rel(c, o.s), rel(c, o.e), rel(c, must), l.show(o.s, o.e))
			return
		}
	}
	c.Count("deadline_errors", hit)
	c.Count("woken_by_deadline", woken)
	c.Ev("deadline_log", len(l.sets), len(l.ops), hit)
}

func rel(c *C, t time.Time) time.Duration { return t.Sub(c.start) }

func (l *dlLog) show(s, e time.Time) string {
	var b bytes.Buffer
	for i, x := range l.sets {
		end := far
		if i+1 < len(l.sets) {
			end = l.sets[i+1].t1
		}
		if x.t0.After(e) || end.Before(s) {
			continue
		}
		d := "none"
		if !x.d.IsZero() {
			d = rel(l.c, x.d).String()
		}
		b.WriteString("set at " + rel(l.c, x.t0).String() + " to " + d + "; ")
	}
	if b.Len() == 0 {
		return "none"
	}
	return b.String()
}

func maxT(ts ...time.Time) time.Time {
	m := ts[0]
	for _, t := range ts[1:] {
		if t.After(m) {
			m = t
		}
	}
	return m
}
func minT(ts ...time.Time) time.Time {
	m := ts[0]
	for _, t := range ts[1:] {
		if t.Before(m) {
			m = t
		}
	}
	return m
}

// setter sets deadlines at drawn instants until stop.
func (c *C) dlSetter(s geminio.Stream, r, w *dlLog, stop *atomic.Bool, maxMs int) func() {
	return func() {
		for i := 0; i < 60 && !stop.Load(); i++ {
			var d time.Time
			switch c.N(8) {
			case 0:
			case 1:
				d = time.Now()
			case 2:
				d = time.Now().Add(-time.Duration(1+c.N(1000)) * time.Millisecond)
			case 3:
				d = time.Now().Add(time.Hour)
			default:
				d = time.Now().Add(time.Duration(1+c.N(maxMs*1000)) * time.Microsecond)
			}
			switch c.N(4) {
			case 0:
				r.set(s.SetDeadline, d, r, w)
			case 1:
				w.set(s.SetWriteDeadline, d, w)
			default:
				r.set(s.SetReadDeadline, d, r)
			}
			c.Ev("deadline_set", c.Sc.Name)
			if c.Chance(70) {
				time.Sleep(time.Duration(c.N(2*maxMs*1000)) * time.Microsecond)
			}
		}
		// none in the end
		r.set(s.SetDeadline, time.Time{}, r, w)
	}
}

func dlRead(c *C) {
	e := c.NewEnv(c.Stock())
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(3))
	if !ok {
		return
	}
	maxMs := c.Pick(1, 10, 100)
	var fns []func()
	var logs []*dlLog
	for i, p := range ps {
		side := c.N(2)
		s, q := p.at(side), p.at(1-side)
		if i > 0 && c.Chance(30) {
			// without deadlines, it must not notice
			f := c.NewFlow("other "+itoa(uint64(i)), q, s)
			fns = append(fns, func() { f.Full(20, 300, 100, c.gapFn()) })
			continue
		}
		r := &dlLog{c: c, name: "Read on stream " + itoa(s.StreamID())}
		w := &dlLog{c: c, name: "Write on stream " + itoa(s.StreamID())}
		logs = append(logs, r)
		var stop atomic.Bool
		set := c.dlSetter(s, r, w, &stop, maxMs)
		readers := c.Pick(1, 1, 1, 2, 3)
		var total, read atomic.Int64
		var wdone atomic.Bool
		var mu vsync.Quiet
		var sent, got []byte
		var setDone = make(chan struct{})
		fns = append(fns, func() { set(); close(setDone) })
		nw := c.Range(0, 30)
		fns = append(fns, func() { // the peer writes now and then
			for i := 0; i < nw; i++ {
				b := c.Bytes(1 + c.N(300))
				mu.Lock()
				sent = append(sent, b...)
				mu.Unlock()
				total.Add(int64(len(b)))
				if _, err := q.Write(b); err != nil {
					c.Violate("write", "Write: %v", err)
					return
				}
				time.Sleep(time.Duration(c.N(3*maxMs*1000)) * time.Microsecond)
			}
			<-setDone
			// one byte for every reader, counted before a reader may find that it has all
			mu.Lock()
			sent = append(sent, bytes.Repeat([]byte{0xA5}, readers)...)
			mu.Unlock()
			total.Add(int64(readers))
			wdone.Store(true)
			for i := 0; i < readers; i++ {
				q.Write([]byte{0xA5})
				time.Sleep(20 * time.Millisecond)
			}
		})
		for j := 0; j < readers; j++ {
			bufMax := c.Pick(1, 20, 500)
			if readers > 1 {
				bufMax = 500
			}
			fns = append(fns, func() {
				for n := 0; ; n++ {
					b := make([]byte, 1+c.N(bufMax))
					o := dlOp{s: time.Now()}
					n, err := s.Read(b)
					o.e, o.err, o.n = time.Now(), err, n
					mu.Lock()
					r.ops = append(r.ops, o)
					if readers == 1 {
						got = append(got, b[:n]...)
					}
					mu.Unlock()
					if n > 0 && err != nil {
						c.Violate("dl-both", "Read returned %d bytes and %v", n, err)
					}
					if err != nil && !errors.Is(err, os.ErrDeadlineExceeded) {
						return
					}
					read.Add(int64(n))
					if wdone.Load() && (read.Load() >= total.Load() || n > 0 && b[n-1] == 0xA5 && readers > 1) {
						return
					}
					if err != nil {
						time.Sleep(time.Duration(1+c.N(maxMs*500)) * time.Microsecond)
					}
				}
			})
		}
		if readers == 1 {
			c.Cleanup(func() {
				mu.Lock()
				defer mu.Unlock()
				if !bytes.Equal(got, sent) && !c.Failed() {
					c.Violate("dl-lost", "%s: read %d bytes of %d written, equal prefix %v", r.name, len(got), len(sent), bytes.HasPrefix(sent, got))
				}
			})
		}
	}
	if !c.All("reads with deadlines", fns...) {
		return
	}
	for _, l := range logs {
		l.judge()
	}
}

func dlWrite(c *C) {
	o := EnvOpt{Link: LinkOpt{Cap: c.Range(60, 400), Latency: time.Duration(c.Range(2, 30)) * time.Millisecond}}
	e := c.NewEnv(o)
	if e == nil {
		return
	}
	ps, ok := e.Pairs(c.N(2))
	if !ok {
		return
	}
	side := c.N(2)
	p := ps[c.N(len(ps))]
	s, q := p.at(side), p.at(1-side)
	r := &dlLog{c: c, name: "Read on stream " + itoa(s.StreamID())}
	w := &dlLog{c: c, name: "Write on stream " + itoa(s.StreamID())}
	var stop, wdone atomic.Bool
	maxMs := c.Pick(5, 50, 300)
	writers := c.Pick(1, 1, 2)
	nw := c.Pick(50, 300, 500)
	var mu vsync.Quiet
	var sent, got []byte
	var total atomic.Int64
	var fns []func()
	var wg sync.WaitGroup
	for i := 0; i < writers; i++ {
		sz := c.Pick(1, 40, 200)
		wg.Add(1)
		fns = append(fns, func() {
			defer wg.Done()
			for i := 0; i < nw; i++ {
				b := c.Bytes(1 + c.N(sz))
				o := dlOp{s: time.Now()}
				n, err := s.Write(b)
				o.e, o.err, o.n = time.Now(), err, n
				mu.Lock()
				w.ops = append(w.ops, o)
				mu.Unlock()
				if err == nil {
					if n != len(b) {
						c.Violate("write-count", "Write of %d bytes returned %d, nil", len(b), n)
					}
					if writers == 1 {
						sent = append(sent, b...)
					}
					total.Add(int64(n))
					continue
				}
				if !errors.Is(err, os.ErrDeadlineExceeded) {
					return
				}
				if n != 0 {
					total.Add(int64(n))
					if writers == 1 {
						sent = append(sent, b[:n]...)
					}
				}
				time.Sleep(time.Duration(1+c.N(maxMs*500)) * time.Microsecond)
			}
		})
	}
	done := make(chan struct{})
	fns = append(fns, func() { wg.Wait(); stop.Store(true); close(done) })
	set := c.dlSetter(s, r, w, &stop, maxMs)
	fns = append(fns, func() {
		for !stop.Load() {
			set()
			time.Sleep(time.Millisecond)
		}
	})
	fns = append(fns, func() {
		<-done
		wdone.Store(true)
	})
	var rd sync.WaitGroup
	rd.Add(1)
	read := int64(0)
	go func() {
		defer rd.Done()
		b := make([]byte, 4096)
		for {
			last := wdone.Load() // before the Read, or what comes behind it is missed
			q.SetReadDeadline(time.Now().Add(time.Second))
			n, err := q.Read(b)
			if writers == 1 {
				got = append(got, b[:n]...)
			}
			read += int64(n)
			if err != nil && (last || !errors.Is(err, os.ErrDeadlineExceeded)) {
				return
			}
		}
	}()
	if !c.All("writes with deadlines", fns...) {
		return
	}
	rd.Wait()
	w.judge()
	if read != total.Load() {
		c.Violate("dl-lost", "%d bytes were written, %d read", total.Load(), read)
	} else if writers == 1 && !bytes.Equal(sent, got) {
		c.Violate("dl-bytes", "the %d bytes read differ from those written", len(got))
	}
}
