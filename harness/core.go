// Package verif runs the real geminio code under generated workloads and
// judges the observed executions. core.go: case runner, verdicts, replay.
package verif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"verif/vsync"
)

type Mode int

const (
	Bubble Mode = iota // virtual time (testing/synctest); verdicts on time are exact
	Real               // wall clock; timed verdicts need confirmation by the parent
	Plain              // no goroutines of the library involved (codec, ids): direct
)

func (m Mode) String() string { return [...]string{"bubble", "real", "plain"}[m] }

// Scen is one family of cases of a property.
type Scen struct {
	Name     string
	Mode     Mode
	Race     bool // run in the -race binary
	Quick    int
	Thorough int
	Batch    int // cases per child process (default 20)
	LeakBad  bool
	Watch    int    // seconds before a case counts as stuck (default 40)
	Serial   bool   // run alone, other load would disturb it
	NoReal   bool   // makes no sense under the wall clock (too long)
	Known    string // key this scenario demonstrates, when it is the probe of a known finding
	Fn       func(c *C)
}

type Prop struct {
	ID    string
	Rule  string
	Scens []*Scen
}

var Props = map[string]*Prop{}

func register(p *Prop) {
	if Props[p.ID] != nil {
		panic("duplicate " + p.ID)
	}
	Props[p.ID] = p
}

type Viol struct {
	Key   string `json:"key"`
	Msg   string `json:"msg"`
	Timed bool   `json:"timed,omitempty"`
}

type Result struct {
	Scen    string           `json:"scen"`
	K       int              `json:"k"`
	Viol    []Viol           `json:"viol,omitempty"`
	Incon   []string         `json:"incon,omitempty"`
	Counts  map[string]int64 `json:"counts,omitempty"`
	Sig     uint64           `json:"sig"`
	Trivial bool             `json:"trivial,omitempty"`
	Sample  string           `json:"sample,omitempty"`
	WallMs  int64            `json:"wall_ms"`
	VirtMs  int64            `json:"virt_ms"`
}

// C is the context of one case.
type C struct {
	T    *testing.T
	Prop *Prop
	Sc   *Scen
	K    int
	Seed int64
	Mode Mode
	Tier string

	mu     sync.Mutex
	r      *rand.Rand
	res    *Result
	sig    uint64
	clean  []func()
	bound  time.Duration
	yield  atomic.Uint64
	raceEv atomic.Int64
	yprob  uint64
	lag    uint64 // one in lag log points lags
	sticky uint64 // or rather a third of them, always
	start  time.Time
	ntl    bool
	closed bool
}

func seedOf(parts ...any) (uint64, uint64) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	a := h.Sum64()
	h.Write([]byte("x"))
	return a, h.Sum64()
}

func newC(t *testing.T, p *Prop, sc *Scen, k int, seed int64, mode Mode, tier string) *C {
	a, b := seedOf(seed, "/", p.ID, "/", sc.Name, "/", k)
	c := &C{T: t, Prop: p, Sc: sc, K: k, Seed: seed, Mode: mode, Tier: tier,
		r:   rand.New(rand.NewPCG(a, b)),
		res: &Result{Scen: sc.Name, K: k, Counts: map[string]int64{}},
		sig: 14695981039346656037,
	}
	c.yield.Store(a | 1)
	c.yprob = []uint64{0, 1, 4, 16}[b%4]
	y := uint64(0)
	if c.yprob > 0 {
		y = []uint64{0, 64, 8, 2}[(b>>2)%4]
	}
	l := uint64(0)
	if mode == Bubble {
		switch (b >> 8) % 8 {
		case 0:
			c.lag = 2
		case 1:
			c.lag, l = 6, 6
		case 2:
			c.lag, l = 50, 100
		case 3:
			c.sticky = a | 1
		}
	}
	vsync.Perturb(a, y, l)
	vsync.Lags.Store(0)
	c.bound = 5 * time.Minute
	if mode == Real {
		c.bound = 60 * time.Second
	}
	return c
}

// ---- randomness -------------------------------------------------------

func (c *C) N(n int) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.r.IntN(n)
}

// Range returns a value in [lo,hi].
func (c *C) Range(lo, hi int) int { return lo + c.N(hi-lo+1) }
func (c *C) Bool() bool           { return c.N(2) == 0 }
func (c *C) Chance(pct int) bool  { return c.N(100) < pct }
func (c *C) Pick(xs ...int) int   { return xs[c.N(len(xs))] }
func (c *C) U64() uint64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.r.Uint64()
}

// Sub derives an independent generator for one goroutine.
func (c *C) Sub() *rand.Rand { return rand.New(rand.NewPCG(c.U64(), c.U64())) }

func (c *C) Bytes(n int) []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return fillBytes(c.r, n)
}

func fillBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	i := 0
	for ; i+8 <= n; i += 8 {
		v := r.Uint64()
		for j := 0; j < 8; j++ {
			b[i+j] = byte(v >> (8 * j))
		}
	}
	for ; i < n; i++ {
		b[i] = byte(r.Uint32())
	}
	return b
}

// Size draws a payload size with emphasis on the edges.
func sizeOf(r *rand.Rand, max int) int {
	switch r.IntN(10) {
	case 0:
		return 0
	case 1:
		return 1
	case 2, 3, 4, 5:
		return min(max, 1+r.IntN(64))
	case 6, 7:
		return min(max, r.IntN(1024))
	case 8:
		return min(max, r.IntN(8192))
	default:
		return r.IntN(max + 1)
	}
}

func (c *C) Size(max int) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return sizeOf(c.r, max)
}

// ---- observations -----------------------------------------------------

// Ev records an observed event: counted, and folded in order into the
// signature which tells distinct executions apart.
func (c *C) Ev(kind string, args ...any) {
	if raceOn {
		offRecord(func() { c.raceEv.Add(1) })
		return
	}
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return
	}
	c.res.Counts[kind]++
	h := c.sig
	mix := func(s string) {
		for i := 0; i < len(s); i++ {
			h ^= uint64(s[i])
			h *= 1099511628211
		}
	}
	mix(kind)
	for _, a := range args {
		mix(fmt.Sprint(a))
	}
	c.sig = h
	c.ntl = true
	c.mu.Unlock()
}

func (c *C) Count(kind string, n int) {
	if raceOn {
		offRecord(func() { c.raceEv.Add(int64(n)) })
		return
	}
	c.mu.Lock()
	if !c.closed {
		c.res.Counts[kind] += int64(n)
	}
	c.mu.Unlock()
}

func (c *C) Sample(f string, a ...any) {
	c.mu.Lock()
	if !c.closed && len(c.res.Sample) < 400 {
		if c.res.Sample != "" {
			c.res.Sample += "; "
		}
		c.res.Sample += fmt.Sprintf(f, a...)
	}
	c.mu.Unlock()
}

// Violate records a definitive violation.
func (c *C) Violate(key, f string, a ...any) { c.addViol(key, false, f, a...) }

// ViolateTimed records one that rests on elapsed time: definitive under
// virtual time, to be confirmed under the wall clock.
func (c *C) ViolateTimed(key, f string, a ...any) { c.addViol(key, c.Mode == Real, f, a...) }

func (c *C) addViol(key string, timed bool, f string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return
	}
	if len(c.res.Viol) < 8 {
		c.res.Viol = append(c.res.Viol, Viol{Key: key, Msg: fmt.Sprintf(f, a...), Timed: timed})
	}
}

func (c *C) Inconclusive(f string, a ...any) {
	c.mu.Lock()
	if !c.closed {
		c.res.Incon = append(c.res.Incon, fmt.Sprintf(f, a...))
	}
	c.mu.Unlock()
}

func (c *C) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.res.Viol) > 0
}

// ---- running things ----------------------------------------------------

// Do runs fn and waits at most the case's bound for it; not returning is a
// violation. Reports whether fn returned.
func (c *C) Do(what string, fn func()) bool { return c.DoIn(c.bound, what, fn) }

func (c *C) DoIn(d time.Duration, what string, fn func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		fn()
	}()
	return c.Wait(d, what, done)
}

// soon tells whether done is closed within what everything is given.
func (c *C) soon(done <-chan struct{}) bool {
	t := time.NewTimer(c.bound)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

func (c *C) Wait(d time.Duration, what string, done <-chan struct{}) bool {
	if c.Mode == Real && d < 30*time.Second {
		d = 30 * time.Second
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		select {
		case <-done:
			return true
		default:
		}
		c.ViolateTimed("hang:"+what, "%s did not return within %v\n%s", what, d, stacks())
		return false
	}
}

// Quiet is DoIn without a verdict.
func (c *C) Quiet(d time.Duration, fn func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		fn()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// All runs the functions concurrently and waits for all within the bound.
func (c *C) All(what string, fns ...func()) bool {
	var wg sync.WaitGroup
	for _, f := range fns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	return c.Wait(c.bound, what, done)
}

func (c *C) Cleanup(f func()) {
	c.mu.Lock()
	c.clean = append(c.clean, f)
	c.mu.Unlock()
}

// lagSum is what goroutines lagging one nanosecond at a time may add up to where
// otherwise no virtual time passes.
const lagSum = time.Millisecond

// Settle waits until nothing can happen at the current instant (virtual
// time), or a short while (wall clock).
func (c *C) Settle() {
	if c.Mode == Bubble {
		if c.lag != 0 || c.sticky != 0 {
			// those which lag don't count
			time.Sleep(lagSum / 10)
		}
		synctest.Wait()
		return
	}
	time.Sleep(300 * time.Millisecond)
}

func (c *C) teardown() {
	c.mu.Lock()
	fs := c.clean
	c.clean = nil
	c.mu.Unlock()
	for i := len(fs) - 1; i >= 0; i-- {
		fs[i]()
	}
}

func stacks() string {
	b := make([]byte, 1<<20)
	n := runtime.Stack(b, true)
	b = b[:n]
	// keep the goroutines that are inside the library
	var out bytes.Buffer
	cnt := 0
	for _, g := range bytes.Split(b, []byte("\n\n")) {
		if bytes.Contains(g, []byte("singchia/geminio")) && cnt < 14 {
			if len(g) > 900 {
				g = g[:900]
			}
			out.Write(g)
			out.WriteString("\n\n")
			cnt++
		}
	}
	return out.String()
}

// busyStacks returns the goroutines of a bubble which keep it from moving on.
func busyStacks() string {
	b := make([]byte, 4<<20)
	b = b[:runtime.Stack(b, true)]
	out := ""
	for _, g := range bytes.Split(b, []byte("\n\n")) {
		hd, _, _ := bytes.Cut(g, []byte("\n"))
		if bytes.Contains(hd, []byte("synctest bubble")) && !bytes.Contains(hd, []byte("(durable)")) && len(out) < 8000 {
			if len(g) > 1500 {
				g = g[:1500]
			}
			out += string(g) + "\n\n"
		}
	}
	return out
}

// runCase executes one case in the given mode.
func runCase(t *testing.T, p *Prop, sc *Scen, k int, seed int64, mode Mode, tier string, onLeak func(*Result)) (res *Result) {
	c := newC(t, p, sc, k, seed, mode, tier)
	wall := time.Now()
	finish := func() *Result {
		c.mu.Lock()
		defer c.mu.Unlock()
		c.closed = true
		c.res.Sig = c.sig
		c.res.Trivial = !c.ntl
		if n := vsync.Lags.Load(); n > 0 {
			c.res.Counts["lags"] = n
		}
		if raceOn {
			// only the race detector judges here
			if len(c.res.Viol) > 0 {
				c.res.Counts["not_judged"] = int64(len(c.res.Viol))
			}
			c.res.Viol = nil
			n := c.raceEv.Load()
			c.res.Counts["events"] = n
			a, _ := seedOf(c.Sc.Name, k, n)
			c.res.Sig, c.res.Trivial = a, n == 0
		}
		c.res.WallMs = time.Since(wall).Milliseconds()
		return c.res
	}
	body := func() {
		c.start = time.Now()
		sc.Fn(c)
		c.teardown()
		c.mu.Lock()
		c.res.VirtMs = time.Since(c.start).Milliseconds()
		c.mu.Unlock()
		switch {
		case mode == Bubble:
			// everything the case started was told to end; give it all
			// the time there is
			time.Sleep(3 * time.Minute)
			synctest.Wait()
			left := leftovers(true)
			if len(left) == 0 {
				return
			}
			if sc.LeakBad {
				c.Violate("leak", "%d goroutines remain after everything was closed:\n%s", len(left), cut(left, 4))
			} else {
				c.Count("leaked_cases", 1)
			}
			onLeak(finish())
		case mode == Real && sc.LeakBad:
			var left []string
			for i := 0; i < 450; i++ {
				if left = leftovers(false); len(left) == 0 {
					return
				}
				time.Sleep(100 * time.Millisecond)
			}
			c.ViolateTimed("leak", "%d goroutines remain 45s after everything was closed:\n%s", len(left), cut(left, 4))
			onLeak(finish())
		}
	}
	switch mode {
	case Bubble:
		over := make(chan struct{})
		go func() { // which a test failed for a race doesn't survive
			defer close(over)
			defer func() {
				if r := recover(); r != nil {
					s := fmt.Sprint(r)
					if !bytes.Contains([]byte(s), []byte("deadlock:")) {
						panic(r)
					}
					if sc.LeakBad {
						c.Violate("leak", "goroutines remain blocked forever after everything was closed: %s\n%s", s, stacks())
					} else {
						c.Count("leaked_cases", 1)
					}
				}
			}()
			synctest.Test(t, func(t *testing.T) { body() })
		}()
		<-over
	default:
		body()
	}
	return finish()
}

// leftovers returns the stacks of the goroutines that remain: in a bubble all
// of it but the caller, otherwise those inside the library or its timers.
func leftovers(bubble bool) []string {
	b := make([]byte, 4<<20)
	b = b[:runtime.Stack(b, true)]
	var out []string
	gs := bytes.Split(b, []byte("\n\n"))
	tag := []byte(nil)
	if bubble {
		hd, _, _ := bytes.Cut(gs[0], []byte("\n")) // the caller comes first
		i := bytes.Index(hd, []byte("synctest bubble "))
		if i < 0 {
			return nil
		}
		tag = bytes.TrimRight(hd[i:], "]:")
	}
	for _, g := range gs[1:] {
		if bubble {
			hd, _, _ := bytes.Cut(g, []byte("\n"))
			if i := bytes.Index(hd, []byte("synctest bubble ")); i < 0 || !bytes.Equal(bytes.TrimRight(hd[i:], "]:"), tag) {
				continue
			}
			if bytes.Contains(g, []byte("\ntesting/synctest.")) {
				continue // the bubble's own
			}
		} else if !bytes.Contains(g, []byte("singchia/")) && !bytes.Contains(g, []byte("jumboframes/")) {
			continue
		}
		out = append(out, string(g))
	}
	return out
}

func cut(gs []string, n int) string {
	var out string
	for i, g := range gs {
		if i == n {
			break
		}
		if len(g) > 1200 {
			g = g[:1200]
		}
		out += g + "\n\n"
	}
	return out
}

// ---- child process -----------------------------------------------------

type CaseRef struct {
	Scen string `json:"scen"`
	K    int    `json:"k"`
}

type Spec struct {
	Prop     string    `json:"prop"`
	Seed     int64     `json:"seed"`
	Tier     string    `json:"tier"`
	Cases    []CaseRef `json:"cases"`
	Real     bool      `json:"real"` // run bubble scenarios under the wall clock
	Out      string    `json:"out"`
	WatchSec int       `json:"watch_sec"`
}

type Line struct {
	Ev  string  `json:"ev"` // start, end, stuck
	I   int     `json:"i"`
	Res *Result `json:"res,omitempty"`
	Msg string  `json:"msg,omitempty"`
}

func RunChild(t *testing.T, spec *Spec) {
	f, err := os.OpenFile(spec.Out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	var fmu sync.Mutex
	emit := func(l *Line) {
		b, _ := json.Marshal(l)
		fmu.Lock()
		f.Write(append(b, '\n'))
		fmu.Unlock()
	}
	p := Props[spec.Prop]
	if p == nil {
		t.Fatalf("unknown property %s", spec.Prop)
	}
	scens := map[string]*Scen{}
	for _, s := range p.Scens {
		scens[s.Name] = s
	}
	for i, cr := range spec.Cases {
		sc := scens[cr.Scen]
		if sc == nil {
			t.Fatalf("unknown scenario %s", cr.Scen)
		}
		mode := sc.Mode
		if spec.Real && mode == Bubble {
			mode = Real
		}
		emit(&Line{Ev: "start", I: i})
		watch := spec.WatchSec
		if watch == 0 {
			watch = sc.Watch
		}
		if watch == 0 {
			watch = 40
		}
		if mode == Real {
			watch += 200
		}
		done := make(chan struct{})
		go func() { // watchdog: its firing is never a verdict by itself
			select {
			case <-done:
			case <-time.After(time.Duration(watch) * time.Second):
				emit(&Line{Ev: "stuck", I: i, Msg: stacks() + busyStacks()})
				os.Exit(97)
			}
		}()
		res := runCase(t, p, sc, cr.K, spec.Seed, mode, spec.Tier, func(r *Result) {
			// what remains may never end: go on in a fresh process
			emit(&Line{Ev: "end", I: i, Res: r})
			os.Exit(96)
		})
		close(done)
		emit(&Line{Ev: "end", I: i, Res: res})
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
