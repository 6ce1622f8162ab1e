// vrun decides one property: it builds the harness against /repo, runs the
// property's cases in child processes, confirms what they report, and writes
// the evidence file.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Viol struct {
	Key   string `json:"key"`
	Msg   string `json:"msg"`
	Timed bool   `json:"timed,omitempty"`
}
type Result struct {
	Scen    string           `json:"scen"`
	K       int              `json:"k"`
	Viol    []Viol           `json:"viol,omitempty"`
	Incon   []string         `json:"incon,omitempty"`
	Counts  map[string]int64 `json:"counts,omitempty"`
	Sig     uint64           `json:"sig"`
	Trivial bool             `json:"trivial,omitempty"`
	Sample  string           `json:"sample,omitempty"`
	WallMs  int64            `json:"wall_ms"`
	VirtMs  int64            `json:"virt_ms"`
}
type CaseRef struct {
	Scen string `json:"scen"`
	K    int    `json:"k"`
}
type Spec struct {
	Prop     string    `json:"prop"`
	Seed     int64     `json:"seed"`
	Tier     string    `json:"tier"`
	Cases    []CaseRef `json:"cases"`
	Real     bool      `json:"real"`
	Out      string    `json:"out"`
	WatchSec int       `json:"watch_sec"`
}
type Line struct {
	Ev  string  `json:"ev"`
	I   int     `json:"i"`
	Res *Result `json:"res,omitempty"`
	Msg string  `json:"msg,omitempty"`
}
type Scen struct {
	Name     string `json:"name"`
	Mode     string `json:"mode"`
	Race     bool   `json:"race"`
	Quick    int    `json:"quick"`
	Thorough int    `json:"thorough"`
	Batch    int    `json:"batch"`
	Known    string `json:"known"`
	Watch    int    `json:"watch"`
	Serial   bool   `json:"serial"`
	NoReal   bool   `json:"noreal"`
}
type Prop struct {
	ID    string `json:"id"`
	Rule  string `json:"rule"`
	Scens []Scen `json:"scens"`
}

// Found is one reported violation.
type Found struct {
	Prop   string  `json:"property"`
	Scen   string  `json:"scenario"`
	K      int     `json:"case"`
	Seed   int64   `json:"seed"`
	Tier   string  `json:"tier"`
	Key    string  `json:"key"`
	Msg    string  `json:"message"`
	Mode   string  `json:"mode"`
	Race   bool    `json:"race"`
	How    string  `json:"how_to_replay"`
	Output string  `json:"output,omitempty"`
	Res    *Result `json:"-"`
}

var (
	verif, build, runDir string
	seed                 int64 = 1
	tier                       = "quick"
	verbose              bool
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vrun: "+f+"\n", a...)
	if runDir != "" {
		os.RemoveAll(runDir)
	}
	os.Exit(2)
}

// overlay makes the library's locks visible to virtual time: in a copy of each
// of its sources as they are now, "sync" is replaced by vsync (see there), and
// "sync/atomic" by vatomic.
func overlay() string {
	dir := filepath.Join(build, "overlay")
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		die("%v", err)
	}
	repl := map[string]string{}
	n := 0
	err := filepath.WalkDir("/repo", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if n := d.Name(); n == ".git" || n == "vendor" || n == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, src, parser.ImportsOnly)
		if err != nil {
			return nil // the build will say so
		}
		changed := false
		for i := len(f.Imports) - 1; i >= 0; i-- { // those behind first, they move none
			im := f.Imports[i]
			var txt, name string
			switch im.Path.Value {
			case `"sync"`:
				txt, name = `"verif/vsync"`, "sync "
			case `"sync/atomic"`:
				txt, name = `"verif/vsync/vatomic"`, "atomic "
			default:
				continue
			}
			if im.Name == nil {
				txt = name + txt
			}
			at := int(im.Path.Pos()) - int(f.FileStart)
			src = append(append(append([]byte(nil), src[:at]...), txt...), src[at+len(im.Path.Value):]...)
			changed = true
		}
		if !changed {
			return nil
		}
		n++
		q := filepath.Join(dir, fmt.Sprintf("%d_%s", n, filepath.Base(p)))
		if err := os.WriteFile(q, src, 0o644); err != nil {
			return err
		}
		repl[p] = q
		return nil
	})
	if err != nil {
		die("reading /repo: %v", err)
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	j := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(j, b, 0o644); err != nil {
		die("%v", err)
	}
	return j
}

func goBuild(race bool) string {
	out := filepath.Join(build, "verif.test")
	args := []string{"test", "-c", "-overlay", overlay(), "-o", out, "."}
	if race {
		out = filepath.Join(build, "verif.race.test")
		args = []string{"test", "-c", "-race", "-overlay", overlay(), "-o", out, "."}
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(verif, "harness")
	b, err := cmd.CombinedOutput()
	if err != nil {
		die("building the harness against /repo failed: %v\n%s", err, b)
	}
	return out
}

// ---- one child run ---------------------------------------------------------

type outcome struct {
	results []*Result
	done    map[int]bool
	started int // index of the case that did not finish, -1
	stuck   string
	code    int
	output  string
	races   []string
}

var (
	liveMu  sync.Mutex
	live    = map[*exec.Cmd]bool{}
	stopped bool
)

func stopAll() {
	liveMu.Lock()
	stopped = true
	for c := range live {
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	}
	liveMu.Unlock()
}
func isStopped() bool { liveMu.Lock(); defer liveMu.Unlock(); return stopped }

var seq struct {
	sync.Mutex
	n int
}

func runChild(bin string, race bool, procs int, spec Spec, limit time.Duration) outcome {
	seq.Lock()
	seq.n++
	base := filepath.Join(runDir, fmt.Sprintf("r%05d", seq.n))
	seq.Unlock()
	os.MkdirAll(base, 0o755)
	defer os.RemoveAll(base)
	spec.Out = filepath.Join(base, "out.jsonl")
	sb, _ := json.Marshal(spec)
	sp := filepath.Join(base, "spec.json")
	os.WriteFile(sp, sb, 0o644)
	logf, _ := os.Create(filepath.Join(base, "log"))
	cmd := exec.Command(bin, "-test.run", "^TestChild$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "VERIF_SPEC="+sp, "GOMAXPROCS="+strconv.Itoa(procs),
		"GOTRACEBACK=all", "GORACE=log_path="+filepath.Join(base, "race")+" halt_on_error=0 exitcode=0 history_size=3")
	cmd.Dir = base
	cmd.Stdout, cmd.Stderr = logf, logf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	o := outcome{done: map[int]bool{}, started: -1}
	liveMu.Lock()
	if stopped {
		liveMu.Unlock()
		return o
	}
	if err := cmd.Start(); err != nil {
		liveMu.Unlock()
		die("cannot start %s: %v", bin, err)
	}
	live[cmd] = true
	liveMu.Unlock()
	timer := time.AfterFunc(limit, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	cmd.Wait()
	timer.Stop()
	liveMu.Lock()
	delete(live, cmd)
	liveMu.Unlock()
	logf.Close()
	o.code = cmd.ProcessState.ExitCode()
	if f, err := os.Open(spec.Out); err == nil {
		rd := bufio.NewReaderSize(f, 1<<20)
		for {
			line, err := rd.ReadBytes('\n')
			if len(line) > 0 {
				var l Line
				if json.Unmarshal(line, &l) == nil {
					switch l.Ev {
					case "start":
						o.started = l.I
					case "end":
						o.done[l.I] = true
						o.results = append(o.results, l.Res)
						if o.started == l.I {
							o.started = -1
						}
					case "stuck":
						o.stuck = l.Msg
						if o.stuck == "" {
							o.stuck = "(no library stacks)"
						}
					}
				}
			}
			if err != nil {
				break
			}
		}
		f.Close()
	}
	if b, err := os.ReadFile(filepath.Join(base, "log")); err == nil {
		if len(b) > 200000 {
			b = append(append([]byte(nil), b[:150000]...), b[len(b)-50000:]...)
		}
		o.output = string(b)
	}
	if race {
		ms, _ := filepath.Glob(filepath.Join(base, "race.*"))
		for _, m := range ms {
			b, _ := os.ReadFile(m)
			o.races = append(o.races, splitRaces(string(b))...)
		}
	}
	return o
}

func splitRaces(s string) []string {
	var out []string
	for _, part := range strings.Split(s, "==================") {
		if strings.Contains(part, "WARNING: DATA RACE") {
			out = append(out, part)
		}
	}
	return out
}

func libFrame(f string) bool {
	return strings.Contains(f, "singchia/") || strings.Contains(f, "jumboframes/")
}

// raceKey returns the library functions of the two accesses, "" when either
// access is not made by the library itself.
func raceKey(r string) string {
	secs := regexp.MustCompile(`(?m)^(?:Previous )?(?:[Rr]ead|[Ww]rite|atomic [a-z]+) at .*$`).FindAllStringIndex(r, -1)
	if len(secs) < 2 {
		return ""
	}
	var ks []string
	for i, s := range secs[:2] {
		end := len(r)
		if i == 0 {
			end = secs[1][0]
		} else if j := strings.Index(r[s[1]:], "\n\n"); j >= 0 {
			end = s[1] + j
		}
		top := ""
		for _, m := range regexp.MustCompile(`(?m)^  (\S+)\(`).FindAllStringSubmatch(r[s[1]:end], -1) {
			f := m[1]
			if libFrame(f) {
				top = f
				break
			}
			if strings.HasPrefix(f, "verif.") || strings.HasPrefix(f, "verif/") {
				// the harness called straight into the standard
				// library: not the library's access
				break
			}
		}
		if top == "" || !strings.Contains(r[s[1]:end], "singchia/geminio/") {
			// a dependency all by itself
			return ""
		}
		if !strings.Contains(top, "geminio") {
			// inside a dependency's own structures
			top = "dep:" + top
		}
		ks = append(ks, top[strings.LastIndex(top, "/")+1:])
	}
	sort.Strings(ks)
	return strings.Join(ks, "~")
}

// unsynchronised tells a crash which comes from unsynchronised use.
var unsynchronised = regexp.MustCompile(`(?m)^(fatal error: |panic: (send on|close of) closed channel|panic: sync: )`)

// crashKey classifies a crashed child: the first frame that is not the
// runtime's or the standard library's decides whose fault it is.
func crashKey(out string) (string, bool) {
	i := strings.Index(out, "panic: ")
	if j := strings.Index(out, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		return "", false
	}
	head, _, _ := strings.Cut(out[i:], "\n")
	rest := out[i:]
	if k := strings.Index(rest, "\ngoroutine "); k >= 0 {
		rest = rest[k+1:]
	}
	// the first goroutine only
	if k := strings.Index(rest, "\n\n"); k >= 0 {
		rest = rest[:k]
	}
	for _, m := range regexp.MustCompile(`(?m)^(\S+)\(.*\)$`).FindAllStringSubmatch(rest, -1) {
		f := m[1]
		if libFrame(f) {
			return "crash:" + f[strings.LastIndex(f, "/")+1:] + ": " + head, true
		}
		if strings.HasPrefix(f, "verif.") || strings.HasPrefix(f, "verif/") {
			return head, false
		}
	}
	// created by the library (timers, goroutines)
	if m := regexp.MustCompile(`created by (\S+)`).FindStringSubmatch(rest); m != nil && libFrame(m[1]) {
		return "crash:" + m[1] + ": " + head, true
	}
	return head, false
}

// ---- known findings ----------------------------------------------------------

type known struct{ prop, scen, key, what string }

func loadKnown() []known {
	var out []known
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^known: property=(\S+) scenario=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			out = append(out, known{m[1], m[2], m[3], m[4]})
		}
	}
	return out
}

func main() {
	replay := flag.String("replay", "", "replay file")
	only := flag.String("scen", "", "only this scenario")
	nOver := flag.Int("n", 0, "override the number of cases")
	kOver := flag.Int("k", -1, "only this case")
	real := flag.Bool("real", false, "run bubble scenarios under the wall clock")
	keepGoing := flag.Bool("keep-going", false, "do not stop at the first violation")
	setup := flag.Bool("setup", false, "only build")
	flag.BoolVar(&verbose, "v", false, "verbose")
	flag.Parse()
	start := time.Now()
	verif = os.Getenv("VERIF_DIR")
	if verif == "" {
		verif, _ = os.Getwd()
	}
	build = filepath.Join(verif, "build")
	os.MkdirAll(build, 0o755)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		tier = t
	}
	if *setup {
		goBuild(false)
		goBuild(true)
		return
	}
	var rp *Found
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			die("%v", err)
		}
		rp = &Found{}
		if err := json.Unmarshal(b, rp); err != nil {
			die("%v", err)
		}
		seed, tier = rp.Seed, rp.Tier
		*only, *kOver = rp.Scen, rp.K
	}
	id := flag.Arg(0)
	if rp != nil {
		id = rp.Prop
	}
	if id == "" {
		die("usage: vrun [flags] PROPERTY")
	}
	var err error
	runDir, err = os.MkdirTemp(build, "run-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(runDir)

	bins := map[bool]string{false: goBuild(false)}
	lst := filepath.Join(runDir, "list.json")
	lc := exec.Command(bins[false], "-test.run", "^TestList$")
	lc.Env = append(os.Environ(), "VERIF_LIST="+lst)
	if b, err := lc.CombinedOutput(); err != nil {
		die("listing the scenarios failed: %v\n%s", err, b)
	}
	var props []Prop
	b, _ := os.ReadFile(lst)
	if err := json.Unmarshal(b, &props); err != nil {
		die("%v", err)
	}
	var prop *Prop
	for i := range props {
		if props[i].ID == id {
			prop = &props[i]
		}
	}
	if prop == nil {
		die("no property %s", id)
	}
	var scens []Scen
	for _, s := range prop.Scens {
		if *only == "" || *only == s.Name {
			scens = append(scens, s)
		}
	}
	if len(scens) == 0 {
		die("no scenario %s", *only)
	}
	byName := map[string]Scen{}
	for _, s := range scens {
		byName[s.Name] = s
		if s.Race && bins[true] == "" {
			bins[true] = goBuild(true)
		}
	}
	buildS := time.Since(start).Seconds()

	// ---- the case list, fixed by tier and seed
	type batch struct {
		s     Scen
		cases []CaseRef
		frac  float64
	}
	var batches []batch
	planned := 0
	for _, s := range scens {
		n := s.Quick
		if tier == "thorough" {
			n = s.Thorough
		}
		if *nOver > 0 {
			n = *nOver
		}
		bs := s.Batch
		if bs == 0 {
			bs = 20
		}
		// spread over the workers when there are few
		if per := (n + 7) / 8; per < bs && per > 0 && !s.Serial {
			bs = per
		}
		var cs []CaseRef
		for k := 0; k < n; k++ {
			if *kOver >= 0 {
				k = *kOver
				n = 0
			}
			cs = append(cs, CaseRef{s.Name, k})
		}
		planned += len(cs)
		total := len(cs)
		done := 0
		for len(cs) > 0 {
			m := min(bs, len(cs))
			batches = append(batches, batch{s, cs[:m], float64(done) / float64(total)})
			cs = cs[m:]
			done += m
		}
	}
	sort.SliceStable(batches, func(i, j int) bool {
		if batches[i].s.Serial != batches[j].s.Serial {
			return batches[j].s.Serial
		}
		return batches[i].frac < batches[j].frac
	})

	budget := 400 * time.Second
	if tier == "thorough" {
		budget = 14 * time.Minute
		if d, err := time.ParseDuration(os.Getenv("VERIF_BUDGET")); err == nil {
			budget = d
		}
	}
	var (
		mu       sync.Mutex
		results  []*Result
		suspects []Found
		incon    []string
		harness  []string
		skipped  int
		restarts int
		raceSeen int
	)
	knowns := loadKnown()
	isKnown := func(f Found) *known {
		for i := range knowns {
			k := &knowns[i]
			if k.prop == f.Prop && k.scen == f.Scen && k.key == f.Key {
				return k
			}
		}
		return nil
	}
	knownHit := map[*known]int{}
	var confirmed []Found
	report := func(f Found) { // with mu held
		if k := isKnown(f); k != nil {
			knownHit[k]++
			return
		}
		confirmed = append(confirmed, f)
		if !*keepGoing {
			stopAll()
		}
	}
	mk := func(s Scen, k int, v Viol, out string) Found {
		mode := s.Mode
		if *real && mode == "bubble" {
			mode = "real"
		}
		return Found{Prop: id, Scen: s.Name, K: k, Seed: seed, Tier: tier, Key: v.Key, Msg: v.Msg, Mode: mode, Race: s.Race, Output: out}
	}
	tail := func(s string) string {
		if len(s) > 12000 {
			s = s[:12000]
		}
		return s
	}
	procsOf := []int{1, 2, 4, 8, 2, 1, 3, 8}
	handle := func(b batch, worker int) {
		cases := b.cases
		for n := 0; len(cases) > 0 && !isStopped(); n++ {
			if time.Since(start) > budget {
				mu.Lock()
				skipped += len(cases)
				mu.Unlock()
				return
			}
			procs := procsOf[(worker+n)%len(procsOf)]
			o := runChild(bins[b.s.Race], b.s.Race, procs, Spec{Prop: id, Seed: seed, Tier: tier, Cases: cases, Real: *real}, 15*time.Minute)
			mu.Lock()
			for _, r := range o.results {
				results = append(results, r)
				for _, v := range r.Viol {
					f := mk(b.s, r.K, v, "")
					f.Res = r
					if v.Timed {
						suspects = append(suspects, f)
					} else {
						report(f)
					}
				}
			}
			for _, r := range o.races {
				raceSeen++
				if key := raceKey(r); key != "" {
					report(mk(b.s, cases[0].K, Viol{Key: "race:" + key, Msg: "data race\n" + tail(r)}, ""))
				} else if verbose {
					fmt.Println("race outside the library ignored:\n" + r)
				}
			}
			mu.Unlock()
			if isStopped() {
				return
			}
			// what is left
			next := 0
			for next < len(cases) && o.done[next] {
				next++
			}
			if next == len(cases) {
				if o.code != 0 && o.code != 96 && !isStopped() && !b.s.Race {
					if key, lib := crashKey(o.output); lib {
						mu.Lock()
						report(mk(b.s, cases[len(cases)-1].K, Viol{Key: key, Msg: "the process died after the case"}, tail(o.output)))
						mu.Unlock()
					} else {
						mu.Lock()
						harness = append(harness, fmt.Sprintf("%s: child ended with %d: %s", b.s.Name, o.code, tail(o.output)))
						mu.Unlock()
					}
				}
				return
			}
			if o.code == 96 {
				cases = cases[next:]
				mu.Lock()
				restarts++
				mu.Unlock()
				continue
			}
			cr := cases[next]
			mu.Lock()
			restarts++
			switch {
			case b.s.Race && (o.code == 97 || !unsynchronised.MatchString(o.output)):
				// the other properties' matter
				note := "stuck"
				if o.code != 97 {
					note = fmt.Sprintf("child ended with %d", o.code)
					if verbose {
						note += ": " + tail(o.output)
					}
				}
				incon = append(incon, fmt.Sprintf("%s/%d: %s", cr.Scen, cr.K, note))
			case o.code == 97:
				suspects = append(suspects, mk(b.s, cr.K, Viol{Key: "stuck", Msg: "the case made no progress\n" + tail(o.stuck), Timed: true}, ""))
			default:
				if key, lib := crashKey(o.output); lib {
					report(mk(b.s, cr.K, Viol{Key: key, Msg: "the process died"}, tail(o.output)))
				} else {
					harness = append(harness, fmt.Sprintf("%s/%d: child ended with %d: %s", cr.Scen, cr.K, o.code, tail(o.output)))
				}
			}
			many := len(harness) > 3 || len(suspects) > 6
			mu.Unlock()
			cases = cases[next+1:]
			if many {
				return
			}
		}
	}
	workers := 8
	var wg sync.WaitGroup
	var bi int
	takeParallel := func() (batch, bool) {
		mu.Lock()
		defer mu.Unlock()
		if bi >= len(batches) || batches[bi].s.Serial || len(harness) > 3 || len(suspects) > 6 {
			return batch{}, false
		}
		bi++
		return batches[bi-1], true
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				b, ok := takeParallel()
				if !ok || isStopped() {
					return
				}
				handle(b, w)
			}
		}()
	}
	wg.Wait()
	for ; bi < len(batches) && !isStopped() && len(harness) <= 3 && len(suspects) <= 6; bi++ {
		handle(batches[bi], 3)
	}

	// ---- confirm what rests on elapsed time, alone on the machine
	confirmRun := func(f Found, realMode bool, watch int) (again *Found, how string) {
		o := runChild(bins[f.Race], f.Race, 8, Spec{Prop: id, Seed: seed, Tier: tier,
			Cases: []CaseRef{{f.Scen, f.K}}, Real: realMode, WatchSec: watch}, 6*time.Minute)
		for _, r := range o.results {
			for _, v := range r.Viol {
				g := mk(byName[f.Scen], f.K, v, "")
				g.Res = r
				return &g, ""
			}
			return nil, "passed"
		}
		if o.code == 97 {
			return nil, "stuck"
		}
		if key, lib := crashKey(o.output); lib {
			g := mk(byName[f.Scen], f.K, Viol{Key: key, Msg: "the process died"}, tail(o.output))
			return &g, ""
		}
		return nil, fmt.Sprintf("ended with %d", o.code)
	}
	tried := 0
	for _, f := range suspects {
		if isStopped() || tried >= 4 {
			break
		}
		if isKnown(f) != nil {
			mu.Lock()
			report(f)
			mu.Unlock()
			continue
		}
		tried++
		s := byName[f.Scen]
		note := ""
		if f.Key == "stuck" {
			// a bubble does not move on while a goroutine waits for a
			// mutex: only the wall clock can tell whether it would
			g, how := confirmRun(f, false, 45)
			if g == nil && how == "passed" {
				note = "passed alone"
			} else if g != nil {
				mu.Lock()
				report(*g)
				mu.Unlock()
				continue
			}
			if note == "" {
				if s.NoReal && s.Mode == "bubble" {
					note = "stuck again; not decidable under the wall clock"
				} else {
					for i := 0; i < 2 && note == ""; i++ {
						g, how = confirmRun(f, true, 0)
						if g != nil {
							break
						}
					}
					if g != nil {
						g.Msg += "\n(found stuck under virtual time, confirmed under the wall clock)"
						mu.Lock()
						report(*g)
						mu.Unlock()
						continue
					}
					note = "stuck under virtual time, under the wall clock: " + how
				}
			}
		} else {
			ok := false
			for i := 0; i < 2 && !ok; i++ {
				g, how := confirmRun(f, *real, 0)
				if g != nil {
					mu.Lock()
					report(*g)
					mu.Unlock()
					ok = true
				}
				note = how
			}
			if ok {
				continue
			}
		}
		incon = append(incon, fmt.Sprintf("%s/%d %s: %s", f.Scen, f.K, f.Key, note))
		if verbose {
			fmt.Printf("inconclusive %s/%d %s: %s\n%s\n", f.Scen, f.K, f.Key, note, f.Msg)
		}
	}
	if tried == 4 && len(suspects) > 4 {
		incon = append(incon, fmt.Sprintf("%d more timed suspicions not re-run", len(suspects)-4))
	}

	// ---- evidence
	counts := map[string]int64{}
	perScen := map[string]map[string]any{}
	sigs := map[uint64]bool{}
	var samples []any
	sampled := map[string]int{}
	var virt int64
	for _, r := range results {
		for k, v := range r.Counts {
			counts[k] += v
		}
		virt += r.VirtMs
		m := perScen[r.Scen]
		if m == nil {
			m = map[string]any{"cases": 0, "distinct": 0, "mode": byName[r.Scen].Mode}
			perScen[r.Scen] = m
		}
		m["cases"] = m["cases"].(int) + 1
		if !r.Trivial && !sigs[r.Sig] {
			sigs[r.Sig] = true
			m["distinct"] = m["distinct"].(int) + 1
		}
		for _, s := range r.Incon {
			incon = append(incon, fmt.Sprintf("%s/%d: %s", r.Scen, r.K, s))
		}
		if r.Sample != "" && sampled[r.Scen] < 2 {
			sampled[r.Scen]++
			samples = append(samples, fmt.Sprintf("%s/%d: %s", r.Scen, r.K, r.Sample))
		}
	}
	for _, r := range results {
		if len(samples) >= 3 {
			break
		}
		samples = append(samples, map[string]any{"scenario": r.Scen, "case": r.K, "observed": r.Counts, "signature": fmt.Sprintf("%016x", r.Sig)})
	}
	if samples == nil {
		samples = []any{}
	}
	sort.Strings(incon)
	if len(incon) > 20 {
		incon = append(incon[:20], fmt.Sprintf("and %d more", len(incon)-20))
	}
	if incon == nil {
		incon = []string{}
	}
	var kl []string
	for k, n := range knownHit {
		kl = append(kl, fmt.Sprintf("%s (%d times)", k.what, n))
	}
	sort.Strings(kl)
	if kl == nil {
		kl = []string{}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         len(results),
			"distinct_nontrivial": len(sigs),
			"rule":                prop.Rule + " Non-trivial: the monitors observed at least one event. Distinct: the order-sensitive hash of all observed events (operations, results, wire packets, delegate calls) differs from every other case's.",
			"samples":             samples,
			"observed_events":     counts,
			"scenarios":           perScen,
			"planned":             planned,
			"skipped_for_time":    skipped,
			"virtual_seconds":     virt / 1000,
			"inconclusive":        incon,
			"known_findings":      kl,
			"race_reports_seen":   raceSeen,
			"build_s":             buildS,
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(confirmed),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	if rp == nil && *only == "" {
		os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(eb, '\n'), 0o644)
	}
	for k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.what)
	}
	if len(confirmed) > 0 {
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0o755)
		limit := len(confirmed)
		if limit > 1 && !*keepGoing {
			limit = 1
		}
		seen := map[string]int{}
		for i, f := range confirmed {
			seen[f.Scen+" "+f.Key]++
			if i >= limit {
				continue
			}
			p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", id, f.Scen, f.K))
			f.How = "cd /verif && ./run.sh -replay " + p
			fb, _ := json.MarshalIndent(f, "", " ")
			os.WriteFile(p, fb, 0o644)
			if i < 3 {
				m := f.Msg
				if len(m) > 3000 && !verbose {
					m = m[:3000] + "..."
				}
				fmt.Printf("%s case %d (%s): %s: %s\n", f.Scen, f.K, f.Mode, f.Key, m)
				if f.Output != "" {
					o := f.Output
					if len(o) > 2500 && !verbose {
						o = o[:2500] + "..."
					}
					fmt.Println(o)
				}
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		}
		if *keepGoing {
			for _, k := range sorted(seen) {
				fmt.Println(seen[k], k)
			}
		}
		os.RemoveAll(runDir)
		os.Exit(1)
	}
	if len(harness) > 0 {
		die("the harness failed:\n%s", strings.Join(harness, "\n"))
	}
	fmt.Printf("%s: held on %d cases (%d distinct) in %.1fs (build %.1fs), %d events, %d inconclusive, %d skipped\n",
		id, len(results), len(sigs), time.Since(start).Seconds(), buildS, total(counts), len(incon), skipped)
	if verbose {
		fmt.Println(string(bytes.TrimSpace(eb)))
	}
}

func total(m map[string]int64) (t int64) {
	for _, v := range m {
		t += v
	}
	return
}

func sorted(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
