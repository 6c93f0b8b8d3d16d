// Package harness runs the monitors: workload distribution over workers,
// verdicts, shrinking, replay files, evidence, known findings, and the
// watchdogs that turn a hang, a crash or runaway memory inside the library
// into a verdict instead of an error of the check.
package harness

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/maphash"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/sut"
)

// Case is one replayable execution: an oracle and its input.
type Case struct {
	Oracle string   `json:"oracle"`
	Kind   ref.Kind `json:"kind"`
	Text   []byte   `json:"text_base64"`
	Args   []int64  `json:"args,omitempty"`
	Strs   []string `json:"strs,omitempty"`
	// Fixed says that Text must not be shrunk.
	Fixed bool `json:"fixed,omitempty"`
}

// Oracle judges one case; nil means the property held on it.
type Oracle func(c *Case) error

var oracles = map[string]Oracle{}

// RegisterOracle makes an oracle available to checks and to replay.
func RegisterOracle(name string, o Oracle) { oracles[name] = o }

// Check decides one property.
type Check struct {
	ID    string
	Title string
	Rule  string
	// Level defaults to exploration.
	Level       string
	Assumptions []string
	// External checks run other programs, with time limits of their own.
	External bool
	Run      func(x *Ctx)
}

var checks = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { checks[c.ID] = c }

// Ctx is one run of a check.
type Ctx struct {
	Check    *Check
	Seed     int64
	Thorough bool
	Light    bool   // part of another check
	Dir      string // /verif

	mu         sync.Mutex
	counts     map[string]int64
	samples    []string
	violations []violation
	fails      int
	known      map[string]string // signature -> line
	knownHit   map[string]bool
	exhaustive []string
	inconcl    []string
	extra      map[string]any
	evals      atomic.Int64
	distinctN  atomic.Int64
	shards     [64]shard
	workers    []*W
	stop       atomic.Bool
	pause      atomic.Bool
}

type shard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

type violation struct {
	Sig    string
	Msg    string
	Case   *Case
	Replay string
}

const maxDistinctPerShard = 200000

// W is one worker.
type W struct {
	X      *Ctx
	R      *gen.Rng
	ID     int
	counts map[string]int64
	evals  int64
	group  string
	index  atomic.Int64
	busy   atomic.Bool
	note   atomic.Pointer[Case]
	nsamp  int
	hash   maphash.Hash
	buf    [][]int
}

// Q picks by tier.
func (x *Ctx) Q(quick, thorough int) int {
	if x.Thorough {
		return thorough
	}
	if x.Light && quick > 100 {
		return quick / 16
	}
	return quick
}

// Depth picks the length of enumerations.
func (x *Ctx) Depth(quick, thorough int) int {
	if x.Light {
		return quick - 1
	}
	return x.Q(quick, thorough)
}

var hseed = maphash.MakeSeed()

// Distinct records that this case is non-trivial; the run counts distinct ones.
func (w *W) Distinct(tag byte, text []byte) {
	w.hash.SetSeed(hseed)
	w.hash.WriteByte(tag)
	w.hash.Write(text)
	h := w.hash.Sum64()
	s := &w.X.shards[h>>58]
	s.mu.Lock()
	if len(s.m) < maxDistinctPerShard {
		if s.m == nil {
			s.m = map[uint64]struct{}{}
		}
		s.m[h] = struct{}{}
	}
	s.mu.Unlock()
}

// DistinctN adds n cases that are distinct and non-trivial by construction of
// an enumeration.
func (w *W) DistinctN(n int64) { w.X.distinctN.Add(n) }

// Count adds to a named observation.
func (w *W) Count(key string, n int64) { w.counts[key] += n }

// Eval counts executions.
func (w *W) Eval(n int) { w.evals += int64(n) }

// Sample keeps a few actual cases for the evidence.
func (w *W) Sample(format string, a ...any) {
	if w.nsamp >= 3 {
		return
	}
	w.nsamp++
	s := fmt.Sprintf(format, a...)
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	w.X.mu.Lock()
	if len(w.X.samples) < 24 {
		w.X.samples = append(w.X.samples, s)
	}
	w.X.mu.Unlock()
}

// Judge runs an oracle on a case and records a violation if it fails.
func (w *W) Judge(c *Case) bool {
	w.evals++
	w.note.Store(c)
	err := judge(c)
	w.note.Store(nil)
	if err == nil {
		return true
	}
	w.X.Fail(c, err)
	return false
}

// ErrInconclusive marks an oracle run that could not decide.
var ErrInconclusive = errors.New("inconclusive")

func judge(c *Case) error {
	o := oracles[c.Oracle]
	if o == nil {
		panic("unknown oracle " + c.Oracle)
	}
	return sut.Protect(func() error { return o(c) })
}

// Observe runs f as the worker's current case, without an oracle: used by hot
// loops that compare by themselves and build a Case only on a mismatch.
func (w *W) Guard(c *Case, f func() error) bool {
	w.note.Store(c)
	err := sut.Protect(f)
	w.note.Store(nil)
	if err == nil {
		return true
	}
	w.X.Fail(c, err)
	return false
}

var hexnum = regexp.MustCompile(`0x[0-9a-f]+|\d+|"[^"]*"`)

// Fail records a violation: shrinks, deduplicates, writes the replay file.
func (x *Ctx) Fail(c *Case, err error) {
	if errors.Is(err, ErrInconclusive) {
		x.Inconclusive(err.Error())
		return
	}
	var sig string
	if s, ok := err.(interface{ Signature() string }); ok {
		sig = s.Signature()
	}
	x.mu.Lock()
	if sig != "" {
		if _, ok := x.known[sig]; ok {
			x.knownHit[sig] = true
			x.mu.Unlock()
			return
		}
	}
	if x.fails++; x.fails > 24 || len(x.violations) >= 8 {
		x.stop.Store(true)
		x.mu.Unlock()
		return
	}
	x.mu.Unlock()
	cc := *c
	cc.Text = append([]byte(nil), c.Text...)
	c = &cc
	if _, ok := oracles[c.Oracle]; ok && !c.Fixed && len(c.Text) > 0 && len(c.Text) < 1<<20 {
		c, err = shrink(c, err)
	}
	msg := err.Error()
	if p, ok := err.(*sut.Panic); ok {
		msg += "\n" + trimStack(p.Stack)
	}
	if sig == "" {
		sig = c.Oracle + "/" + c.Kind.String() + "/" + hexnum.ReplaceAllString(firstLine(msg), "#")
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, v := range x.violations {
		if v.Sig == sig {
			return
		}
	}
	x.violations = append(x.violations, violation{Sig: sig, Msg: msg, Case: c})
}

// Inconclusive records that part of a run could not decide.
func (x *Ctx) Inconclusive(msg string) {
	x.mu.Lock()
	if len(x.inconcl) < 20 {
		x.inconcl = append(x.inconcl, msg)
	}
	x.mu.Unlock()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// shrink removes pieces of the text while the oracle still fails.
func shrink(c *Case, err error) (*Case, error) {
	valid := utf8.Valid(c.Text)
	_, wasPanic := err.(*sut.Panic)
	best, bestErr := c, err
	steps := 0
	deadline := time.Now().Add(3 * time.Second)
	try := func(t []byte) bool {
		steps++
		if steps > 4000 || time.Now().After(deadline) || len(t) == 0 || (valid && !utf8.Valid(t)) {
			return false
		}
		n := *best
		n.Text = append([]byte{}, t...)
		e := judge(&n)
		if e == nil || errors.Is(e, ErrInconclusive) {
			return false
		}
		if _, p := e.(*sut.Panic); p != wasPanic {
			return false
		}
		best, bestErr = &n, e
		return true
	}
	for size := len(c.Text) / 2; size >= 1; {
		done := true
		for i := 0; i+size <= len(best.Text); {
			t := append(append([]byte{}, best.Text[:i]...), best.Text[i+size:]...)
			if try(t) {
				done = false
			} else {
				i += max(1, size/2)
			}
		}
		if done || size > 4 {
			if size > 4 {
				size /= 2
			} else {
				size--
			}
		}
		if steps > 4000 || time.Now().After(deadline) {
			break
		}
	}
	return best, bestErr
}

// Parallel runs f for every index in [0,n) over all cores. Each index has its
// own generator, derived from the seed, the group name and the index.
func (x *Ctx) Parallel(group string, n int, f func(w *W, i int)) {
	x.parallel(group, n, runtime.GOMAXPROCS(0), f)
}

// Serial runs f for every index on one worker.
func (x *Ctx) Serial(group string, n int, f func(w *W, i int)) { x.parallel(group, n, 1, f) }

func groupSeed(seed int64, group string) int64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(group); i++ {
		h = (h ^ uint64(group[i])) * 1099511628211
	}
	return seed*1000003 ^ int64(h>>1)
}

var only struct {
	group string
	index int
}

func (x *Ctx) parallel(group string, n, procs int, f func(w *W, i int)) {
	if only.group != "" && only.group != group {
		return
	}
	start := time.Now()
	gs := groupSeed(x.Seed, group)
	var next atomic.Int64
	var wg sync.WaitGroup
	var ws []*W
	for p := 0; p < procs; p++ {
		ws = append(ws, &W{X: x, ID: p, counts: map[string]int64{}, group: group})
	}
	x.mu.Lock()
	x.workers = ws
	x.mu.Unlock()
	for _, w := range ws {
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			for !x.stop.Load() {
				i := int(next.Add(1) - 1)
				if i >= n {
					return
				}
				if only.group != "" && i != only.index {
					continue
				}
				for x.pause.Load() {
					time.Sleep(time.Millisecond)
				}
				w.R = gen.NewRng(gs, uint64(i))
				w.index.Store(int64(i) + 1)
				w.busy.Store(true)
				f(w, i)
				w.busy.Store(false)
			}
		}(w)
	}
	wg.Wait()
	x.mu.Lock()
	x.workers = nil
	for _, w := range ws {
		x.evals.Add(w.evals)
		for k, v := range w.counts {
			x.counts[k] += v
		}
	}
	x.mu.Unlock()
	if os.Getenv("MON_TIMES") != "" {
		fmt.Fprintf(os.Stderr, "%s %s: %d cases in %v\n", x.Check.ID, group, n, time.Since(start))
	}
}

// Set records an extra observation for the evidence.
func (x *Ctx) Set(key string, v any) {
	x.mu.Lock()
	x.extra[key] = v
	x.mu.Unlock()
}

// Counted reads back a merged count.
func (x *Ctx) Counted(key string) int64 {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.counts[key]
}

// Exhausted notes that a finite space was enumerated completely.
func (x *Ctx) Exhausted(what string) {
	x.mu.Lock()
	x.exhaustive = append(x.exhaustive, what)
	x.mu.Unlock()
}

// Require fails the run (not the property) when the monitors saw too little.
func (x *Ctx) Require(ok bool, what string) {
	if !ok && !x.Light && !x.stop.Load() {
		x.mu.Lock()
		n := len(x.violations)
		x.mu.Unlock()
		if n == 0 && only.group == "" {
			x.Inconclusive("the workload did not reach: " + what)
		}
	}
}

func cpuSeconds() float64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

const memLimit = 10 << 30

// watchdog turns a case that never finishes into a verdict. It decides on CPU
// time spent by the stuck case alone, after pausing the other workers, and
// only long after any case of the workloads could need (they take
// milliseconds; a case gets minutes).
func (x *Ctx) watchdog() {
	type st struct {
		idx   int64
		w     *W
		ticks int
	}
	state := map[int]*st{}
	var ms runtime.MemStats
	for tick := 0; ; tick++ {
		time.Sleep(time.Second)
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > memLimit {
			x.abort("memory use ran past 10 GiB", x.suspects())
		}
		x.mu.Lock()
		ws := x.workers
		x.mu.Unlock()
		var stuck *W
		for _, w := range ws {
			s := state[w.ID]
			if s == nil || s.w != w || s.idx != w.index.Load() || !w.busy.Load() {
				state[w.ID] = &st{w.index.Load(), w, 0}
				continue
			}
			if s.ticks++; s.ticks >= 60 {
				stuck = w
			}
		}
		if stuck == nil {
			continue
		}
		idx := stuck.index.Load()
		x.pause.Store(true)
		c0, ticks := cpuSeconds(), 0
		for ; ticks < 120; ticks++ {
			time.Sleep(time.Second)
			if stuck.index.Load() != idx || !stuck.busy.Load() {
				break
			}
		}
		if ticks == 120 {
			x.abort(fmt.Sprintf("one execution did not finish: more than %d scheduler seconds on it, %.0f CPU seconds of them after all other workers were paused", 180, cpuSeconds()-c0), []*W{stuck})
		}
		x.pause.Store(false)
		state = map[int]*st{}
	}
}

func (x *Ctx) suspects() []*W {
	x.mu.Lock()
	defer x.mu.Unlock()
	var out []*W
	for _, w := range x.workers {
		if w.busy.Load() {
			out = append(out, w)
		}
	}
	return out
}

// abort ends the run with a verdict about cases that cannot be stopped.
func (x *Ctx) abort(msg string, ws []*W) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	if !libFrame(string(buf)) {
		fmt.Fprintf(os.Stderr, "inconclusive: %s, but nothing of the library was on a stack\n%s\n", msg, trimStack(string(buf)))
		os.Exit(3)
	}
	x.mu.Lock()
	for _, w := range ws {
		c := w.note.Load()
		if c == nil {
			c = &Case{Oracle: "group", Strs: []string{w.group}, Args: []int64{w.index.Load() - 1}}
		}
		x.violations = append(x.violations, violation{Sig: "hang", Msg: msg + "\n" + trimStack(string(buf)), Case: c})
		break
	}
	x.mu.Unlock()
	x.evals.Add(1)
	os.Exit(x.finish(time.Now()))
}

var frame = regexp.MustCompile(`github\.com/clipperhouse/uax29/v2/(graphemes|words|sentences|phrases|internal)[/.]`)

func libFrame(s string) bool { return frame.MatchString(s) }

type replayFile struct {
	Property string `json:"property"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Message  string `json:"message"`
	TextGo   string `json:"text_go,omitempty"`
	Case     *Case  `json:"case,omitempty"`
}

// KnownFindings reads the committed list.
func KnownFindings(dir, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		rest, ok := strings.CutPrefix(line, "finding: property="+id+" ")
		if !ok {
			continue
		}
		sig, text, _ := strings.Cut(rest, " ")
		if s, ok := strings.CutPrefix(sig, "sig="); ok {
			out[s] = text
		}
	}
	return out
}

func (x *Ctx) tier() string {
	if x.Thorough {
		return "thorough"
	}
	return "quick"
}

func (x *Ctx) finish(start time.Time) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	id := x.Check.ID
	var vs []map[string]any
	for i := range x.violations {
		v := &x.violations[i]
		dir := filepath.Join(x.Dir, "out", "replay")
		os.MkdirAll(dir, 0o777)
		v.Replay = filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", id, x.tier(), x.Seed, i))
		rf := replayFile{Property: id, Seed: x.Seed, Tier: x.tier(), Message: v.Msg, Case: v.Case}
		if v.Case != nil && len(v.Case.Text) < 4096 {
			rf.TextGo = strconv.QuoteToASCII(string(v.Case.Text))
		}
		b, _ := json.MarshalIndent(rf, "", "  ")
		if err := os.WriteFile(v.Replay, b, 0o666); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		short := firstLine(v.Msg)
		if len(short) > 2000 {
			short = short[:1500] + " … " + short[len(short)-400:]
		}
		fmt.Printf("violation: %s [%s, %s] %s\n", id, v.Case.Oracle, v.Case.Kind, short)
		if rf.TextGo != "" && len(rf.TextGo) < 600 {
			fmt.Printf("  input: %s args=%v strs=%q\n", rf.TextGo, v.Case.Args, v.Case.Strs)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, v.Replay)
		vs = append(vs, map[string]any{"message": short, "replay": v.Replay})
	}
	sigs := make([]string, 0, len(x.known))
	for s := range x.known {
		sigs = append(sigs, s)
	}
	sort.Strings(sigs)
	for _, s := range sigs {
		if x.knownHit[s] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, x.known[s])
		}
	}
	distinct := x.distinctN.Load()
	capped := false
	for i := range x.shards {
		distinct += int64(len(x.shards[i].m))
		capped = capped || len(x.shards[i].m) >= maxDistinctPerShard
	}
	level := x.Check.Level
	if level == "" {
		level = "exploration"
	}
	keys := make([]string, 0, len(x.counts))
	for k := range x.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	obs := map[string]int64{}
	for i, k := range keys {
		if i >= 400 {
			obs["further kinds of observation"] = int64(len(keys) - i)
			break
		}
		obs[k] = x.counts[k]
	}
	cov := map[string]any{
		"evaluations":         x.evals.Load(),
		"distinct_nontrivial": distinct,
		"rule":                x.Check.Rule,
		"samples":             x.samples,
		"observed":            obs,
		"exhaustive":          false,
	}
	if capped {
		cov["distinct_is_lower_bound"] = true
	}
	if len(x.exhaustive) > 0 {
		cov["enumerated_completely"] = x.exhaustive
	}
	if len(x.inconcl) > 0 {
		cov["inconclusive"] = x.inconcl
	}
	for k, v := range x.extra {
		cov[k] = v
	}
	if len(vs) > 0 {
		cov["violations_found"] = vs
	}
	ev := map[string]any{
		"property": id, "tier": x.tier(), "seed": x.Seed, "level": level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(x.violations),
		"assumptions": append([]string{"held on the executions observed in this run, nothing more"}, x.Check.Assumptions...),
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.MkdirAll(filepath.Join(x.Dir, "evidence"), 0o777)
	if err := os.WriteFile(filepath.Join(x.Dir, "evidence", id+".json"), append(b, '\n'), 0o666); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	if len(x.violations) > 0 {
		return 1
	}
	if len(x.inconcl) > 0 {
		fmt.Fprintf(os.Stderr, "inconclusive: %s\n", strings.Join(x.inconcl, "; "))
		return 3
	}
	fmt.Printf("held: %s (%s, seed %d): %d executions, %d distinct non-trivial, %.1fs\n", id, x.tier(), x.Seed, x.evals.Load(), distinct, time.Since(start).Seconds())
	return 0
}

func newCtx(c *Check, dir string) *Ctx {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	x := &Ctx{Check: c, Seed: seed, Thorough: os.Getenv("VERIF_TIER") == "thorough", Light: os.Getenv("VERIF_TIER") == "light", Dir: dir,
		counts: map[string]int64{}, knownHit: map[string]bool{}, extra: map[string]any{}}
	x.known = KnownFindings(dir, c.ID)
	return x
}

// Main is the whole command line: "ID", or "replay FILE".
func Main(special map[string]func(args []string) int) {
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mon ID | mon replay FILE")
		os.Exit(2)
	}
	if f := special[os.Args[1]]; f != nil {
		os.Exit(f(os.Args[2:]))
	}
	if os.Args[1] == "replay" {
		os.Exit(replay(dir, os.Args[2]))
	}
	c := checks[os.Args[1]]
	if c == nil {
		fmt.Fprintln(os.Stderr, "no such check here:", os.Args[1])
		os.Exit(2)
	}
	if os.Getenv("MON_CHILD") == "" {
		os.Exit(parent(c, dir))
	}
	debug.SetGCPercent(400)
	debug.SetTraceback("all")
	start := time.Now()
	x := newCtx(c, dir)
	if !c.External {
		go x.watchdog()
	}
	c.Run(x)
	x.stop.Store(true)
	os.Exit(x.finish(start))
}

// parent re-runs the program as a child, so that a crash of the whole process
// (a fatal error, a fault, a detected race) inside the library is a verdict.
func parent(c *Check, dir string) int {
	start := time.Now()
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "MON_CHILD=1", "GORACE=halt_on_error=0 exitcode=66 history_size=5 atexit_sleep_ms=0")
	var stderr tail
	cmd.Stdout = os.Stdout
	cmd.Stderr = &stderr
	err := cmd.Run()
	code := 0
	if err != nil {
		code = -1
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			code = ee.ExitCode()
		}
	}
	out := stderr.String()
	race := strings.Contains(out, "WARNING: DATA RACE")
	if (code == 0 || code == 1) && !race {
		os.Stderr.WriteString(out)
		return code
	}
	if code == 3 && !race {
		os.Stderr.WriteString(out)
		return 3
	}
	if race && libFrame(out) || code != 1 && libFrame(crashPart(out)) {
		x := newCtx(c, dir)
		what := "the process died inside the library"
		if race {
			what = "data race inside the library"
		}
		x.violations = []violation{{Sig: "crash", Msg: what + fmt.Sprintf(" (exit %d)\n", code) + trimTo(crashPart(out), 20000), Case: &Case{Oracle: "crash"}}}
		x.evals.Store(1)
		rc := x.finish(start)
		fmt.Fprintln(os.Stderr, trimTo(out, 4000))
		return rc
	}
	os.Stderr.WriteString(trimTo(out, 20000))
	fmt.Fprintf(os.Stderr, "the check itself failed: exit %d, %v\n", code, err)
	return 3
}

func trimTo(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// crashPart is the first goroutine of a Go crash, or the race report.
func crashPart(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		return s[i:]
	}
	for _, p := range []string{"fatal error:", "panic:", "SIG", "runtime: "} {
		if i := strings.Index(s, p); i >= 0 {
			t := s[i:]
			// Only the goroutine that died.
			if j := strings.Index(t, "\n\ngoroutine "); j >= 0 {
				if k := strings.Index(t[j+2:], "\n\n"); k >= 0 {
					return t[:j+2+k]
				}
			}
			return t
		}
	}
	return ""
}

type tail struct{ bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if t.Len() > 8<<20 {
		return len(p), nil
	}
	return t.Buffer.Write(p)
}

func replay(dir, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if rf.Case == nil || rf.Case.Oracle == "crash" || rf.Case.Oracle == "group" {
		os.Setenv("VERIF_SEED", fmt.Sprint(rf.Seed))
		os.Setenv("VERIF_TIER", rf.Tier)
		c := checks[rf.Property]
		if c == nil {
			return 2
		}
		if rf.Case != nil && rf.Case.Oracle == "group" {
			only.group, only.index = rf.Case.Strs[0], int(rf.Case.Args[0])
		}
		x := newCtx(c, dir)
		c.Run(x)
		return x.finish(time.Now())
	}
	if err := judge(rf.Case); err != nil {
		fmt.Printf("still fails: %v\n", err)
		if p, ok := err.(*sut.Panic); ok {
			fmt.Println(p.Stack)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
		return 1
	}
	fmt.Println("the property holds on this case")
	return 0
}

// Violations lists what was found so far.
func (x *Ctx) Violations() []string {
	x.mu.Lock()
	defer x.mu.Unlock()
	var out []string
	for _, v := range x.violations {
		out = append(out, v.Msg)
	}
	return out
}
