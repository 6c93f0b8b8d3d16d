package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	. "github.com/clipperhouse/uax29/v2/verifmon/harness"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/sut"
	"github.com/clipperhouse/uax29/v2/words"
)

// A task is one goroutine's work: some entry point over shared data. It returns
// a digest of everything it observed.
type task struct {
	name string
	run  func(step func()) uint64
}

// extraTasks are those for internal packages (internals.go).
var extraTasks []func(s string, b []byte) task

func digestIter[T ~string | ~[]byte](it sut.Iter[T], step func()) uint64 {
	h := fnv.New64a()
	n := 0
	for it.Next() {
		h.Write([]byte(fmt.Sprint(it.Start(), it.End(), string(it.Value()), ";")))
		if n%7 == 3 {
			h.Write([]byte(string(it.First())))
		}
		if n++; n > 1<<20 {
			break
		}
		step()
	}
	return h.Sum64()
}

// longTexts is work on texts in which tokens, escape sequences and what is
// looked ahead across are long.
func longTexts(r *gen.Rng, js *words.Joiners[string], jb *words.Joiners[[]byte]) func(step func()) uint64 {
	size := func() int {
		if r.Intn(20) == 0 {
			return 66_000
		}
		return 50 << r.Intn(8)
	}
	var texts [4][]string
	for k := range texts {
		for i := 0; i < 2; i++ {
			m := gen.Motif(r, ref.Kind(k))
			if s, ok := gen.Gapped(ref.Kind(k), m, r.Intn(len([]rune(m))+1), r.Intn(gen.Gaps(ref.Kind(k))), size()); ok {
				texts[k] = append(texts[k], s)
			}
		}
		texts[k] = append(texts[k], string(gen.OneToken(r, ref.Kind(k), size()))+gen.Motif(r, ref.Kind(k)))
	}
	runs := []string{"1", "\u30ab", "\u4e00", "1,", "1_", "1\u0301", "\u30ab_", "\u3042\u0301", "a", "!", "\xff", "\u0301"}
	var runsOf []string
	for i := 0; i < 4; i++ {
		u := runs[r.Intn(len(runs))]
		runsOf = append(runsOf, strings.Repeat(u, 1+size()/len(u))+"1"[:r.Intn(2)])
	}
	var ansi [][]byte
	for i := 0; i < 3; i++ {
		ansi = append(ansi, longControl(r, openings7[r.Intn(len(openings7))], size(), false), longControl(r, openings8[r.Intn(len(openings8))], size(), true))
	}
	seed := int64(r.Uint64() >> 1)
	return func(step func()) uint64 {
		h := uint64(seed)
		mix := func(n int) { h = (h ^ uint64(n)) * 1099511628211 }
		for k := range texts {
			for _, s := range texts[k] {
				it := sut.String(ref.Kind(k), s)
				mix(len(it.First()))
				for n := 0; it.Next(); n++ {
					mix(it.End())
					if n%64 == 0 {
						step()
					}
				}
				b := []byte(s)
				bt := sut.Bytes(ref.Kind(k), b)
				for bt.Next() {
					mix(bt.End())
				}
				adv, _, _ := sut.SplitFunc(ref.Kind(k))(b, false)
				mix(adv)
				for i, at := range []int{-1, len(s) / 2} {
					f := faults[(len(s)+k+i)%len(faults)]
					sc := sut.Reader(ref.Kind(k), &chunkReader{text: b, mode: rdRandom, size: 200 + len(b)/4, failAt: at, rng: gen.NewRng(seed, 2), fault: f})
					if i == 1 {
						sc.Buffer(nil, 1000)
					} else {
						sc.Buffer(nil, 200_000)
					}
					for sc.Scan() {
						mix(len(sc.Bytes()))
					}
					for _, c := range fmt.Sprint(sc.Err()) {
						mix(int(c))
					}
				}
				step()
			}
		}
		for _, s := range append(runsOf, texts[ref.Words]...) {
			it := words.FromString(s)
			it.Joiners(js)
			for it.Next() {
				mix(it.End())
			}
			sc := words.FromReader(strings.NewReader(s))
			sc.Buffer(nil, 200_000)
			sc.Joiners(jb)
			for sc.Scan() {
				mix(len(sc.Bytes()))
			}
			bt := words.FromBytes([]byte(s))
			bt.Split(words.SplitFunc)
			for bt.Next() {
				mix(bt.End())
				if words.BleveNumeric(bt.Value()) {
					mix(1)
				}
				if words.BleveIdeographic(bt.Value()) {
					mix(2)
				}
			}
			words.BleveNumeric([]byte(s))
			words.BleveIdeographic([]byte(s))
			for _, f := range extraTasks {
				if len(s) < 1000 {
					mix(int(f(s, []byte(s)).run(func() {})))
				}
			}
			step()
		}
		for i, b := range ansi {
			g := graphemes.FromBytes(b)
			g.AnsiEscapeSequences, g.AnsiEscapeSequences8Bit = i%2 == 0, i%2 == 1 || i == 4
			for g.Next() {
				mix(g.End())
			}
			step()
		}
		return h
	}
}

// failing has uses of iterators whose split functions fail in the ways of how
// (0 to 3) at their second call; those for internal packages are in
// internals.go.
var failing = []func(how int, first bool){
	func(how int, first bool) {
		it := words.FromString("ab cd")
		it.Split(failingSplit[string](how))
		it.Next()
		failNow[string](it, first)
	},
	func(how int, first bool) {
		it := words.FromBytes([]byte("ab cd"))
		it.Split(failingSplit[[]byte](how))
		it.Next()
		failNow[[]byte](it, first)
	},
}

func failNow[T ~string | ~[]byte](it sut.Iter[T], first bool) {
	if first {
		it.First()
	} else {
		it.Next()
	}
}

func failingSplit[T ~string | ~[]byte](how int) func(T, bool) (int, T, error) {
	calls := 0
	return func(d T, eof bool) (int, T, error) {
		if calls++; calls == 1 {
			return 1, d[:1], nil
		}
		switch how {
		case 0:
			return 1, d[:1], errFault
		case 1:
			return 0, d[:0], nil
		case 2:
			return -1, d[:0], nil
		}
		return len(d) + 1, d, nil
	}
}

// failTask makes split functions fail, and counts how often that came through.
func failTask(step func()) uint64 {
	n := uint64(0)
	for _, f := range failing {
		for how := 0; how < 8; how++ {
			func() {
				defer func() {
					if recover() != nil {
						n++
					}
				}()
				f(how%4, how >= 4)
			}()
			step()
		}
	}
	return n
}

// concurrentRound builds shared inputs and options, runs all tasks alone to
// learn the expected digests, then all at once, unsynchronised.
//
// Args: seed.
func concurrentRound(c *Case) error { _, err := concurrentObserve(c); return err }

type observed struct {
	events, switches int
	signature        uint64
	tasks            map[string]int
}

func concurrentObserve(c *Case) (observed, error) {
	r := gen.NewRng(c.Args[0], 3)
	var texts []string
	var datas [][]byte
	for i := 0; i < 3; i++ {
		var s string
		if r.Intn(3) == 0 {
			b, _ := gen.Bytes(r, ref.Kind(r.Intn(4)), gen.Small)
			s = string(b)
		} else {
			s, _ = gen.Text(r, ref.Kind(r.Intn(4)), gen.Medium)
		}
		s += gen.Chunk(r, 400)
		if r.Intn(2) == 0 {
			s += string(ansiText(r))
		}
		texts = append(texts, s)
		datas = append(datas, []byte(s))
	}
	// Short texts, in which looking ahead comes to the end of the data.
	var shorts [4][]string
	for k := range shorts {
		for i := 0; i < 12; i++ {
			s := gen.Motif(r, ref.Kind(k))
			if r.Intn(2) == 0 {
				s = "aA1\u05d0\u4e00"[:1+r.Intn(3)] + s
			}
			if r.Intn(2) == 0 {
				s += []string{"\u0301", ".", ",", "'", "\"", " ", "\u0301\u0301", "\u200d", ")", "\u00ad", "\U0001F1FA", "\u094d"}[r.Intn(12)]
			}
			if r.Intn(6) == 0 {
				s += gen.Malformed(r)
			}
			if r.Intn(6) == 0 {
				s += strings.Repeat([]string{"\u0301", "\u00ad", " ", "\u200d"}[r.Intn(4)], r.Intn(60))
			}
			shorts[k] = append(shorts[k], s)
		}
	}
	js := &words.Joiners[string]{Middle: append(randRunes(r), '-', '@'), Leading: append(randRunes(r), '#')}
	jb := &words.Joiners[[]byte]{Middle: js.Middle, Leading: js.Leading}
	jn := &words.Joiners[namedString]{Middle: js.Middle, Leading: js.Leading}
	jnb := &words.Joiners[namedBytes]{Middle: js.Middle, Leading: js.Leading}
	var tasks []task
	n := 12 + r.Intn(12)
	for i := 0; i < n; i++ {
		k := ref.Kind(r.Intn(4))
		s, b := texts[r.Intn(3)], datas[r.Intn(3)]
		a7, a8 := r.Intn(2) == 0, r.Intn(2) == 0
		chunk := 1 + r.Intn(40)
		seed := int64(r.Uint64() >> 1)
		scanIt := func(sc sut.Scanner, step func()) uint64 {
			h := fnv.New64a()
			for sc.Scan() {
				h.Write(sc.Bytes())
				h.Write([]byte{0xff, 0})
				step()
			}
			h.Write([]byte(fmt.Sprint(sc.Err())))
			return h.Sum64()
		}
		switch pick := r.Intn(11 + len(extraTasks)); pick {
		default:
			tasks = append(tasks, extraTasks[pick-11](s, b))
		case 10:
			tasks = append(tasks, task{"words joiners named types", func(step func()) uint64 {
				var w words.Iterator[namedString]
				w.Joiners(jn)
				w.SetText(namedString(s))
				h := digestIter[namedString](&w, step)
				var wb words.Iterator[namedBytes]
				wb.Joiners(jnb)
				wb.SetText(namedBytes(b))
				return h ^ digestIter[namedBytes](&wb, step)
			}})
		case 9:
			tasks = append(tasks, task{k.String() + " short texts", func(step func()) uint64 {
				h := fnv.New64a()
				f := sut.SplitFunc(k)
				it := sut.String(k, "")
				for _, s := range shorts[k] {
					it.SetText(s)
					for it.Next() {
						fmt.Fprint(h, it.End(), ";")
					}
					fmt.Fprint(h, it.First())
					for e := 0; e <= len(s); e++ {
						adv, _, err := f([]byte(s)[:e], e%2 == 0)
						fmt.Fprint(h, adv, err)
					}
					step()
				}
				return h.Sum64()
			}})
		case 0:
			tasks = append(tasks, task{k.String() + " string", func(step func()) uint64 { return digestIter(sut.String(k, s), step) }})
		case 1:
			tasks = append(tasks, task{k.String() + " bytes", func(step func()) uint64 { return digestIter(sut.Bytes(k, b), step) }})
		case 2:
			tasks = append(tasks, task{k.String() + " reader", func(step func()) uint64 {
				return scanIt(sut.Reader(k, &chunkReader{text: b, mode: rdRandom, size: chunk, failAt: -1, rng: gen.NewRng(seed, 1)}), step)
			}})
		case 3:
			tasks = append(tasks, task{k.String() + " SplitFunc", func(step func()) uint64 {
				h := fnv.New64a()
				f := sut.SplitFunc(k)
				for p := 0; p < len(b); {
					adv, tok, err := f(b[p:], true)
					h.Write([]byte(fmt.Sprint(adv, string(tok), err)))
					if adv <= 0 {
						break
					}
					p += adv
					step()
				}
				return h.Sum64()
			}})
		case 4:
			tasks = append(tasks, task{"graphemes ansi", func(step func()) uint64 {
				g := graphemes.FromBytes(b)
				g.AnsiEscapeSequences, g.AnsiEscapeSequences8Bit = a7, a8
				return digestIter[[]byte](g, step)
			}})
		case 5:
			tasks = append(tasks, task{"words joiners string", func(step func()) uint64 {
				w := words.FromString(s)
				w.Joiners(js)
				return digestIter[string](w, step)
			}})
		case 6:
			tasks = append(tasks, task{"words joiners reader", func(step func()) uint64 {
				w := words.FromReader(bytes.NewReader(b))
				w.Joiners(jb)
				return scanIt(w, step)
			}})
		case 7:
			tasks = append(tasks, task{"bleve", func(step func()) uint64 {
				h := fnv.New64a()
				w := words.FromBytes(b)
				for w.Next() {
					fmt.Fprint(h, words.BleveNumeric(w.Value()), words.BleveIdeographic(w.Value()))
					step()
				}
				return h.Sum64()
			}})
		case 8:
			// One iterator handed from goroutine to goroutine, properly.
			tasks = append(tasks, task{"handoff", func(step func()) uint64 {
				it := sut.String(k, s)
				h := fnv.New64a()
				for more := true; more; {
					ch := make(chan bool)
					go func() { ch <- it.Next() }()
					if more = <-ch; more {
						h.Write([]byte(it.Value()))
						h.Write([]byte{0xff, 1})
						step()
					}
				}
				return h.Sum64()
			}})
		}
	}
	// Two that meet the same long tokens and look-aheads, and readers that fail.
	if r.Intn(5) == 0 {
		run := longTexts(r, js, jb)
		tasks = append(tasks, task{"long texts", run}, task{"long texts", run})
	}
	if r.Intn(4) == 0 {
		tasks = append(tasks, task{"split functions that fail", failTask}, task{"split functions that fail", failTask})
	}
	// Concurrent run first, so that nothing is warmed up by a sequential one.
	type log []int64
	logs := make([]log, len(tasks))
	got := make([]uint64, len(tasks))
	panics := make([]error, len(tasks))
	base := time.Now()
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range tasks {
		i := i
		jitter := gen.NewRng(c.Args[0], uint64(100+i))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			panics[i] = sut.Protect(func() error {
				got[i] = tasks[i].run(func() {
					logs[i] = append(logs[i], int64(time.Since(base)))
					if jitter.Intn(16) == 0 {
						runtime.Gosched()
					}
				})
				return nil
			})
		}()
	}
	close(start)
	wg.Wait()
	obs := observed{tasks: map[string]int{}}
	type ev struct {
		t int64
		g int
	}
	var evs []ev
	for g, l := range logs {
		obs.tasks[tasks[g].name]++
		for _, t := range l {
			evs = append(evs, ev{t, g})
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
	h := fnv.New64a()
	for i, e := range evs {
		h.Write([]byte{byte(e.g)})
		if i > 0 && evs[i-1].g != e.g {
			obs.switches++
		}
	}
	obs.events, obs.signature = len(evs), h.Sum64()
	for i, t := range tasks {
		if panics[i] != nil {
			return obs, fmt.Errorf("%s, run concurrently: %w", t.name, panics[i])
		}
		if want := t.run(func() {}); want != got[i] {
			return obs, fmt.Errorf("%s: the concurrent run of task %d saw other tokens than a run alone", t.name, i)
		}
	}
	for i, s := range texts {
		if s != string(datas[i]) {
			return obs, fmt.Errorf("shared input %d was modified", i)
		}
	}
	return obs, nil
}

// freshRound is one round in a process of its own, in which everything that the
// library keeps between calls is as at first: rounds that follow others would
// not see what is written once only, or ever more rarely.
func freshRound(args []string) int {
	seed, err := strconv.ParseInt(args[0], 10, 64)
	if err != nil {
		return 2
	}
	obs, err := concurrentObserve(&Case{Args: []int64{seed}})
	if err != nil {
		fmt.Println("FAILED:", err)
		return 1
	}
	fmt.Println("HELD:", obs.events, obs.switches, obs.signature)
	return 0
}

func freshOracle(c *Case) error { _, err := freshObserve(c); return err }

func freshObserve(c *Case) (obs observed, _ error) {
	cmd := exec.Command(os.Args[0], "round", fmt.Sprint(c.Args[0]))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66 history_size=5 atexit_sleep_ms=0")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if strings.Contains(stderr.String(), "WARNING: DATA RACE") {
		return obs, fmt.Errorf("data race in a new process:\n%s", stderr.String())
	}
	if msg, ok := strings.CutPrefix(string(out), "FAILED: "); ok {
		return obs, fmt.Errorf("in a new process: %s", msg)
	}
	if err != nil {
		return obs, fmt.Errorf("in a new process: %v: %s\n%s", err, out, stderr.String())
	}
	if _, err := fmt.Sscan(strings.TrimPrefix(string(out), "HELD: "), &obs.events, &obs.switches, &obs.signature); err != nil {
		return obs, fmt.Errorf("%w: the output of a round is %q", ErrInconclusive, out)
	}
	return obs, nil
}

func init() {
	RegisterOracle("fresh", freshOracle)
	_ = phrases.SplitFunc
	_ = sentences.SplitFunc
	RegisterOracle("concurrent", concurrentRound)
	RegisterOracle("cold", func(c *Case) error {
		cmd := exec.Command(os.Getenv("VERIF_COLD"), fmt.Sprint(c.Args[0]))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66 atexit_sleep_ms=0")
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		out, err := cmd.Output()
		if strings.Contains(stderr.String(), "WARNING: DATA RACE") {
			return fmt.Errorf("data race at concurrent first use:\n%s", stderr.String())
		}
		if err != nil {
			return fmt.Errorf("concurrent first use: %v: %s\n%s", err, out, stderr.String())
		}
		if c.Strs != nil && c.Strs[0] != string(out) {
			return fmt.Errorf("concurrent first use gave other results than the process before it")
		}
		c.Strs = []string{string(out)}
		return nil
	})
	Register(&Check{
		ID:    "C10",
		Title: "independent use from many goroutines is race-free and deterministic",
		Rule: "Race-detector build. Rounds of 12-23 goroutines over shared inputs, shared Joiners and the shared package-level SplitFuncs (iterators, readers, SplitFunc, ANSI, joiners, Bleve predicates, the alphanumeric filter, generic iterators, iterators handed between goroutines; every fifth round two goroutines over the same texts with long tokens, look-aheads and control strings, readers that fail, and split functions that fail), released together, with seeded yields; each digest is compared with a run alone, inputs are compared afterwards. " +
			"Rounds in processes of their own, and fresh processes whose very first uses of the API are concurrent. No synchronisation inside the recorded section: events carry local timestamps. Non-trivial: a round with at least 50 goroutine switches; distinct by interleaving signature.",
		Run: func(x *Ctx) {
			if !raceEnabled {
				x.Inconclusive("not a race-detector build")
				return
			}
			x.Serial("rounds", x.Q(1200, 30000), func(w *W, idx int) {
				c := &Case{Oracle: "concurrent", Args: []int64{int64(w.R.Uint64() >> 1)}}
				var obs observed
				w.Guard(c, func() error {
					var err error
					obs, err = concurrentObserve(c)
					return err
				})
				w.Eval(1)
				w.Count("token events", int64(obs.events))
				w.Count("goroutine switches observed", int64(obs.switches))
				for t, n := range obs.tasks {
					w.Count("task "+t, int64(n))
				}
				if obs.switches >= 50 {
					w.Distinct('i', []byte(fmt.Sprint(obs.signature)))
				}
				if idx < 6 {
					w.Sample("round seed %d: %d events, %d switches, signature %x", c.Args[0], obs.events, obs.switches, obs.signature)
				}
			})
			var prev []string
			x.Serial("cold-start", x.Q(40, 600), func(w *W, idx int) {
				c := &Case{Oracle: "cold", Args: []int64{int64(idx)}, Strs: prev}
				if w.Judge(c) {
					prev = c.Strs
				}
				w.Count("cold-start processes", 1)
			})
			x.Parallel("rounds-in-new-processes", x.Q(160, 5000), func(w *W, idx int) {
				c := &Case{Oracle: "fresh", Args: []int64{int64(w.R.Uint64() >> 1)}}
				w.Eval(1)
				w.Guard(c, func() error {
					obs, err := freshObserve(c)
					w.Count("token events", int64(obs.events))
					w.Count("goroutine switches observed", int64(obs.switches))
					if obs.switches >= 50 {
						w.Distinct('i', []byte(fmt.Sprint(obs.signature)))
					}
					return err
				})
				w.Count("rounds in a process of their own", 1)
			})
			x.Require(x.Counted("goroutine switches observed") > 10000, "interleavings")
		},
	})
}
