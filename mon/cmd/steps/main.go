// steps decides C19: it is built with the library's step counter in place.
package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"

	"github.com/clipperhouse/uax29/v2/internal/verifsteps"
	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	. "github.com/clipperhouse/uax29/v2/verifmon/harness"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/sut"
	"github.com/clipperhouse/uax29/v2/words"
)

var modes = []string{"FromString", "FromBytes", "SplitFunc", "FromReader", "Iterator[named bytes]", "Iterator[named string]", "First"}

type namedBytes []byte
type namedString string

func variantOf(c *Case) sut.Variant {
	f := c.Args[0]
	return sut.Variant{Kind: c.Kind, Ansi7: f&1 != 0, Ansi8: f&2 != 0, Joined: f&4 != 0, Middle: []rune(c.Strs[3]), Leading: []rune(c.Strs[4])}
}

// drive iterates over text in a mode and returns the number of tokens.
func drive(v sut.Variant, mode int, s string, b []byte) int {
	n := 0
	switch mode {
	case 0:
		for it := v.String_(s); it.Next(); n++ {
			it.Value()
		}
	case 1:
		for it := v.Bytes_(b); it.Next(); n++ {
			it.Value()
		}
	case 2:
		split := sut.SplitFunc(v.Kind)
		for len(b) > 0 {
			adv, _, err := split(b, true)
			if adv <= 0 || err != nil {
				break
			}
			b = b[adv:]
			n++
		}
	case 4:
		var it words.Iterator[namedBytes]
		it.Joiners(&words.Joiners[namedBytes]{Middle: v.Middle, Leading: v.Leading})
		for it.SetText(b); it.Next(); n++ {
			it.Value()
		}
	case 5:
		var it words.Iterator[namedString]
		it.Joiners(&words.Joiners[namedString]{Middle: v.Middle, Leading: v.Leading})
		for it.SetText(namedString(s)); it.Next(); n++ {
			it.Value()
		}
	case 6:
		for len(b) > 0 {
			var f int
			if n&1 == 0 {
				f = len(v.Bytes_(b).First())
			} else {
				f = len(v.String_(s).First())
			}
			if f == 0 {
				break
			}
			b, s = b[f:], s[f:]
			n++
		}
	case 3:
		sc := v.Reader(bytes.NewReader(b))
		sc.Buffer(make([]byte, 0, 4096), len(b)+4096)
		for sc.Scan() {
			n++
		}
	}
	return n
}

func build(c *Case, n int) string {
	s := c.Strs[0] + strings.Repeat(c.Strs[1], n) + c.Strs[2]
	if len(c.Strs) > 5 {
		// A second run, and what ends it.
		s += strings.Repeat(c.Strs[5], n) + c.Strs[6]
	}
	return s
}

// linear: eight times the repetitions take about eight times the steps. A
// ratio above 12 at one scale is taken as a verdict only if it shows again at
// the next two scales, so that a bounded amount of looking ahead passes.
//
// Strs: prefix, unit, suffix, middle, leading, and perhaps another unit and
// suffix. Args: flags, mode, base count.
func linear(c *Case) error { _, err := linearObserve(c); return err }

func linearObserve(c *Case) (uint64, error) {
	v := variantOf(c)
	mode := int(c.Args[1])
	n := int(c.Args[2])
	count := func(n int) (uint64, int, int) {
		s := build(c, n)
		b := []byte(s)
		verifsteps.N = 0
		t := drive(v, mode, s, b)
		return verifsteps.N + uint64(t), t, len(s)
	}
	prev, t0, l0 := count(n)
	log := fmt.Sprintf("%d bytes, %d tokens: %d steps", l0, t0, prev)
	if prev == 0 {
		return 0, fmt.Errorf("%w: no step was counted", ErrInconclusive)
	}
	total := prev
	for scale := 0; scale < 3; scale++ {
		n *= 8
		cur, t, l := count(n)
		total += cur
		log += fmt.Sprintf("; %d bytes, %d tokens: %d steps", l, t, cur)
		if cur <= 12*prev+1000 {
			return total, nil
		}
		if cur > 1<<24 {
			break
		}
		prev = cur
	}
	return total, fmt.Errorf("%v.%s takes more than linear work on %+q, then %+q repeated, then %+q%s: %s", v, modes[mode], c.Strs[0], c.Strs[1], c.Strs[2], second(c), log)
}

func second(c *Case) string {
	if len(c.Strs) <= 5 {
		return ""
	}
	return fmt.Sprintf(", then %+q repeated, then %+q", c.Strs[5], c.Strs[6])
}

// cpu: the same, on the CPU time of this thread, for what happens outside the
// counted code. Four times the text taking more than ten times as long, in the
// best of three runs, at two sizes in a row or for more than three seconds, is
// not linear.
func cpu(c *Case) error {
	v := variantOf(c)
	mode := int(c.Args[1])
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	measure := func(n int) float64 {
		s := build(c, n)
		b := []byte(s)
		a := threadCPU()
		drive(v, mode, s, b)
		return threadCPU() - a
	}
	unit := max(1, len(c.Strs[1]))
	// In steps of four, so that a text that takes hours is never tried: each
	// size is measured only if the one before did not already show it.
	var log string
	prev := 0.0
	strikes := 0
	for size := 1 << 14; size <= 1<<20; size *= 4 {
		cur := measure(size / unit)
		for again := 0; again < 2 && cur > 0.1 && cur < 4 && cur > 10*prev; again++ {
			cur = min(cur, measure(size/unit))
		}
		log += fmt.Sprintf("; %d KiB %.4f s", size>>10, cur)
		if size > 1<<14 && cur > 0.15 && cur > 10*prev {
			// Sixteenfold is what quadratic work takes.
			if strikes++; strikes >= 2 || cur > 3 {
				return fmt.Errorf("%v.%s takes more than linear CPU time on %+q repeated%s", v, modes[mode], c.Strs[1], log)
			}
		}
		prev = max(cur, 0.0005)
	}
	return nil
}

func threadCPU() float64 {
	var u syscall.Rusage
	syscall.Getrusage(1, &u) // RUSAGE_THREAD
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

var ansiUnits = []string{"\x1b", "\x1b[", "\x1b]", "\x1bP", "\x1b_", "\x1b(", "\x1b ", "\x9b", "\x9d", "\x90", "\x9c", "\x84", "\x07", "0", ";", " ", "m", "a", "\x1b[31m", "\x1b]0;t\x07", "\x1bPq\x1b\\", "\x1b]x\x18", "\x9b1m", "\x9dx\x9c"}

func init() {
	RegisterOracle("linear", linear)
	RegisterOracle("cpu", cpu)
	Register(&Check{
		ID:    "C19",
		Title: "work is linear in the input",
		Rule: "The library is built with a counter of function calls and loop iterations (source rewritten in an overlay), and driven over prefix + unit repeated n times + suffix, for n and 8n (or two such runs in a row), by iterators, split functions, scanners, and First on what is left each time, under every option; more than 12 times the steps at successive scales (three, or until 16 million steps) is a violation. Units: all sequences of one and two class representatives, seeded sequences of up to five, motifs, malformed bytes, every single byte, and escape-sequence pieces. " +
			"A smaller set of units is timed on thread CPU time at 64 KiB and 1 MiB, for work outside the counted code. Non-trivial: a case of at least 256 repetitions; distinct by text recipe, option and entry point.",
		Assumptions: []string{"steps are counted in functions and loops of the library, not inside the standard library; there, thread CPU time is measured instead, at ratios no scheduling noise reaches"},
		Run: func(x *Ctx) {
			sites, _ := strconv.Atoi(os.Getenv("VERIF_SITES"))
			x.Require(sites > 40, "instrumented functions and loops")
			x.Set("instrumented_functions_and_loops", sites)
			var vs []sut.Variant
			for k := ref.Kind(0); k < 4; k++ {
				vs = append(vs, sut.Variants(k)...)
			}
			mk := func(r *gen.Rng, oracle string, v sut.Variant, mode, base int, pre, unit, suf string) *Case {
				var f int64
				if v.Ansi7 {
					f |= 1
				}
				if v.Ansi8 {
					f |= 2
				}
				if v.Joined {
					f |= 4
				}
				if (v.Ansi7 || v.Ansi8) && mode >= 2 || v.Joined && mode == 2 {
					mode %= 2
				}
				if v.Joined && r != nil {
					mode = []int{0, 1, 3, 4, 5, 6}[r.Intn(6)]
				} else if r != nil && !v.Ansi7 && !v.Ansi8 && r.Intn(5) == 0 {
					// With ANSI options, to tell whether a control string is
					// ended takes the whole rest, for each First anew.
					mode = 6
				}
				return &Case{Oracle: oracle, Kind: v.Kind, Args: []int64{f, int64(mode), int64(base)}, Strs: []string{pre, unit, suf, string(v.Middle), string(v.Leading)}, Fixed: true}
			}
			prefixes := func(k ref.Kind, r *gen.Rng) (string, string) {
				a := gen.For(k)
				pre, suf := "", ""
				if r.Intn(3) > 0 {
					pre = string(a.Any(r))
				}
				if r.Intn(3) == 0 {
					pre += gen.Motif(r, k)
				}
				if r.Intn(3) > 0 {
					suf = string(a.Any(r))
				}
				return pre, suf
			}
			// The counter is one global, so cases run one at a time.
			judge := func(w *W, c *Case) {
				var steps uint64
				w.Eval(1)
				w.Guard(c, func() error {
					var err error
					steps, err = linearObserve(c)
					return err
				})
				w.Count("library steps observed", int64(steps))
				w.Count("entry point "+modes[c.Args[1]], 1)
				w.Distinct('l', []byte(fmt.Sprintf("%q%v%v", c.Strs, c.Args, c.Kind)))
			}
			const base = 512
			for k := ref.Kind(0); k < 4; k++ {
				a := gen.For(k)
				R := len(a.Reps)
				group := func(name string, n int, f func(w *W, i int)) {
					x.Serial(name+"-"+k.String(), n, f)
				}
				vk := sut.Variants(k)
				group("units-1-2", R+R*R, func(w *W, i int) {
					unit := ""
					if i < R {
						unit = string(a.Reps[i])
					} else {
						unit = string([]rune{a.Reps[(i-R)/R], a.Reps[(i-R)%R]})
					}
					for m := range modes[:4] {
						if x.Thorough || m == i%4 || i < R {
							pre, suf := "", ""
							if m != 0 {
								pre, suf = prefixes(k, w.R)
							}
							judge(w, mk(w.R, "linear", vk[0], m, base, pre, unit, suf))
						}
					}
					// After each class, units that were waited for.
					judge(w, mk(w.R, "linear", vk[w.R.Intn(len(vk))], w.R.Intn(4), base, string(a.Any(w.R)), unit, string(a.Any(w.R))))
				})
				// Every byte, by itself and after a letter, in both iterators
				// and under every option.
				group("bytes", 256*len(vk), func(w *W, i int) {
					b := string([]byte{byte(i / len(vk))})
					v := vk[i%len(vk)]
					judge(w, mk(w.R, "linear", v, w.R.Intn(2), base, "", b, ""))
					judge(w, mk(w.R, "linear", v, w.R.Intn(2), base, string(a.Any(w.R)), "ab"+b, ""))
					if i%3 == 0 {
						judge(w, mk(w.R, "linear", v, w.R.Intn(2), base, "", b+string(a.Any(w.R))+" ", ""))
					}
				})
				// What the code's literals stand for.
				group("literals", x.Q(150, 1500), func(w *W, i int) {
					unit := gen.Piece(w.R, k, i%2 == 0)
					if len(unit) > 60 {
						unit = unit[:60]
					}
					v := vk[w.R.Intn(len(vk))]
					pre, suf := prefixes(k, w.R)
					judge(w, mk(w.R, "linear", v, w.R.Intn(2), base, "", unit, ""))
					judge(w, mk(w.R, "linear", v, w.R.Intn(2), base, pre, unit+string(a.Any(w.R)), suf))
				})
				group("random", x.Q(8000, 200_000), func(w *W, i int) {
					unit := ""
					for j := 1 + w.R.Intn(5); j > 0; j-- {
						switch w.R.Intn(8) {
						case 0:
							unit += gen.Motif(w.R, k)
						case 1:
							unit += string(a.ASCII[w.R.Intn(len(a.ASCII))])
						case 2:
							if w.R.Intn(3) == 0 {
								unit += gen.Malformed(w.R)
							}
						case 3:
							unit += gen.Piece(w.R, k, false)
						default:
							unit += string(a.Any(w.R))
						}
					}
					if unit == "" {
						unit = "a"
					}
					if len(unit) > 60 {
						unit = unit[:60]
					}
					pre, suf := prefixes(k, w.R)
					c := mk(w.R, "linear", vk[w.R.Intn(len(vk))], w.R.Intn(4), 256, pre, unit, suf)
					if i%3 == 0 {
						unit, suf := string(a.Any(w.R)), ""
						for w.R.Intn(2) == 0 {
							unit += string(a.Any(w.R))
						}
						if w.R.Intn(2) == 0 {
							suf = string(a.Any(w.R))
						}
						if w.R.Intn(3) == 0 {
							c.Strs[2] = ""
						}
						c.Strs = append(c.Strs, unit, suf)
						w.Count("texts of two runs", 1)
					}
					judge(w, c)
					if i < 40 {
						w.Sample("%v %s: %+q, %+q repeated, %+q", variantOf(c), modes[c.Args[1]], pre, unit, suf)
					}
				})
			}
			x.Serial("ansi", len(ansiUnits)*len(ansiUnits)*3, func(w *W, i int) {
				n := len(ansiUnits)
				v := sut.Variants(ref.Graphemes)[1+i%3]
				judge(w, mk(w.R, "linear", v, w.R.Intn(2), base, ansiUnits[w.R.Intn(n)], ansiUnits[i/3/n]+ansiUnits[i/3%n], ansiUnits[w.R.Intn(n)]))
				unit := ""
				for j := 2 + w.R.Intn(5); j > 0; j-- {
					unit += ansiUnits[w.R.Intn(n)]
				}
				judge(w, mk(w.R, "linear", v, w.R.Intn(2), base, ansiUnits[w.R.Intn(n)], unit, ansiUnits[w.R.Intn(n)]))
			})
			// Bleve predicates.
			x.Serial("predicates", 60, func(w *W, i int) {
				a := gen.For(ref.Words)
				unit := string([]rune{a.Any(w.R), a.Any(w.R)})
				if i%2 == 0 {
					unit = []string{"1", "1.", "1\u0301", "_1", "1'\u0301", "\u3042", "\u4e00\u0301", "_"}[w.R.Intn(8)]
				}
				c := &Case{Oracle: "predicates", Kind: ref.Words, Strs: []string{unit}, Fixed: true}
				w.Judge(c)
			})
			cpuUnits := []string{"a", "a ", "a. ", "\u00e9", "\u0301", "1,", "\u05d0\"", "\U0001F1E6", "\U0001F468\u200d", "\u4e00", "\xff", "e\u0301 ", "A.\n", "\u1100\u1161", "\u0915\u094d", ". ", "? ", "_", "'", "\x1b[31m", "\x1b]"}
			slow := 0
			x.Serial("cpu", len(cpuUnits)*len(vs), func(w *W, i int) {
				c := mk(w.R, "cpu", vs[i%len(vs)], w.R.Intn(4), 0, "", cpuUnits[i/len(vs)], "")
				if slow >= 2 {
					return // shown already, and each takes a while
				}
				if !w.Judge(c) {
					slow++
				}
				w.Count("CPU-time comparisons", 1)
			})
			x.Require(x.Counted("library steps observed") > 1_000_000, "steps")
		},
	})
	RegisterOracle("predicates", predicates)
}

func predicates(c *Case) error {
	count := func(n int) uint64 {
		b := []byte(strings.Repeat(c.Strs[0], n))
		verifsteps.N = 0
		words.BleveNumeric(b)
		words.BleveIdeographic(b)
		return verifsteps.N
	}
	p := count(256)
	for n := 2048; n <= 131072; n *= 8 {
		q := count(n)
		if q <= 12*p+1000 {
			return nil
		}
		p = q
	}
	return fmt.Errorf("the Bleve predicates take more than linear work on %+q repeated", c.Strs[0])
}

func main() { Main(nil) }
