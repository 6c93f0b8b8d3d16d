package main

import (
	"bufio"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
	"weak"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	. "github.com/clipperhouse/uax29/v2/verifmon/harness"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/sut"
	"github.com/clipperhouse/uax29/v2/words"
)

// A watched watches one piece of memory that nobody should hold any more.
type watched struct {
	what string
	gone func() bool
}

type watches []watched

// text makes a copy of s in memory of its own and watches it.
func (p *watches) text(what string, s []byte) []byte {
	b := make([]byte, max(len(s), 64))
	copy(b, s)
	watch(p, what, &b[0])
	return b[:len(s)]
}

func (p *watches) str(what string, s []byte) string {
	b := p.text(what, s)
	return unsafe.String(unsafe.SliceData(b), len(b))
}

func (p *watches) runes(what string, r []rune) []rune {
	b := make([]rune, len(r), len(r)+16)
	copy(b, r)
	watch(p, what, &b[:1][0])
	return b
}

func watch[T any](p *watches, what string, x *T) {
	w := weak.Make(x)
	*p = append(*p, watched{what, func() bool { return w.Value() == nil }})
}

// extraRetention are uses of internal packages, where they can be had.
var extraRetention []func(p *watches, text, other []byte) (keep any)

// partly advances an iterator n times (all the way if n is negative).
func partly[T ~string | ~[]byte](it sut.Iter[T], n int) {
	for ; n != 0 && it.Next(); n-- {
		it.Value()
	}
}

func dropped[T ~string | ~[]byte](it sut.Iter[T], n int) {
	it.First()
	partly(it, n)
	it.First()
	if n%2 == 0 {
		it.Reset()
		partly(it, 1)
	}
}

// Each of these uses the library on watched memory and returns what is to stay
// alive while that memory must go.
var retention = []struct {
	name string
	only ref.Kind
	run  func(p *watches, v sut.Variant, text, other []byte, n int) (keep any)
}{
	{"iterator gone", -1, func(p *watches, v sut.Variant, text, other []byte, n int) any {
		dropped(v.Bytes_(p.text("the bytes of an iterator that is gone", text)), n)
		dropped(v.String_(p.str("the string of an iterator that is gone", text)), n)
		return nil
	}},
	{"new text", -1, func(p *watches, v sut.Variant, text, other []byte, n int) any {
		b := v.Bytes_(p.text("the bytes before SetText", text))
		partly(b, n)
		s := v.String_(p.str("the string before SetText", text))
		partly(s, n)
		b.SetText(other)
		s.SetText(string(other))
		if n%3 == 0 {
			partly(b, n)
			s.First()
		}
		if n%5 == 0 {
			b.SetText(nil)
			s.SetText("")
		}
		return []any{b, s}
	}},
	{"text set twice", -1, func(p *watches, v sut.Variant, text, other []byte, n int) any {
		b, s := v.Bytes_(other), v.String_(string(other))
		partly(b, n)
		b.SetText(p.text("the bytes between two SetTexts", text))
		b.First()
		partly(b, n)
		s.SetText(p.str("the string between two SetTexts", text))
		s.First()
		partly(s, n)
		b.SetText(other[:0])
		s.SetText("x")
		return []any{b, s}
	}},
	{"functions", -1, func(p *watches, v sut.Variant, text, other []byte, n int) any {
		split := sut.SplitFunc(v.Kind)
		b := p.text("the data of a split function", text)
		split(b, false)
		for len(b) > 0 {
			adv, _, _ := split(b, n%2 == 0)
			if adv <= 0 {
				break
			}
			b = b[adv:]
		}
		tok := p.text("the argument of a Bleve predicate", text)
		words.BleveNumeric(tok)
		words.BleveIdeographic(tok)
		return split
	}},
	{"scanner gone", -1, func(p *watches, v sut.Variant, text, other []byte, n int) any {
		if !v.HasReader() {
			return nil
		}
		r := &onceReader{p.text("the data of a reader", text)}
		watch(p, "the reader of a scanner that is gone", r)
		sc := v.Reader(r)
		buf := make([]byte, 4096)
		watch(p, "the buffer of a scanner that is gone", &buf[0])
		sc.Buffer(buf, 1<<20)
		for ; n != 0 && sc.Scan(); n-- {
			sc.Text()
			if tok := sc.Bytes(); len(tok) > 0 {
				words.BleveNumeric(tok)
			}
		}
		return nil
	}},
	{"faults", -1, func(p *watches, v sut.Variant, text, other []byte, n int) any {
		if v.HasReader() {
			// A reader that fails, one whose token is too long, and a split
			// function that fails.
			for i := 0; i < 3; i++ {
				r := &faultyReader{p.text("the data of a reader whose scanner failed", text), faults[max(0, n+i)%len(faults)]}
				watch(p, "a reader whose scanner failed", r)
				sc := v.Reader(r)
				size := 1 << 20
				if i == 1 {
					size = 16
				}
				buf := make([]byte, size)
				watch(p, "the buffer of a scanner that failed", &buf[0])
				sc.Buffer(buf, size)
				if i == 2 {
					if s, ok := sc.(interface{ Split(bufio.SplitFunc) }); ok {
						memory := p.text("what a split function that fails holds", other)
						s.Split(func(d []byte, eof bool) (int, []byte, error) {
							memory[0]++
							return n, d, faults[max(0, n)%len(faults)]
						})
					}
				}
				sut.Protect(func() error {
					for sc.Scan() {
					}
					return sc.Err()
				})
			}
		}
		if v.Kind != ref.Words || v.Joined {
			return nil
		}
		// Split functions that fail in each way.
		for i := 0; i < 4; i++ {
			memory := p.text("what a split function that fails holds", other)
			it := words.FromBytes(p.text("the bytes of an iterator whose split function failed", append(text[:len(text):len(text)], "ab"...)))
			it.Split(func(d []byte, eof bool) (int, []byte, error) {
				memory[0]++
				switch i {
				case 0:
					return 1, d[:1], errFault
				case 1:
					return 0, nil, nil
				case 2:
					return len(d) + 1, d, nil
				}
				panic(d)
			})
			sut.Protect(func() error { it.First(); return nil })
			sut.Protect(func() error { it.Next(); return nil })
		}
		return nil
	}},
	{"joiners", ref.Words, func(p *watches, v sut.Variant, text, other []byte, n int) any {
		joiners := func(what string) *words.Joiners[[]byte] {
			j := &words.Joiners[[]byte]{Middle: p.runes("the middle runes of "+what, []rune("-@")), Leading: p.runes("the leading runes of "+what, []rune("#"))}
			watch(p, what, j)
			return j
		}
		its := words.FromBytes(other)
		its.Joiners(joiners("joiners that were replaced"))
		partly(sut.Iter[[]byte](its), n)
		its.Joiners(&words.Joiners[[]byte]{Middle: []rune("/")})
		partly(sut.Iter[[]byte](its), 1)
		gone := words.FromBytes(other)
		gone.Joiners(joiners("joiners whose iterator is gone"))
		partly(sut.Iter[[]byte](gone), n)
		sc := words.FromReader(&onceReader{other})
		sc.Joiners(joiners("joiners whose scanner is gone"))
		for ; n != 0 && sc.Scan(); n-- {
		}
		js := &words.Joiners[string]{Middle: p.runes("the middle runes of string joiners", []rune("/")), Leading: []rune("#")}
		watch(p, "string joiners whose iterator is gone", js)
		s := words.FromString(string(other))
		s.Joiners(js)
		partly(sut.Iter[string](s), n)
		return its
	}},
	{"custom split", ref.Words, func(p *watches, v sut.Variant, text, other []byte, n int) any {
		custom := func(what string) bufio.SplitFunc {
			memory := p.text("what "+what+" holds", []byte("split"))
			return func(d []byte, eof bool) (int, []byte, error) {
				memory[0]++
				return words.SplitFunc(d, eof)
			}
		}
		it := words.FromBytes(other)
		it.Split(custom("a split function that was replaced"))
		it.First()
		partly(sut.Iter[[]byte](it), n)
		it.Split(words.SplitFunc)
		it.First()
		again := words.FromBytes(p.text("the bytes of an iterator with a split function", text))
		again.Split(custom("a split function whose iterator is gone"))
		partly(sut.Iter[[]byte](again), n)
		sc := words.FromReader(&onceReader{other})
		sc.Split(custom("a split function whose scanner is gone"))
		for ; n != 0 && sc.Scan(); n-- {
		}
		return it
	}},
}

// faultyReader gives its data and then fails.
type faultyReader struct {
	data  []byte
	fault error
}

func (f *faultyReader) Read(p []byte) (int, error) {
	n := copy(p, f.data)
	if f.data = f.data[n:]; len(f.data) > 0 {
		return n, nil
	}
	return n, f.fault
}

//go:noinline
func retain(v sut.Variant, i int, text, other []byte, n int) (keep any, p watches) {
	if i >= len(retention) {
		return extraRetention[i-len(retention)](&p, text, other), p
	}
	if r := retention[i]; r.only < 0 || r.only == v.Kind {
		keep = r.run(&p, v, text, other, n)
	}
	return keep, p
}

// retained: memory handed to the library goes when its user has let go of it.
// Args: variant flags, number of tokens taken.
func retained(c *Case) error {
	_, err := retainedCount(c)
	return err
}

func retainedCount(c *Case) (int, error) {
	v := variant(c)
	n := 3
	if len(c.Args) > 1 {
		n = int(c.Args[1])
	}
	other := []byte("Other text. (2.5) \u65e5\u672c \u00e9\n")
	var keep []any
	var all watches
	for i := 0; i < len(retention)+len(extraRetention); i++ {
		k, p := retain(v, i, c.Text, other, n)
		keep = append(keep, k)
		all = append(all, p...)
	}
	// A pool may keep what was put back for one more cycle.
	var left []string
	for cycle := 0; cycle < 4; cycle++ {
		runtime.GC()
		left = left[:0]
		for _, p := range all {
			if !p.gone() {
				left = append(left, p.what)
			}
		}
		if len(left) == 0 {
			break
		}
	}
	runtime.KeepAlive(keep)
	if len(left) > 0 {
		return len(all), fmt.Errorf("%v: still held although nobody uses it any more: %s", v, strings.Join(left, "; "))
	}
	return len(all), nil
}

// work takes the library through n texts that do not occur again.
func work(r *gen.Rng, v sut.Variant, n int, extra []func(string, []byte) task, buf []byte) []byte {
	for i := 0; i < n; i++ {
		buf = buf[:0]
		t, _ := gen.Text(r, v.Kind, gen.Small)
		buf = append(buf, t[:min(len(t), 200)]...)
		// A letter or digit run that makes words, and with them tokens, new.
		for k := r.Uint64() >> uint(r.Intn(40)); k > 0; k /= 26 {
			buf = append(buf, "abcdefghijklmnopqrstuvwxyz"[k%26])
		}
		if r.Intn(3) == 0 {
			buf = append(buf, fmt.Sprint(" ", r.Uint64())...)
		}
		if v.Joined {
			v.Middle, v.Leading = randRunes(r), randRunes(r)
		}
		s := string(buf)
		si, bi := v.String_(s), v.Bytes_(buf)
		si.First()
		partly(si, -1)
		bi.First()
		for bi.Next() {
			if v.Kind == ref.Words {
				words.BleveNumeric(bi.Value())
				words.BleveIdeographic(bi.Value())
			}
		}
		si.SetText(s[:len(s)/2])
		partly(si, 2)
		if v.HasReader() {
			sc := v.Reader(strings.NewReader(s))
			sc.Buffer(make([]byte, 1024), 1<<16)
			for sc.Scan() {
			}
		}
		if !v.Joined {
			split := sut.SplitFunc(v.Kind)
			split(buf, false)
			split(buf, true)
		}
		for _, f := range extra {
			f(s, buf).run(func() {})
		}
	}
	return buf
}

func liveHeap() uint64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// growth: however many texts were worked through, no more memory is held and
// no more goroutines run. Args: variant flags, seed, texts per stage.
func growth(c *Case) error {
	v := variant(c)
	r := gen.NewRng(c.Args[1], 5)
	n := int(c.Args[2])
	var buf []byte
	var extra []func(string, []byte) task
	if !v.Joined && !v.Ansi7 && !v.Ansi8 {
		extra = extraTasks
	}
	buf = work(r, v, n, extra, buf)
	goroutines := runtime.NumGoroutine()
	const stages = 3
	least, before := uint64(1<<62), liveHeap()
	first := before
	for i := 0; i < stages; i++ {
		buf = work(r, v, n, extra, buf)
		now := liveHeap()
		grown := uint64(0)
		if now > before {
			grown = now - before
		}
		least, before = min(least, grown), now
		if least < 4096 {
			break
		}
	}
	// Less than a byte per text is not something kept for each text.
	if least >= 4096 && least > uint64(n)/2 {
		return fmt.Errorf("%v: the memory held grows by at least %d bytes with every %d texts (from %d to %d bytes in %d times as many)", v, least, n, first, before, stages)
	}
	for try := 0; runtime.NumGoroutine() > goroutines; try++ {
		if try == 50 {
			return fmt.Errorf("%v: %d goroutines run, %d before", v, runtime.NumGoroutine(), goroutines)
		}
		time.Sleep(time.Millisecond)
	}
	return nil
}

func init() {
	RegisterOracle("retained", retained)
	RegisterOracle("growth", growth)
	var vs []sut.Variant
	for k := ref.Kind(0); k < 4; k++ {
		vs = append(vs, sut.Variants(k)...)
	}
	Register(&Check{
		ID:    "C26",
		Title: "nothing is kept of what is no longer used",
		Rule: "Texts, joiners, split functions, readers and buffers in memory of their own, each watched by a weak pointer, are given to iterators, scanners (some of which fail: faulty reader, token too long, failing split function), split functions (that fail, too), predicates, the filter and the generic iterator, which are then dropped, or kept and given something else; after garbage collections every weak pointer must be empty. " +
			"Live heap and number of goroutines before and after many thousand texts that do not repeat. Non-trivial: at least two bytes; distinct by bytes and tokenizer.",
		Run: func(x *Ctx) {
			// The monitor must be able to see something that is held.
			var p watches
			held := p.text("held", []byte("x"))
			func() { p.text("let go", []byte("x")) }()
			runtime.GC()
			runtime.GC()
			x.Require(!p[0].gone() && p[1].gone(), "weak pointers tell what is held")
			runtime.KeepAlive(held)
			defer debug.SetGCPercent(debug.SetGCPercent(400))
			// Both before anything that makes the harness itself hold more.
			x.Serial("growth", len(vs)*x.Q(1, 4), func(w *W, idx int) {
				v := vs[idx%len(vs)]
				c := variantCase("growth", v, nil)
				c.Args = append(c.Args, int64(w.R.Uint64()>>1), int64(x.Q(12_000, 200_000)))
				c.Fixed = true
				w.Judge(c)
				w.Count("texts worked through while the memory held was measured", 2*c.Args[2])
			})
			x.Serial("retained", x.Q(2400, 60_000), func(w *W, idx int) {
				v := vs[idx%len(vs)]
				if v.Joined && w.R.Intn(2) == 0 {
					v.Middle, v.Leading = randRunes(w.R), randRunes(w.R)
				}
				var text []byte
				switch {
				case (v.Ansi7 || v.Ansi8) && w.R.Intn(2) == 0:
					text = ansiText(w.R)
				case idx%16 == 15:
					text = giantFor(w.R, v)
				default:
					text, _ = gen.Bytes(w.R, v.Kind, gen.Scale(w.R.Intn(2)))
					// What the code names, at either end.
					if ps := gen.Pieces(v.Kind); len(ps) > 0 && w.R.Intn(4) > 0 {
						piece := ps[idx/len(vs)%len(ps)]
						if len(text) > 200 && w.R.Intn(4) > 0 {
							text = text[:200]
						}
						switch w.R.Intn(4) {
						case 0:
							text = append(text[:len(text):len(text)], piece...)
						case 1:
							text = append([]byte(piece+" "), text...)
						default:
							text = append([]byte(piece), text...)
						}
					}
				}
				c := variantCase("retained", v, text)
				c.Args = append(c.Args, int64(w.R.Intn(12)-1))
				w.Eval(1)
				n := 0
				w.Guard(c, func() (err error) { n, err = retainedCount(c); return })
				w.Count("pieces of memory watched", int64(n))
				w.Count("variant "+v.Kind.String(), 1)
				if len(text) > 1 {
					w.Distinct('k'+byte(v.Kind), text)
				}
				if idx < 8 && len(text) < 60 {
					w.Sample("%v %+q: %d pieces of memory watched", v, text, n)
				}
			})
		},
	})
	_ = graphemes.SplitFunc
}
