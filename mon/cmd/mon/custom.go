package main

import (
	"fmt"

	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	. "github.com/clipperhouse/uax29/v2/verifmon/harness"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/sut"
	"github.com/clipperhouse/uax29/v2/words"
)

func customOne[T ~string | ~[]byte](it *words.Iterator[T], data T, which int, f sut.Fault) (bool, error) {
	r := &sut.Recorder[T]{First: sut.Splitter(which), Fault: f}
	if len(data)%2 == 1 {
		// Joiners before it have no say any more.
		it.Joiners(&words.Joiners[T]{Middle: []rune("-@ "), Leading: []rune("#.")})
		it.First()
	}
	it.Split(r.Split)
	if err := sut.Custom[T](it, r, data, false); err != nil {
		return false, err
	}
	if r.Fired() {
		return true, nil
	}
	// First asks it too, and Reset and SetText keep it.
	r2 := &sut.Recorder[T]{First: sut.Splitter(which), Fault: sut.Fault{Call: -1}, Data: data}
	it.Split(r2.Split)
	if len(data) > 0 {
		s, e := it.Start(), it.End()
		first := it.First()
		if want := r2.First(string(data)); string(first) != string(data[:want]) {
			return false, fmt.Errorf("First gave %+q, the split function cut %d bytes", string(first), want)
		}
		if r2.Bad != nil {
			return false, r2.Bad
		}
		if it.Start() != s || it.End() != e {
			return false, fmt.Errorf("First moved the iterator")
		}
	}
	it.Reset()
	if err := sut.Custom[T](it, r2, data, false); err != nil {
		return false, fmt.Errorf("after Reset: %w", err)
	}
	half := data[len(data)/2:]
	it.SetText(half)
	if err := sut.Custom[T](it, r2, half, false); err != nil {
		return false, fmt.Errorf("after SetText: %w", err)
	}
	// A new text forgets everything about the old, also one as long, at every
	// state of the iteration.
	for _, steps := range []int{0, 1, 3, 1 << 30} {
		it.SetText(data)
		r2.Data = data
		for i := 0; i < steps && it.Next(); i++ {
			r2.Data = data[it.End():]
		}
		// In the middle, First is about the whole text still, also with
		// another split function, which decides what comes next.
		if steps > 0 && len(data) > 0 {
			for o := 0; o < 2; o++ {
				r4 := &sut.Recorder[T]{First: sut.Splitter((which + o) % len(sut.SplitterNames)), Fault: sut.Fault{Call: -1}, Data: data}
				s, e := it.Start(), it.End()
				if (steps+o)%2 == 0 {
					it.Joiners(&words.Joiners[T]{Middle: []rune(".'-")})
				}
				it.Split(r4.Split)
				if it.Start() != s || it.End() != e {
					return false, fmt.Errorf("after %d steps a new split function moved the iterator", steps)
				}
				if first, want := it.First(), r4.First(string(data)); string(first) != string(data[:want]) {
					return false, fmt.Errorf("after %d steps First gave %+q, the split function cuts %d bytes", steps, string(first), want)
				}
				if it.Start() != s || it.End() != e {
					return false, fmt.Errorf("after %d steps First moved the iterator", steps)
				}
				if e == len(data) && (it.Next() || it.End() != e) {
					return false, fmt.Errorf("with another split function set at the end, there is a token %d:%d", it.Start(), it.End())
				}
				if o == 1 && e < len(data) {
					r4.Data = data[e:]
					more := it.Next()
					want := r4.First(string(data[e:]))
					if !more || it.Start() != e || it.End() != e+want {
						return false, fmt.Errorf("with another split function set at %d, the next token is %d:%d, it cuts %d bytes", e, it.Start(), it.End(), want)
					}
				}
				if r4.Bad != nil {
					return false, r4.Bad
				}
			}
			it.Split(r2.Split)
		}
		if err := sut.AtStart[T](it, "after SetText"); err != nil && steps == 0 {
			return false, err
		}
		other := sut.Rotate(data)
		switch steps % 2 {
		case 0:
			it.SetText(other)
		case 1:
			other = data
			it.Reset()
		}
		if err := sut.AtStart[T](it, "after Reset or SetText"); err != nil {
			return false, err
		}
		if err := sut.Custom[T](it, r2, other, false); err != nil {
			return false, fmt.Errorf("another text after %d steps of the first: %w", steps, err)
		}
	}
	if err := sut.Mind[T](it, it.Split, data); err != nil {
		return false, err
	}
	// A misbehaving split function makes First panic, too.
	for kind := range sut.FaultNames {
		if len(data) == 0 {
			break
		}
		r3 := &sut.Recorder[T]{First: sut.Splitter(which), Fault: sut.Fault{Call: 0, Kind: kind}, Data: data}
		it.SetText(data)
		it.Split(r3.Split)
		var got T
		panicked := func() (p bool) {
			defer func() { p = recover() != nil }()
			got = it.First()
			return false
		}()
		if !panicked {
			return false, fmt.Errorf("First gave %+q although the split function misbehaved (%s)", string(got), sut.FaultNames[kind])
		}
	}
	return false, nil
}

// custom: a words iterator with a split function of the caller's does what that
// function says, or panics if it misbehaves. Args: splitter, fault call, kind.
func custom(c *Case) error { _, err := customObserve(c); return err }

func customObserve(c *Case) (fired bool, err error) {
	which, f := int(c.Args[0]), sut.Fault{Call: int(c.Args[1]), Kind: int(c.Args[2])}
	s := string(c.Text)
	if fired, err = customOne(words.FromString(s), s, which, f); err != nil {
		return fired, fmt.Errorf("words.FromString with split function %q: %w", sut.SplitterNames[which], err)
	}
	if fired, err = customOne(words.FromBytes(c.Text), c.Text, which, f); err != nil {
		return fired, fmt.Errorf("words.FromBytes with split function %q: %w", sut.SplitterNames[which], err)
	}
	var ns words.Iterator[namedString]
	ns.SetText(namedString(s))
	if fired, err = customOne(&ns, namedString(s), which, f); err != nil {
		return fired, fmt.Errorf("words.Iterator[named string] with split function %q: %w", sut.SplitterNames[which], err)
	}
	return fired, nil
}

// borrowed: other packages' split functions, given to a words iterator.
func borrowed(c *Case) error {
	for _, o := range []struct {
		k     ref.Kind
		split func([]byte, bool) (int, []byte, error)
	}{{ref.Graphemes, sut.SplitFunc(ref.Graphemes)}, {ref.Words, words.SplitFunc}, {ref.Sentences, sentences.SplitFunc}, {ref.Phrases, phrases.SplitFunc}} {
		want, err := sut.Drain(sut.Bytes(o.k, c.Text), len(c.Text), nil)
		if err != nil {
			return err
		}
		it := words.FromBytes(c.Text)
		it.Split(o.split)
		got, err := sut.Drain[[]byte](it, len(c.Text), nil)
		if err != nil {
			return fmt.Errorf("words iterator with %v.SplitFunc: %w", o.k, err)
		}
		if err := sut.Diff(c.Text, fmt.Sprintf("words iterator with %v.SplitFunc", o.k), got, o.k.String(), want); err != nil {
			return err
		}
	}
	return nil
}

// customHuge: advances and positions beyond 4 GiB.
func customHuge(c *Case) error { _, err := customHugeObserve(); return err }

func customHugeObserve() (tokens int64, _ error) {
	tile := make([]byte, sut.Tile)
	for i := range tile {
		tile[i] = "a b"[i%3]
	}
	data, free, err := sut.Huge(tile, sut.HugeLen(), "")
	if err != nil {
		return 0, nil // no room
	}
	defer free()
	itb := words.FromBytes(data)
	if err := sut.HugeCustom[[]byte](itb, itb.Split, data); err != nil {
		return 0, fmt.Errorf("words.FromBytes: %w", err)
	}
	s := sut.HugeString(data)
	its := words.FromString(s)
	if err := sut.HugeCustom[string](its, its.Split, s); err != nil {
		return 0, fmt.Errorf("words.FromString: %w", err)
	}
	return int64(4 * len(sut.HugeSteps)), nil
}

func init() {
	RegisterOracle("custom", custom)
	RegisterOracle("custom-huge", customHuge)
	RegisterOracle("borrowed", borrowed)
	Register(&Check{
		ID:    "C21",
		Title: "custom split functions decide the tokens",
		Rule: "Words iterators (string, bytes, named string) given recording split functions of eight kinds over seeded texts: each call must get exactly the rest of the data at EOF, each token must be what it returned, First must ask it, Reset and SetText must keep it; and with a fault injected at a seeded call (error, zero, negative, one beyond, far beyond) Next must panic at that call. Also the four packages' own split functions, and advances beyond 4 GiB. " +
			"Non-trivial: at least two bytes; distinct by bytes, splitter and fault.",
		Level: "fault_enumeration",
		Run: func(x *Ctx) {
			run := func(w *W, text []byte, which int, f sut.Fault) {
				c := &Case{Oracle: "custom", Kind: ref.Words, Text: text, Args: []int64{int64(which), int64(f.Call), int64(f.Kind)}}
				w.Eval(1)
				w.Guard(c, func() error {
					fired, err := customObserve(c)
					if fired {
						w.Count("faults delivered: "+sut.FaultNames[f.Kind], 1)
					}
					return err
				})
				if len(text) > 1 {
					w.Distinct(byte('a'+which), append([]byte{byte(f.Call + 1), byte(f.Kind)}, text...))
				}
			}
			x.Parallel("random", x.Q(1_000_000, 15_000_000)/16, func(w *W, idx int) {
				for j := 0; j < 16; j++ {
					var text []byte
					switch w.R.Intn(3) {
					case 0:
						text, _ = gen.Bytes(w.R, ref.Words, gen.Small)
					case 1:
						s, _ := gen.Text(w.R, ref.Words, gen.Small)
						text = []byte(s)
					case 2:
						for k := w.R.Intn(20); k >= 0; k-- {
							text = append(text, "aZ09 b  c.-\n"[w.R.Intn(12)])
						}
					}
					if len(text) > 200 {
						text = text[:200]
					}
					which := w.R.Intn(len(sut.SplitterNames))
					run(w, text, which, sut.Fault{Call: -1})
					w.Count("splitter "+sut.SplitterNames[which], 1)
					run(w, text, which, sut.Fault{Call: w.R.Intn(6), Kind: w.R.Intn(len(sut.FaultNames))})
					w.Judge(&Case{Oracle: "borrowed", Kind: ref.Words, Text: text})
					if idx < 20 && j == 0 {
						w.Sample("splitter %s over %+q", sut.SplitterNames[which], text)
					}
				}
			})
			// Long texts, for the split functions that take large steps.
			x.Parallel("long", x.Q(1500, 30_000), func(w *W, idx int) {
				var text []byte
				if idx%4 == 0 {
					text = gen.GiantBytes(w.R, ref.Words)
				} else {
					for n := 200 + w.R.Intn(3000); len(text) < n; {
						b, _ := gen.Bytes(w.R, ref.Words, gen.Medium)
						text = append(text, b...)
					}
					text = text[:min(len(text), 9000)]
					if n := gen.Size(w.R, ref.Words, 2, 9000); n > 0 && w.R.Intn(3) == 0 {
						text = text[:min(len(text), n)]
					}
				}
				which := 5 + w.R.Intn(2)
				if len(text) < 600 {
					which = w.R.Intn(len(sut.SplitterNames))
				}
				run(w, text, which, sut.Fault{Call: -1})
				run(w, text, which, sut.Fault{Call: w.R.Intn(3), Kind: w.R.Intn(len(sut.FaultNames))})
				w.Count("long texts", 1)
				w.Judge(&Case{Oracle: "borrowed", Kind: ref.Words, Text: text})
			})
			if !x.Light {
				x.Parallel("huge", 1, func(w *W, _ int) {
					c := &Case{Oracle: "custom-huge", Kind: ref.Words}
					w.Eval(1)
					w.Guard(c, func() error {
						n, err := customHugeObserve()
						w.Count("tokens of texts beyond 4 GiB", n)
						return err
					})
				})
			}
			// Every fault at every call of short texts.
			x.Parallel("faults", 6*len(sut.SplitterNames), func(w *W, idx int) {
				text := []byte([]string{"a", "ab", "hello world 42", "x\ny", "\xff\xc3", "日本 語"}[idx%6])
				for call := 0; call <= len(text); call++ {
					for kind := range sut.FaultNames {
						run(w, text, idx/6, sut.Fault{Call: call, Kind: kind})
					}
				}
			})
			x.Exhausted("every fault at every call over six short texts and eight splitters")
			for _, n := range sut.FaultNames {
				x.Require(x.Counted("faults delivered: "+n) > 500, "fault "+n)
			}
		},
	})
}
