package main

import (
	"bytes"
	"fmt"
	"regexp"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/internal/iterators"
	"github.com/clipperhouse/uax29/v2/internal/iterators/filter"
	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	"github.com/clipperhouse/uax29/v2/verifmon/harness"
	. "github.com/clipperhouse/uax29/v2/verifmon/harness"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/sut"
)

var letterOrNumber = regexp.MustCompile(`[\pL\pN]`)

// alnum: the filter passes a token iff it has a letter or a number.
func alnum(c *Case) error {
	want := letterOrNumber.Match(c.Text)
	before := string(c.Text)
	if got := filter.AlphaNumeric(c.Text); got != want {
		return fmt.Errorf("AlphaNumeric(%+q) = %v", c.Text, got)
	}
	if string(c.Text) != before {
		return fmt.Errorf("AlphaNumeric changed the token %+q", before)
	}
	if len(c.Text) == 0 || len(c.Text) > 4096 {
		return nil
	}
	// A buffer that is used again: what it held before does not matter.
	b := make([]byte, len(c.Text))
	for i, held := range []string{"", "-", "", "a", ""} {
		want := want
		if held == "" {
			copy(b, before)
		} else {
			want = held == "a"
			for j := range b {
				b[j] = held[0]
			}
		}
		if got := filter.AlphaNumeric(b); got != want {
			return fmt.Errorf("AlphaNumeric(%+q) = %v in a buffer that held other tokens before (use %d)", b, got, i)
		}
	}
	return nil
}

type namedString string

func genericOne[T ~string | ~[]byte](data T, which int, f sut.Fault) (bool, error) {
	r := &sut.Recorder[T]{First: sut.Splitter(which), Fault: f}
	it := iterators.New(r.Split, data)
	if err := sut.AtStart[T](it, "when new"); err != nil {
		return false, err
	}
	if err := sut.Custom[T](it, r, data, true); err != nil {
		return false, err
	}
	if r.Fired() {
		return true, nil
	}
	r2 := &sut.Recorder[T]{First: sut.Splitter(which), Fault: sut.Fault{Call: -1}, Data: data}
	it.Split(r2.Split)
	if len(data) > 0 {
		s, e := it.Start(), it.End()
		first := it.First()
		if want := r2.First(string(data)); string(first) != string(data[:want]) {
			return false, fmt.Errorf("First gave %+q, the split function cut %d bytes", string(first), want)
		}
		if it.Start() != s || it.End() != e {
			return false, fmt.Errorf("First moved the iterator")
		}
	}
	it.Reset()
	if err := sut.Custom[T](it, r2, data, true); err != nil {
		return false, fmt.Errorf("after Reset: %w", err)
	}
	half := data[len(data)/2:]
	it.SetText(half)
	if err := sut.Custom[T](it, r2, half, true); err != nil {
		return false, fmt.Errorf("after SetText: %w", err)
	}
	// A new text forgets everything about the old, also one as long, at every
	// state of the iteration.
	for _, steps := range []int{0, 1, 3, 1 << 30} {
		it.SetText(data)
		r2.Data = data
		for i := 0; i < steps && it.Next(); i++ {
			r2.Data = data[it.End():]
		}
		// In the middle, First is about the whole text still, also with
		// another split function.
		if steps > 0 && len(data) > 0 {
			for o := 0; o < 2; o++ {
				r4 := &sut.Recorder[T]{First: sut.Splitter((which + o) % len(sut.SplitterNames)), Fault: sut.Fault{Call: -1}, Data: data}
				s, e := it.Start(), it.End()
				it.Split(r4.Split)
				if it.Start() != s || it.End() != e {
					return false, fmt.Errorf("after %d steps a new split function moved the iterator", steps)
				}
				if first, want := it.First(), r4.First(string(data)); string(first) != string(data[:want]) {
					return false, fmt.Errorf("after %d steps First gave %+q, the split function cuts %d bytes", steps, string(first), want)
				}
				if it.Start() != s || it.End() != e {
					return false, fmt.Errorf("after %d steps First moved the iterator", steps)
				}
				if e == len(data) && (it.Next() || it.End() != e) {
					return false, fmt.Errorf("with another split function set at the end, there is a token %d:%d", it.Start(), it.End())
				}
				if o == 1 && e < len(data) {
					r4.Data = data[e:]
					more := it.Next()
					want := r4.First(string(data[e:]))
					if len(data)-e == 1 {
						want = 1
					}
					if !more || it.Start() != e || it.End() != e+want {
						return false, fmt.Errorf("with another split function set at %d, the next token is %d:%d, it cuts %d bytes", e, it.Start(), it.End(), want)
					}
				}
			}
			it.Split(r2.Split)
		}
		if err := sut.AtStart[T](it, "after SetText"); err != nil && steps == 0 {
			return false, err
		}
		other := sut.Rotate(data)
		switch steps % 2 {
		case 0:
			it.SetText(other)
		case 1:
			other = data
			it.Reset()
		}
		if err := sut.AtStart[T](it, "after Reset or SetText"); err != nil {
			return false, err
		}
		if err := sut.Custom[T](it, r2, other, true); err != nil {
			return false, fmt.Errorf("another text after %d steps of the first: %w", steps, err)
		}
	}
	if err := sut.Mind[T](it, func(f func(T, bool) (int, T, error)) { it.Split(f) }, data); err != nil {
		return false, err
	}
	// A misbehaving split function makes First panic, too.
	if len(data) > 0 {
		for kind := range sut.FaultNames {
			r3 := &sut.Recorder[T]{First: sut.Splitter(which), Fault: sut.Fault{Call: 0, Kind: kind}, Data: data}
			it := iterators.New(r3.Split, data)
			var got T
			perr := func() (err error) {
				defer func() {
					if v := recover(); v != nil {
						err = fmt.Errorf("panic: %v", v)
					}
				}()
				got = it.First()
				return nil
			}()
			if perr == nil {
				return false, fmt.Errorf("First gave %+q although the split function misbehaved (%s)", string(got), sut.FaultNames[kind])
			}
		}
	}
	return false, nil
}

// generic: the generic iterator does what its split function says, or panics.
func generic(c *Case) error { _, err := genericObserve(c); return err }

func genericObserve(c *Case) (fired bool, err error) {
	which, f := int(c.Args[0]), sut.Fault{Call: int(c.Args[1]), Kind: int(c.Args[2])}
	if fired, err = genericOne(string(c.Text), which, f); err != nil {
		return fired, fmt.Errorf("Iterator[string] with split function %q: %w", sut.SplitterNames[which], err)
	}
	if fired, err = genericOne(c.Text, which, f); err != nil {
		return fired, fmt.Errorf("Iterator[[]byte] with split function %q: %w", sut.SplitterNames[which], err)
	}
	if fired, err = genericOne(namedString(c.Text), which, f); err != nil {
		return fired, fmt.Errorf("Iterator[named string] with split function %q: %w", sut.SplitterNames[which], err)
	}
	return fired, nil
}

// generics is a generic iterator the way sut.HugeCustom wants it.
type generics[T ~string | ~[]byte] struct{ *iterators.Iterator[T] }

func (g generics[T]) set(f func(T, bool) (int, T, error)) { g.Split(f) }

// genericHuge: advances and positions beyond 4 GiB.
func genericHuge(c *Case) error { _, err := genericHugeObserve(); return err }

func genericHugeObserve() (tokens int64, _ error) {
	data, free, err := sut.Huge(bytes.Repeat([]byte("a "), sut.Tile/2), sut.HugeLen(), "")
	if err != nil {
		return 0, nil // no room
	}
	defer free()
	one := func(rest []byte, eof bool) (int, []byte, error) { return 1, rest[:1], nil }
	itb := generics[[]byte]{iterators.New(one, data)}
	if err := sut.HugeCustom[[]byte](itb, itb.set, data); err != nil {
		return 0, fmt.Errorf("Iterator[[]byte]: %w", err)
	}
	ones := func(rest string, eof bool) (int, string, error) { return 1, rest[:1], nil }
	its := generics[string]{iterators.New(ones, sut.HugeString(data))}
	if err := sut.HugeCustom[string](its, its.set, sut.HugeString(data)); err != nil {
		return 0, fmt.Errorf("Iterator[string]: %w", err)
	}
	return int64(4 * len(sut.HugeSteps)), nil
}

func main() {
	RegisterOracle("generic-huge", genericHuge)
	RegisterOracle("alnum", alnum)
	RegisterOracle("generic", generic)
	Register(&Check{
		ID:    "C22",
		Title: "the alphanumeric filter",
		Rule: "AlphaNumeric, in a new and in a used buffer, on every scalar value alone, before and after marks and punctuation, on byte strings of length up to 2, and on seeded valid and invalid texts and their word tokens, compared with a search for [\\pL\\pN]. " +
			"Non-trivial: at least two characters; distinct by bytes.",
		Run: func(x *Ctx) {
			run := func(w *W, text []byte) {
				c := &Case{Oracle: "alnum", Kind: ref.Words, Text: text}
				w.Eval(1)
				w.Guard(c, func() error { return alnum(c) })
			}
			const per = 256
			x.Parallel("codepoints", 0x110000/per, func(w *W, idx int) {
				for r := rune(idx * per); r < rune((idx+1)*per); r++ {
					if r >= 0xD800 && r <= 0xDFFF {
						continue
					}
					s := string(r)
					for _, t := range []string{s, s + "\u0301", "- " + s, "\u0301" + s + ".", "\xff" + s, s + "\xe2\x80"} {
						run(w, []byte(t))
					}
					w.DistinctN(5)
				}
			})
			x.Exhausted("every scalar value in six contexts")
			x.Parallel("bytes", 256, func(w *W, idx int) {
				run(w, []byte{byte(idx)})
				for b := 0; b < 256; b++ {
					run(w, []byte{byte(idx), byte(b)})
				}
				w.DistinctN(256)
			})
			x.Parallel("random", x.Q(3_000_000, 40_000_000)/16, func(w *W, idx int) {
				for j := 0; j < 16; j++ {
					text, _ := gen.Bytes(w.R, ref.Words, gen.Small)
					run(w, text)
					if utf8.RuneCount(text) > 1 {
						w.Distinct('a', text)
					}
					var none []byte
					for _, r := range string(text) {
						if !letterOrNumber.MatchString(string(r)) {
							none = append(none, string(r)...)
						}
					}
					run(w, none)
					if letterOrNumber.Match(text) {
						w.Count("tokens with a letter or number", 1)
					} else {
						w.Count("tokens without", 1)
					}
					if idx < 10 && j == 0 && len(text) < 60 {
						w.Sample("%+q", text)
					}
				}
			})
			x.Parallel("giant", x.Q(300, 6000), func(w *W, idx int) {
				text := gen.GiantBytes(w.R, ref.Words)
				run(w, text)
				w.Distinct('a', text)
				var none []byte
				for _, r := range string(text) {
					if !letterOrNumber.MatchString(string(r)) {
						none = append(none, string(r)...)
					}
				}
				if len(none) == 0 {
					none = []byte(" ")
				}
				for len(none) < 65530 {
					none = append(none, none...)
				}
				run(w, none)
				run(w, append(none, string(gen.For(ref.Words).Any(w.R))...))
				w.Count("texts beyond 64 KiB", 3)
			})
		},
	})
	Register(&Check{
		ID:    "C25",
		Title: "the generic iterator obeys its split function",
		Level: "fault_enumeration",
		Rule: "Generic iterators (string, bytes, named string) with recording split functions of eight kinds over seeded texts, with a fault (error, zero, negative, one beyond, far beyond) at a seeded call: every token is what the function returned (a single last byte may be returned without asking it), First asks it without moving, Reset and SetText start over, and a fault makes Next and First panic. Also advances and positions beyond 4 GiB. " +
			"Non-trivial: at least two bytes; distinct by bytes, splitter and fault.",
		Run: func(x *Ctx) {
			run := func(w *W, text []byte, which int, f sut.Fault) {
				c := &Case{Oracle: "generic", Kind: ref.Words, Text: text, Args: []int64{int64(which), int64(f.Call), int64(f.Kind)}}
				w.Eval(1)
				w.Guard(c, func() error {
					fired, err := genericObserve(c)
					if fired {
						w.Count("faults delivered: "+sut.FaultNames[f.Kind], 1)
					}
					return err
				})
				if len(text) > 1 {
					w.Distinct(byte('a'+which), append([]byte{byte(f.Call + 1), byte(f.Kind)}, text...))
				}
			}
			x.Parallel("random", x.Q(800_000, 12_000_000)/16, func(w *W, idx int) {
				for j := 0; j < 16; j++ {
					text, _ := gen.Bytes(w.R, ref.Words, gen.Small)
					if len(text) > 120 {
						text = text[:120]
					}
					which := w.R.Intn(len(sut.SplitterNames))
					run(w, text, which, sut.Fault{Call: -1})
					run(w, text, which, sut.Fault{Call: w.R.Intn(6), Kind: w.R.Intn(len(sut.FaultNames))})
					w.Count("splitter "+sut.SplitterNames[which], 1)
					if idx < 10 && j == 0 {
						w.Sample("splitter %s over %+q", sut.SplitterNames[which], text)
					}
				}
			})
			// Long texts, for the split functions that take large steps.
			x.Parallel("long", x.Q(2000, 40_000), func(w *W, idx int) {
				var text []byte
				if idx%4 == 0 {
					text = gen.GiantBytes(w.R, ref.Words)
				} else {
					for n := 200 + w.R.Intn(3000); len(text) < n; {
						b, _ := gen.Bytes(w.R, ref.Words, gen.Medium)
						text = append(text, b...)
					}
					text = text[:min(len(text), 9000)]
					if n := gen.Size(w.R, ref.Words, 2, 9000); n > 0 && w.R.Intn(3) == 0 {
						text = text[:min(len(text), n)]
					}
				}
				which := 5 + w.R.Intn(2)
				if len(text) < 600 {
					which = w.R.Intn(len(sut.SplitterNames))
				}
				run(w, text, which, sut.Fault{Call: -1})
				run(w, text, which, sut.Fault{Call: w.R.Intn(3), Kind: w.R.Intn(len(sut.FaultNames))})
				w.Count("long texts", 1)
			})
			if !x.Light {
				x.Parallel("huge", 1, func(w *W, _ int) {
					c := &Case{Oracle: "generic-huge", Kind: ref.Words}
					w.Eval(1)
					w.Guard(c, func() error {
						n, err := genericHugeObserve()
						w.Count("tokens of texts beyond 4 GiB", n)
						return err
					})
				})
			}
			x.Parallel("faults", 6*len(sut.SplitterNames), func(w *W, idx int) {
				text := []byte([]string{"a", "ab", "hello world 42", "x\ny", "\xff\xc3", "日本 語"}[idx%6])
				for call := 0; call <= len(text); call++ {
					for kind := range sut.FaultNames {
						run(w, text, idx/6, sut.Fault{Call: call, Kind: kind})
					}
				}
			})
			x.Exhausted("every fault at every call over six short texts and eight splitters")
			for _, n := range sut.FaultNames {
				x.Require(x.Counted("faults delivered: "+n) > 500, "fault "+n)
			}
		},
	})
	harness.Main(nil)
}
