package main

import (
	"fmt"
	"os"
	"strings"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	. "github.com/clipperhouse/uax29/v2/verifmon/harness"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/sut"
	"github.com/clipperhouse/uax29/v2/verifmon/ucd"
)

// conform: the boundaries every entry point reports are the reference's.
func conform(c *Case) error { return conformHits(c, nil) }

func conformHits(c *Case, h ref.Hits) error {
	want := ref.EndsAny(c.Kind, c.Text, h)
	got, err := sut.Drain(sut.String(c.Kind, string(c.Text)), len(c.Text), nil)
	if err != nil {
		return fmt.Errorf("%v.FromString: %w", c.Kind, err)
	}
	if err := sut.Diff(c.Text, c.Kind.String()+".FromString", got, "UAX #29", want); err != nil {
		return err
	}
	got, err = sut.Drain(sut.Bytes(c.Kind, c.Text), len(c.Text), got)
	if err != nil {
		return fmt.Errorf("%v.FromBytes: %w", c.Kind, err)
	}
	if err := sut.Diff(c.Text, c.Kind.String()+".FromBytes", got, "UAX #29", want); err != nil {
		return err
	}
	got, err = sut.SplitEnds(sut.SplitFunc(c.Kind), c.Text, got)
	if err != nil {
		return fmt.Errorf("%v.%w", c.Kind, err)
	}
	if err := sut.Diff(c.Text, c.Kind.String()+".SplitFunc", got, "UAX #29", want); err != nil {
		return err
	}
	if len(c.Args) == 0 || c.Args[0] == 0 {
		return nil
	}
	// The other entry points: a scanner, and First on what is left.
	sc := sut.Reader(c.Kind, deliver(c.Text))
	if len(c.Text) >= 60000 {
		sc.Buffer(nil, len(c.Text)+100)
	} else if len(c.Text) < 500 {
		sc.Buffer(make([]byte, 512), 1<<16)
	}
	got = got[:0]
	pos := 0
	for sc.Scan() {
		pos += len(sc.Bytes())
		got = append(got, pos)
	}
	if err := sc.Err(); err != nil {
		return fmt.Errorf("%v.FromReader: %w", c.Kind, err)
	}
	if err := sut.Diff(c.Text, c.Kind.String()+".FromReader", got, "UAX #29", want); err != nil {
		return err
	}
	got = got[:0]
	its, itb := sut.String(c.Kind, ""), sut.Bytes(c.Kind, nil)
	s := string(c.Text)
	for pos := 0; pos < len(s); {
		n := 0
		if len(got)&1 == 0 {
			its.SetText(s[pos:])
			n = len(its.First())
		} else {
			itb.SetText(c.Text[pos:])
			n = len(itb.First())
		}
		if n == 0 {
			return fmt.Errorf("%v.First is empty at byte %d", c.Kind, pos)
		}
		pos += n
		got = append(got, pos)
	}
	return sut.Diff(c.Text, c.Kind.String()+".First", got, "UAX #29", want)
}

func init() {
	RegisterOracle("conform", conform)
	for k, id := range []string{"C01", "C02", "C03", "C04"} {
		k := ref.Kind(k)
		Register(&Check{
			ID:    id,
			Title: k.String() + " boundaries follow the specification",
			Rule: "Executions of FromString, FromBytes and SplitFunc, and of FromReader (7 manners of delivery) and First on part of the texts, each compared boundary by boundary with the independent positional UAX #29 reference. " +
				"Cases: every class sequence up to the enumerated length (one symbol per property value, ASCII and non-ASCII members apart), every ASCII string up to the enumerated length, every sequence of two or three rule motifs, seeded random texts in 12 modes, and texts and tokens beyond 64 KiB. " +
				"Non-trivial: at least two code points; distinct by text (enumerations by construction).",
			Run: func(x *Ctx) { runConform(x, k) },
		})
	}
}

// symbols is the enumeration alphabet: a representative of each property set,
// plus an ASCII or non-ASCII twin where the pool has both.
func symbols(k ref.Kind) ([]rune, []ucd.Set) {
	a := gen.For(k)
	t := k.Table()
	var out []rune
	for i, p := range a.Pools {
		var asc, non rune = -1, -1
		for _, r := range p.Runes {
			if r < 0x80 && (asc < 0 || asc < 0x20) {
				asc = r
			}
			if r >= 0xA0 && non < 0 {
				non = r
			}
		}
		if asc >= 0 {
			out = append(out, asc)
		}
		if non >= 0 {
			out = append(out, non)
		}
		if asc < 0 && non < 0 {
			out = append(out, a.Reps[i])
		}
	}
	var cs []ucd.Set
	for _, r := range out {
		cs = append(cs, t[r])
	}
	return out, cs
}

func runConform(x *Ctx, k ref.Kind) {
	syms, cls := symbols(k)
	S := len(syms)
	enc := make([]string, S)
	for i, r := range syms {
		enc[i] = string(r)
	}
	maxLen := x.Depth(5, 6)
	if k == ref.Sentences {
		maxLen = x.Depth(5, 7)
	}
	if k == ref.Graphemes || k == ref.Sentences {
		x.Set("enumeration_alphabet", fmt.Sprintf("%+q", syms))
	}

	// Sanity of the oracle itself: the embedded reference on the motifs must
	// reproduce a handful of textbook results; otherwise nothing is decided.
	for _, g := range golden[k] {
		if os.Getenv("VERIF_UCD") != "" {
			break // other data, other results
		}
		if got := sut.Show([]byte(g.in), ref.Ends(k, []byte(g.in))); got != g.want {
			x.Inconclusive(fmt.Sprintf("reference self-test: %+q gives %s, want %s", g.in, got, g.want))
			return
		}
	}

	// 1. Every class sequence of length 1..maxLen.
	for L := 1; L <= maxLen; L++ {
		head := max(0, L-3)
		n := 1
		for i := 0; i < head; i++ {
			n *= S
		}
		inner := 1
		for i := head; i < L; i++ {
			inner *= S
		}
		L := L
		x.Parallel(fmt.Sprintf("sequences-%d", L), n, func(w *W, idx int) {
			seq := make([]int, L)
			c := make([]ucd.Set, L)
			var text []byte
			var want, got, ends []int
			q := idx
			for i := 0; i < head; i++ {
				seq[i] = q % S
				q /= S
			}
			cs := &Case{Oracle: "conform", Kind: k}
			split := sut.SplitFunc(k)
			w.Guard(cs, func() error {
				for j := 0; j < inner; j++ {
					q := j
					for i := head; i < L; i++ {
						seq[i] = q % S
						q /= S
					}
					text, ends = text[:0], ends[:0]
					for i, s := range seq {
						text = append(text, enc[s]...)
						ends = append(ends, len(text))
						c[i] = cls[s]
					}
					cs.Text = text
					want = ref.Boundaries(k, c, want, nil)
					for i, e := range want {
						want[i] = ends[e-1]
					}
					var err error
					switch (j + idx) % 3 {
					case 0:
						got, err = sut.Drain(sut.Bytes(k, text), len(text), got)
					case 1:
						got, err = sut.Drain(sut.String(k, string(text)), len(text), got)
					default:
						got, err = sut.SplitEnds(split, text, got)
					}
					if err != nil || !sut.Same(got, want) {
						if w.Judge(&Case{Oracle: "conform", Kind: k, Text: append([]byte{}, text...)}) {
							return fmt.Errorf("a mismatch did not repeat: got %v want %v (%v)", got, want, err)
						}
						if len(w.X.Violations()) > 8 {
							return nil
						}
					}
				}
				return nil
			})
			w.Eval(inner)
			if L > 1 {
				w.DistinctN(int64(inner))
			}
			w.Count("class sequences", int64(inner))
		})
	}
	x.Exhausted(fmt.Sprintf("all sequences of %d symbols up to length %d", S, maxLen))

	// The shorter ones through scanners, however the bytes arrive, and First.
	x.Parallel("sequences-all-entry-points", S*S, func(w *W, idx int) {
		for j := 0; j < S*(S+1); j++ {
			text := enc[idx/S] + enc[idx%S]
			if j < S {
				text += enc[j]
			} else {
				text += enc[(j-S)/S] + enc[j%S]
			}
			c := &Case{Oracle: "conform", Kind: k, Text: []byte(text), Args: []int64{1}}
			w.Guard(c, func() error { return conformHits(c, nil) })
		}
		w.Eval(5 * S * (S + 1))
		w.Count("texts also through scanners and First", int64(S*(S+1)))
	})

	// 2. Every ASCII string of length up to 3 (quick) — fast paths live here —
	// with and without a non-ASCII tail.
	tails := []string{"", "\u0301", "\u05d0", "\U0001F600"}
	x.Parallel("ascii", 128*len(tails), func(w *W, idx int) {
		tail := tails[idx/128]
		a := byte(idx % 128)
		var got []int
		cs := &Case{Oracle: "conform", Kind: k}
		do := func(text []byte, odd bool) {
			cs.Text = text
			want := ref.Ends(k, text)
			var err error
			if odd {
				got, err = sut.Drain(sut.Bytes(k, text), len(text), got)
			} else {
				got, err = sut.Drain(sut.String(k, string(text)), len(text), got)
			}
			if err != nil || !sut.Same(got, want) {
				w.Judge(&Case{Oracle: "conform", Kind: k, Text: append([]byte{}, text...)})
			}
		}
		n := 0
		w.Guard(cs, func() error {
			do(append([]byte{a}, tail...), false)
			n++
			for b := 0; b < 128; b++ {
				do(append([]byte{a, byte(b)}, tail...), true)
				n++
				for c := 0; c < 128; c++ {
					do(append([]byte{a, byte(b), byte(c)}, tail...), (a^byte(b)^byte(c))&1 == 0)
					n++
				}
			}
			return nil
		})
		w.Eval(n)
		w.DistinctN(int64(n))
		w.Count("ASCII strings", int64(n))
	})
	x.Exhausted("all ASCII strings up to length 3, plain and before four non-ASCII tails")

	// 3. Every pair and triple of motifs.
	ms := gen.Motifs(k)
	M := len(ms)
	x.Parallel("motifs", M*M, func(w *W, idx int) {
		h := ref.Hits{}
		for j := -1; j < M; j++ {
			s := ms[idx/M] + ms[idx%M]
			if j >= 0 {
				s += ms[j]
			}
			c := &Case{Oracle: "conform", Kind: k, Text: []byte(s), Args: []int64{int64(j & 1)}}
			w.Eval(1)
			w.Guard(c, func() error { return conformHits(c, h) })
			w.Distinct('c', c.Text)
		}
		for r, n := range h {
			w.Count("rule "+r, int64(n))
		}
		w.Count("motif products", int64(M+1))
	})

	// 4. Seeded random texts.
	random := func(group string, n int, sc gen.Scale) {
		per := 64
		if sc == gen.Large {
			per = 8
		}
		x.Parallel(group, n/per, func(w *W, idx int) {
			h := ref.Hits{}
			for j := 0; j < per; j++ {
				s, m := gen.Text(w.R, k, sc)
				c := &Case{Oracle: "conform", Kind: k, Text: []byte(s)}
				w.Eval(3)
				if j&3 == 0 {
					c.Args = []int64{1}
					w.Eval(2)
					w.Count("texts also through scanners and First", 1)
				}
				w.Guard(c, func() error { return conformHits(c, h) })
				if utf8.RuneCountInString(s) > 1 {
					w.Distinct('c', c.Text)
				}
				w.Count("mode "+gen.ModeNames[m], 1)
				if idx < 40 && j == 0 && len(s) < 80 {
					w.Sample("%s: %s", gen.ModeNames[m], sut.Show(c.Text, ref.Ends(k, c.Text)))
				}
			}
			for r, n := range h {
				w.Count("rule "+r, int64(n))
			}
		})
	}
	random("random-small", x.Q(4_000_000, 60_000_000), gen.Small)
	random("random-medium", x.Q(600_000, 8_000_000), gen.Medium)
	random("random-large", x.Q(24_000, 400_000), gen.Large)

	// Runs of every length near a power of two, as counters may have: every
	// class between every two classes, then seeded heads and tails around one
	// or two classes in turn.
	runLens := []int{6, 7, 8, 9, 10, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513}
	x.Parallel("run-lengths", S*S, func(w *W, idx int) {
		h := ref.Hits{}
		a, u := enc[idx%S], enc[idx/S]
		c := &Case{Oracle: "conform", Kind: k}
		w.Guard(c, func() error {
			for i, n := range runLens[:21] {
				run := a + strings.Repeat(u, n)
				for j := (idx + i) % 2; j < S; j += 2 {
					c.Text = append(append(c.Text[:0], run...), enc[j]...)
					if err := conformHits(c, h); err != nil {
						c.Text = append([]byte{}, c.Text...)
						return err
					}
					w.Eval(3)
					w.DistinctN(1)
				}
			}
			return nil
		})
		w.Count("runs of one class between two others", int64(21*S/2))
		for r, n := range h {
			w.Count("rule "+r, int64(n))
		}
	})
	x.Parallel("run-lengths-seeded", x.Q(24_000, 1_000_000), func(w *W, idx int) {
		h := ref.Hits{}
		pick := func(n int) string {
			out := ""
			for i := 0; i < n; i++ {
				out += enc[w.R.Intn(S)]
			}
			return out
		}
		head, unit, tail := pick(w.R.Intn(4)), pick(1+w.R.Intn(2)), pick(w.R.Intn(4))
		if w.R.Intn(4) == 0 {
			head = gen.Motif(w.R, k)
		}
		if w.R.Intn(4) == 0 {
			tail = gen.Motif(w.R, k)
		}
		c := &Case{Oracle: "conform", Kind: k}
		w.Guard(c, func() error {
			lens := runLens
			if n := gen.Size(w.R, k, 3, 4000); n > 0 {
				lens = append(lens[:len(lens):len(lens)], n)
			}
			for _, n := range lens {
				c.Text = []byte(head + strings.Repeat(unit, n) + tail)
				c.Args = nil
				if n == 256 || n == 64 {
					c.Args = []int64{1}
				}
				if err := conformHits(c, h); err != nil {
					return err
				}
				w.Eval(3)
				w.Distinct('c', c.Text)
			}
			return nil
		})
		w.Count("runs of one or two classes after a head and before a tail", int64(len(runLens)))
		for r, n := range h {
			w.Count("rule "+r, int64(n))
		}
	})

	// Tokens, and texts, beyond 64 KiB.
	x.Parallel("giant", x.Q(400, 10_000), func(w *W, idx int) {
		h := ref.Hits{}
		c := &Case{Oracle: "conform", Kind: k, Text: []byte(gen.Giant(w.R, k)), Args: []int64{1}}
		w.Eval(5)
		w.Guard(c, func() error { return conformHits(c, h) })
		w.Distinct('c', c.Text)
		w.Count("texts beyond 64 KiB", 1)
		for r, n := range h {
			w.Count("rule "+r, int64(n))
		}
	})

	// Texts of many megabytes.
	if !x.Light {
		x.Parallel("colossal", x.Q(6, 40), func(w *W, idx int) {
			n := []int{1 << 24, 1 << 22, 1 << 23, 1 << 21, 3 << 20, 10_000_000}[idx%6] + w.R.Intn(9) - 4
			c := &Case{Oracle: "conform", Kind: k, Text: []byte(gen.Colossal(w.R, k, n)), Args: []int64{1}}
			w.Eval(5)
			w.Guard(c, func() error { return conform(c) })
			w.Distinct('c', c.Text)
			w.Count("texts beyond 1 MiB", 1)
			w.Count("bytes of texts beyond 1 MiB", int64(len(c.Text)))
		})
	}

	// Every motif, opened at every boundary by a gap of more than 64 KiB.
	ms, ng := gen.Motifs(k), gen.Gaps(k)
	x.Parallel("gapped", x.Q(600, 20_000), func(w *W, idx int) {
		h := ref.Hits{}
		m := ms[w.R.Intn(len(ms))]
		n := 65537 + w.R.Intn(70)
		if w.R.Intn(8) == 0 {
			n *= 2
		}
		text, ok := gen.Gapped(k, m, w.R.Intn(utf8.RuneCountInString(m)+1), w.R.Intn(ng), n)
		if !ok {
			return
		}
		c := &Case{Oracle: "conform", Kind: k, Text: []byte(text), Args: []int64{1}}
		w.Eval(5)
		w.Guard(c, func() error { return conformHits(c, h) })
		w.Distinct('c', c.Text)
		w.Count("motifs opened by a gap beyond 64 KiB", 1)
		for r, n := range h {
			w.Count("rule "+r, int64(n))
		}
	})

	// 5. The multilingual sample, whole, cut at a rolling set of offsets.
	sample := ucd.File("sample.txt")
	x.Parallel("sample", x.Q(16, 400), func(w *W, idx int) {
		i := 0
		if idx > 0 {
			i = w.R.Intn(len(sample))
		}
		for !utf8.RuneStart(sample[i]) {
			i++
		}
		w.Judge(&Case{Oracle: "conform", Kind: k, Text: append([]byte{}, sample[i:]...)})
		w.Distinct('c', sample[i:])
	})

	for _, rule := range rules[k] {
		x.Require(x.Counted("rule "+rule) > 100, "rule "+rule)
	}
}

var rules = map[ref.Kind][]string{
	ref.Graphemes: {"GB3", "GB4", "GB5", "GB6", "GB7", "GB8", "GB9", "GB9a", "GB9b", "GB9c", "GB11", "GB12/13", "GB999", "GB999-RI"},
	ref.Words:     {"WB3", "WB3a", "WB3b", "WB3c", "WB3d", "WB4", "WB5", "WB6", "WB7", "WB7a", "WB7b", "WB7c", "WB8", "WB9", "WB10", "WB11", "WB12", "WB13", "WB13a", "WB13b", "WB15/16", "WB999", "WB999-RI"},
	ref.Sentences: {"SB3", "SB4", "SB5", "SB6", "SB7", "SB8", "SB8a", "SB9", "SB10", "SB11", "SB998"},
	ref.Phrases:   {"WB3", "WB3a", "WB3b", "WB3c", "WB3d", "WB4", "WB5", "WB6", "WB7", "WB7a", "WB7b", "WB7c", "WB8", "WB9", "WB10", "phrase-space", "WB11", "WB12", "WB13", "WB13a", "WB13b", "WB15/16", "WB999", "WB999-RI"},
}

// golden are results taken from the standard's text and test files, written
// out here so that a broken reference is noticed before it judges anything.
var golden = map[ref.Kind][]struct{ in, want string }{
	ref.Graphemes: {
		{"e\u0301a", `"e\u0301"|"a"`},
		{"\r\n\u0301", `"\r\n"|"\u0301"`},
		{"\U0001F1E6\U0001F1E7\U0001F1E8", `"\U0001f1e6\U0001f1e7"|"\U0001f1e8"`},
		{"\u0915\u094d\u200d\u0924", `"\u0915\u094d\u200d\u0924"`},
		{"\U0001F476\U0001F3FF\u200d\U0001F6D1a", `"\U0001f476\U0001f3ff\u200d\U0001f6d1"|"a"`},
	},
	ref.Words: {
		{"can't 3.5x", `"can't"|" "|"3.5x"`},
		{"a.\u0301b,c", `"a.\u0301b"|","|"c"`},
		{"\u05d0\"\u05d0'", `"\u05d0\"\u05d0'"`},
		{"1.a  \u3000", `"1"|"."|"a"|"  \u3000"`},
	},
	ref.Sentences: {
		{"3.4 etc.) a. (A", `"3.4 etc.) a. "|"(A"`},
		{"U.S. No.\nx", `"U.S. "|"No.\n"|"x"`},
		{"Hi! there? \"A\"", `"Hi! "|"there? "|"\"A\""`},
	},
	ref.Phrases: {
		{"a b, c", `"a b"|","|" c"`},
		{"\U0001F600 a\n", `"\U0001f600 a"|"\n"`},
	},
}
