package main

import (
	"bytes"
	"fmt"
	"io"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	. "github.com/clipperhouse/uax29/v2/verifmon/harness"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/sut"
	"github.com/clipperhouse/uax29/v2/words"
)

func variant(c *Case) sut.Variant {
	v := sut.Variant{Kind: c.Kind}
	if len(c.Args) > 0 {
		v.Ansi7 = c.Args[0]&1 != 0
		v.Ansi8 = c.Args[0]&2 != 0
		v.Joined = c.Args[0]&4 != 0
	}
	if len(c.Strs) > 1 {
		v.Middle, v.Leading = gen.RunesOf(c.Strs[0]), gen.RunesOf(c.Strs[1])
	}
	return v
}

func variantCase(oracle string, v sut.Variant, text []byte) *Case {
	var f int64
	if v.Ansi7 {
		f |= 1
	}
	if v.Ansi8 {
		f |= 2
	}
	if v.Joined {
		f |= 4
	}
	return &Case{Oracle: oracle, Kind: v.Kind, Text: text, Args: []int64{f}, Strs: []string{gen.RunesStr(v.Middle), gen.RunesStr(v.Leading)}}
}

// partition: whatever the bytes and options, every entry point terminates
// without panicking and its tokens are the input, cut up.
func partition(c *Case) error {
	v := variant(c)
	n := len(c.Text)
	if _, err := sut.Partition(v.String_(string(c.Text)), string(c.Text), nil); err != nil {
		return fmt.Errorf("%v.FromString: %w", v, err)
	}
	if _, err := sut.Partition(v.Bytes_(c.Text), c.Text, nil); err != nil {
		return fmt.Errorf("%v.FromBytes: %w", v, err)
	}
	f := v.String_(string(c.Text)).First()
	if len(f) > n || f != string(c.Text[:len(f)]) || len(f) == 0 && n > 0 {
		return fmt.Errorf("%v First gives %+q", v, f)
	}
	valid := utf8.Valid(c.Text)
	if valid && !utf8.ValidString(f) {
		return fmt.Errorf("%v First %+q of valid UTF-8 is not valid UTF-8", v, f)
	}
	if b := v.Bytes_(c.Text).First(); len(b) > n || len(b) == 0 && n > 0 || string(b) != string(c.Text[:len(b)]) || valid && !utf8.Valid(b) {
		return fmt.Errorf("%v First of bytes gives %+q", v, b)
	}
	if n%8 == 0 {
		if err := reuse(v.String_, string(c.Text)); err != nil {
			return fmt.Errorf("%v string iterator: %w", v, err)
		}
		if err := reuse(v.Bytes_, c.Text); err != nil {
			return fmt.Errorf("%v byte iterator: %w", v, err)
		}
	}
	if !v.HasReader() {
		return nil
	}
	sc := v.Reader(deliver(c.Text))
	if n >= 60000 {
		sc.Buffer(nil, n+100)
	}
	var out []byte
	toks := 0
	for sc.Scan() {
		t := sc.Bytes()
		if toks++; len(t) == 0 || toks > n {
			return fmt.Errorf("%v.FromReader: token %d is %+q", v, toks, t)
		}
		if valid && !utf8.Valid(t) {
			return fmt.Errorf("%v.FromReader: token %+q of valid UTF-8 is not valid UTF-8", v, t)
		}
		out = append(out, t...)
	}
	if err := sc.Err(); err != nil {
		return fmt.Errorf("%v.FromReader: Err: %w", v, err)
	}
	if !bytes.Equal(out, c.Text) {
		return fmt.Errorf("%v.FromReader: tokens add up to %+q", v, out)
	}
	if v.Joined {
		return nil
	}
	if c.Kind == ref.Words {
		// No joiners, said in one of several ways.
		i := n
		for _, b := range c.Text[:min(n, 16)] {
			i += int(b)
		}
		its := words.FromString(string(c.Text))
		its.Joiners(noJoiners[string](i))
		if _, err := sut.Partition(sut.Iter[string](its), string(c.Text), nil); err != nil {
			return fmt.Errorf("FromString with empty joiners %d: %w", i%noJoinersN, err)
		}
		sc := words.FromReader(deliver(c.Text))
		sc.Joiners(noJoiners[[]byte](i))
		if n >= 60000 {
			sc.Buffer(nil, n+100)
		}
		out = out[:0]
		for sc.Scan() {
			if out = append(out, sc.Bytes()...); len(sc.Bytes()) == 0 || len(out) > n {
				return fmt.Errorf("FromReader with empty joiners %d: token %+q", i%noJoinersN, sc.Bytes())
			}
		}
		if err := sc.Err(); err != nil || !bytes.Equal(out, c.Text) {
			return fmt.Errorf("FromReader with empty joiners %d: tokens add up to %+q, Err: %v", i%noJoinersN, out, err)
		}
	}
	split := sut.SplitFunc(c.Kind)
	if _, err := sut.SplitEnds(split, c.Text, nil); err != nil {
		return fmt.Errorf("%v.%w", c.Kind, err)
	}
	for _, eof := range []bool{false, true} {
		adv, tok, err := split(nil, eof)
		if adv != 0 || len(tok) != 0 || err != nil {
			return fmt.Errorf("%v.SplitFunc(nil, %v) = %d, %q, %v", c.Kind, eof, adv, tok, err)
		}
	}
	adv, tok, err := split(c.Text, false)
	if err != nil || adv < 0 || adv > n || string(tok) != string(c.Text[:adv]) {
		return fmt.Errorf("%v.SplitFunc(data, false) = %d, %+q, %v", c.Kind, adv, tok, err)
	}
	return nil
}

// reuse: an iterator that has been through some of one text, or all of it,
// goes through the next from its start, be it longer, shorter or empty, and
// again after Reset.
func reuse[T ~string | ~[]byte](make func(T) sut.Iter[T], text T) error {
	n := len(text)
	var none T
	sizes := []int{n, 0, n / 2, n, n / 4, 0, n}
	if n >= 60000 {
		sizes = []int{n / 2, 0, n, n / 3}
	}
	it := make(text[:sizes[0]])
	for k, size := range sizes {
		t := text[:size]
		if size == 0 && k > 1 {
			t = none
		}
		if k > 0 {
			it.SetText(t)
		}
		if s, e := it.Start(), it.End(); s != 0 || e != 0 || len(it.Value()) != 0 {
			return fmt.Errorf("SetText to %d bytes (%d): at [%d,%d), value %+q", size, k, s, e, it.Value())
		}
		for round := 0; round < 2; round++ {
			toks := 0
			for p := 0; ; toks++ {
				if round == 0 && toks > (n+k)%7+k%2*n {
					break // not to the end
				}
				more := it.Next()
				if more != (p < size) {
					return fmt.Errorf("text %d of %d bytes: Next at %d gives %v", k, size, p, more)
				}
				if !more {
					if toks > 0 && (it.End() != size || string(it.Value()) != string(t[it.Start():])) {
						return fmt.Errorf("text %d of %d bytes: at the end, [%d,%d), value %+q", k, size, it.Start(), it.End(), it.Value())
					}
					break
				}
				s, e := it.Start(), it.End()
				if s != p || e <= s || e > size || string(it.Value()) != string(t[s:e]) {
					return fmt.Errorf("text %d of %d bytes: token [%d,%d), value %+q after end %d", k, size, s, e, it.Value(), p)
				}
				p = e
			}
			if round == 0 {
				it.Reset()
			}
		}
	}
	return nil
}

const noJoinersN = 5

// noJoiners are the ways to say that there are no joiners.
func noJoiners[T ~string | ~[]byte](i int) *words.Joiners[T] {
	return []*words.Joiners[T]{nil, {}, {Middle: []rune{}}, {Leading: []rune{}}, {Middle: []rune{}, Leading: []rune{}}}[i%noJoinersN]
}

// deliver is a reader over the text whose manner of delivery depends on the
// text alone: all at once, by single bytes, in pieces of fixed or random size,
// with empty reads, or cut inside code points.
func deliver(text []byte) io.Reader {
	h := uint64(len(text)) + 77
	for i := 0; i < len(text) && i < 64; i++ {
		h = (h ^ uint64(text[i])) * 0x9E3779B97F4A7C15
		h ^= h >> 29
	}
	h ^= h >> 32
	mode := int(h % (rdModes + 1))
	if mode >= rdWhole {
		return &onceReader{text}
	}
	size := 1 + int(h>>8%9)
	if len(text) > 4096 {
		size += len(text) / 32
		if mode == rdOne || mode == rdMidRune {
			mode = rdFixed
		}
	}
	return &chunkReader{text: text, mode: mode, size: size, failAt: -1, rng: gen.NewRng(int64(h), 0)}
}

type onceReader struct{ b []byte }

func (r *onceReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

// agree: all entry points of a package cut the same text the same way, be it
// valid or not.
func agree(c *Case) error {
	v := variant(c)
	want, err := sut.Drain(v.Bytes_(c.Text), len(c.Text), nil)
	if err != nil {
		return fmt.Errorf("%v.FromBytes: %w", v, err)
	}
	cmp := func(name string, got []int, err error) error {
		if err != nil {
			return fmt.Errorf("%v.%s: %w", v, name, err)
		}
		return sut.Diff(c.Text, fmt.Sprintf("%v.%s", v, name), got, "FromBytes", want)
	}
	got, err := sut.Drain(v.String_(string(c.Text)), len(c.Text), nil)
	if err := cmp("FromString", got, err); err != nil {
		return err
	}
	// First, repeatedly, on what is left.
	whole := string(c.Text)
	got = got[:0]
	for pos := 0; pos < len(c.Text); {
		f := v.Bytes_(c.Text[pos:]).First()
		g := v.String_(whole[pos:]).First()
		if string(f) != g {
			return fmt.Errorf("%v: First of bytes %+q, of string %+q", v, f, g)
		}
		if len(f) == 0 {
			return fmt.Errorf("%v: First is empty at %d", v, pos)
		}
		pos += len(f)
		got = append(got, pos)
	}
	if err := cmp("First", got, nil); err != nil {
		return err
	}
	if v.HasReader() {
		sc := v.Reader(deliver(c.Text))
		if len(c.Text) >= 60000 {
			sc.Buffer(nil, len(c.Text)+100)
		}
		got = got[:0]
		pos := 0
		for sc.Scan() {
			if pos += len(sc.Bytes()); string(sc.Bytes()) != sc.Text() {
				return fmt.Errorf("%v: Scanner Bytes and Text differ", v)
			}
			got = append(got, pos)
		}
		if err := cmp("FromReader", got, sc.Err()); err != nil {
			return err
		}
	}
	if !v.Ansi7 && !v.Ansi8 && !v.Joined {
		got, err = sut.SplitEnds(sut.SplitFunc(c.Kind), c.Text, got)
		if err := cmp("SplitFunc", got, err); err != nil {
			return err
		}
	}
	if c.Kind == ref.Words && len(v.Middle) == 0 && len(v.Leading) == 0 {
		// No joiners, said in every way, is the default.
		for i := 0; i < noJoinersN; i++ {
			it := words.FromBytes(c.Text)
			it.Joiners(noJoiners[[]byte](i))
			got, err = sut.Drain(sut.Iter[[]byte](it), len(c.Text), got)
			if err := cmp(fmt.Sprintf("FromBytes with empty joiners %d", i), got, err); err != nil {
				return err
			}
		}
	}
	if v.Joined {
		var ns words.Iterator[namedString]
		ns.Joiners(&words.Joiners[namedString]{Middle: v.Middle, Leading: v.Leading})
		ns.SetText(namedString(whole))
		got, err = sut.Drain[namedString](&ns, len(whole), got)
		if err := cmp("Iterator[named string]", got, err); err != nil {
			return err
		}
		var nb words.Iterator[namedBytes]
		nb.SetText(namedBytes(c.Text))
		nb.Joiners(&words.Joiners[namedBytes]{Middle: v.Middle, Leading: v.Leading})
		got, err = sut.Drain[namedBytes](&nb, len(whole), got)
		if err := cmp("Iterator[named bytes]", got, err); err != nil {
			return err
		}
	}
	// A reused iterator.
	it := v.String_("abc d\u0301 \U0001F1FA")
	it.Next()
	it.SetText(string(c.Text))
	got, err = sut.Drain(it, len(c.Text), got)
	return cmp("SetText", got, err)
}

// wellformed: tokens of valid text, however obtained, are valid text.
func init() {
	RegisterOracle("partition", partition)
	RegisterOracle("agree", agree)
	Register(&Check{
		ID:    "C06",
		Title: "lossless, terminating, panic-free on all bytes",
		Rule: "Every entry point (string and byte iterators, First, SplitFunc with and without EOF, Scanner over readers of 7 manners of delivery, no joiners said as nil or as empty lists) under every option combination, on: all byte strings up to the enumerated length, and seeded arbitrary bytes in 8 modes (truncations, flips, malformed units, controls, valid); and texts beyond 4 GiB of address space that repeat 16 MiB over and over, with tokens known from the repeated part, or all one token. " +
			"Every eighth text, by length, also through an iterator reused for texts longer, shorter and empty. Each execution is checked online: tokens consecutive, non-empty, in range, Value = data[Start:End], sum = input, Next false at the end and stays false, no panic. Non-trivial: at least two bytes; distinct by bytes and tokenizer.",
		Run: func(x *Ctx) { runBytes(x, "partition", true); runHuge(x) },
	})
	Register(&Check{
		ID:    "C07",
		Title: "all entry points agree",
		Rule: "For each text (valid and invalid bytes, all enumerated short byte strings, seeded modes) and option combination: boundaries from FromBytes, FromString, repeated First, Scanner over readers of 7 manners of delivery, repeated SplitFunc at EOF, SetText on a used iterator, named types, and empty joiners, compared with each other. " +
			"Non-trivial: at least two bytes; distinct by bytes and tokenizer.",
		Run: func(x *Ctx) { runBytes(x, "agree", false) },
	})
	Register(&Check{
		ID:    "C18",
		Title: "no code point is ever split",
		Rule: "Valid UTF-8 texts (enumerated class sequences over multi-byte representatives, all code points next to ASCII and controls, seeded modes) under every option combination and entry point; every token must be valid UTF-8 by itself. " +
			"Non-trivial: at least one multi-byte code point; distinct by text and tokenizer.",
		Run: runWellformed,
	})
}

// interesting bytes: every role a byte can have in UTF-8, ASCII, C0, C1, ESC.
var roles = []byte{0x00, 0x07, 0x09, 0x0a, 0x0d, 0x18, 0x1a, 0x1b, ' ', '!', '"', '\'', '(', ',', '-', '.', '0', ':', '?', '@', 'A', 'P', '[', '\\', ']', '_', 'a', 'm', 0x7f,
	0x80, 0x85, 0x90, 0x9b, 0x9c, 0x9d, 0x9f, 0xa0, 0xad, 0xbf, 0xc0, 0xc2, 0xc3, 0xcc, 0xd7, 0xe0, 0xe2, 0xe3, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff}

func runBytes(x *Ctx, oracle string, exhaustive bool) {
	o := partition
	if oracle == "agree" {
		o = agree
	}
	var vs []sut.Variant
	for k := ref.Kind(0); k < 4; k++ {
		vs = append(vs, sut.Variants(k)...)
	}
	one := func(w *W, v sut.Variant, text []byte) {
		c := variantCase(oracle, v, text)
		w.Eval(1)
		w.Guard(c, func() error { return o(c) })
	}
	x.Parallel("bytes-2", 256*len(vs), func(w *W, idx int) {
		v := vs[idx/256]
		a := byte(idx)
		one(w, v, []byte{a})
		for b := 0; b < 256; b++ {
			one(w, v, []byte{a, byte(b)})
		}
		if a == 0 {
			one(w, v, nil)
		}
		w.DistinctN(256)
		w.Count("enumerated byte strings", 257)
	})
	R := len(roles)
	x.Parallel("bytes-3", R*R*len(vs), func(w *W, idx int) {
		v := vs[idx/(R*R)]
		a, b := roles[idx/R%R], roles[idx%R]
		for _, c := range roles {
			one(w, v, []byte{a, b, c})
		}
		w.DistinctN(int64(R))
		w.Count("enumerated byte strings", int64(R))
	})
	if x.Thorough {
		x.Parallel("bytes-4", R*R*R*len(vs), func(w *W, idx int) {
			v := vs[idx/(R*R*R)]
			a, b, c := roles[idx/(R*R)%R], roles[idx/R%R], roles[idx%R]
			for _, d := range roles {
				one(w, v, []byte{a, b, c, d})
			}
			w.DistinctN(int64(R))
			w.Count("enumerated byte strings", int64(R))
		})
	}
	x.Exhausted(fmt.Sprintf("all byte strings up to length 2, and of length %d over %d byte roles, in %d tokenizer variants", x.Q(3, 4), R, len(vs)))
	random := func(group string, n int, sc gen.Scale) {
		per := 32
		if sc == gen.Large {
			per = 4
		}
		x.Parallel(group, n/per, func(w *W, idx int) {
			for j := 0; j < per; j++ {
				v := vs[w.R.Intn(len(vs))]
				if v.Joined && w.R.Intn(2) == 0 {
					v.Middle, v.Leading = randRunes(w.R), randRunes(w.R)
				}
				text, m := gen.Bytes(w.R, v.Kind, sc)
				if v.Joined && w.R.Intn(2) == 0 {
					v.Middle, v.Leading = ownRunes(w.R, text), ownRunes(w.R, text)
				}
				if v.Ansi7 || v.Ansi8 {
					if w.R.Intn(2) == 0 {
						text = ansiText(w.R)
					}
				}
				one(w, v, text)
				if len(text) > 1 {
					w.Distinct('0'+byte(v.Kind), text)
				}
				w.Count("mode "+gen.BytesModeNames[m], 1)
				w.Count("variant "+v.Kind.String(), 1)
				if !utf8.Valid(text) {
					w.Count("invalid UTF-8 inputs", 1)
				}
				if idx < 20 && j == 0 && len(text) < 60 {
					w.Sample("%v %+q", v, text)
				}
			}
		})
	}
	random("random-small", x.Q(4_000_000, 60_000_000), gen.Small)
	random("random-medium", x.Q(400_000, 6_000_000), gen.Medium)
	random("random-large", x.Q(20_000, 300_000), gen.Large)
	x.Parallel("giant", x.Q(600, 12_000), func(w *W, idx int) {
		v := vs[idx%len(vs)]
		text := giantFor(w.R, v)
		one(w, v, text)
		w.Distinct('0'+byte(v.Kind), text)
		w.Count("inputs beyond 64 KiB", 1)
	})
	longRuns(x, vs, one)
	x.Require(x.Counted("invalid UTF-8 inputs") > 10000, "invalid inputs")
}

// longRuns are single tokens, or texts of few, of more than a megabyte.
func longRuns(x *Ctx, vs []sut.Variant, one func(w *W, v sut.Variant, text []byte)) {
	if x.Light {
		return
	}
	most := 0
	for _, v := range vs {
		most = max(most, gen.Fillers(v.Kind))
	}
	n := x.Q(1<<20+1<<17, 1<<22+1<<19)
	x.Parallel("long-runs", most*len(vs)*2, func(w *W, idx int) {
		v := vs[idx%len(vs)]
		unit := idx / len(vs) / 2
		if unit >= gen.Fillers(v.Kind) {
			return
		}
		text := gen.Run(v.Kind, unit, idx/len(vs)%2+w.R.Intn(2)*2, n+w.R.Intn(4096))
		one(w, v, text)
		w.Distinct('0'+byte(v.Kind), text)
		w.Count("runs of more than 1 MiB", 1)
	})
}

// giantFor is an input beyond 64 KiB, suitable to the options of v.
func giantFor(r *gen.Rng, v sut.Variant) []byte {
	if (v.Ansi7 || v.Ansi8) && r.Intn(3) > 0 {
		return giantControl(r, v.Ansi8)
	}
	if r.Intn(2) == 0 {
		return gen.GiantBytes(r, v.Kind)
	}
	return []byte(gen.Giant(r, v.Kind))
}

// giantControl is a control sequence or string whose length straddles 64 KiB
// or another power of two, between ordinary text.
func giantControl(r *gen.Rng, eight bool) []byte {
	openings := openings7
	if eight && r.Intn(3) > 0 {
		openings = openings8
	}
	L := []int{255, 256, 257, 4094, 4095, 4096, 4097, 65533, 65534, 65535, 65536, 65537, 65538, 65600, 131071, 131072, 131073, 262144}[r.Intn(18)] + r.Intn(7) - 3
	var b []byte
	if r.Intn(2) == 0 {
		b = append(b, gen.Motif(r, ref.Graphemes)...)
	}
	b = append(b, openings[r.Intn(len(openings))]...)
	unit := []string{"0", ";", " ", "x", "1;", "?", "!", "\u00e9", "\u4e00", "\x1b", "\xff", "ab\n", "\x1b[", "\U0001F600\u200d", "\x80"}[r.Intn(15)]
	for len(b) < L {
		b = append(b, unit...)
	}
	if r.Intn(4) > 0 {
		b = append(b, closings[r.Intn(len(closings))]...)
	}
	return append(b, ansiStream(r, r.Intn(4), eight)...)
}

// longControl is a sequence of n bytes or more that stays in the state of its
// opening, where a state can be stayed in, and its end.
func longControl(r *gen.Rng, opening string, n int, eight bool) []byte {
	units := []string{"0", ";", " ", "!", "x", "1;", "\u00e9", "\u4e00", "\xff", "ab\n", "\x1b["}
	from := r.Intn(len(units))
	unit := " "
	for i := range units {
		u := units[(from+i)%len(units)]
		if l, last := ctlLength([]byte(opening+u+u), true, eight); l == 0 && last > sCancel {
			if _, next := ctlLength([]byte(opening+u+u+u), true, eight); next == last {
				unit = u
				break
			}
		}
	}
	b := []byte(opening)
	for len(b) < n {
		b = append(b, unit...)
	}
	from = r.Intn(len(closings))
	for i := range closings {
		cl := closings[(from+i)%len(closings)]
		if l, _ := ctlLength([]byte(opening+unit+cl), true, eight); l > 0 {
			b = append(b, cl...)
			break
		}
	}
	return append(b, ansiStream(r, r.Intn(4), eight)...)
}

func randRunes(r *gen.Rng) []rune {
	var out []rune
	n := r.Intn(4)
	if r.Intn(32) == 0 {
		n = r.Intn(60)
	}
	for i := 0; i < n; i++ {
		if r.Intn(48) == 0 {
			// Joins nothing, and breaks nothing.
			out = append(out, gen.NoRunes[r.Intn(len(gen.NoRunes))])
			continue
		}
		switch r.Intn(4) {
		case 3:
			c, _ := utf8.DecodeRuneInString(gen.Piece(r, ref.Words, true))
			out = append(out, c)
		case 0:
			out = append(out, rune(0x20+r.Intn(0x5f)))
		case 1:
			out = append(out, gen.For(ref.Words).Any(r))
		case 2:
			out = append(out, []rune("-@/#.' é\U0001F600")[r.Intn(9)])
		}
	}
	return out
}

// ownRunes are a few of the text's own characters.
func ownRunes(r *gen.Rng, text []byte) []rune {
	var out []rune
	for i := 0; i < 4 && len(text) > 0; i++ {
		if r.Intn(2) == 0 {
			p := r.Intn(len(text))
			for p > 0 && !utf8.RuneStart(text[p]) {
				p--
			}
			c, _ := utf8.DecodeRune(text[p:])
			out = append(out, c)
		}
	}
	return out
}

func runWellformed(x *Ctx) {
	var vs []sut.Variant
	for k := ref.Kind(0); k < 4; k++ {
		vs = append(vs, sut.Variants(k)...)
	}
	lead := []string{"", "a", " ", ".", "\x1b", "\x1b[", "\x1b]", "\n", "\u00e9", "\u4e00", "\U0001F600", "1", "\x1bP"}
	trail := []string{"", "a", "\u0301", "\u05d0", "\x07", "\x1b\\", " ", "\U0001F3FB", "\u200d"}
	const per = 512
	x.Parallel("codepoints", 0x110000/per, func(w *W, idx int) {
		var text []byte
		n := 0
		for r := rune(idx * per); r < rune((idx+1)*per); r++ {
			if r >= 0xD800 && r <= 0xDFFF {
				continue
			}
			for q := 0; q < x.Q(4, 24); q++ {
				v := vs[w.R.Intn(len(vs))]
				text = append(text[:0], lead[w.R.Intn(len(lead))]...)
				text = append(text, string(r)...)
				text = append(text, trail[w.R.Intn(len(trail))]...)
				c := variantCase("partition", v, text)
				if !w.Guard(c, func() error { return partition(c) }) {
					c.Text = append([]byte{}, text...)
				}
				n++
			}
		}
		w.Eval(n)
		w.DistinctN(int64(n))
		w.Count("code point placements", int64(n))
	})
	x.Exhausted("every scalar value occurs in the workload, in random contexts")
	x.Parallel("random", x.Q(6_000_000, 80_000_000)/64, func(w *W, idx int) {
		for j := 0; j < 64; j++ {
			v := vs[w.R.Intn(len(vs))]
			sc := gen.Small
			if j == 0 {
				sc = gen.Medium
			}
			s, m := gen.Text(w.R, v.Kind, sc)
			if w.R.Intn(4) == 0 {
				s = escapes(w.R, s)
			}
			text := []byte(s)
			if v.Joined && w.R.Intn(4) > 0 {
				v.Middle, v.Leading = ownRunes(w.R, text), ownRunes(w.R, text)
				w.Count("joiners of the text", 1)
			}
			c := variantCase("partition", v, text)
			w.Eval(1)
			w.Guard(c, func() error { return partition(c) })
			if utf8.RuneCount(text) < len(text) {
				w.Distinct('0'+byte(v.Kind), text)
			}
			w.Count("mode "+gen.ModeNames[m], 1)
			if idx < 10 && j == 0 && len(text) < 60 {
				w.Sample("%v %+q", v, text)
			}
		}
	})
	x.Parallel("giant", x.Q(1000, 20_000), func(w *W, idx int) {
		v := vs[idx%len(vs)]
		text := []byte(gen.Giant(w.R, v.Kind))
		c := variantCase("partition", v, text)
		w.Eval(1)
		w.Guard(c, func() error { return partition(c) })
		w.Distinct('0'+byte(v.Kind), text)
		w.Count("texts beyond 64 KiB", 1)
	})
	longRuns(x, vs, func(w *W, v sut.Variant, text []byte) {
		c := variantCase("partition", v, text)
		w.Eval(1)
		w.Guard(c, func() error { return partition(c) })
	})
	x.Require(x.Counted("code point placements") > 4000000, "all code points")
}

// escapes drops escape-sequence pieces into valid text; it stays valid.
func escapes(r *gen.Rng, s string) string {
	rs := []rune(s)
	bits := []string{"\x1b", "\x1b[", "\x1b]", "\x1bP", "\x1b(", "\x1b#", "\x07", "\x18", "\x1a", "\x1b\\", "\u009b", "\u009c", "\u009d", "\u0090", "m", "0;1", "\x1b[31m"}
	for i := 0; i < 1+r.Intn(4); i++ {
		p := r.Intn(len(rs) + 1)
		rs = append(rs[:p], append([]rune(bits[r.Intn(len(bits))]), rs[p:]...)...)
	}
	return string(rs)
}

// ansiText builds byte strings out of escape-sequence pieces and noise.
func ansiText(r *gen.Rng) []byte {
	var b []byte
	for i := 0; i < 1+r.Intn(8); i++ {
		b = append(b, ansiBits[r.Intn(len(ansiBits))]...)
		if r.Intn(3) == 0 {
			b = append(b, byte(r.Intn(256)))
		}
	}
	return b
}

var ansiBits = []string{"\x1b", "\x1b[", "\x1b]", "\x1bP", "\x1bX", "\x1b^", "\x1b_", "\x1b(", "\x1b#", "\x1b$ ", "\x1b\\", "\x1bc", "\x1b7", "\x1b~", "\x1b\x7f", "\x1b\x1b",
	"\x9b", "\x9d", "\x90", "\x98", "\x9e", "\x9f", "\x9c", "\x84", "\x80", "\x07", "\x18", "\x1a", "\n", "\r", "\r\n",
	"0", "31", ";", "?25", "<", " ", "!", "/", "m", "h", "@", "~", "a", "A", "xyz", "\u00e9", "\u4e00", "e\u0301", "\U0001F468\u200d\U0001F469", "\u0301", "\u200d", "\u0600", "\xc2", "\xe2\x80", "\xff", "\u009b", "\u009c"}
