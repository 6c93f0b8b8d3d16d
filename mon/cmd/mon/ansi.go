package main

import (
	"fmt"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	. "github.com/clipperhouse/uax29/v2/verifmon/harness"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/sut"
)

// The control-sequence grammar of ECMA-48 as the package documents it, written
// as an automaton over bytes. States of the 7-bit coding start from ESC, those
// of the 8-bit coding from a C1 byte; the two share only CSI bodies.
type cstate int

const (
	sBad cstate = iota
	sAccept
	sCancel // accepted, without the byte just read
	s7
	sNF
	sParam
	sInter
	sOSC7
	sOSC7Esc
	sStr7
	sStr7Esc
	sOSC8
	sStr8
	nStates
)

var stateNames = [nStates]string{"bad", "accept", "cancel", "ESC", "nF", "CSI parameters", "CSI intermediates", "OSC", "OSC ESC", "string", "string ESC", "8-bit OSC", "8-bit string"}

func within(b, lo, hi byte) bool { return lo <= b && b <= hi }

func ctlStart(b byte, seven, eight bool) cstate {
	switch {
	case seven && b == 0x1b:
		return s7
	case eight && b == 0x9b:
		return sParam
	case eight && b == 0x9d:
		return sOSC8
	case eight && (b == 0x90 || b == 0x98 || b == 0x9e || b == 0x9f):
		return sStr8
	case eight && within(b, 0x80, 0x9f):
		return sAccept
	}
	return sBad
}

func ctlStep(s cstate, b byte) cstate {
	switch s {
	case s7:
		switch {
		case b == '[':
			return sParam
		case b == ']':
			return sOSC7
		case b == 'P' || b == 'X' || b == '^' || b == '_':
			return sStr7
		case within(b, 0x20, 0x2f):
			return sNF
		case within(b, 0x30, 0x7e):
			return sAccept
		}
		return sBad
	case sNF:
		switch {
		case within(b, 0x20, 0x2f):
			return sNF
		case within(b, 0x30, 0x7e):
			return sAccept
		}
		return sBad
	case sParam, sInter:
		switch {
		case within(b, 0x30, 0x3f) && s == sParam:
			return sParam
		case within(b, 0x20, 0x2f):
			return sInter
		case within(b, 0x40, 0x7e):
			return sAccept
		}
		return sBad
	case sOSC7Esc, sStr7Esc:
		if b == '\\' {
			return sAccept
		}
		if s == sOSC7Esc {
			return ctlStep(sOSC7, b)
		}
		return ctlStep(sStr7, b)
	}
	// Control strings.
	switch {
	case b == 0x18 || b == 0x1a:
		return sCancel
	case b == 0x07 && (s == sOSC7 || s == sOSC8):
		return sAccept
	case b == 0x9c && (s == sOSC8 || s == sStr8):
		return sAccept
	case b == 0x1b && s == sOSC7:
		return sOSC7Esc
	case b == 0x1b && s == sStr7:
		return sStr7Esc
	case s == sOSC7 || s == sOSC7Esc:
		return sOSC7
	case s == sStr7 || s == sStr7Esc:
		return sStr7
	}
	return s
}

// ctlLength is the length of the sequence at the start of b, or 0. last is the
// state in which it ended or ran out.
func ctlLength(b []byte, seven, eight bool) (n int, last cstate) {
	if len(b) == 0 {
		return 0, sBad
	}
	s := ctlStart(b[0], seven, eight)
	i := 1
	for ; s > sCancel && i < len(b); i++ {
		p := s
		s = ctlStep(s, b[i])
		if s == sCancel {
			return i, p
		}
		if s == sAccept {
			return i + 1, p
		}
		if s == sBad {
			return 0, p
		}
	}
	if s == sAccept {
		return i, s7
	}
	return 0, s
}

// ansiEnds is the specification: at every token start, a complete sequence is
// one token; anything else is what it would be without the option.
func ansiEnds(b []byte, seven, eight bool, see func(n int, last cstate)) ([]int, error) {
	var ends []int
	for pos := 0; pos < len(b); {
		n, last := ctlLength(b[pos:], seven, eight)
		if see != nil && (n > 0 || last != sBad) {
			see(n, last)
		}
		if n == 0 {
			it := graphemes.FromBytes(b[pos:])
			if !it.Next() {
				return nil, fmt.Errorf("FromBytes without options stops at byte %d of %d", pos, len(b))
			}
			n = it.End()
		}
		pos += n
		ends = append(ends, pos)
	}
	return ends, nil
}

// ansi: escape sequences are single tokens. Args: variant flags.
func ansi(c *Case) error { return ansiObserve(c, nil) }

func ansiObserve(c *Case, see func(n int, last cstate)) error {
	v := variant(c)
	want, err := ansiEnds(c.Text, v.Ansi7, v.Ansi8, see)
	if err != nil {
		return err
	}
	s := string(c.Text)
	si, bi := v.String_(s), v.Bytes_(c.Text)
	got, err := sut.Drain(si, len(s), nil)
	if err != nil {
		return fmt.Errorf("%v.FromString: %w", v, err)
	}
	if err := sut.Diff(c.Text, v.String()+".FromString", got, "the ECMA-48 grammar", want); err != nil {
		return err
	}
	got, err = sut.Drain(bi, len(s), got)
	if err != nil {
		return fmt.Errorf("%v.FromBytes: %w", v, err)
	}
	if err := sut.Diff(c.Text, v.String()+".FromBytes", got, "the ECMA-48 grammar", want); err != nil {
		return err
	}
	if len(want) > 0 {
		if f := si.First(); len(f) != want[0] {
			return fmt.Errorf("%v: First, at the end, gives %+q; the first token has %d bytes", v, f, want[0])
		}
		if f := v.Bytes_(c.Text).First(); len(f) != want[0] {
			return fmt.Errorf("%v: First gives %+q; the first token has %d bytes", v, f, want[0])
		}
	}
	return nil
}

// ansiQuiet: an option changes nothing where it has nothing to say.
// Args: variant flags to turn on, flags that stay.
func ansiQuiet(c *Case) error {
	on := c.Args[0] | c.Args[1]
	a := sut.Variant{Kind: ref.Graphemes, Ansi7: on&1 != 0, Ansi8: on&2 != 0}
	b := sut.Variant{Kind: ref.Graphemes, Ansi7: c.Args[1]&1 != 0, Ansi8: c.Args[1]&2 != 0}
	s := string(c.Text)
	want, err := sut.Drain(b.String_(s), len(s), nil)
	if err != nil {
		return fmt.Errorf("%v.FromString: %w", b, err)
	}
	got, err := sut.Drain(a.String_(s), len(s), nil)
	if err != nil {
		return fmt.Errorf("%v.FromString: %w", a, err)
	}
	if err := sut.Diff(c.Text, a.String()+".FromString", got, b.String(), want); err != nil {
		return err
	}
	got, err = sut.Drain(a.Bytes_(c.Text), len(s), got)
	if err != nil {
		return fmt.Errorf("%v.FromBytes: %w", a, err)
	}
	return sut.Diff(c.Text, a.String()+".FromBytes", got, b.String(), want)
}

// ansiDefault: the options are off unless set, for every entry point, and
// escape sequences are then ordinary characters under the reference rules.
func ansiDefault(c *Case) error {
	s := string(c.Text)
	it := graphemes.FromString(s)
	bt := graphemes.FromBytes(c.Text)
	if it.AnsiEscapeSequences || it.AnsiEscapeSequences8Bit || bt.AnsiEscapeSequences || bt.AnsiEscapeSequences8Bit {
		return fmt.Errorf("an ANSI option is on in a new iterator")
	}
	want := []int{}
	if utf8.Valid(c.Text) {
		want = append(want, ref.Ends(ref.Graphemes, c.Text)...)
	} else {
		var err error
		if want, err = sut.SplitEnds(graphemes.SplitFunc, c.Text, want); err != nil {
			return err
		}
	}
	got, err := sut.Drain[string](it, len(s), nil)
	if err != nil {
		return err
	}
	if err := sut.Diff(c.Text, "FromString", got, "the grapheme rules", want); err != nil {
		return err
	}
	got, err = sut.Drain[[]byte](bt, len(s), nil)
	if err != nil {
		return err
	}
	if err := sut.Diff(c.Text, "FromBytes", got, "the grapheme rules", want); err != nil {
		return err
	}
	sc := graphemes.FromReader(deliver(c.Text))
	if len(c.Text) > 60000 {
		sc.Buffer(nil, len(c.Text)+100)
	}
	got = got[:0]
	pos := 0
	for sc.Scan() {
		pos += len(sc.Bytes())
		got = append(got, pos)
	}
	return sut.Diff(c.Text, "FromReader", got, "the grapheme rules", want)
}

var ansiRoles7 = []byte{0x00, 0x07, 0x0a, 0x18, 0x1a, 0x1b, 0x1f, 0x20, 0x2f, 0x30, 0x3f, 0x40, 'P', '[', '\\', ']', '_', 0x7e, 0x7f, 0x80, 0x9c, 0xff}
var ansiRoles8 = []byte{0x00, 0x07, 0x18, 0x1a, 0x1b, 0x1f, 0x20, 0x2f, 0x30, 0x3f, 0x40, '\\', 0x7e, 0x7f, 0x80, 0x90, 0x98, 0x9b, 0x9c, 0x9d, 0x9e, 0xa0, 0xc2, 0xff}

// openings leads the automaton into every state.
var openings7 = []string{"\x1b", "\x1b ", "\x1b/", "\x1b[", "\x1b[0", "\x1b[?1;2", "\x1b[ ", "\x1b[1!", "\x1b]", "\x1b]0;t", "\x1b]x\x1b", "\x1bP", "\x1bX", "\x1b^", "\x1b_", "\x1bPq", "\x1b_x\x1b", "\x1bP\x07", "\x1b]\xc2\x9c", "\x1b]\u00e9\u4e00", "\x1bX\x9c"}
var openings8 = []string{"\x9b", "\x9b0", "\x9b?1;2", "\x9b ", "\x9b1!", "\x9d", "\x9d0;t", "\x9dx\x1b", "\x90", "\x98", "\x9e", "\x9f", "\x90q", "\x9fx\x1b", "\x90\x07", "\x98\x9b", "\x9d\u00e9\u4e00"}
var closings = []string{"", "\x07", "\x1b\\", "\x9c", "\x18", "\x1a", "m", "\x1b[m", "\\", "\u0301", "\U0001F600\u200d\U0001F600"}

// ansiStream builds a long text of sequences, strings that never end, and
// ordinary text between them.
func ansiStream(r *gen.Rng, n int, eight bool) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		switch r.Intn(7) {
		case 6:
			b = append(b, gen.Piece(r, ref.Graphemes, false)...)
		case 0:
			b = append(b, openings7[r.Intn(len(openings7))]...)
		case 1:
			if eight {
				b = append(b, openings8[r.Intn(len(openings8))]...)
			}
		case 2:
			b = append(b, closings[r.Intn(len(closings))]...)
		case 3:
			b = append(b, ansiBits[r.Intn(len(ansiBits))]...)
		case 4:
			s, _ := gen.Text(r, ref.Graphemes, gen.Small)
			if len(s) > 40 {
				s = s[:40]
			}
			b = append(b, s...)
		case 5:
			roles := ansiRoles7
			if eight {
				roles = ansiRoles8
			}
			for k := 0; k < r.Intn(5); k++ {
				b = append(b, roles[r.Intn(len(roles))])
			}
		}
	}
	return b
}

func runAnsi(x *Ctx, eight bool) {
	flagsets := []int64{1, 3}
	roles, openings := ansiRoles7, openings7
	intro := []byte{0x1b}
	if eight {
		flagsets = []int64{2, 3}
		roles, openings = ansiRoles8, openings8
		intro = nil
		for b := 0x80; b < 0xa0; b++ {
			intro = append(intro, byte(b))
		}
	}
	see := func(w *W) func(n int, last cstate) {
		return func(n int, last cstate) {
			if n > 0 {
				w.Count("complete sequence from state "+stateNames[last], 1)
			} else {
				w.Count("incomplete or malformed in state "+stateNames[last], 1)
			}
		}
	}
	one := func(w *W, flags int64, text []byte) {
		c := &Case{Oracle: "ansi", Kind: ref.Graphemes, Text: text, Args: []int64{flags}}
		w.Eval(1)
		w.Guard(c, func() error { return ansiObserve(c, nil) })
	}
	R := len(roles)
	depth := x.Q(5, 6)
	if eight {
		depth--
	}
	// Every string of the given length over the byte roles after each
	// introducer, for each setting.
	total := 1
	for i := 0; i < depth; i++ {
		total *= R
	}
	x.Parallel("enumerated", len(intro)*R*len(flagsets), func(w *W, idx int) {
		flags := flagsets[idx%len(flagsets)]
		in := intro[idx/len(flagsets)/R]
		text := make([]byte, depth+1)
		text[0], text[1] = in, roles[idx/len(flagsets)%R]
		for k := 0; k < total/R; k++ {
			d := k
			for j := 2; j <= depth; j++ {
				text[j] = roles[d%R]
				d /= R
			}
			one(w, flags, text)
			if k == 0 {
				for j := 1; j <= depth; j++ {
					one(w, flags, text[:j])
				}
			}
		}
		w.DistinctN(int64(total / R))
	})
	x.Exhausted(fmt.Sprintf("all strings of %d of %d byte roles after each of %d introducers, under %d settings", depth, R, len(intro), len(flagsets)))
	// Every byte in every state, with every ending.
	x.Parallel("states", len(openings)*256, func(w *W, idx int) {
		o, b := openings[idx/256], byte(idx)
		for _, cl := range closings {
			for _, more := range []string{"", "x", "\u0301", "\x1b]\x07", "\x9c"} {
				for _, f := range flagsets {
					text := append(append([]byte(o), b), cl+more...)
					c := &Case{Oracle: "ansi", Kind: ref.Graphemes, Text: text, Args: []int64{f}}
					w.Eval(1)
					w.Guard(c, func() error { return ansiObserve(c, see(w)) })
					w.DistinctN(1)
				}
			}
		}
	})
	x.Exhausted("every byte in every state of the grammar")
	random := func(group string, n, max int) {
		x.Parallel(group, n/16, func(w *W, idx int) {
			for j := 0; j < 16; j++ {
				text := ansiStream(w.R, 1+w.R.Intn(max), eight)
				c := &Case{Oracle: "ansi", Kind: ref.Graphemes, Text: text, Args: []int64{flagsets[w.R.Intn(len(flagsets))]}}
				w.Eval(1)
				w.Guard(c, func() error { return ansiObserve(c, see(w)) })
				if len(text) > 1 {
					w.Distinct('a', text)
				}
				if idx < 20 && j == 0 && len(text) < 60 {
					w.Sample("flags %d %+q", c.Args[0], text)
				}
			}
		})
	}
	random("random", x.Q(3_000_000, 40_000_000), 8)
	random("random-long", x.Q(80_000, 1_000_000), 300)
	x.Parallel("giant", x.Q(1000, 20_000), func(w *W, idx int) {
		text := giantControl(w.R, eight)
		c := &Case{Oracle: "ansi", Kind: ref.Graphemes, Text: text, Args: []int64{flagsets[w.R.Intn(len(flagsets))]}}
		w.Eval(1)
		w.Guard(c, func() error { return ansiObserve(c, see(w)) })
		w.Distinct('a', text)
		w.Count("texts around and beyond 64 KiB", 1)
	})
	// Strings of megabytes, from every opening.
	x.Parallel("megabytes", len(openings)*x.Q(1, 4), func(w *W, idx int) {
		text := longControl(w.R, openings[idx%len(openings)], 1<<20+w.R.Intn(3<<20), eight)
		for _, f := range flagsets {
			c := &Case{Oracle: "ansi", Kind: ref.Graphemes, Text: text, Args: []int64{f}}
			w.Eval(1)
			w.Guard(c, func() error { return ansiObserve(c, see(w)) })
		}
		w.Distinct('a', text)
		w.Count("sequences of more than 1 MiB", 1)
	})
	for s := s7; s < nStates; s++ {
		switch s {
		case s7, sNF, sOSC7, sOSC7Esc, sStr7, sStr7Esc:
			if eight {
				continue
			}
		case sOSC8, sStr8:
			if !eight {
				continue
			}
		}
		x.Require(x.Counted("complete sequence from state "+stateNames[s]) > 100 || s == sOSC8 && !eight, "sequences completed from "+stateNames[s])
		x.Require(x.Counted("incomplete or malformed in state "+stateNames[s]) > 100, "sequences failing in "+stateNames[s])
	}
}

func init() {
	RegisterOracle("ansi", ansi)
	RegisterOracle("ansiquiet", ansiQuiet)
	RegisterOracle("ansidefault", ansiDefault)
	rule := "Byte strings run through string and byte iterators and First, compared token by token with an automaton for the documented ECMA-48 grammar (which, where it accepts nothing, leaves the position to the option-less iterator): every string over the byte roles after each introducer, every byte in every state with every ending, and seeded streams mixing sequences, strings that never end, C1 bytes, UTF-8 text and noise. " +
		"Non-trivial: at least two bytes; distinct by bytes."
	Register(&Check{ID: "C13", Title: "7-bit ANSI escape sequences", Rule: rule, Run: func(x *Ctx) { runAnsi(x, false) }})
	Register(&Check{ID: "C14", Title: "8-bit ANSI escape sequences", Rule: rule, Run: func(x *Ctx) { runAnsi(x, true) }})
	Register(&Check{
		ID:    "C15",
		Title: "ANSI options are off by default and conservative",
		Rule: "Seeded texts: (a) with sequences, valid or not, run through new iterators, readers and split functions, compared with the reference grapheme rules; (b) without ESC, 7-bit option on against off; (c) valid UTF-8 with sequences and encoded C1 controls, and byte strings without C1 bytes, 8-bit option on against off; each also with the other option held on; (d) streams of sequences of both codings and their mixtures with one option on, compared with the grammar of that option alone. Every scalar value occurs. " +
			"Non-trivial: at least two code points; distinct by bytes and setting.",
		Run: func(x *Ctx) {
			quiet := func(w *W, turn, hold int64, text []byte) {
				c := &Case{Oracle: "ansiquiet", Kind: ref.Graphemes, Text: text, Args: []int64{turn, hold}}
				w.Eval(1)
				w.Guard(c, func() error { return ansiQuiet(c) })
				w.Count(fmt.Sprintf("option %d on against off, with %d held on", turn, hold), 1)
			}
			strip := func(b []byte, drop func(byte) bool) []byte {
				out := b[:0:0]
				for _, x := range b {
					if !drop(x) {
						out = append(out, x)
					}
				}
				return out
			}
			const per = 256
			x.Parallel("codepoints", 0x110000/per, func(w *W, idx int) {
				for r := rune(idx * per); r < rune((idx+1)*per); r++ {
					if r >= 0xD800 && r <= 0xDFFF {
						continue
					}
					text := []byte("\x1b]a" + string(r) + "b\u0301" + string(r) + "\x07\u009b31m" + string(r))
					quiet(w, 2, 0, text)
					quiet(w, 2, 1, text)
					quiet(w, 1, 0, strip(text, func(b byte) bool { return b == 0x1b }))
					w.DistinctN(1)
				}
			})
			x.Exhausted("every scalar value occurs in the workload")
			x.Parallel("random", x.Q(2_400_000, 30_000_000)/16, func(w *W, idx int) {
				for j := 0; j < 16; j++ {
					var text []byte
					switch w.R.Intn(3) {
					case 0:
						s, _ := gen.Text(w.R, ref.Graphemes, gen.Small)
						text = []byte(escapes(w.R, s))
					case 1:
						text = ansiStream(w.R, 1+w.R.Intn(8), true)
					case 2:
						text, _ = gen.Bytes(w.R, ref.Graphemes, gen.Small)
					}
					c := &Case{Oracle: "ansidefault", Kind: ref.Graphemes, Text: text}
					w.Eval(1)
					w.Guard(c, func() error { return ansiDefault(c) })
					w.Count("default settings", 1)
					// Each option has no other effect than its own.
					stream := text
					if !utf8.Valid(text) || w.R.Intn(4) == 0 {
						stream = ansiStream(w.R, 1+w.R.Intn(8), true)
						for n := w.R.Intn(3); n > 0; n-- {
							p := w.R.Intn(len(stream) + 1)
							mix := []byte{0x1b, byte(0x80 + w.R.Intn(0x20)), 0x1b, byte(w.R.Intn(256))}
							stream = append(stream[:p:p], append(mix[w.R.Intn(3):], stream[p:]...)...)
						}
					}
					for _, f := range [...]int64{1, 2} {
						c := &Case{Oracle: "ansi", Kind: ref.Graphemes, Text: stream, Args: []int64{f}}
						w.Eval(1)
						w.Guard(c, func() error { return ansi(c) })
						w.Count(fmt.Sprintf("option %d alone, sequences of both", f), 1)
					}
					noEsc := strip(text, func(b byte) bool { return b == 0x1b })
					quiet(w, 1, 0, noEsc)
					quiet(w, 1, 2, noEsc)
					if utf8.Valid(text) {
						quiet(w, 2, 0, text)
						quiet(w, 2, 1, text)
					} else {
						noC1 := strip(text, func(b byte) bool { return within(b, 0x80, 0x9f) })
						quiet(w, 2, 0, noC1)
						quiet(w, 2, 1, noC1)
					}
					if utf8.RuneCount(text) > 1 {
						w.Distinct('q', text)
					}
					if idx < 10 && j == 0 && len(text) < 60 {
						w.Sample("%+q", text)
					}
				}
			})
			x.Parallel("giant", x.Q(400, 8000), func(w *W, idx int) {
				text := []byte(gen.Giant(w.R, ref.Graphemes))
				quiet(w, 2, int64(idx%2), text)
				quiet(w, 1, int64(idx%2)*2, strip(text, func(b byte) bool { return b == 0x1b }))
				text = giantControl(w.R, true)
				c := &Case{Oracle: "ansidefault", Kind: ref.Graphemes, Text: text}
				w.Eval(1)
				w.Guard(c, func() error { return ansiDefault(c) })
				quiet(w, 1, int64(idx%2)*2, strip(text, func(b byte) bool { return b == 0x1b }))
				if !utf8.Valid(text) {
					text = strip(text, func(b byte) bool { return within(b, 0x80, 0x9f) })
				}
				quiet(w, 2, int64(idx%2), text)
				w.Count("texts around and beyond 64 KiB", 1)
			})
			x.Require(x.Counted("option 2 on against off, with 1 held on") > 10000, "8-bit comparisons")
			x.Require(x.Counted("option 1 on against off, with 2 held on") > 10000, "7-bit comparisons")
		},
	})
}
