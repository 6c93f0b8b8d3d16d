package main

import (
	"bytes"
	"fmt"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	. "github.com/clipperhouse/uax29/v2/verifmon/harness"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/sut"
)

// restart: a new iterator over the rest of the text, from any token boundary
// on, gives the remaining tokens; and what follows a line feed does not depend
// on what precedes it, nor the other way round.
func restart(c *Case) error {
	v := variant(c)
	n := len(c.Text)
	all, err := sut.Drain(v.Bytes_(c.Text), n, nil)
	if err != nil {
		return fmt.Errorf("%v.FromBytes: %w", v, err)
	}
	// Every boundary of a short text, some of a long one.
	step := 1 + len(all)/40
	s := string(c.Text)
	var got, want []int
	for i := 0; i < len(all)-1; i += step {
		b := all[i]
		want = want[:0]
		for _, e := range all[i+1:] {
			want = append(want, e-b)
		}
		if i%2 == 0 {
			got, err = sut.Drain(v.Bytes_(c.Text[b:]), n-b, got)
		} else {
			got, err = sut.Drain(v.String_(s[b:]), n-b, got)
		}
		if err != nil {
			return fmt.Errorf("%v on the text from byte %d: %w", v, b, err)
		}
		if err := sut.Diff(c.Text[b:], fmt.Sprintf("%v starting at the boundary %d of %+q", v, b, trim(c.Text[:b])), got, "the whole text", want); err != nil {
			return err
		}
	}
	return nil
}

func trim(b []byte) []byte {
	if len(b) > 80 {
		return b[len(b)-80:]
	}
	return b
}

// paste: the tokens of x + "\n" + y are those of x + "\n" and those of y.
// Args: variant flags, length of x.
func paste(c *Case) error {
	v := variant(c)
	k := int(c.Args[1])
	if k > len(c.Text) || !utf8.Valid(c.Text) {
		return nil
	}
	x := append(append([]byte{}, c.Text[:k]...), '\n')
	y := c.Text[k:]
	whole := append(bytes.Clone(x), y...)
	a, err := sut.Drain(v.Bytes_(x), len(x), nil)
	if err != nil {
		return fmt.Errorf("%v: %w", v, err)
	}
	b, err := sut.Drain(v.Bytes_(y), len(y), nil)
	if err != nil {
		return fmt.Errorf("%v: %w", v, err)
	}
	for _, e := range b {
		a = append(a, e+len(x))
	}
	got, err := sut.Drain(v.String_(string(whole)), len(whole), nil)
	if err != nil {
		return fmt.Errorf("%v: %w", v, err)
	}
	return sut.Diff(whole, v.String()+" on the joined text", got, "its two parts", a)
}

func init() {
	RegisterOracle("restart", restart)
	RegisterOracle("paste", paste)
	Register(&Check{
		ID:    "C20",
		Title: "iteration can resume at any token boundary",
		Rule: "Seeded valid and invalid texts of all scales under every option: after recording the tokens of the whole, a new iterator is started at every token boundary (a spread of 40 for long texts) and must give the remaining tokens; and valid texts pasted together around a line feed must give the tokens of the parts. All sequences over class representatives up to length 3 behind and before a boundary. " +
			"Non-trivial: at least two tokens; distinct by bytes and tokenizer.",
		Run: func(x *Ctx) {
			var vs []sut.Variant
			for k := ref.Kind(0); k < 4; k++ {
				vs = append(vs, sut.Variants(k)...)
			}
			judge := func(w *W, v sut.Variant, text []byte) {
				c := variantCase("restart", v, text)
				w.Eval(1)
				w.Guard(c, func() error { return restart(c) })
			}
			for k := ref.Kind(0); k < 4; k++ {
				a := gen.For(k)
				R := len(a.Reps)
				x.Parallel("triples-"+k.String(), R*R, func(w *W, idx int) {
					v := sut.Variant{Kind: k}
					for _, r := range a.Reps {
						for _, q := range a.Reps {
							judge(w, v, []byte(string([]rune{a.Reps[idx/R], a.Reps[idx%R], r, q})))
						}
					}
					w.DistinctN(int64(R * R))
					w.Count("enumerated sequences", int64(R*R))
				})
				x.Exhausted(fmt.Sprintf("all %s class sequences of length 4", k))
			}
			random := func(group string, n, per int, sc gen.Scale) {
				x.Parallel(group, n/per, func(w *W, idx int) {
					for j := 0; j < per; j++ {
						v := vs[w.R.Intn(len(vs))]
						if v.Joined {
							v.Middle, v.Leading = randRunes(w.R), randRunes(w.R)
						}
						var text []byte
						switch w.R.Intn(3) {
						case 0:
							text, _ = gen.Bytes(w.R, v.Kind, sc)
						default:
							s, _ := gen.Text(w.R, v.Kind, sc)
							text = []byte(s)
						}
						if (v.Ansi7 || v.Ansi8) && w.R.Intn(2) == 0 {
							text = ansiStream(w.R, 1+w.R.Intn(6), v.Ansi8)
						}
						judge(w, v, text)
						w.Count("restarts of "+v.Kind.String(), 1)
						if len(text) > 1 {
							w.Distinct('r'+byte(v.Kind), text)
						}
						if idx < 8 && j == 0 && len(text) < 60 {
							w.Sample("%v %+q", v, text)
						}
						// Pasting: joiners may name the line feed, and an open
						// control string may swallow it; a truncated code point at the very end of
						// a text is a token of its own kind.
						if v.Joined || v.Ansi7 || v.Ansi8 || !utf8.Valid(text) {
							continue
						}
						p := variantCase("paste", v, text)
						k := 0
						if len(text) > 0 {
							k = w.R.Intn(len(text) + 1)
						}
						for k < len(text) && !utf8.RuneStart(text[k]) {
							k++
						}
						p.Args = append(p.Args, int64(k))
						w.Eval(1)
						w.Guard(p, func() error { return paste(p) })
						w.Count("texts pasted around a line feed", 1)
					}
				})
			}
			random("random-small", x.Q(3_000_000, 30_000_000), 32, gen.Small)
			random("random-medium", x.Q(100_000, 1_500_000), 8, gen.Medium)
			random("random-large", x.Q(4000, 50_000), 2, gen.Large)
			x.Parallel("giant", x.Q(150, 4000), func(w *W, idx int) {
				v := vs[idx%len(vs)]
				text := giantFor(w.R, v)
				judge(w, v, text)
				w.Distinct('r'+byte(v.Kind), text)
				w.Count("inputs beyond 64 KiB", 1)
			})
		},
	})
}
