package main

import (
	"fmt"
	"regexp"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	. "github.com/clipperhouse/uax29/v2/verifmon/harness"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/ucd"
	"github.com/clipperhouse/uax29/v2/words"
)

// Bleve's WordNumeric, over one letter per character: N Numeric, E
// ExtendNumLet, M MidNum, MidNumLet or Single_Quote, X Extend, Format or ZWJ.
var wordNumeric = regexp.MustCompile(`^(EX*)*NX*(((EX*)*|MX*)NX*)*(EX*)*$`)

func bleveLetters(token []byte, dst []byte) []byte {
	dst = dst[:0]
	for i := 0; i < len(token); {
		r, w := utf8.DecodeRune(token[i:])
		s := ucd.W[r]
		i += w
		switch {
		case s&ucd.WNumeric != 0:
			dst = append(dst, 'N')
		case s&ucd.WExtendNumLet != 0:
			dst = append(dst, 'E')
		case s&(ucd.WMidNum|ucd.WMidNumLet|ucd.WSingleQuote) != 0:
			dst = append(dst, 'M')
		case s&(ucd.WExtend|ucd.WFormat|ucd.WZWJ) != 0:
			dst = append(dst, 'X')
		default:
			dst = append(dst, 'o')
		}
	}
	return dst
}

// ideographs is Han, Hiragana and Katakana.
var ideographs = func() []bool {
	t := make([]bool, ucd.MaxRune+1)
	for _, x := range ucd.Ranges("hanhira.txt") {
		for r := x.Lo; r <= x.Hi; r++ {
			t[r] = true
		}
	}
	for r, s := range ucd.W {
		if s&ucd.WKatakana != 0 {
			t[r] = true
		}
	}
	return t
}()

// bleve: both predicates, on every word token of the text.
func bleve(c *Case) error { return bleveObserve(c, nil) }

func bleveObserve(c *Case, seen func(string)) error {
	pos := 0
	var letters, buf []byte
	for _, e := range ref.Ends(ref.Words, c.Text) {
		tok := c.Text[pos:e]
		pos = e
		letters = bleveLetters(tok, letters)
		want := wordNumeric.Match(letters)
		if got := words.BleveNumeric(tok); got != want {
			return fmt.Errorf("BleveNumeric(%+q) = %v; its classes are %s", tok, got, letters)
		}
		// Ideographic: the first is an ideograph and everything after it is
		// one too, or a connector, or is ignorable.
		first := true
		all := true
		for i := 0; i < len(tok); {
			r, w := utf8.DecodeRune(tok[i:])
			i += w
			s := ucd.W[r]
			switch {
			case ideographs[r]:
			case first:
				all = false
			case s&(ucd.WExtend|ucd.WFormat|ucd.WZWJ|ucd.WExtendNumLet) != 0:
			default:
				all = false
			}
			first = false
		}
		got := words.BleveIdeographic(tok)
		if got != all {
			return fmt.Errorf("BleveIdeographic(%+q) = %v", tok, got)
		}
		if len(tok) <= 64 {
			// A buffer that is used again: what it held before does not matter.
			buf = append(buf[:0], tok...)
			for _, held := range []byte{0, 'a', 0, '1', 0} {
				n, i := want, all
				if held == 0 {
					copy(buf, tok)
				} else {
					n, i = held == '1', false
					for k := range buf {
						buf[k] = held
					}
				}
				if got := words.BleveNumeric(buf); got != n {
					return fmt.Errorf("BleveNumeric(%+q) = %v in a buffer that held other tokens before", buf, got)
				}
				if got := words.BleveIdeographic(buf); got != i {
					return fmt.Errorf("BleveIdeographic(%+q) = %v in a buffer that held other tokens before", buf, got)
				}
			}
		}
		if seen != nil {
			seen(fmt.Sprintf("numeric %v", want))
			seen(fmt.Sprintf("ideographic %v", all))
			if want && len(letters) > 1 {
				seen("numeric tokens of several characters")
			}
		}
	}
	return nil
}

func init() {
	RegisterOracle("bleve", bleve)
	Register(&Check{
		ID:    "C17",
		Title: "Bleve-compatible token types",
		Rule: "BleveNumeric and BleveIdeographic, in place and in a used buffer, on every word token (by the reference rules) of the workload, compared with Bleve's WordNumeric expression evaluated over the token's classes, and with membership in Han, Hiragana and Katakana: every scalar value alone, with a mark, and beside a digit; all sequences over ten number-related roles up to length 7; seeded texts. " +
			"Non-trivial: a text of at least two characters; distinct by bytes.",
		Assumptions: []string{"the Word_Break classes and scripts of Unicode 17 in mon/ucd/data", "ExtendNumLet after the first character is allowed in an ideographic token"},
		Run: func(x *Ctx) {
			run := func(w *W, text []byte) {
				c := &Case{Oracle: "bleve", Kind: ref.Words, Text: text}
				w.Eval(1)
				w.Guard(c, func() error { return bleveObserve(c, func(k string) { w.Count(k, 1) }) })
			}
			const per = 256
			x.Parallel("codepoints", 0x110000/per, func(w *W, idx int) {
				for r := rune(idx * per); r < rune((idx+1)*per); r++ {
					if r >= 0xD800 && r <= 0xDFFF {
						continue
					}
					s := string(r)
					for _, t := range []string{s, s + "\u0301", "1" + s + "1", s + "1", "_" + s, "\u30a2" + s} {
						run(w, []byte(t))
					}
					w.DistinctN(5)
				}
			})
			x.Exhausted("every scalar value alone and in five contexts")
			roles := []rune{'1', '_', '.', ',', '\'', '\u0301', '\u200d', 'a', '\u0663', '\u30a2'}
			R, depth := len(roles), x.Depth(6, 7)
			total := 1
			for i := 1; i < depth; i++ {
				total *= R
			}
			x.Parallel("enumerated", R*R, func(w *W, idx int) {
				for k := idx / R; k < total; k += R {
					text := string(roles[idx%R])
					d := k
					for j := 1; j < depth; j++ {
						text += string(roles[d%R])
						d /= R
						if d == 0 && w.R.Intn(4) == 0 {
							break
						}
					}
					run(w, []byte(text))
				}
				w.DistinctN(int64(total / R))
			})
			x.Parallel("random", x.Q(3_000_000, 40_000_000)/32, func(w *W, idx int) {
				for j := 0; j < 32; j++ {
					s, _ := gen.Text(w.R, ref.Words, gen.Small)
					rs := []rune(s)
					for k := 0; k < w.R.Intn(6); k++ {
						p := w.R.Intn(len(rs) + 1)
						rs = append(rs[:p], append([]rune{roles[w.R.Intn(R)]}, rs[p:]...)...)
					}
					text := []byte(string(rs))
					run(w, text)
					if len(rs) > 1 {
						w.Distinct('b', text)
					}
					if idx < 20 && j == 0 && len(text) < 60 {
						w.Sample("%+q", text)
					}
				}
			})
			x.Parallel("giant", x.Q(200, 4000), func(w *W, idx int) {
				var text []byte
				if idx%2 == 0 {
					text = []byte(gen.Giant(w.R, ref.Words))
				} else {
					unit := string(roles[w.R.Intn(3)*9%R])
					if w.R.Intn(2) == 0 {
						unit += string(roles[w.R.Intn(R)]) + "1"
					}
					for L := 65530 + w.R.Intn(12); len(text) < L; {
						text = append(text, unit...)
					}
					text = append(text, string(roles[w.R.Intn(R)])...)
				}
				run(w, text)
				w.Distinct('b', text)
				w.Count("texts beyond 64 KiB", 1)
			})
			x.Require(x.Counted("numeric tokens of several characters") > 10000, "numeric tokens")
			x.Require(x.Counted("ideographic true") > 10000, "ideographic tokens")
		},
	})
}
