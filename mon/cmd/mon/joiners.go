package main

import (
	"fmt"
	"slices"
	"strings"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	. "github.com/clipperhouse/uax29/v2/verifmon/harness"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/sut"
	"github.com/clipperhouse/uax29/v2/verifmon/ucd"
	"github.com/clipperhouse/uax29/v2/words"
)

type namedString string
type namedBytes []byte

// joinedEnds is the specification of joiners: at every token start, the rules
// apply to the rest of the text with the first character also a letter if it
// is a leading joiner, and later characters also MidNumLet if they are middle
// joiners.
func joinedEnds(text []byte, middle, leading []rune, seen func(what string)) []int {
	cls, ends := ref.Classes(ucd.W, text, nil, nil)
	var mid []ref.Set
	var rs []rune
	for i := 0; i < len(text); {
		r, w := utf8.DecodeRune(text[i:])
		rs = append(rs, r)
		s := cls[len(mid)]
		if slices.Contains(middle, r) {
			s |= ucd.WMidNumLet
		}
		mid = append(mid, s)
		i += w
	}
	var out []int
	for at := 0; at < len(cls); {
		native := mid[at]
		first := cls[at]
		lead := slices.Contains(leading, rs[at])
		if lead {
			first |= ucd.WALetter
		}
		mid[at] = first
		n := 1
		for at+n < len(cls) {
			if b, _ := ref.Break(ref.Words, mid[at:], n); b {
				break
			}
			n++
		}
		if seen != nil && n > 1 {
			if lead {
				seen("leading joiner joined")
			}
			for j := at + 1; j < at+n-1; j++ {
				if mid[j] != cls[j] {
					seen("middle joiner inside a token")
				}
			}
		} else if seen != nil && lead {
			seen("leading joiner alone")
		} else if seen != nil && native != cls[at] {
			seen("middle joiner alone")
		}
		mid[at] = native
		at += n
		out = append(out, ends[at-1])
	}
	return out
}

// joiners: iterators and scanners with joiners follow the rules with the
// joiners' classes amended.
func joiners(c *Case) error { return joinersObserve(c, nil) }

func joinersObserve(c *Case, seen func(string)) error {
	mid, lead := []rune(c.Strs[0]), []rune(c.Strs[1])
	if len(c.Text)&1 == 0 { // absent and empty sets alike
		if len(mid) == 0 {
			mid = nil
		}
		if len(lead) == 0 {
			lead = nil
		}
	}
	want := joinedEnds(c.Text, mid, lead, seen)
	v := sut.Variant{Kind: ref.Words, Joined: true, Middle: mid, Leading: lead}
	s := string(c.Text)
	cmp := func(name string, got []int, err error) error {
		if err != nil {
			return fmt.Errorf("%v.%s: %w", v, name, err)
		}
		return sut.Diff(c.Text, fmt.Sprintf("%v.%s", v, name), got, "the rules with joiners", want)
	}
	got, err := sut.Drain(v.String_(s), len(s), nil)
	if err := cmp("FromString", got, err); err != nil {
		return err
	}
	got, err = sut.Drain(v.Bytes_(c.Text), len(s), got)
	if err := cmp("FromBytes", got, err); err != nil {
		return err
	}
	var ns words.Iterator[namedString]
	ns.Joiners(&words.Joiners[namedString]{Middle: mid, Leading: lead})
	ns.SetText(namedString(s))
	got, err = sut.Drain[namedString](&ns, len(s), got)
	if err := cmp("Iterator[named string]", got, err); err != nil {
		return err
	}
	var nb words.Iterator[namedBytes]
	nb.SetText(namedBytes(c.Text))
	nb.Joiners(&words.Joiners[namedBytes]{Middle: mid, Leading: lead})
	got, err = sut.Drain[namedBytes](&nb, len(s), got)
	if err := cmp("Iterator[named bytes]", got, err); err != nil {
		return err
	}
	sc := v.Reader(deliver(c.Text))
	if len(c.Text) > 60000 {
		sc.Buffer(nil, len(c.Text)+100)
	}
	got = got[:0]
	pos := 0
	for sc.Scan() {
		pos += len(sc.Bytes())
		got = append(got, pos)
	}
	if err := cmp("FromReader", got, sc.Err()); err != nil {
		return err
	}
	if len(want) > 0 {
		if f := v.String_(s).First(); len(f) != want[0] {
			return fmt.Errorf("%v: First gives %+q, the first token has %d bytes", v, f, want[0])
		}
	}
	if len(c.Strs) > 2 {
		// Joiners that are replaced by others, in a Joiners value of their
		// own, before the first token, leave nothing behind.
		mid0, lead0 := []rune(c.Strs[2]), []rune(c.Strs[3])
		is, ib, sr := words.FromString(s), words.FromBytes(c.Text), words.FromReader(deliver(c.Text))
		is.Joiners(&words.Joiners[string]{Middle: mid0, Leading: lead0})
		ib.Joiners(&words.Joiners[[]byte]{Middle: mid0, Leading: lead0})
		sr.Joiners(&words.Joiners[[]byte]{Middle: mid0, Leading: lead0})
		name := fmt.Sprintf("with joiners (%+q, %+q) before these, ", c.Strs[2], c.Strs[3])
		if len(s)&2 == 0 {
			// These are in use for a while.
			if len(s)&4 == 0 {
				// So is a split function.
				is.Split(func(s string, eof bool) (int, string, error) { return 1, s[:1], nil })
				ib.Split(words.SplitFunc)
			}
			is.First()
			is.Next()
			ib.Next()
			is.Reset()
			ib.SetText(c.Text)
			name = "in use " + name
		}
		is.Joiners(&words.Joiners[string]{Middle: mid, Leading: lead})
		ib.Joiners(&words.Joiners[[]byte]{Middle: mid, Leading: lead})
		sr.Joiners(&words.Joiners[[]byte]{Middle: mid, Leading: lead})
		if len(want) > 0 {
			if f := is.First(); len(f) != want[0] {
				return fmt.Errorf("%v: %sFirst gives %+q, the first token has %d bytes", v, name, f, want[0])
			}
		}
		got, err = sut.Drain[string](is, len(s), got)
		if err := cmp(name+"FromString", got, err); err != nil {
			return err
		}
		got, err = sut.Drain[[]byte](ib, len(s), got)
		if err := cmp(name+"FromBytes", got, err); err != nil {
			return err
		}
		if len(c.Text) <= 60000 {
			got, pos = got[:0], 0
			for sr.Scan() {
				pos += len(sr.Bytes())
				got = append(got, pos)
			}
			if err := cmp(name+"FromReader", got, sr.Err()); err != nil {
				return err
			}
		}
	}
	if len(mid) == 0 && len(lead) == 0 {
		// No joiners, in every way of saying so, are the default.
		it := words.FromString(s)
		it.Joiners(nil)
		got, err = sut.Drain[string](it, len(s), got)
		if err := cmp("Joiners(nil)", got, err); err != nil {
			return err
		}
		got, err = sut.Drain[string](words.FromString(s), len(s), got)
		if err := cmp("default iterator", got, err); err != nil {
			return err
		}
	}
	return nil
}

// joinersAgain: one Joiners value used for several iterators and scanners in
// turn, its characters replaced, or changed in place, between the uses. Each
// use follows the characters it has at that time.
func joinersAgain(c *Case) error {
	js := &words.Joiners[string]{}
	jb := &words.Joiners[[]byte]{}
	s := string(c.Text)
	its, itb := words.FromString(s), words.FromBytes(c.Text)
	for i := 0; i+1 < len(c.Strs); i += 2 {
		mid, lead := []rune(c.Strs[i]), []rune(c.Strs[i+1])
		in := len(js.Middle) == len(mid) && len(js.Leading) == len(lead)
		if in { // the same memory
			copy(js.Middle, mid)
			copy(js.Leading, lead)
		} else {
			js.Middle, js.Leading = mid, lead
		}
		jb.Middle, jb.Leading = js.Middle, js.Leading
		want := joinedEnds(c.Text, mid, lead, nil)
		if i%4 == 0 {
			its, itb = words.FromString(s), words.FromBytes(c.Text)
		} else {
			its.SetText(s)
			itb.Reset()
		}
		its.Joiners(js)
		itb.Joiners(jb)
		name := fmt.Sprintf("use %d of the same Joiners (%+q, %+q): ", i/2+1, c.Strs[i], c.Strs[i+1])
		got, err := sut.Drain[string](its, len(s), nil)
		if err == nil {
			err = sut.Diff(c.Text, name+"FromString", got, "the rules with joiners", want)
		}
		if err != nil {
			return err
		}
		got, err = sut.Drain[[]byte](itb, len(s), got)
		if err == nil {
			err = sut.Diff(c.Text, name+"FromBytes", got, "the rules with joiners", want)
		}
		if err != nil {
			return err
		}
		sc := words.FromReader(deliver(c.Text))
		sc.Joiners(jb)
		got = got[:0]
		pos := 0
		for sc.Scan() {
			pos += len(sc.Bytes())
			got = append(got, pos)
		}
		if sc.Err() != nil {
			return fmt.Errorf("%sFromReader: %w", name, sc.Err())
		}
		if err := sut.Diff(c.Text, name+"FromReader", got, "the rules with joiners", want); err != nil {
			return err
		}
	}
	return nil
}

var joinerRunes = []rune("-@/#.,:;'\"+$_&%~*!?=^| \u00b7\u2013\u2014\u2019\u2022\u00a1\u20ac\u2122\U0001F600\uff03\uff20\ufffd\u3000\u00a0\u2060")

// joinerOK: classes for which being also a letter or MidNumLet is meaningful.
func joinerOK(r rune) bool {
	s := ucd.W[r]
	return s&(ucd.WALetter|ucd.WHebrew|ucd.WKatakana|ucd.WNumeric|ucd.WExtend|ucd.WFormat|ucd.WZWJ|ucd.WNewline|ucd.WCR|ucd.WLF|ucd.WRI) == 0
}

func joinerSet(r *gen.Rng) []rune {
	var out []rune
	n := r.Intn(4)
	if r.Intn(24) == 0 {
		n = r.Intn(80)
	}
	for i := n; i > 0; i-- {
		x := joinerRunes[r.Intn(len(joinerRunes))]
		if r.Intn(6) == 0 {
			x = gen.AnyRune(r)
		}
		if joinerOK(x) {
			out = append(out, x)
		}
	}
	return out
}

func init() {
	RegisterOracle("joiners", joiners)
	RegisterOracle("joiners-again", joinersAgain)
	Register(&Check{
		ID:    "C16",
		Title: "joiners join exactly as documented",
		Rule: "Word iterators (string, bytes, named types), scanners and First with middle and leading joiners, compared with the reference word rules evaluated with the joiners' classes amended (first character of a token: also a letter if leading; later characters: also MidNumLet if middle). All sequences over 14 character roles up to length 5 under 8 joiner settings, plus seeded texts with joiners spliced in under seeded joiner sets drawn from punctuation, symbols, spaces and all unclassed code points. " +
			"Non-trivial: the text contains a joiner and something else; distinct by text and joiners.",
		Assumptions: []string{"joiners whose own Word_Break class is a letter, digit, Katakana, Extend, Format, ZWJ, line break or Regional Indicator are exercised only by C06, C07, C09 and C11: what they should do is not documented"},
		Run: func(x *Ctx) {
			settings := [][2]string{{"", ""}, {"-", ""}, {"", "#"}, {"-@", "#."}, {"#", "#"}, {" ", ""}, {"'.-", "'-"}, {"\u2013\U0001F600", "\U0001F600\u2013"}}
			roles := []rune{'a', '\u05d0', '1', '-', '#', '.', '\'', '"', ' ', '_', '\u0301', '\u30a2', '\U0001F600', '\n'}
			R := len(roles)
			depth := x.Q(4, 5)
			total := 1
			for i := 0; i < depth; i++ {
				total *= R
			}
			run := func(w *W, text []byte, s ...string) {
				c := &Case{Oracle: "joiners", Kind: ref.Words, Text: text, Strs: s}
				w.Eval(1)
				w.Guard(c, func() error { return joinersObserve(c, func(k string) { w.Count(k, 1) }) })
			}
			x.Parallel("enumerated", len(settings)*R, func(w *W, idx int) {
				s := settings[idx/R]
				swap := roles[idx%R]
				for k := 0; k < total; k++ {
					d := k
					text := string(swap)
					for j := 0; j < depth; j++ {
						text += string(roles[d%R])
						d /= R
						if k == 0 {
							run(w, []byte(text), s[0], s[1])
						}
					}
					run(w, []byte(text), s[0], s[1])
				}
				w.DistinctN(int64(total))
			})
			x.Exhausted(fmt.Sprintf("all %d-character sequences over %d roles under %d joiner settings", depth+1, R, len(settings)))
			random := func(group string, n int, sc gen.Scale) {
				per := 32
				if sc != gen.Small {
					per = 4
				}
				x.Parallel(group, n/per, func(w *W, idx int) {
					for j := 0; j < per; j++ {
						mid, lead := joinerSet(w.R), joinerSet(w.R)
						s, _ := gen.Text(w.R, ref.Words, sc)
						rs := []rune(s)
						if sc != gen.Small && len(rs) > 250 {
							rs = rs[:250]
						}
						all := append(slices.Clone(mid), lead...)
						if len(all) > 0 {
							for k := 0; k < 1+len(rs)/4; k++ {
								p := w.R.Intn(len(rs) + 1)
								rs = slices.Insert(rs, p, all[w.R.Intn(len(all))])
							}
						}
						text := []byte(string(rs))
						strs := []string{string(mid), string(lead)}
						if w.R.Intn(4) == 0 {
							mid0, lead0 := joinerSet(w.R), joinerSet(w.R)
							if w.R.Intn(2) == 0 {
								// Some of the text's, more than what remains.
								mid0, lead0 = mid, lead
								if w.R.Intn(2) == 0 {
									strs[0] = ""
								} else {
									strs[1] = ""
								}
							}
							strs = append(strs, string(mid0), string(lead0))
							w.Count("joiners replaced by others", 1)
						}
						run(w, text, strs...)
						if len(all) > 0 && len(rs) > 1 {
							w.Distinct('j', append([]byte(string(mid)+"/"+string(lead)+"/"), text...))
						}
						if idx < 20 && j == 0 && len(text) < 60 {
							w.Sample("middle %q leading %q text %+q", string(mid), string(lead), text)
						}
					}
				})
			}
			random("random-small", x.Q(2_000_000, 20_000_000), gen.Small)
			random("random-medium", x.Q(100_000, 1_000_000), gen.Medium)
			x.Parallel("same-value-again", x.Q(60_000, 1_000_000), func(w *W, idx int) {
				c := &Case{Oracle: "joiners-again", Kind: ref.Words}
				var all []rune
				for i := 2 + w.R.Intn(4); i > 0; i-- {
					m, l := joinerSet(w.R), joinerSet(w.R)
					if n := len(c.Strs); n > 0 && w.R.Intn(2) == 0 {
						// As many as before, others.
						m = []rune(c.Strs[n-2])
						for j := range m {
							m[j] = joinerRunes[w.R.Intn(len(joinerRunes))]
						}
					}
					all = append(append(all, m...), l...)
					c.Strs = append(c.Strs, string(m), string(l))
				}
				s, _ := gen.Text(w.R, ref.Words, gen.Small)
				rs := []rune(s)
				for k := 2 + len(rs)/3; len(all) > 0 && k > 0; k-- {
					p := w.R.Intn(len(rs) + 1)
					rs = slices.Insert(rs, p, 'a', all[w.R.Intn(len(all))], 'b')
				}
				c.Text = []byte(string(rs))
				w.Judge(c)
				w.Distinct('a', append([]byte(fmt.Sprint(c.Strs)), c.Text...))
				w.Count("uses of a Joiners value that was used before", int64(len(c.Strs)/2-1))
			})
			// Tokens beyond 64 KiB; runs of marks are left out because the
			// reference takes quadratic time on them.
			x.Parallel("giant", x.Q(32, 600), func(w *W, idx int) {
				s := settings[w.R.Intn(len(settings))]
				all := []rune(s[0] + s[1] + "a\u00e91_\u05d0\U00010400")
				unit := ""
				for j := 1 + w.R.Intn(3); j > 0; j-- {
					unit += string(all[w.R.Intn(len(all))])
				}
				text := string(roles[w.R.Intn(R)])
				L := 65530 + w.R.Intn(12)
				if w.R.Intn(3) == 0 {
					L = 65000 + w.R.Intn(80000)
				}
				text = text[:0] + "abc"[:w.R.Intn(4)] + text
				text += strings.Repeat(unit, (L-len(text))/len(unit))
				for j := w.R.Intn(6); j > 0; j-- {
					text += string(roles[w.R.Intn(R)])
				}
				run(w, []byte(text), s[0], s[1])
				w.Distinct('j', []byte(text))
				w.Count("texts beyond 64 KiB", 1)
			})
			for _, k := range []string{"leading joiner joined", "leading joiner alone", "middle joiner inside a token", "middle joiner alone"} {
				x.Require(x.Counted(k) > 1000, k)
			}
		},
	})
}
