// Package ref is the executable specification the monitors judge against: the
// UAX #29 (Unicode 17) boundary rules, evaluated position by position over the
// whole text with explicit left and right context. It is deliberately naive:
// no state is carried from one position to the next, there is no fast path and
// no streaming, so it has nothing in common with the library's single-pass
// state machines.
package ref

import (
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/verifmon/ucd"
)

type Set = ucd.Set

func is(s, of Set) bool { return s&of != 0 }

// Kind names one of the four tokenizers.
type Kind int

const (
	Graphemes Kind = iota
	Words
	Sentences
	Phrases
)

var KindNames = [...]string{"graphemes", "words", "sentences", "phrases"}

func (k Kind) String() string { return KindNames[k] }

// Table is the property table a tokenizer works on.
func (k Kind) Table() []Set {
	switch k {
	case Graphemes:
		return ucd.G
	case Sentences:
		return ucd.S
	}
	return ucd.W
}

// Hits counts, per rule, how often the reference decided a position by it.
type Hits map[string]int

// Boundaries gives the interior and final boundaries of class sequence c as
// element indexes: 0 is omitted, len(c) is included (for non-empty c).
func Boundaries(k Kind, c []Set, dst []int, h Hits) []int {
	dst = dst[:0]
	for i := 1; i < len(c); i++ {
		b, rule := Break(k, c, i)
		if h != nil {
			h[rule]++
		}
		if b {
			dst = append(dst, i)
		}
	}
	if len(c) > 0 {
		dst = append(dst, len(c))
	}
	return dst
}

// Break tells whether there is a boundary before element i (0 < i < len(c)),
// and which rule said so.
func Break(k Kind, c []Set, i int) (bool, string) {
	switch k {
	case Graphemes:
		return graphemeBreak(c, i)
	case Words:
		return wordBreak(c, i, false)
	case Phrases:
		return wordBreak(c, i, true)
	default:
		return sentenceBreak(c, i)
	}
}

func graphemeBreak(c []Set, i int) (bool, string) {
	l, r := c[i-1], c[i]
	const ctl = ucd.GControl | ucd.GCR | ucd.GLF
	switch {
	case is(l, ucd.GCR) && is(r, ucd.GLF):
		return false, "GB3"
	case is(l, ctl):
		return true, "GB4"
	case is(r, ctl):
		return true, "GB5"
	case is(l, ucd.GL) && is(r, ucd.GL|ucd.GV|ucd.GLV|ucd.GLVT):
		return false, "GB6"
	case is(l, ucd.GLV|ucd.GV) && is(r, ucd.GV|ucd.GT):
		return false, "GB7"
	case is(l, ucd.GLVT|ucd.GT) && is(r, ucd.GT):
		return false, "GB8"
	case is(r, ucd.GExtend|ucd.GZWJ):
		return false, "GB9"
	case is(r, ucd.GSpacingMark):
		return false, "GB9a"
	case is(l, ucd.GPrepend):
		return false, "GB9b"
	}
	if is(r, ucd.GInCBConsonant) {
		j, linker := i-1, false
		for j >= 0 && is(c[j], ucd.GInCBExtend|ucd.GInCBLinker) {
			linker = linker || is(c[j], ucd.GInCBLinker)
			j--
		}
		if linker && j >= 0 && is(c[j], ucd.GInCBConsonant) {
			return false, "GB9c"
		}
	}
	if is(r, ucd.GExtPict) && is(l, ucd.GZWJ) {
		j := i - 2
		for j >= 0 && is(c[j], ucd.GExtend) {
			j--
		}
		if j >= 0 && is(c[j], ucd.GExtPict) {
			return false, "GB11"
		}
	}
	if is(r, ucd.GRI) && is(l, ucd.GRI) {
		n := 0
		for j := i - 1; j >= 0 && is(c[j], ucd.GRI); j-- {
			n++
		}
		if n%2 == 1 {
			return false, "GB12/13"
		}
		return true, "GB999-RI"
	}
	return true, "GB999"
}

const (
	wIgn  = ucd.WExtend | ucd.WFormat | ucd.WZWJ
	wNL   = ucd.WNewline | ucd.WCR | ucd.WLF
	wMNLQ = ucd.WMidNumLet | ucd.WSingleQuote
)

// wPrev finds the element that stands for "the character before position i"
// under WB4: it skips Extend, Format and ZWJ backwards, but not across the
// start of text or a newline, where such a character stands for itself.
func wPrev(c []Set, i int) int {
	for j := i - 1; j >= 0; j-- {
		if !is(c[j], wIgn) {
			return j
		}
		if j == 0 || is(c[j-1], wNL) {
			return j
		}
	}
	return -1
}

func wNext(c []Set, i int) Set {
	for j := i + 1; j < len(c); j++ {
		if !is(c[j], wIgn) {
			return c[j]
		}
	}
	return 0
}

// wordBreak implements WB1..WB999; with phrase set, the documented phrase
// variation: pictographs count as letters, and horizontal spaces join
// letters, numbers and each other.
func wordBreak(c []Set, i int, phrase bool) (bool, string) {
	l, r := c[i-1], c[i]
	switch {
	case is(l, ucd.WCR) && is(r, ucd.WLF):
		return false, "WB3"
	case is(l, wNL):
		return true, "WB3a"
	case is(r, wNL):
		return true, "WB3b"
	case is(l, ucd.WZWJ) && is(r, ucd.WExtPict):
		return false, "WB3c"
	case is(l, ucd.WWSegSpace) && is(r, ucd.WWSegSpace):
		return false, "WB3d"
	case is(r, wIgn):
		return false, "WB4"
	}
	letter := ucd.WALetter | ucd.WHebrew
	if phrase {
		letter |= ucd.WExtPict
	}
	p := wPrev(c, i)
	L := c[p]
	if is(L, wIgn) {
		L = ucd.WOther
	}
	LL := func() Set {
		if p == 0 {
			return 0
		}
		q := wPrev(c, p)
		if q < 0 || is(c[q], wIgn) {
			return 0
		}
		return c[q]
	}
	R := r
	switch {
	case is(L, letter) && is(R, letter):
		return false, "WB5"
	case is(L, letter) && is(R, ucd.WMidLetter|wMNLQ) && is(wNext(c, i), letter):
		return false, "WB6"
	case is(L, ucd.WMidLetter|wMNLQ) && is(R, letter) && is(LL(), letter):
		return false, "WB7"
	case is(L, ucd.WHebrew) && is(R, ucd.WSingleQuote):
		return false, "WB7a"
	case is(L, ucd.WHebrew) && is(R, ucd.WDoubleQuote) && is(wNext(c, i), ucd.WHebrew):
		return false, "WB7b"
	case is(L, ucd.WDoubleQuote) && is(R, ucd.WHebrew) && is(LL(), ucd.WHebrew):
		return false, "WB7c"
	case is(L, ucd.WNumeric) && is(R, ucd.WNumeric):
		return false, "WB8"
	case is(L, letter) && is(R, ucd.WNumeric):
		return false, "WB9"
	case is(L, ucd.WNumeric) && is(R, letter):
		return false, "WB10"
	case phrase && is(L, letter|ucd.WNumeric|ucd.WWSegSpace) && is(R, letter|ucd.WNumeric|ucd.WWSegSpace):
		return false, "phrase-space"
	case is(L, ucd.WMidNum|wMNLQ) && is(R, ucd.WNumeric) && is(LL(), ucd.WNumeric):
		return false, "WB11"
	case is(L, ucd.WNumeric) && is(R, ucd.WMidNum|wMNLQ) && is(wNext(c, i), ucd.WNumeric):
		return false, "WB12"
	case is(L, ucd.WKatakana) && is(R, ucd.WKatakana):
		return false, "WB13"
	case is(L, letter|ucd.WNumeric|ucd.WKatakana|ucd.WExtendNumLet) && is(R, ucd.WExtendNumLet):
		return false, "WB13a"
	case is(L, ucd.WExtendNumLet) && is(R, letter|ucd.WNumeric|ucd.WKatakana):
		return false, "WB13b"
	}
	if is(L, ucd.WRI) && is(R, ucd.WRI) {
		n := 0
		for j := p; j >= 0 && is(c[j], ucd.WRI); {
			n++
			if j == 0 {
				break
			}
			j = wPrev(c, j)
		}
		if n%2 == 1 {
			return false, "WB15/16"
		}
		return true, "WB999-RI"
	}
	return true, "WB999"
}

const (
	sIgn  = ucd.SExtend | ucd.SFormat
	sPara = ucd.SSep | ucd.SCR | ucd.SLF
	sTerm = ucd.SSTerm | ucd.SATerm
)

// sPrev is the character before position i under SB5.
func sPrev(c []Set, i int) int {
	for j := i - 1; j >= 0; j-- {
		if !is(c[j], sIgn) {
			return j
		}
		if j == 0 || is(c[j-1], sPara) {
			return j
		}
	}
	return -1
}

func sentenceBreak(c []Set, i int) (bool, string) {
	l, r := c[i-1], c[i]
	switch {
	case is(l, ucd.SCR) && is(r, ucd.SLF):
		return false, "SB3"
	case is(l, sPara):
		return true, "SB4"
	case is(r, sIgn):
		return false, "SB5"
	}
	at := func(j int) Set {
		if j < 0 {
			return 0
		}
		return c[j]
	}
	p := sPrev(c, i)
	if is(at(p), ucd.SATerm) {
		if is(r, ucd.SNumeric) {
			return false, "SB6"
		}
		if is(r, ucd.SUpper) && is(at(sPrev(c, p)), ucd.SUpper|ucd.SLower) {
			return false, "SB7"
		}
	}
	// Walk back over Sp*, then Close*, to find SATerm Close* Sp*.
	j := p
	sp, cl := 0, 0
	for is(at(j), ucd.SSp) {
		j = sPrev(c, j)
		sp++
	}
	for is(at(j), ucd.SClose) {
		j = sPrev(c, j)
		cl++
	}
	t := at(j)
	if !is(t, sTerm) {
		return false, "SB998"
	}
	if is(t, ucd.SATerm) {
		// SB8: ( ¬(OLetter | Upper | Lower | ParaSep | SATerm) )* Lower
		k := i
		for k < len(c) && !is(c[k], ucd.SOLetter|ucd.SUpper|ucd.SLower|sPara|sTerm) {
			k++
		}
		if k < len(c) && is(c[k], ucd.SLower) {
			return false, "SB8"
		}
	}
	switch {
	case is(r, ucd.SSContinue|sTerm):
		return false, "SB8a"
	case sp == 0 && is(r, ucd.SClose|ucd.SSp|sPara):
		return false, "SB9"
	case is(r, ucd.SSp|sPara):
		return false, "SB10"
	}
	return true, "SB11"
}

// Classes maps valid text to its class sequence and the byte offset of every
// element's end.
func Classes(t []Set, text []byte, cls []Set, ends []int) ([]Set, []int) {
	cls, ends = cls[:0], ends[:0]
	for i := 0; i < len(text); {
		r, w := utf8.DecodeRune(text[i:])
		s := t[r]
		if r == utf8.RuneError && w <= 1 {
			s = other(t) // stray byte; only used where that is well defined
		}
		i += w
		cls = append(cls, s)
		ends = append(ends, i)
	}
	return cls, ends
}

func other(t []Set) Set {
	switch &t[0] {
	case &ucd.G[0]:
		return ucd.GOther
	case &ucd.S[0]:
		return ucd.SOther
	}
	return ucd.WOther
}

// Ends gives the byte offsets of the token ends of valid text.
func Ends(k Kind, text []byte) []int {
	cls, ends := Classes(k.Table(), text, nil, nil)
	b := Boundaries(k, cls, nil, nil)
	for i, e := range b {
		b[i] = ends[e-1]
	}
	return b
}

// EndsAny is Ends, by the naive evaluation for short texts and by the linear
// one for long texts.
func EndsAny(k Kind, text []byte, h Hits) []int {
	cls, ends := Classes(k.Table(), text, nil, nil)
	var b []int
	if len(cls) <= 300 {
		b = Boundaries(k, cls, nil, h)
	} else {
		b = BoundariesLinear(k, cls, nil)
	}
	for i, e := range b {
		b[i] = ends[e-1]
	}
	return b
}
