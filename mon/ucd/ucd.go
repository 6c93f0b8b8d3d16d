// Package ucd holds the golden Unicode 17.0.0 segmentation properties that the
// reference model uses. It shares no code and no tables with the library under
// test; see DESIGN.md, "Golden Unicode data", for where the files come from.
package ucd

import (
	"bufio"
	"embed"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
)

//go:embed data
var files embed.FS

// File returns one embedded data file; VERIF_UCD names a directory with others,
// for tokenizers that were regenerated from other data.
func File(name string) []byte {
	if dir := os.Getenv("VERIF_UCD"); dir != "" {
		if b, err := os.ReadFile(dir + "/" + name); err == nil {
			return b
		}
	}
	b, err := files.ReadFile("data/" + name)
	if err != nil {
		panic(err)
	}
	return b
}

const MaxRune = 0x10FFFF

// Set is a set of break-property values, as bits. A code point has one value
// of each of GCB, WB and SB, and possibly Extended_Pictographic and an InCB
// value as well.
type Set uint32

// Grapheme bits.
const (
	GCR Set = 1 << iota
	GLF
	GControl
	GExtend
	GZWJ
	GRI
	GPrepend
	GSpacingMark
	GL
	GV
	GT
	GLV
	GLVT
	GExtPict
	GInCBConsonant
	GInCBExtend
	GInCBLinker
	GOther // no GCB value
)

// Word bits.
const (
	WCR Set = 1 << iota
	WLF
	WNewline
	WExtend
	WZWJ
	WFormat
	WRI
	WKatakana
	WHebrew
	WALetter
	WSingleQuote
	WDoubleQuote
	WMidNumLet
	WMidLetter
	WMidNum
	WNumeric
	WExtendNumLet
	WWSegSpace
	WExtPict
	WOther
)

// Sentence bits.
const (
	SCR Set = 1 << iota
	SLF
	SExtend
	SSep
	SFormat
	SSp
	SLower
	SUpper
	SOLetter
	SNumeric
	SATerm
	SSContinue
	SSTerm
	SClose
	SOther
)

var gNames = map[string]Set{"CR": GCR, "LF": GLF, "Control": GControl, "Extend": GExtend, "ZWJ": GZWJ,
	"Regional_Indicator": GRI, "Prepend": GPrepend, "SpacingMark": GSpacingMark, "L": GL, "V": GV, "T": GT,
	"LV": GLV, "LVT": GLVT, "Extended_Pictographic": GExtPict, "InCB; Consonant": GInCBConsonant,
	"InCB; Extend": GInCBExtend, "InCB; Linker": GInCBLinker}

var wNames = map[string]Set{"CR": WCR, "LF": WLF, "Newline": WNewline, "Extend": WExtend, "ZWJ": WZWJ,
	"Format": WFormat, "Regional_Indicator": WRI, "Katakana": WKatakana, "Hebrew_Letter": WHebrew,
	"ALetter": WALetter, "Single_Quote": WSingleQuote, "Double_Quote": WDoubleQuote, "MidNumLet": WMidNumLet,
	"MidLetter": WMidLetter, "MidNum": WMidNum, "Numeric": WNumeric, "ExtendNumLet": WExtendNumLet,
	"WSegSpace": WWSegSpace, "Extended_Pictographic": WExtPict}

var sNames = map[string]Set{"CR": SCR, "LF": SLF, "Extend": SExtend, "Sep": SSep, "Format": SFormat, "Sp": SSp,
	"Lower": SLower, "Upper": SUpper, "OLetter": SOLetter, "Numeric": SNumeric, "ATerm": SATerm,
	"SContinue": SSContinue, "STerm": SSTerm, "Close": SClose}

// G, W and S give the property bits of every code point.
var (
	G = make([]Set, MaxRune+1)
	W = make([]Set, MaxRune+1)
	S = make([]Set, MaxRune+1)
	// HanHiragana is the union of the Han and Hiragana scripts.
	HanHiragana = make([]bool, MaxRune+1)
)

// Range is one line of a UCD-style file.
type Range struct {
	Lo, Hi rune
	Value  string
}

// Ranges parses a UCD-style file.
func Ranges(name string) []Range {
	var out []Range
	sc := bufio.NewScanner(strings.NewReader(string(File(name))))
	for sc.Scan() {
		line := sc.Text()
		if i := strings.IndexByte(line, '#'); i >= 0 {
			line = line[:i]
		}
		line = strings.TrimSpace(line)
		if line == "" {
			continue
		}
		f := strings.SplitN(line, ";", 2)
		r := strings.SplitN(strings.TrimSpace(f[0]), "..", 2)
		lo, err := strconv.ParseInt(r[0], 16, 32)
		if err != nil {
			panic(err)
		}
		hi := lo
		if len(r) == 2 {
			if hi, err = strconv.ParseInt(r[1], 16, 32); err != nil {
				panic(err)
			}
		}
		out = append(out, Range{rune(lo), rune(hi), strings.TrimSpace(f[1])})
	}
	return out
}

func fill(t []Set, name string, names map[string]Set) {
	for _, r := range Ranges(name) {
		b, ok := names[r.Value]
		if !ok {
			panic(fmt.Sprintf("%s: unknown value %q", name, r.Value))
		}
		for c := r.Lo; c <= r.Hi; c++ {
			t[c] |= b
		}
	}
}

func init() {
	fill(G, "gcb.txt", gNames)
	for c := range G {
		if G[c] == 0 {
			G[c] = GOther
		}
	}
	fill(G, "extpict.txt", gNames)
	fill(G, "incb.txt", gNames)
	fill(W, "wb.txt", wNames)
	for c := range W {
		if W[c] == 0 {
			W[c] = WOther
		}
	}
	fill(W, "extpict.txt", wNames)
	fill(S, "sb.txt", sNames)
	for c := range S {
		if S[c] == 0 {
			S[c] = SOther
		}
	}
	for _, r := range Ranges("hanhira.txt") {
		for c := r.Lo; c <= r.Hi; c++ {
			HanHiragana[c] = true
		}
	}
}

// Pool groups the scalar values of one exact property set.
type Pool struct {
	Set   Set
	Runes []rune
}

// Pools partitions all scalar values by their property set, in a fixed order.
func Pools(t []Set) []Pool {
	at := map[Set]int{}
	var out []Pool
	for c := rune(0); c <= MaxRune; {
		if c >= 0xD800 && c <= 0xDFFF {
			c = 0xE000
		}
		s := t[c]
		i, ok := at[s]
		if !ok {
			i = len(out)
			at[s] = i
			out = append(out, Pool{Set: s})
		}
		rs := out[i].Runes
		for ; c <= MaxRune && t[c] == s && c != 0xD800; c++ {
			rs = append(rs, c)
		}
		out[i].Runes = rs
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Set < out[j].Set })
	return out
}
