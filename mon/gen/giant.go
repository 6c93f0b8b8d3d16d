package gen

import (
	"strings"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/verifmon/ref"
)

// fillers are units that, repeated, make one token (or very few) of any length.
var fillers = map[ref.Kind][]string{
	ref.Graphemes: {"\u0301", "\u094d", "\U0001F468\u200d", "\U0001F469\U0001F3FB\u200d", "\u0903", "\u0600", "\u1100", "\u1161", "\u11a8", "\u0915\u094d", "\u0915\u094d\u200d",
		"\u200d", "\ufe0f", "\U000E0101", "\u0301\u0903", "\U000110BD", "\u0e33", "\u20e3", "\U0001D165", "\ufe0f\u20e3"},
	ref.Words: {"\u00e9", "1", "a", "a\u0301", "\u0301", "\u05d0", "\u05d0\"", "\u30ab", "_", "\U00010400", "a.", "1,", "a'\u00ad", "  ", "\u3000", " \u0020", "\u200d", "\U0001F469\u200d",
		"\u30ab_", "a_1", "\u00ad", "\U000E0001", "\u0661", "\U0001D7CE", "\u0627", "\u0915\u094d", "1.\u0301", "\uac00", "x9"},
	ref.Sentences: {"\u00e9 ", "\u4e00", "a, ", "\u0301", "Hello ", "a", "\U00010400", "\U00010428", "\U0001F600", "\u05d0 ", "1", "1.1", "e.g", "A.", "(", "\"", ".\u00ad", "?", "!)", ". \u00a0", "\u3002", "\u300d", ", ", " ", ". a", ". (a", ". 1 b"},
	ref.Phrases:   {"\u00e9 ", "a ", "\U0001F600 ", "1 ", "\u05d0 ", "a b1 _ ", "\U00010400", "\u0301", "\u30ab ", "a", " ", "\u3000", "1.5 ", "can't ", "\U0001F469\u200d", "\u0915\u094d ", "\U0001D7CE "},
}

var giantLens = []int{65500, 65532, 65533, 65534, 65535, 65536, 65537, 65538, 65539, 65540, 65600, 70000, 98304, 131071, 131072, 131073, 131075, 196608, 262143, 262144, 262145}

// Giant is a valid text with one or a few tokens beyond 64 KiB, or a very long
// text of ordinary ones.
func Giant(r *Rng, k ref.Kind) string {
	L := giantLens[r.Intn(len(giantLens))]
	switch r.Intn(12) {
	case 0, 1:
		L += r.Intn(64) - 32
	case 2:
		L = 65000 + r.Intn(70000)
	}
	if r.Intn(6) == 0 {
		if n := Size(r, k, 2000, 1<<19); n > 0 {
			L = n
		}
	}
	if r.Intn(24) == 0 {
		if n := Size(r, k, 1<<19, 1<<23); n > 0 {
			L = n
		}
	}
	if r.Intn(48) == 0 {
		L = 1<<20 - 4 + r.Intn(9)
	}
	if r.Intn(4) == 0 {
		a, _ := Text(r, k, Small)
		z, _ := Text(r, k, Small)
		return a + gappedGiant(r, k, L) + z
	}
	var b strings.Builder
	small := func() {
		switch r.Intn(4) {
		case 0:
			b.WriteString("abcdefgh"[:r.Intn(5)])
		case 1:
			s, _ := Text(r, k, Small)
			b.WriteString(s)
		case 2:
			b.WriteString(Motif(r, k))
		}
	}
	small()
	rounds := 1
	if r.Intn(4) == 0 {
		rounds = 2
	}
	for i := 0; i < rounds; i++ {
		// The unit, with the odd exception; the total length in bytes, or in
		// code points, is the one chosen.
		unit := fillers[k][r.Intn(len(fillers[k]))]
		switch r.Intn(10) {
		case 0:
			unit = string(For(k).Any(r))
		case 1:
			unit += fillers[k][r.Intn(len(fillers[k]))]
		case 2:
			// Ordinary text.
			for b.Len() < L {
				b.WriteString(Chunk(r, 4096))
			}
			continue
		}
		n := len(unit)
		if r.Intn(4) == 0 && L < 1<<18 {
			n = utf8.RuneCountInString(unit)
		}
		n = (L - b.Len()%L) / n
		odd := -1
		if r.Intn(3) == 0 && n > 0 {
			odd = r.Intn(n)
		}
		for j := 0; j < n; j++ {
			b.WriteString(unit)
			if j == odd {
				small()
			}
		}
		small()
	}
	return b.String()
}

// Fillers is how many units of Run there are.
func Fillers(k ref.Kind) int { return len(fillers[k]) }

// Run is about n bytes of a unit of which a run is one token or a few, after
// head ASCII letters, so that any offset falls inside a character in one of
// the runs.
func Run(k ref.Kind, unit, head, n int) []byte {
	u := fillers[k][unit]
	return []byte("abc"[:head] + strings.Repeat(u, (n-head)/len(u)))
}

// gaps are units that a rule may have to look across, however many there are.
var gaps = map[ref.Kind][]string{
	ref.Graphemes: {"\u0301", "\u094d", "\u200d", "\ufe0f", "\u0903", "\U0001F3FB", "\u0915\u094d", "\U0001F468\u200d", "\U0001F1E6"},
	ref.Words:     {"\u0301", "\u00ad", "\u200d", "\U000E0001", "\u0903", "a", "1", " ", "\U0001F1E6"},
	ref.Sentences: {"\u0301", "\u00ad", "1", ", ", " ", ")", "\u00a0", "\U0001F600", "- ", "\"", "1 ", "\u300d", "."},
	ref.Phrases:   {"\u0301", "\u00ad", "\u200d", " ", "\u3000", "a", "1 ", "\U0001F600", "\U0001F1E6"},
}

// Gaps is how many units of Gapped there are.
func Gaps(k ref.Kind) int { return len(gaps[k]) }

// Gapped is a rule's motif with a run of about n bytes of a unit put in at the
// cut-th character boundary; ok is false when there is no such boundary.
func Gapped(k ref.Kind, motif string, cut, unit, n int) (text string, ok bool) {
	u := gaps[k][unit]
	for i := range motif + "x" {
		if cut == 0 {
			return motif[:i] + strings.Repeat(u, (n+len(u)-1)/len(u)) + motif[i:], true
		}
		cut--
	}
	return "", false
}

// gappedGiant is a seeded one.
func gappedGiant(r *Rng, k ref.Kind, n int) string {
	m := Motif(r, k)
	for {
		if s, ok := Gapped(k, m, r.Intn(len(m)+1), r.Intn(len(gaps[k])), n); ok {
			return s
		}
	}
}

// OneToken is n bytes that are one token for any tokenizer k (or nearly, where
// the unit's length does not divide n).
func OneToken(r *Rng, k ref.Kind, n int) []byte {
	head, unit := "a", []string{"a", "b", "7", "\u00e9"}[r.Intn(4)]
	if k == ref.Graphemes {
		head, unit = []string{"e", "ee", "e\u0301"}[r.Intn(3)], []string{"\u0301", "\u200d", "\u0302\u0303"}[r.Intn(3)]
	} else if k == ref.Sentences && r.Intn(2) == 0 {
		unit = []string{"a, ", "e.g ", "\u4e00"}[r.Intn(3)]
	}
	return []byte(head + strings.Repeat(unit, max(0, n-len(head))/len(unit)))
}

// GiantBytes is the same, sometimes with malformed bytes in or after it.
func GiantBytes(r *Rng, k ref.Kind) []byte {
	b := []byte(Giant(r, k))
	switch r.Intn(4) {
	case 0:
		b = append(b, malformed[r.Intn(len(malformed))]...)
	case 1:
		b = b[:len(b)-min(len(b), r.Intn(4))]
	case 2:
		for i := 0; i < 1+r.Intn(3); i++ {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
	}
	return b
}

// Colossal is a text of one of n bytes: ordinary ones, seeded ones, and in a
// third of the cases one long run.
func Colossal(r *Rng, k ref.Kind, n int) string {
	var b strings.Builder
	b.Grow(n + 8192)
	run := r.Intn(3) == 0
	for b.Len() < n {
		switch {
		case run && b.Len() < n/4:
			unit := fillers[k][r.Intn(len(fillers[k]))]
			b.WriteString(strings.Repeat(unit, (n/2+r.Intn(n/2)-b.Len())/len(unit)))
		case r.Intn(3) == 0:
			s, _ := Text(r, k, Medium)
			b.WriteString(s)
		default:
			b.WriteString(Chunk(r, 4096))
		}
	}
	s := b.String()
	for cut := n; cut < len(s); cut++ {
		if utf8.RuneStart(s[cut]) {
			return s[:cut]
		}
	}
	return s
}
