// Package gen makes the workloads: seeded text generators biased towards the
// segmentation classes, their interactions, and the places where streaming,
// fast paths and counters change behaviour.
package gen

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/ucd"
)

// Rng is a deterministic source; every case has its own.
type Rng = rand.Rand

// NewRng mixes a seed and a case number.
func NewRng(seed int64, n uint64) *Rng {
	x := uint64(seed)*0x9E3779B97F4A7C15 + n*0xBF58476D1CE4E5B9 + 0x94D049BB133111EB
	x ^= x >> 31
	x *= 0xD6E8FEB86659FD93
	x ^= x >> 29
	return rand.New(&splitmix{x})
}

type splitmix struct{ s uint64 }

func (m *splitmix) Uint64() uint64 {
	m.s += 0x9E3779B97F4A7C15
	z := m.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (m *splitmix) Int63() int64 { return int64(m.Uint64() >> 1) }
func (m *splitmix) Seed(int64)   {}

// Alphabet is the class alphabet of one tokenizer.
type Alphabet struct {
	Kind  ref.Kind
	Pools []ucd.Pool
	Reps  []rune // one representative per pool
	ASCII []rune // one ASCII member of every pool that has one
	// Alts are a handful of members of every pool: first, last, smallest and
	// largest of each UTF-8 length, and some from the middle.
	Alts [][]rune
}

var alphabets [4]*Alphabet

func init() {
	for k := range alphabets {
		kind := ref.Kind(k)
		a := &Alphabet{Kind: kind, Pools: ucd.Pools(kind.Table())}
		for _, p := range a.Pools {
			rep := p.Runes[0]
			for _, r := range p.Runes {
				// Prefer a printable representative.
				if r > 0x20 && r != 0x7f {
					rep = r
					break
				}
			}
			a.Reps = append(a.Reps, rep)
			for _, r := range p.Runes {
				if r < 0x80 && (r >= 0x20 || len(p.Runes) < 3) {
					a.ASCII = append(a.ASCII, r)
					break
				}
			}
			var alts []rune
			last := 0
			for i, r := range p.Runes {
				if w := utf8.RuneLen(r); w != last {
					if i > 0 {
						alts = append(alts, p.Runes[i-1])
					}
					alts = append(alts, r)
					last = w
				}
			}
			n := len(p.Runes)
			alts = append(alts, p.Runes[n-1], p.Runes[n/2], p.Runes[n/3], p.Runes[2*n/3])
			a.Alts = append(a.Alts, alts)
		}
		alphabets[k] = a
	}
}

// For gives the class alphabet of a tokenizer.
func For(k ref.Kind) *Alphabet { return alphabets[k] }

// Pick returns a random member of pool i.
func (a *Alphabet) Pick(r *Rng, i int) rune {
	switch r.Intn(4) {
	case 0:
		return a.Reps[i]
	case 1:
		return a.Alts[i][r.Intn(len(a.Alts[i]))]
	default:
		p := a.Pools[i].Runes
		return p[r.Intn(len(p))]
	}
}

// Any picks a random class, then a member.
func (a *Alphabet) Any(r *Rng) rune { return a.Pick(r, r.Intn(len(a.Pools))) }

// AnyRune is a random scalar value.
func AnyRune(r *Rng) rune {
	for {
		var c rune
		switch r.Intn(5) {
		case 0:
			c = rune(r.Intn(0x80))
		case 1:
			c = rune(r.Intn(0x800))
		case 2:
			c = rune(r.Intn(0x10000))
		case 3:
			c = 0x10000 + rune(r.Intn(0x22000-0x10000))
		default:
			c = rune(r.Intn(0x110000))
		}
		if c < 0xD800 || c > 0xDFFF {
			return c
		}
	}
}

const alnumSpace = "aZ09bQ7 x"

var asciiPunct = []rune(".,:;'\"!?-_/@#()[]{}<>&%$*+=~^|\\`\t\n\r")

// Motifs are fragments that set up the context-dependent rules.
var motifs = map[ref.Kind][]string{
	ref.Graphemes: {
		"\r\n", "\r", "\n", "\u200d", "\U0001F468\u200d\U0001F469", "\U0001F3FB", "\U0001F1FA\U0001F1F8", "\U0001F1FA",
		"\u0915\u094d\u0915", "\u0915\u094d", "\u094d", "\u0915", "\u0915\u094d\u200d", "\u0915\u093c\u094d", "\u0d15\u0d4d", "\u1100\u1161\u11a8",
		"\uac00\u11a8", "\uac01\u11a8", "\u1100", "\u1161", "\u11a8", "\u0600", "\u0903", "\u0301", "e\u0301", "\u200c",
		"\U0001F469\u0301\u200d", "\u00a9\ufe0f", "\u2764\ufe0f\u200d\U0001F525", "#\ufe0f\u20e3", "\U000E0067\U000E007F",
		"\u0e33", "\u0e01\u0e33", "\U00011046\U0001107f", "\u1b05\u1b44\u1b05", "\u110bd", "\u2701\u200d", "a", "b", " ",
	},
	ref.Words: {
		"can't", "e.g.", "3.14", "1,000", "a_b", "_", "a.b", "a:b", "1.a", "a.1", "\u05d0'", "\u05d0\"\u05d0", "\u05d0\"", "\"\u05d0", "\u05d0",
		"\u30ab\u30bf", "\u30ab", "\u30ab_", "\U0001F1FA\U0001F1F8", "\U0001F1FA", "\U0001F1FA\u0301", "\u200d\U0001F525", "\U0001F469\u200d", "\u200d",
		"\u0301", "\u00ad", "\u200b", "\u2060", "  ", " ", "\u3000", "\u00a0", "\r\n", "\n", "\u2028", "\u0085", ".\u0301", "'\u00ad", "1.\u03011",
		"a:\u0301b", "\u05d0\u0301\"\u0301\u05d0", ",", ";", "\u037e", "\u2019", "\u00b7", "\u4e00", "\u3042", "\u0e01", "foo@example.com", "x", "9", "!", "\u24c2", "\u24c2\u200d",
		"\U000E0001", "\u0600", "\u202f", "\uff0e", "\ufe52", "\u066b", "\u066c", "\uff10", "\u06dd1",
	},
	ref.Sentences: {
		"Mr. Smith", "3.4", "etc. and", "U.S.", "A.", "a.B", "a.b", ".", "!", "?", "?!", "...", ".)", ".) ", ".\" ", ". ", ".  ", ".\u00a0", ".\u0308 ", "!\u0308)",
		"(", ")", "\"", "'", "\u201d", "\n", "\r\n", "\r", "\u2029", "\u0085", ".\n", ". \n", ".)\n", ".,", "!,", ". ,", "!) ;", "1", "9", "\u3002", "\u3002\u300d", "\u300d",
		"\u00aa", "\u01c5", "\u05d0", "\u4e00", "\u0301", "\u00ad", "\u200d", "\u0308", ":", ";", "-", "\u2026", ". 1 a", ". (a", ". (A", "! a", ".\u00ad)\u00ad ",
		"Hello", "hello", "HELLO", "x", "\u2024", "\ufe52", "\uff0e", " ", "\t", "\u000b", "%", "\U0001F600", "\u0660", "\uff01", "\u2014", "\u3001",
	},
}

func init() {
	p := append([]string{}, motifs[ref.Words]...)
	p = append(p, "the quick brown", "a b", "1 a", "a 1", " a", "a ", "\U0001F600 \U0001F600", "\U0001F600a", "a\U0001F600", "\U0001F600.\U0001F600", "\u3000a", "a\u2003b", "a\u0301 b", " \u0301", "_ a", "a _", "a. b", "1, 2", "\u2009")
	motifs[ref.Phrases] = p
}

// runLens straddle the sizes at which counters and buffers change.
var runLens = []int{2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025}
var longRunLens = []int{4095, 4096, 4097, 8191, 8192, 65534, 65535, 65536, 65537, 65538}

// Scale bounds how long generated texts get.
type Scale int

const (
	Small Scale = iota // up to about 40 runes
	Medium
	Large // runs in the thousands
)

var samples = splitSamples()

func splitSamples() []string {
	var out []string
	for _, f := range []string{"sample.txt"} {
		s := string(ucd.File(f))
		out = append(out, s)
	}
	return out
}

// Chunk cuts a random rune-aligned piece of the sample texts.
func Chunk(r *Rng, max int) string {
	s := samples[r.Intn(len(samples))]
	i := r.Intn(len(s))
	n := 1 + r.Intn(max)
	j := i + n
	if j > len(s) {
		j = len(s)
	}
	for i < len(s) && !utf8.RuneStart(s[i]) {
		i++
	}
	for j < len(s) && !utf8.RuneStart(s[j]) {
		j++
	}
	if i >= j {
		return "a"
	}
	return s[i:j]
}

// ModeNames names the generation modes, for evidence.
var ModeNames = []string{"classes", "few-classes", "motifs", "ascii", "ascii-mixed", "random-runes", "sample", "sample-mutated", "runs", "motif-repeat", "sticky", "sandwich", "literals"}

// Text generates valid UTF-8 for tokenizer k, and the mode it used.
func Text(r *Rng, k ref.Kind, sc Scale) (string, int) {
	a := For(k)
	var b strings.Builder
	n := 1 + r.Intn(12)
	if r.Intn(4) == 0 {
		n = 1 + r.Intn(40)
	}
	if sc >= Medium && r.Intn(4) == 0 {
		n = 1 + r.Intn(200)
	}
	m := r.Intn(len(ModeNames))
	switch m {
	case 0: // uniformly random classes
		for i := 0; i < n; i++ {
			b.WriteRune(a.Any(r))
		}
	case 1: // two to four classes only
		var cs [4]int
		q := 2 + r.Intn(3)
		for i := range cs[:q] {
			cs[i] = r.Intn(len(a.Pools))
		}
		for i := 0; i < n; i++ {
			b.WriteRune(a.Pick(r, cs[r.Intn(q)]))
		}
	case 2: // motifs
		ms := motifs[k]
		for i := 0; i < 1+n/2; i++ {
			b.WriteString(ms[r.Intn(len(ms))])
		}
	case 3: // ASCII
		for i := 0; i < n; i++ {
			b.WriteRune(asciiRune(r))
		}
	case 4: // ASCII with the odd other rune
		for i := 0; i < n; i++ {
			if r.Intn(5) == 0 {
				b.WriteRune(a.Any(r))
			} else {
				b.WriteRune(asciiRune(r))
			}
		}
	case 5:
		for i := 0; i < n; i++ {
			b.WriteRune(AnyRune(r))
		}
	case 6:
		b.WriteString(Chunk(r, 10+n*8))
	case 7:
		b.WriteString(Mutate(r, a, Chunk(r, 10+n*4)))
	case 8: // a long run of one class, inside something
		for i := 0; i < r.Intn(4); i++ {
			b.WriteRune(a.Any(r))
		}
		L := runLens[r.Intn(12)]
		if sc >= Medium {
			L = runLens[r.Intn(len(runLens))]
		}
		if sc >= Large && r.Intn(3) == 0 {
			L = longRunLens[r.Intn(len(longRunLens))]
		}
		p := r.Intn(len(a.Pools))
		c := a.Pick(r, p)
		mixed := r.Intn(3) == 0
		for i := 0; i < L; i++ {
			if mixed {
				c = a.Pick(r, p)
			}
			b.WriteRune(c)
		}
		for i := 0; i < r.Intn(4); i++ {
			b.WriteRune(a.Any(r))
		}
	case 9: // one short pattern, repeated
		var q strings.Builder
		for i := 0; i < 1+r.Intn(4); i++ {
			if r.Intn(2) == 0 {
				q.WriteString(motifs[k][r.Intn(len(motifs[k]))])
			} else {
				q.WriteRune(a.Any(r))
			}
		}
		L := 2 + r.Intn(12)
		if sc >= Medium && r.Intn(3) == 0 {
			L = runLens[r.Intn(len(runLens))]
		}
		for i := 0; i < L; i++ {
			b.WriteString(q.String())
		}
		for i := 0; i < r.Intn(3); i++ {
			b.WriteRune(a.Any(r))
		}
	case 10: // sticky classes: geometric runs
		p := r.Intn(len(a.Pools))
		for i := 0; i < n*2; i++ {
			if r.Intn(3) == 0 {
				p = r.Intn(len(a.Pools))
			}
			b.WriteRune(a.Pick(r, p))
		}
	case 12: // what the code's literals stand for
		b.WriteString(fromLiterals(r, k, sc, true))
	case 11: // alnum head, run of ignorable or spaces, tail
		for i := 0; i < r.Intn(6); i++ {
			b.WriteByte(alnumSpace[r.Intn(len(alnumSpace))])
		}
		ms := motifs[k]
		for i := 0; i < 1+r.Intn(3); i++ {
			b.WriteString(ms[r.Intn(len(ms))])
			c := a.Any(r)
			for j := 0; j < r.Intn(4); j++ {
				b.WriteRune(c)
			}
		}
		for i := 0; i < r.Intn(6); i++ {
			b.WriteByte(alnumSpace[r.Intn(len(alnumSpace))])
		}
	}
	return b.String(), m
}

func asciiRune(r *Rng) rune {
	switch r.Intn(8) {
	case 0, 1:
		return ' '
	case 2:
		return asciiPunct[r.Intn(len(asciiPunct))]
	case 3:
		return rune(r.Intn(0x80))
	case 4:
		return rune('0' + r.Intn(10))
	case 5:
		return rune('A' + r.Intn(26))
	default:
		return rune('a' + r.Intn(26))
	}
}

// Mutate edits text at rune granularity.
func Mutate(r *Rng, a *Alphabet, s string) string {
	rs := []rune(s)
	for i := 0; i < 1+r.Intn(6); i++ {
		p := r.Intn(len(rs) + 1)
		switch r.Intn(4) {
		case 0:
			rs = append(rs[:p], append([]rune{a.Any(r)}, rs[p:]...)...)
		case 1:
			if p < len(rs) {
				rs[p] = a.Any(r)
			}
		case 2:
			if p < len(rs) && len(rs) > 1 {
				rs = append(rs[:p], rs[p+1:]...)
			}
		case 3:
			q := r.Intn(len(rs) + 1)
			if p > q {
				p, q = q, p
			}
			if q-p > 10 {
				q = p + 10
			}
			rs = append(rs[:q], append(append([]rune{}, rs[p:q]...), rs[q:]...)...)
		}
	}
	return string(rs)
}

// BytesModeNames names the arbitrary-byte modes.
var BytesModeNames = []string{"valid", "truncated", "byte-flips", "random-bytes", "high-bytes", "invalid-sample", "malformed-units", "controls", "literals"}

var malformed = []string{"\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xc2", "\xe0\x80\x80", "\xe0\xa0", "\xe2\x80", "\xe2", "\xed\xa0\x80", "\xed\xbf\xbf", "\xed\xa0",
	"\xf0\x80\x80\x80", "\xf0\x9f", "\xf0\x9f\x98", "\xf0", "\xf4\x90\x80\x80", "\xf4", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xfe", "\xff", "\xef\xbf\xbe", "\xef\xbb\xbf", "\xef\xbb", "\x00", "\x9b", "\x1b", "\x1b[", "\x9d"}

// Bytes generates arbitrary bytes, and the mode it used.
func Bytes(r *Rng, k ref.Kind, sc Scale) ([]byte, int) {
	m := r.Intn(len(BytesModeNames))
	switch m {
	case 0:
		s, _ := Text(r, k, sc)
		return []byte(s), m
	case 1:
		s, _ := Text(r, k, sc)
		s += string(a3(r, k))
		return []byte(s[:len(s)-1-r.Intn(min(len(s), 3))]), m
	case 2:
		s, _ := Text(r, k, sc)
		b := []byte(s)
		for i := 0; i < 1+r.Intn(4) && len(b) > 0; i++ {
			p := r.Intn(len(b))
			switch r.Intn(4) {
			case 0:
				b[p] = byte(r.Intn(256))
			case 1:
				b[p] ^= 1 << uint(r.Intn(8))
			case 2:
				b = append(b[:p], b[p+1:]...)
			case 3:
				b = append(b[:p], append([]byte{byte(r.Intn(256))}, b[p:]...)...)
			}
		}
		return b, m
	case 3:
		b := make([]byte, r.Intn(24))
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return b, m
	case 4:
		b := make([]byte, r.Intn(16))
		for i := range b {
			b[i] = byte(0x80 + r.Intn(128))
		}
		return b, m
	case 5:
		s := ucd.File("invalid.txt")
		i := r.Intn(len(s))
		j := min(len(s), i+1+r.Intn(60))
		return append([]byte{}, s[i:j]...), m
	case 6:
		var b []byte
		a := For(k)
		for i := 0; i < 1+r.Intn(8); i++ {
			switch r.Intn(3) {
			case 0:
				b = append(b, malformed[r.Intn(len(malformed))]...)
			case 1:
				b = utf8.AppendRune(b, a.Any(r))
			case 2:
				b = append(b, motifs[k][r.Intn(len(motifs[k]))]...)
			}
		}
		return b, m
	case 8:
		return []byte(fromLiterals(r, k, sc, false)), m
	default:
		b := make([]byte, 1+r.Intn(20))
		for i := range b {
			switch r.Intn(4) {
			case 0:
				b[i] = byte(r.Intn(0x20))
			case 1:
				b[i] = byte(0x80 + r.Intn(0x20))
			case 2:
				b[i] = byte(0x40 + r.Intn(0x40))
			default:
				b[i] = byte(0x20 + r.Intn(0x20))
			}
		}
		return b, m
	}
}

func a3(r *Rng, k ref.Kind) rune {
	a := For(k)
	for i := 0; i < 20; i++ {
		if c := a.Any(r); c >= 0x80 {
			return c
		}
	}
	return 0x4e00
}

// Malformed returns one of the standard malformed units.
func Malformed(r *Rng) string { return malformed[r.Intn(len(malformed))] }

// Motif returns one of the rule-triggering fragments.
func Motif(r *Rng, k ref.Kind) string { return motifs[k][r.Intn(len(motifs[k]))] }

// Motifs returns all of them.
func Motifs(k ref.Kind) []string { return motifs[k] }

// escapeRune stands before the hexadecimal digits of a rune that a string
// cannot hold.
const escapeRune = '\U0010FFFF'

// RunesStr and RunesOf keep a set of runes in a string, with those that are no
// characters.
func RunesStr(rs []rune) string {
	var b strings.Builder
	for _, r := range rs {
		if r == escapeRune || !utf8.ValidRune(r) {
			fmt.Fprintf(&b, "%c%08x", escapeRune, uint32(r))
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func RunesOf(s string) []rune {
	rs := []rune(s)
	out := rs[:0]
	for i := 0; i < len(rs); i++ {
		if rs[i] == escapeRune && i+8 < len(rs) {
			if n, err := strconv.ParseUint(string(rs[i+1:i+9]), 16, 32); err == nil {
				out = append(out, rune(uint32(n)))
				i += 8
				continue
			}
		}
		out = append(out, rs[i])
	}
	return out
}

// NoRunes are runes that are no characters.
var NoRunes = []rune{-1, 0xD800, 0xDFFF, 0x110000, 1<<31 - 1, -1 << 31, -128}
