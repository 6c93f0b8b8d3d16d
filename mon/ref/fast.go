package ref

import "github.com/clipperhouse/uax29/v2/verifmon/ucd"

// BoundariesLinear computes what Boundaries does, in linear time, for inputs
// too long for the naive evaluation. It replaces each unbounded look to the
// left or right by an array filled in one pass; the self-test compares it with
// the naive evaluation.
func BoundariesLinear(k Kind, c []Set, dst []int) []int {
	dst = dst[:0]
	n := len(c)
	if n == 0 {
		return dst
	}
	var brk func(i int) bool
	switch k {
	case Graphemes:
		ri := make([]bool, n)   // odd number of RI end at i
		conj := make([]int8, n) // 1: consonant seen; 2: and a linker
		pict := make([]bool, n) // ExtPict Extend* ends at i
		for i, x := range c {
			if is(x, ucd.GRI) {
				ri[i] = i == 0 || !ri[i-1] || !is(c[i-1], ucd.GRI)
			}
			switch {
			case is(x, ucd.GInCBConsonant):
				conj[i] = 1
			case i > 0 && is(x, ucd.GInCBLinker) && conj[i-1] > 0:
				conj[i] = 2
			case i > 0 && is(x, ucd.GInCBExtend):
				conj[i] = conj[i-1]
			}
			pict[i] = is(x, ucd.GExtPict) || i > 0 && is(x, ucd.GExtend) && pict[i-1]
		}
		brk = func(i int) bool {
			b, rule := graphemeBreak(c[i-1:i+1], 1)
			if rule != "GB999" && rule != "GB12/13" && rule != "GB999-RI" {
				return b
			}
			l, r := c[i-1], c[i]
			if is(r, ucd.GInCBConsonant) && conj[i-1] == 2 {
				return false
			}
			if is(r, ucd.GExtPict) && is(l, ucd.GZWJ) && i >= 2 && pict[i-2] {
				return false
			}
			if is(r, ucd.GRI) && is(l, ucd.GRI) {
				return !ri[i-1]
			}
			return true
		}
	case Words, Phrases:
		// Reduce every position to a short window: previous two significant
		// elements, the current one and the next significant one.
		p1, p2 := make([]int, n+1), make([]int, n+1)
		nx := make([]Set, n+1)
		odd := make([]bool, n+1) // RI run ending at significant element i is odd
		for i := 1; i <= n; i++ {
			j := i - 1
			if is(c[j], wIgn) && j > 0 && !is(c[j-1], wNL) {
				p1[i] = p1[j]
			} else {
				p1[i] = j
			}
			if p1[i] > 0 {
				p2[i] = p1[p1[i]]
			} else {
				p2[i] = -1
			}
		}
		for i := n - 1; i >= 0; i-- {
			if i+1 < n {
				if is(c[i+1], wIgn) {
					nx[i] = nx[i+1]
				} else {
					nx[i] = c[i+1]
				}
			}
		}
		for i := 0; i < n; i++ {
			if is(c[i], ucd.WRI) {
				odd[i] = true
				if i > 0 {
					if q := p1[i]; is(c[q], ucd.WRI) {
						odd[i] = !odd[q]
					}
				}
			}
		}
		brk = func(i int) bool {
			// Window: [p2, p1, (ignorables), last, current, next]
			l := c[i-1]
			w := make([]Set, 0, 6)
			p := p1[i]
			if p2[i] >= 0 {
				w = append(w, c[p2[i]])
			}
			w = append(w, c[p])
			if p != i-1 {
				w = append(w, l)
			}
			at := len(w)
			w = append(w, c[i])
			if nx[i] != 0 {
				w = append(w, nx[i])
			}
			b, rule := wordBreak(w, at, k == Phrases)
			if rule == "WB15/16" || rule == "WB999-RI" {
				return !odd[p]
			}
			return b
		}
	default:
		p1 := make([]int, n+1)
		low := make([]bool, n+1) // SB8 lookahead from i finds Lower
		for i := 1; i <= n; i++ {
			j := i - 1
			if is(c[j], sIgn) && j > 0 && !is(c[j-1], sPara) {
				p1[i] = p1[j]
			} else {
				p1[i] = j
			}
		}
		p1[0] = -1
		for i := n - 1; i >= 0; i-- {
			if is(c[i], ucd.SOLetter|ucd.SUpper|ucd.SLower|sPara|sTerm) {
				low[i] = is(c[i], ucd.SLower)
			} else {
				low[i] = low[i+1]
			}
		}
		// st[i] describes SATerm Close* Sp* ending at significant element i:
		// the terminator (or 0) and whether any Sp was seen.
		term := make([]Set, n)
		sp := make([]bool, n)
		for i := 0; i < n; i++ {
			switch {
			case is(c[i], sTerm):
				term[i] = c[i] & sTerm
			case is(c[i], sIgn):
				// only significant at a hard start; nothing
			case p1[i] >= 0 && is(c[i], ucd.SClose) && !sp[p1[i]]:
				term[i] = term[p1[i]]
			case p1[i] >= 0 && is(c[i], ucd.SSp):
				term[i] = term[p1[i]]
				sp[i] = true
			}
		}
		brk = func(i int) bool {
			l, r := c[i-1], c[i]
			switch {
			case is(l, ucd.SCR) && is(r, ucd.SLF):
				return false
			case is(l, sPara):
				return true
			case is(r, sIgn):
				return false
			}
			p := p1[i]
			if is(c[p], ucd.SATerm) {
				if is(r, ucd.SNumeric) {
					return false
				}
				if q := p1[p]; is(r, ucd.SUpper) && q >= 0 && is(c[q], ucd.SUpper|ucd.SLower) {
					return false
				}
			}
			t := term[p]
			if t == 0 {
				return false
			}
			if is(t, ucd.SATerm) && low[i] {
				return false
			}
			if is(r, ucd.SSContinue|sTerm) || is(r, ucd.SSp|sPara) || !sp[p] && is(r, ucd.SClose) {
				return false
			}
			return true
		}
	}
	for i := 1; i < n; i++ {
		if brk(i) {
			dst = append(dst, i)
		}
	}
	return append(dst, n)
}
