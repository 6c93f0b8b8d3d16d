package main

import (
	"fmt"
	"strings"

	. "github.com/clipperhouse/uax29/v2/verifmon/harness"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/sut"
)

// The texts beyond 4 GiB. All are cheap to step through, the interest being in
// positions and lengths that 31 or 32 bits do not hold.
var huges = []struct {
	v    sut.Variant
	head string // put over the start of each tile
	unit string // repeated, makes a tile
	end  string // put over the end of each tile; its last byte ends a token
	tail string // put over the end of the text, if it is one token
}{
	{sut.Variant{Kind: ref.Words}, "", "a", "a \u00e9, 1\n", ""},
	{sut.Variant{Kind: ref.Words}, "", "a7Z", "", "7"},
	{sut.Variant{Kind: ref.Sentences}, "", "a b", "c. \u00c9t\u00e9 \n", ""},
	{sut.Variant{Kind: ref.Sentences}, "", "to 7", "", " e\u0301."},
	{sut.Variant{Kind: ref.Phrases}, "", "a b", "c, \u00e9t\u00e9!\n", ""},
	{sut.Variant{Kind: ref.Phrases}, "", "to 7", "", " e\u0301"},
	{sut.Variant{Kind: ref.Graphemes, Ansi7: true}, "\x1b]8;;", "x", "\aabc\x1b[1me\u0301\n", ""},
	{sut.Variant{Kind: ref.Graphemes, Ansi8: true}, "\x9d8;;", "x", "\x9cabc\x9b1me\u0301\n", ""},
	{sut.Variant{Kind: ref.Graphemes}, "", "the quick ", "e\u0301\r\n", ""},
}

const hugeLen = 1<<32 + 2*sut.Tile

// huge: the tokens of a text beyond 4 GiB, which repeats a text that is known.
// Args: which of huges, bytes (1) or string (0).
func huge(c *Case) error { _, err := hugeObserve(c); return err }

func hugeObserve(c *Case) (tokens int, err error) {
	h := huges[c.Args[0]]
	tile := []byte(strings.Repeat(h.unit, sut.Tile/len(h.unit)+1))[:sut.Tile]
	copy(tile, h.head)
	copy(tile[sut.Tile-len(h.end):], h.end)
	n := hugeLen
	if h.tail != "" {
		n += 5
	}
	data, free, err := sut.Huge(tile, n, h.tail)
	if err != nil {
		return 0, nil // no room
	}
	defer free()
	ends := []int{n}
	if h.tail == "" {
		if ends, err = sut.Drain(h.v.Bytes_(tile), len(tile), nil); err != nil {
			return 0, err
		}
	}
	if c.Args[1] == 1 {
		return hugeTokens(h.v, h.v.Bytes_(data), n, ends, true)
	}
	return hugeTokens(h.v, h.v.String_(sut.HugeString(data)), n, ends, false)
}

// hugeTokens: the tokens end at the given ends, over and over. When the text
// is one token, this asks either First or Next, to save time.
func hugeTokens[T ~string | ~[]byte](v sut.Variant, it sut.Iter[T], n int, ends []int, first bool) (int, error) {
	if len(ends) > 1 || first {
		if f := it.First(); len(f) != ends[0] {
			return 0, fmt.Errorf("%v: First has %d bytes of %d, should be %d", v, len(f), n, ends[0])
		}
		if len(ends) == 1 {
			return 1, nil
		}
	}
	tokens := 0
	pos, base := 0, 0
	for pos < n {
		for _, e := range ends {
			e += base
			if !it.Next() {
				return 0, fmt.Errorf("%v: Next is false at %d of %d bytes", v, pos, n)
			}
			if it.Start() != pos || it.End() != e || len(it.Value()) != e-pos {
				return 0, fmt.Errorf("%v: at byte %d of %d: token [%d,%d) with a value of %d bytes, should be [%d,%d)", v, pos, n, it.Start(), it.End(), len(it.Value()), pos, e)
			}
			pos = e
			tokens++
		}
		base = pos
	}
	if it.Next() {
		return 0, fmt.Errorf("%v: Next is true at the end", v)
	}
	return tokens, nil
}

func runHuge(x *Ctx) {
	if x.Light {
		return
	}
	n := len(huges)
	if !x.Thorough {
		n-- // four billion graphemes
	}
	x.Parallel("huge", 2*n, func(w *W, idx int) {
		c := &Case{Oracle: "huge", Kind: huges[idx/2].v.Kind, Args: []int64{int64(idx / 2), int64(idx & 1)}}
		w.Guard(c, func() error {
			n, err := hugeObserve(c)
			w.Eval(1)
			if n > 0 {
				w.DistinctN(1)
				w.Count("texts beyond 4 GiB", 1)
				w.Count("tokens of texts beyond 4 GiB", int64(n))
			}
			return err
		})
	})
}

func init() { RegisterOracle("huge", huge) }
