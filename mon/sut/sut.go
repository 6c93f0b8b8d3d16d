// Package sut is the thin, exported-API-only view of the library under test
// that the monitors drive. Nothing here depends on how the library is written.
package sut

import (
	"bufio"
	"fmt"
	"io"
	"runtime/debug"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/words"
)

// Iter is what every package's Iterator offers.
type Iter[T ~string | ~[]byte] interface {
	Next() bool
	Value() T
	Start() int
	End() int
	Reset()
	SetText(T)
	First() T
}

// String makes a string iterator.
func String(k ref.Kind, s string) Iter[string] {
	switch k {
	case ref.Graphemes:
		return graphemes.FromString(s)
	case ref.Words:
		return words.FromString(s)
	case ref.Sentences:
		return sentences.FromString(s)
	default:
		return phrases.FromString(s)
	}
}

// Bytes makes a byte-slice iterator.
func Bytes(k ref.Kind, b []byte) Iter[[]byte] {
	switch k {
	case ref.Graphemes:
		return graphemes.FromBytes(b)
	case ref.Words:
		return words.FromBytes(b)
	case ref.Sentences:
		return sentences.FromBytes(b)
	default:
		return phrases.FromBytes(b)
	}
}

// SplitFunc is the package's bufio.SplitFunc.
func SplitFunc(k ref.Kind) bufio.SplitFunc {
	switch k {
	case ref.Graphemes:
		return graphemes.SplitFunc
	case ref.Words:
		return words.SplitFunc
	case ref.Sentences:
		return sentences.SplitFunc
	default:
		return phrases.SplitFunc
	}
}

// Scanner is the common part of the packages' Scanner types.
type Scanner interface {
	Scan() bool
	Bytes() []byte
	Text() string
	Err() error
	Buffer([]byte, int)
}

// Reader makes a Scanner.
func Reader(k ref.Kind, r io.Reader) Scanner {
	switch k {
	case ref.Graphemes:
		return graphemes.FromReader(r)
	case ref.Words:
		return words.FromReader(r)
	case ref.Sentences:
		return sentences.FromReader(r)
	default:
		return phrases.FromReader(r)
	}
}

// Panic is a panic that came out of the library.
type Panic struct {
	Value any
	Stack string
}

func (p *Panic) Error() string { return fmt.Sprintf("panic: %v", p.Value) }

// Protect turns a panic into an error.
func Protect(f func() error) (err error) {
	defer func() {
		if v := recover(); v != nil {
			err = &Panic{v, string(debug.Stack())}
		}
	}()
	return f()
}

// Drain runs an iterator to its end and returns the token ends, checking only
// what is needed for the run to be finite.
func Drain[T ~string | ~[]byte](it Iter[T], size int, dst []int) ([]int, error) {
	dst = dst[:0]
	prev := 0
	for it.Next() {
		e := it.End()
		if s := it.Start(); s != prev || e <= s || e > size {
			return dst, fmt.Errorf("token %d spans [%d,%d) after end %d of %d bytes: tokens are not consecutive, non-empty and in range", len(dst), s, e, prev, size)
		}
		dst = append(dst, e)
		prev = e
	}
	if prev != size {
		return dst, fmt.Errorf("iteration stopped at %d of %d bytes", prev, size)
	}
	return dst, nil
}

// SplitEnds applies a SplitFunc at EOF until the data is used up.
func SplitEnds(split bufio.SplitFunc, b []byte, dst []int) ([]int, error) {
	dst = dst[:0]
	pos := 0
	for pos < len(b) {
		adv, tok, err := split(b[pos:], true)
		if err != nil {
			return dst, fmt.Errorf("SplitFunc at %d: %v", pos, err)
		}
		if adv <= 0 || adv > len(b)-pos {
			return dst, fmt.Errorf("SplitFunc at %d of %d bytes, at EOF: advance %d", pos, len(b), adv)
		}
		if string(tok) != string(b[pos:pos+adv]) {
			return dst, fmt.Errorf("SplitFunc at %d: token %q is not the %d bytes advanced, %q", pos, tok, adv, b[pos:pos+adv])
		}
		pos += adv
		dst = append(dst, pos)
	}
	return dst, nil
}

// Same compares two boundary lists.
func Same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Show writes text cut at the given ends.
func Show(text []byte, ends []int) string {
	s := ""
	p := 0
	for i, e := range ends {
		if i > 40 || len(s) > 600 {
			s += "…"
			break
		}
		if e < p || e > len(text) {
			s += fmt.Sprintf("<bad end %d>", e)
			break
		}
		if i > 0 {
			s += "|"
		}
		if e-p > 60 {
			s += fmt.Sprintf("%+q…(%d bytes)", text[p:p+40], e-p)
		} else {
			s += fmt.Sprintf("%+q", text[p:e])
		}
		p = e
	}
	return s
}

// Diff describes a disagreement between two segmentations.
func Diff(text []byte, gotName string, got []int, wantName string, want []int) error {
	if Same(got, want) {
		return nil
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	from := max(0, i-2)
	base := 0
	if from > 0 {
		base = got[from-1]
	}
	cut := func(e []int) string {
		var out []int
		for _, x := range e[min(from, len(e)):min(len(e), from+8)] {
			out = append(out, x-base)
		}
		return Show(text[base:], out)
	}
	return fmt.Errorf("token %d (from byte %d): %s gives %s, %s gives %s", i, base, gotName, cut(got), wantName, cut(want))
}
