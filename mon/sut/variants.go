package sut

import (
	"fmt"
	"io"
	"unicode/utf8"
	"unsafe"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/words"
)

// Variant is a tokenizer with options.
type Variant struct {
	Kind    ref.Kind
	Ansi7   bool
	Ansi8   bool
	Joined  bool // words with joiners
	Middle  []rune
	Leading []rune
}

func (v Variant) String() string {
	s := v.Kind.String()
	if v.Ansi7 {
		s += "+7bit"
	}
	if v.Ansi8 {
		s += "+8bit"
	}
	if v.Joined {
		s += fmt.Sprintf("+joiners(%q,%q)", string(v.Middle), string(v.Leading))
	}
	return s
}

// String makes the variant's string iterator.
func (v Variant) String_(s string) Iter[string] {
	it := String(v.Kind, s)
	if v.Ansi7 || v.Ansi8 {
		g := it.(*graphemes.Iterator[string])
		g.AnsiEscapeSequences, g.AnsiEscapeSequences8Bit = v.Ansi7, v.Ansi8
	}
	if v.Joined {
		it.(*words.Iterator[string]).Joiners(&words.Joiners[string]{Middle: v.Middle, Leading: v.Leading})
	}
	return it
}

// Bytes_ makes the variant's byte iterator.
func (v Variant) Bytes_(b []byte) Iter[[]byte] {
	it := Bytes(v.Kind, b)
	if v.Ansi7 || v.Ansi8 {
		g := it.(*graphemes.Iterator[[]byte])
		g.AnsiEscapeSequences, g.AnsiEscapeSequences8Bit = v.Ansi7, v.Ansi8
	}
	if v.Joined {
		it.(*words.Iterator[[]byte]).Joiners(&words.Joiners[[]byte]{Middle: v.Middle, Leading: v.Leading})
	}
	return it
}

// HasReader tells whether the variant exists for readers.
func (v Variant) HasReader() bool { return !v.Ansi7 && !v.Ansi8 }

// Reader makes the variant's scanner.
func (v Variant) Reader(r io.Reader) Scanner {
	if v.Kind == ref.Words && v.Joined {
		sc := words.FromReader(r)
		sc.Joiners(&words.Joiners[[]byte]{Middle: v.Middle, Leading: v.Leading})
		return sc
	}
	return Reader(v.Kind, r)
}

// Variants lists the standard option combinations of a tokenizer.
func Variants(k ref.Kind) []Variant {
	out := []Variant{{Kind: k}}
	switch k {
	case ref.Graphemes:
		out = append(out, Variant{Kind: k, Ansi7: true}, Variant{Kind: k, Ansi8: true}, Variant{Kind: k, Ansi7: true, Ansi8: true})
	case ref.Words:
		out = append(out,
			Variant{Kind: k, Joined: true},
			Variant{Kind: k, Joined: true, Middle: []rune("-@/ é\U0001F600"), Leading: []rune("#.@\u00a1\U0001F600")},
			Variant{Kind: k, Joined: true, Middle: []rune("\ufffd\n\u0301a1"), Leading: []rune("\ufffd\n\u0301 \u200d")})
	}
	return out
}

// Partition checks that an iterator cuts data into consecutive non-empty
// pieces that add up to the data, that Value is the piece between Start and
// End, and (for valid UTF-8) that no piece starts inside a code point.
func Partition[T ~string | ~[]byte](it Iter[T], data T, dst []int) ([]int, error) {
	dst = dst[:0]
	n := len(data)
	prev := 0
	valid := utf8.ValidString(string(data))
	for it.Next() {
		s, e := it.Start(), it.End()
		if s != prev || e <= s || e > n {
			return dst, fmt.Errorf("token %d spans [%d,%d) after end %d of %d bytes: tokens are not consecutive, non-empty and in range", len(dst), s, e, prev, n)
		}
		v := it.Value()
		if string(v) != string(data[s:e]) {
			return dst, fmt.Errorf("token %d: Value %+q is not data[%d:%d] %+q", len(dst), string(v), s, e, string(data[s:e]))
		}
		if valid && !utf8.ValidString(string(v)) {
			return dst, fmt.Errorf("token %d %+q of valid UTF-8 is not valid UTF-8", len(dst), string(v))
		}
		dst = append(dst, e)
		prev = e
	}
	if prev != n {
		return dst, fmt.Errorf("iteration stopped at %d of %d bytes", prev, n)
	}
	if it.Next() {
		return dst, fmt.Errorf("Next returned true again after false, at [%d,%d) of %d bytes", it.Start(), it.End(), n)
	}
	return dst, nil
}

// Base gives the address of the first byte.
func Base[T ~string | ~[]byte](v T) uintptr {
	switch x := any(v).(type) {
	case string:
		return uintptr(unsafe.Pointer(unsafe.StringData(x)))
	case []byte:
		return uintptr(unsafe.Pointer(unsafe.SliceData(x)))
	}
	return 0
}
