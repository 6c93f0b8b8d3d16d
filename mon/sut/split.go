package sut

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
	"unicode/utf8"
)

// Splitters for iterators that accept one.

// ErrSplit is what a failing splitter returns.
var ErrSplit = errors.New("injected split error")

// SplitterNames lists the well-behaved splitters of Splitter.
var SplitterNames = []string{"bytes", "pairs", "runes", "spaces", "lines", "everything", "doubling", "hash"}

// Splitter is a well-behaved splitter: the length of the first token of s.
func Splitter(which int) func(s string) int {
	switch SplitterNames[which] {
	case "bytes":
		return func(s string) int { return 1 }
	case "pairs":
		return func(s string) int { return min(2, len(s)) }
	case "runes":
		return func(s string) int { _, w := utf8.DecodeRuneInString(s); return w }
	case "spaces":
		return func(s string) int {
			if i := strings.IndexByte(s, ' '); i > 0 {
				return i
			} else if i == 0 {
				return 1
			}
			return len(s)
		}
	case "lines":
		return func(s string) int {
			if i := strings.IndexByte(s, '\n'); i >= 0 {
				return i + 1
			}
			return len(s)
		}
	case "everything":
		return func(s string) int { return len(s) }
	case "doubling":
		return func(s string) int { return min(len(s), 1+len(s)/2) }
	default:
		return func(s string) int {
			h := 0
			for i := 0; i < len(s) && i < 4; i++ {
				h = h*31 + int(s[i])
			}
			return min(len(s), 1+h%5)
		}
	}
}

// Fault makes a splitter misbehave on one call.
type Fault struct {
	Call int // which call, from 0; -1 never
	Kind int // 0 error, 1 zero advance, 2 negative advance, 3 one beyond, 4 far beyond
}

// FaultNames names the kinds.
var FaultNames = []string{"error", "zero advance", "negative advance", "one byte beyond", "far beyond"}

// Recorder is a splitter that records how it is called.
type Recorder[T ~string | ~[]byte] struct {
	First func(string) int
	Fault Fault
	Calls int
	Data  T // what the next call should get
	Bad   error
	fired bool
}

// Fired tells whether the fault was delivered.
func (r *Recorder[T]) Fired() bool { return r.fired }

// Split is the function to give to the iterator.
func (r *Recorder[T]) Split(data T, atEOF bool) (int, T, error) {
	var zero T
	if r.Bad == nil && (!atEOF || !bytes.Equal([]byte(data), []byte(r.Data))) {
		r.Bad = fmt.Errorf("call %d of the split function got (%+q, %v), should get the rest of the data, %+q, at EOF", r.Calls, string(data), atEOF, string(r.Data))
	}
	call := r.Calls
	r.Calls++
	if call > len(data)+10000 {
		panic("split function called without end")
	}
	// What comes with the advance does not matter: the token may be shorter or
	// longer, nothing, or something else.
	n := r.First(string(data))
	mix := uint64(call + 3*len(data) + 1)
	for i := 0; i < len(data) && i < 8; i++ {
		mix = (mix ^ uint64(data[i])) * 0x9E3779B97F4A7C15
		mix ^= mix >> 29
	}
	how := int(mix >> 33)
	token := []T{data[:n], data[:n], data[:n-1], zero, data, data[n:], T("something else"), data[:1]}[how%8]
	if call != r.Fault.Call {
		return n, token, nil
	}
	r.fired = true
	switch r.Fault.Kind {
	case 0:
		err := []error{ErrSplit, bufio.ErrFinalToken, io.EOF, io.ErrUnexpectedEOF, bufio.ErrTooLong}[how/8%5]
		return []int{1, n, len(data), 0, -1, len(data) + 1}[how/40%6], token, err
	case 1:
		return 0, token, nil
	case 2:
		return []int{-1, -n, -len(data), math.MinInt, -1 << 40, -len(data) - 1}[how/8%6], token, nil
	case 3:
		return len(data) + 1, token, nil
	default:
		return []int{len(data) + 1<<20, math.MaxInt, math.MaxInt - len(data), 1 << 40, 2*len(data) + 2, math.MaxInt / 2}[how/8%6], token, nil
	}
}

// Custom drives an iterator over data with its splitter set to r.Split, and
// checks it against the splitter. lone says that a single last byte may be
// returned without asking the splitter.
func Custom[T ~string | ~[]byte](it Iter[T], r *Recorder[T], data T, lone bool) error {
	pos := 0
	for step := 0; ; step++ {
		if step > len(data)+2 {
			return fmt.Errorf("more tokens than bytes")
		}
		r.Data = data[pos:]
		calls := r.Calls
		var more bool
		perr := func() (err error) {
			defer func() {
				if v := recover(); v != nil {
					err = fmt.Errorf("panic: %v", v)
				}
			}()
			more = it.Next()
			return nil
		}()
		if r.Bad != nil {
			return r.Bad
		}
		if r.fired {
			if perr == nil {
				return fmt.Errorf("Next returned %v, token [%d,%d) of %d bytes, although the split function misbehaved (%s)", more, it.Start(), it.End(), len(data), FaultNames[r.Fault.Kind])
			}
			return nil
		}
		if perr != nil {
			return fmt.Errorf("Next at %d: %w", pos, perr)
		}
		if pos == len(data) {
			if more {
				return fmt.Errorf("Next returned true at the end")
			}
			return nil
		}
		if !more {
			return fmt.Errorf("Next returned false at %d of %d bytes", pos, len(data))
		}
		if r.Calls == calls && !(lone && len(data)-pos == 1) {
			return fmt.Errorf("Next at %d of %d bytes gave [%d,%d) without the split function", pos, len(data), it.Start(), it.End())
		}
		want := pos + r.First(string(data[pos:]))
		if it.Start() != pos || it.End() != want || string(it.Value()) != string(data[pos:want]) {
			return fmt.Errorf("Next gave [%d,%d) %+q; the split function cut [%d,%d)", it.Start(), it.End(), string(it.Value()), pos, want)
		}
		pos = want
	}
}

// AtStart checks that an iterator is before its first token.
func AtStart[T ~string | ~[]byte](it Iter[T], when string) error {
	if s, e, v := it.Start(), it.End(), it.Value(); s != 0 || e != 0 || len(v) != 0 {
		return fmt.Errorf("%s, the iterator is at [%d,%d), %+q, not before its first token", when, s, e, string(v))
	}
	return nil
}

// Rotate is another text of the same length.
func Rotate[T ~string | ~[]byte](data T) T {
	if len(data) == 0 {
		return data
	}
	return T(string(data[len(data)/3:]) + string(data[:len(data)/3]))
}

// Mind checks that an iterator asks its split function, also one that answers
// otherwise than before, each time.
func Mind[T ~string | ~[]byte](it Iter[T], set func(func(T, bool) (int, T, error)), data T) error {
	if len(data) < 6 {
		return nil
	}
	n := 1
	set(func(d T, eof bool) (int, T, error) {
		m := n
		if m > len(d) {
			m = len(d)
		}
		return m, d[:m], nil
	})
	it.SetText(data)
	for _, n = range []int{1, 3, 2} {
		for i := 0; i < 2; i++ {
			if first := it.First(); string(first) != string(data[:n]) {
				return fmt.Errorf("First gave %+q, the split function now cuts %d bytes", string(first), n)
			}
		}
	}
	for _, n = range []int{2, 1, 2} {
		s := it.End()
		if !it.Next() || it.Start() != s || it.End() != s+n {
			return fmt.Errorf("Next gave [%d,%d), the split function now cuts %d bytes", it.Start(), it.End(), n)
		}
		if first := it.First(); string(first) != string(data[:n]) {
			return fmt.Errorf("after %d bytes, First gave %+q, the split function now cuts %d bytes", it.End(), string(first), n)
		}
	}
	return nil
}
