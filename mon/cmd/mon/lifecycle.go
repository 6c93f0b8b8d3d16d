package main

import (
	"fmt"
	"strings"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	. "github.com/clipperhouse/uax29/v2/verifmon/harness"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/sut"
	"github.com/clipperhouse/uax29/v2/words"
)

// The model of one iterator: its text, its options, and the current token.
type model struct {
	v          sut.Variant
	text       string
	start, end int
}

type live[T ~string | ~[]byte] struct {
	it sut.Iter[T]
	m  model
	// the memory of a []byte text
	buf []byte
	// log of operations, for the witness
	log []string
}

// conv makes the text; bytes may be put where the last text was.
func (l *live[T]) conv(s string, reuse bool) T {
	if reuse && cap(l.buf) > 0 {
		l.buf = append(l.buf[:0], s...)
	} else {
		l.buf = append([]byte(nil), s...)
	}
	if _, ok := any(*new(T)).([]byte); ok {
		return any(l.buf).(T)
	}
	return T(s)
}

func (l *live[T]) setOptions(v sut.Variant) {
	switch it := any(l.it).(type) {
	case *graphemes.Iterator[T]:
		it.AnsiEscapeSequences, it.AnsiEscapeSequences8Bit = v.Ansi7, v.Ansi8
	case *words.Iterator[T]:
		if v.Joined {
			it.Joiners(&words.Joiners[T]{Middle: v.Middle, Leading: v.Leading})
		}
	}
	l.m.v = v
}

// first is the specification of "the next token of this text": what a fresh
// iterator gives first.
func first(v sut.Variant, s string) int {
	it := v.String_(s)
	if !it.Next() {
		return 0
	}
	return it.End()
}

func (l *live[T]) check(op string) error {
	s, e := l.it.Start(), l.it.End()
	if s < 0 || e < s || e > len(l.m.text) {
		return fmt.Errorf("after %s: token [%d,%d) of %d bytes", op, s, e, len(l.m.text))
	}
	if v := string(l.it.Value()); v != l.m.text[s:e] {
		return fmt.Errorf("after %s: Value %+q is not data[%d:%d] %+q", op, v, s, e, l.m.text[s:e])
	}
	return nil
}

func (l *live[T]) at(op string) error {
	if s, e := l.it.Start(), l.it.End(); s != l.m.start || e != l.m.end {
		return fmt.Errorf("after %s: token [%d,%d), should be [%d,%d)", op, s, e, l.m.start, l.m.end)
	}
	return l.check(op)
}

const lifecycleOps = 10

func (l *live[T]) step(r *gen.Rng, counts func(string)) error {
	m := &l.m
	op := r.Intn(lifecycleOps)
	name := ""
	var err error
	switch op {
	case 0, 1, 2, 3:
		name = "Next"
		got := l.it.Next()
		if m.end >= len(m.text) {
			name = "Next at end"
			if got {
				err = fmt.Errorf("Next at the end returned true, token [%d,%d)", l.it.Start(), l.it.End())
			} else {
				err = l.check(name)
			}
			break
		}
		if !got {
			err = fmt.Errorf("Next returned false at %d of %d bytes", m.end, len(m.text))
			break
		}
		m.start = m.end
		m.end += first(m.v, m.text[m.start:])
		err = l.at(name)
	case 4:
		name = "First"
		s, e := l.it.Start(), l.it.End()
		f := string(l.it.First())
		if want := m.text[:first(m.v, m.text)]; f != want {
			err = fmt.Errorf("First gives %+q, should be %+q", f, want)
		} else if s != l.it.Start() || e != l.it.End() {
			err = fmt.Errorf("First moved the iterator from [%d,%d) to [%d,%d)", s, e, l.it.Start(), l.it.End())
		} else {
			err = l.check(name)
		}
	case 5:
		name = "Reset"
		l.it.Reset()
		m.start, m.end = 0, 0
		err = l.at(name)
	case 6:
		name = "SetText"
		old := m.text
		m.text, _ = lifecycleText(r, m.v)
		if n := len(old); n > 0 && r.Intn(3) == 0 {
			// As long as the last, and some of it the same.
			for len(m.text) < n {
				m.text += m.text + "a"
			}
			k := r.Intn(n + 1)
			m.text = old[:k] + m.text[k:n]
		}
		m.start, m.end = 0, 0
		l.it.SetText(l.conv(m.text, r.Intn(3) > 0))
		err = l.at(name)
	case 7:
		name = "options"
		v := m.v
		switch v.Kind {
		case ref.Graphemes:
			v.Ansi7, v.Ansi8 = r.Intn(2) == 0, r.Intn(2) == 0
		case ref.Words:
			v.Joined, v.Middle, v.Leading = true, nil, nil
			if r.Intn(3) > 0 {
				v.Middle, v.Leading = randRunes(r), randRunes(r)
			}
		}
		l.setOptions(v)
		err = l.check(name)
	case 8:
		name = "drain"
		for l.it.Next() {
			if m.end >= len(m.text) {
				err = fmt.Errorf("Next at the end returned true")
				break
			}
			m.start = m.end
			m.end += first(m.v, m.text[m.start:])
			if err = l.at("Next while draining"); err != nil {
				break
			}
		}
		if err == nil && m.end != len(m.text) {
			err = fmt.Errorf("draining stopped at %d of %d", m.end, len(m.text))
		}
	case 9:
		name = "observe"
		for i := 0; i < 3 && err == nil; i++ {
			err = l.check(name)
		}
	}
	counts(name)
	if len(l.log) < 60 {
		l.log = append(l.log, fmt.Sprintf("%s->[%d,%d)", name, l.it.Start(), l.it.End()))
	}
	return err
}

// burst repeats one operation very often, after which the iterator is as after
// the last of them.
func (l *live[T]) burst(r *gen.Rng, counts func(string)) error {
	m := &l.m
	n := 1<<(3+r.Intn(6)) + r.Intn(3) - 1
	if r.Intn(12) == 0 {
		n = 1<<16 + r.Intn(3) - 1
	}
	switch r.Intn(4) {
	case 0:
		l.it.First()
	case 1:
		l.it.Next()
		l.it.First()
	case 2:
		l.it.Next()
	}
	name := ""
	switch r.Intn(5) {
	case 0:
		name = "SetText"
		a, _ := lifecycleText(r, m.v)
		b, _ := lifecycleText(r, m.v)
		m.text, m.start, m.end = b, 0, 0
		ta, tb := l.conv(a, false), l.conv(b, false)
		for i := 1; i < n; i++ {
			l.it.SetText(ta)
		}
		l.it.SetText(tb)
	case 1:
		name = "Reset"
		m.start, m.end = 0, 0
		for i := 0; i < n; i++ {
			l.it.Reset()
		}
	case 2:
		name = "First"
		n = min(n, 1<<16)
		if len(m.text) > 100 {
			n = min(n, 2000)
		}
		l.it.Reset()
		m.start, m.end = 0, 0
		for i := 0; i < n; i++ {
			l.it.First()
		}
	case 3:
		name = "options"
		l.it.Reset()
		m.start, m.end = 0, 0
		for i := 0; i < n; i++ {
			l.setOptions(m.v)
		}
	case 4:
		name = "Next and Reset"
		n = min(n, 2000)
		for i := 0; i < n; i++ {
			l.it.Next()
			l.it.Next()
			l.it.Reset()
		}
		m.start, m.end = 0, 0
	}
	name = fmt.Sprintf("%d times %s", n, name)
	l.log = append(l.log, name)
	counts("burst")
	if err := l.at(name); err != nil {
		return err
	}
	if f, want := string(l.it.First()), m.text[:first(m.v, m.text)]; f != want {
		return fmt.Errorf("after %s: First gives %+q, should be %+q", name, f, want)
	}
	return nil
}

func lifecycleText(r *gen.Rng, v sut.Variant) (string, int) {
	if r.Intn(12) == 0 {
		return "", 0
	}
	if v.Kind == ref.Graphemes && r.Intn(2) == 0 {
		return string(ansiText(r)), 0
	}
	if r.Intn(40) == 0 {
		s, m := gen.Text(r, v.Kind, gen.Medium)
		return s + gen.Chunk(r, 1500), m
	}
	if r.Intn(4) == 0 {
		b, m := gen.Bytes(r, v.Kind, gen.Small)
		return string(b), m
	}
	s, m := gen.Text(r, v.Kind, gen.Small)
	if len(s) > 120 {
		s = s[:120]
	}
	return s, m
}

// lifecycle: a seeded history of operations on several live iterators, each
// compared after every step with its model. Args: kind is Case.Kind; seed; ops.
func lifecycle(c *Case) error { return lifecycleCount(c, func(string) {}) }

func lifecycleCount(c *Case, counts func(string)) error {
	r := gen.NewRng(c.Args[0], 9)
	n := int(c.Args[1])
	var ss []*live[string]
	var bs []*live[[]byte]
	for i := 0; i < 2; i++ {
		v := sut.Variant{Kind: c.Kind}
		t, _ := lifecycleText(r, v)
		ss = append(ss, &live[string]{it: sut.String(c.Kind, t), m: model{v: v, text: t}})
		t, _ = lifecycleText(r, v)
		bs = append(bs, &live[[]byte]{it: sut.Bytes(c.Kind, []byte(t)), m: model{v: v, text: t}})
	}
	for i := 0; i < n; i++ {
		var err error
		var log []string
		var m model
		if j := r.Intn(4); len(c.Args) > 2 && r.Intn(6) == 0 {
			if j %= 2; r.Intn(2) == 0 {
				err = ss[j].burst(r, counts)
				log, m = ss[j].log, ss[j].m
			} else {
				err = bs[j].burst(r, counts)
				log, m = bs[j].log, bs[j].m
			}
		} else if j < 2 {
			err = ss[j].step(r, counts)
			log, m = ss[j].log, ss[j].m
		} else {
			err = bs[j-2].step(r, counts)
			log, m = bs[j-2].log, bs[j-2].m
		}
		if err != nil {
			return fmt.Errorf("%v: %w; text %+q; history of this iterator: %s", m.v, err, m.text, strings.Join(log, " "))
		}
	}
	return nil
}

// crowd: many iterators and scanners, all in use at once, each give what it
// gives alone. Args: seed, how many.
func crowd(c *Case) error {
	r := gen.NewRng(c.Args[0], 11)
	n := int(c.Args[1])
	type member struct {
		name string
		text []byte
		want []int
		next func() (int, bool)
		at   int
	}
	var all []*member
	js := &words.Joiners[string]{Middle: []rune("-@"), Leading: []rune("#")}
	jb := &words.Joiners[[]byte]{Middle: []rune("-@"), Leading: []rune("#")}
	for i := 0; i < n; i++ {
		v := sut.Variants(ref.Kind(r.Intn(4)))[0]
		if c.Kind >= 0 && r.Intn(2) == 0 {
			v = sut.Variants(c.Kind)[0]
		}
		t, _ := lifecycleText(r, v)
		m := &member{text: []byte(t)}
		joined := v.Kind == ref.Words && r.Intn(3) == 0
		if joined {
			v = sut.Variant{Kind: ref.Words, Joined: true, Middle: js.Middle, Leading: js.Leading}
		}
		want, err := sut.Drain(v.Bytes_(m.text), len(t), nil)
		if err != nil {
			return err
		}
		m.want = want
		switch r.Intn(3) {
		case 0:
			it := sut.String(v.Kind, t)
			if w, ok := it.(*words.Iterator[string]); ok && joined {
				w.Joiners(js)
			}
			m.name = v.String() + ".FromString"
			m.next = func() (int, bool) { ok := it.Next(); return it.End(), ok }
		case 1:
			it := sut.Bytes(v.Kind, m.text)
			if w, ok := it.(*words.Iterator[[]byte]); ok && joined {
				w.Joiners(jb)
			}
			m.name = v.String() + ".FromBytes"
			m.next = func() (int, bool) { ok := it.Next(); return it.End(), ok }
		default:
			sc := sut.Reader(v.Kind, deliver(m.text))
			if w, ok := sc.(*words.Scanner); ok && joined {
				w.Joiners(jb)
			}
			pos := 0
			m.name = v.String() + ".FromReader"
			m.next = func() (int, bool) {
				ok := sc.Scan()
				if e := pos + len(sc.Bytes()); ok && e <= len(m.text) && string(sc.Bytes()) != string(m.text[pos:e]) {
					return -1, true
				}
				pos += len(sc.Bytes())
				return pos, ok
			}
		}
		all = append(all, m)
	}
	for left := len(all); left > 0; {
		at := r.Intn(len(all))
		for k := 0; k < 1+len(all)/4; k++ {
			m := all[(at+k*7)%len(all)]
			if m.at > len(m.want) {
				continue
			}
			end, ok := m.next()
			if !ok && m.at == len(m.want) {
				m.at++
				left--
				continue
			}
			if !ok || m.at == len(m.want) || end != m.want[m.at] {
				return fmt.Errorf("%s, one of %d in use at once, over %+q: token %d ends at %d (%v), alone the ends are %v", m.name, n, m.text, m.at, end, ok, m.want)
			}
			m.at++
		}
		if left < len(all)/2 {
			rest := all[:0]
			for _, m := range all {
				if m.at <= len(m.want) {
					rest = append(rest, m)
				}
			}
			all = rest
		}
	}
	return nil
}

func init() {
	RegisterOracle("crowd", crowd)
	RegisterOracle("lifecycle", lifecycle)
	Register(&Check{
		ID:    "C09",
		Title: "iterator histories behave like the model",
		Rule: "Seeded histories of Next, First, Reset, SetText, option changes and draining over four live iterators (two string, two bytes) of one package, interleaved; after every operation Start, End and Value are compared with a model whose next token is what a fresh iterator over the remaining text gives first. The same with one operation repeated up to 65,537 times, and with thousands of iterators and scanners in use at once. " +
			"Non-trivial: a history of at least 8 operations; distinct by seed.",
		Run: func(x *Ctx) {
			x.Parallel("histories", x.Q(1_600_000, 30_000_000), func(w *W, idx int) {
				c := &Case{Oracle: "lifecycle", Kind: ref.Kind(idx % 4), Args: []int64{int64(w.R.Uint64() >> 1), int64(8 + w.R.Intn(40))}}
				ok := w.Guard(c, func() error {
					return lifecycleCount(c, func(op string) { w.Count("op "+op, 1) })
				})
				if !ok {
					// Find the shortest failing history of this seed.
					return
				}
				w.Eval(1)
				w.Distinct('h', []byte(fmt.Sprint(c.Kind, c.Args)))
				if idx < 4 {
					w.Sample("%v history seed %d, %d operations", c.Kind, c.Args[0], c.Args[1])
				}
			})
			x.Parallel("bursts", x.Q(20_000, 400_000), func(w *W, idx int) {
				c := &Case{Oracle: "lifecycle", Kind: ref.Kind(idx % 4), Args: []int64{int64(w.R.Uint64() >> 1), int64(8 + w.R.Intn(16)), 1}}
				w.Eval(1)
				w.Guard(c, func() error {
					return lifecycleCount(c, func(op string) { w.Count("op "+op, 1) })
				})
				w.Distinct('b', []byte(fmt.Sprint(c.Kind, c.Args)))
			})
			x.Parallel("crowds", x.Q(240, 6000), func(w *W, idx int) {
				n := 1 << (3 + w.R.Intn(8))
				if idx%12 == 0 {
					n = 5000
				}
				c := &Case{Oracle: "crowd", Kind: ref.Kind(idx % 4), Args: []int64{int64(w.R.Uint64() >> 1), int64(n + w.R.Intn(n))}}
				w.Judge(c)
				w.Count("iterators and scanners in use at once with many others", c.Args[1])
				w.Distinct('c', []byte(fmt.Sprint(c.Kind, c.Args)))
			})
			for _, op := range []string{"Next", "Next at end", "First", "Reset", "SetText", "options", "drain"} {
				x.Require(x.Counted("op "+op) > 1000, op)
			}
		},
	})
}
