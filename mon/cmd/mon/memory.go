package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"sync"
	"syscall"
	"unicode/utf8"
	"unsafe"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	. "github.com/clipperhouse/uax29/v2/verifmon/harness"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/sut"
	"github.com/clipperhouse/uax29/v2/words"
)

// A fence is memory with an inaccessible page on either side, made read-only
// while the library looks at it.
type fence struct {
	all  []byte
	data []byte
}

var sink byte

const page = 4096
const fencePages = 15
const bigFencePages = 400

func newFence(fencePages int) *fence {
	all, err := syscall.Mmap(-1, 0, (fencePages+2)*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	f := &fence{all, all[page : (fencePages+1)*page]}
	for _, g := range [][]byte{all[:page], all[(fencePages+1)*page:]} {
		if err := syscall.Mprotect(g, syscall.PROT_NONE); err != nil {
			panic(err)
		}
	}
	return f
}

// put copies text against the lower or upper guard page and write-protects it.
func (f *fence) put(text []byte, low bool) []byte {
	if err := syscall.Mprotect(f.data, syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
		panic(err)
	}
	var d []byte
	if low {
		d = f.data[0:len(text):len(text)]
	} else {
		n := len(f.data)
		d = f.data[n-len(text) : n : n]
	}
	copy(d, text)
	if err := syscall.Mprotect(f.data, syscall.PROT_READ); err != nil {
		panic(err)
	}
	return d
}

// roomy is the data put just below the upper guard page, with a capacity that
// claims part of that page: whoever looks at, or writes to, bytes between the
// length and the capacity faults as well.
func (f *fence) roomy(d []byte) []byte {
	lo := len(f.all) - page - len(d)
	return f.all[lo : lo+len(d) : lo+len(d)+page/2]
}

var fences = sync.Pool{New: func() any { return newFence(fencePages) }}
var bigFences = sync.Pool{New: func() any { return newFence(bigFencePages) }}

func aliased[T ~string | ~[]byte](name string, it sut.Iter[T], data T) error {
	base := sut.Base(data)
	if f := it.First(); len(f) > 0 && sut.Base(f) != base {
		return fmt.Errorf("%s: First is a copy, not a part of the input", name)
	}
	pos := 0
	for it.Next() {
		v := it.Value()
		s, e := it.Start(), it.End()
		if s != pos || e <= s || e > len(data) {
			return fmt.Errorf("%s: token [%d,%d) after %d", name, s, e, pos)
		}
		if len(v) != e-s || sut.Base(v) != base+uintptr(s) {
			return fmt.Errorf("%s: token [%d,%d) %+q is not that part of the input", name, s, e, string(v))
		}
		pos = e
	}
	return nil
}

// textsStay: the strings that a scanner's Text returns do not change with its
// buffer.
func textsStay(v sut.Variant, d []byte) error {
	buf := make([]byte, len(d)+64)
	sc := v.Reader(&onceReader{d})
	sc.Buffer(buf, len(buf))
	var texts []string
	for sc.Scan() {
		texts = append(texts, sc.Text())
	}
	for i := range buf {
		buf[i] ^= 0x55
	}
	if got := strings.Join(texts, ""); got != string(d) {
		return fmt.Errorf("%v.FromReader: the strings that Text returned change with the scanner's buffer", v)
	}
	return nil
}

// fenced: no entry point reads outside the input or writes to it, and tokens
// are parts of the input.
func fenced(c *Case) error {
	if len(c.Text) > bigFencePages*page || len(c.Text) == 0 {
		return nil
	}
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	v := variant(c)
	pool := &fences
	if len(c.Text) > fencePages*page {
		pool = &bigFences
	}
	f := pool.Get().(*fence)
	defer pool.Put(f)
	for layout := 0; layout < 3; layout++ {
		d := f.put(c.Text, layout == 1)
		if layout == 2 {
			d = f.roomy(d)
		}
		mid, lead := slices.Clone(v.Middle), slices.Clone(v.Leading)
		if err := aliased(v.String()+".FromBytes", v.Bytes_(d), d); err != nil {
			return err
		}
		again := v.Bytes_(nil)
		for round := 0; round < 2; round++ {
			again.SetText(d)
			if err := aliased(v.String()+".SetText", again, d); err != nil {
				return err
			}
			again.Reset()
			again.First()
		}
		s := unsafe.String(&d[0], len(d))
		if err := aliased(v.String()+".FromString", v.String_(s), s); err != nil {
			return err
		}
		if v.HasReader() {
			// A scanner must not take a reader's memory for its own.
			readers := []io.Reader{bytes.NewBuffer(d), bytes.NewReader(d), strings.NewReader(s), bufio.NewReader(bytes.NewBuffer(d))}
			if len(d) > 2000 {
				readers = readers[:1+len(d)%2]
			}
			for _, r := range readers {
				sc := v.Reader(r)
				if len(d) > 60000 {
					sc.Buffer(nil, len(d)+64)
				}
				pos := 0
				for sc.Scan() {
					t := sc.Bytes()
					if pos+len(t) > len(d) || !bytes.Equal(t, d[pos:pos+len(t)]) {
						return fmt.Errorf("%v.FromReader(%T): token %+q is not what follows byte %d", v, r, t, pos)
					}
					pos += len(t)
				}
				if sc.Err() != nil || pos != len(d) {
					return fmt.Errorf("%v.FromReader(%T): %d of %d bytes, Err %v", v, r, pos, len(d), sc.Err())
				}
			}
		}
		if v.HasReader() && layout == 0 {
			if err := textsStay(v, d); err != nil {
				return err
			}
		}
		if !slices.Equal(mid, v.Middle) || !slices.Equal(lead, v.Leading) {
			return fmt.Errorf("%v: the joiners were modified", v)
		}
		if v.Joined || v.Ansi7 || v.Ansi8 {
			continue
		}
		split := sut.SplitFunc(c.Kind)
		for pos := 0; pos < len(d); {
			adv, tok, err := split(d[pos:], true)
			if err != nil || adv <= 0 || len(tok) != adv || sut.Base(tok) != sut.Base(d)+uintptr(pos) {
				return fmt.Errorf("%v.SplitFunc: token at %d is not that part of the input (advance %d, %v)", c.Kind, pos, adv, err)
			}
			pos += adv
		}
		if len(d) < 64 {
			for n := 1; n < len(d); n++ {
				// Prefixes that end at the guard page.
				split(d[len(d)-n:], false)
			}
		}
		if c.Kind == ref.Words {
			words.BleveNumeric(d)
			words.BleveIdeographic(d)
		}
		if !bytes.Equal(d, c.Text) {
			return fmt.Errorf("%v: the input was modified", c.Kind)
		}
	}
	return nil
}

// allocfree: iterating allocates nothing. Args: variant flags.
func allocfree(c *Case) error {
	v := variant(c)
	s := string(c.Text)
	var si sut.Iter[string] = v.String_("x")
	var bi sut.Iter[[]byte] = v.Bytes_([]byte("x"))
	split := sut.SplitFunc(c.Kind)
	plain := !v.Joined && !v.Ansi7 && !v.Ansi8
	// Words also has iterators over named types, and split functions of the
	// caller's.
	var named words.Iterator[namedString]
	var namedB words.Iterator[namedBytes]
	custom := words.FromBytes(nil)
	custom.Split(split)
	if c.Kind == ref.Words {
		named.Joiners(&words.Joiners[namedString]{Middle: v.Middle, Leading: v.Leading})
		namedB.Joiners(&words.Joiners[namedBytes]{Middle: v.Middle, Leading: v.Leading})
	}
	ns, nb := namedString(s), namedBytes(c.Text)
	run := func() {
		if c.Kind == ref.Words {
			named.SetText(ns)
			for named.Next() {
				named.Value()
			}
			namedB.SetText(nb)
			namedB.First()
			for namedB.Next() {
				namedB.Value()
			}
			custom.SetText(c.Text)
			for custom.Next() {
				custom.Value()
			}
		}
		si.Reset()
		si.SetText(s)
		si.First()
		for si.Next() {
			si.Value()
		}
		bi.SetText(c.Text)
		bi.First()
		for bi.Next() {
			bi.Value()
		}
		if plain {
			for pos := 0; pos < len(c.Text); {
				adv, _, _ := split(c.Text[pos:], true)
				if adv <= 0 {
					break
				}
				pos += adv
			}
		}
		if c.Kind == ref.Words {
			words.BleveNumeric(c.Text)
			words.BleveIdeographic(c.Text)
		}
	}
	best := uint64(1 << 62)
	bytesUsed := uint64(0)
	for try := 0; try < 6; try++ {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		run()
		runtime.ReadMemStats(&b)
		if n := b.Mallocs - a.Mallocs; n < best {
			best, bytesUsed = n, b.TotalAlloc-a.TotalAlloc
		}
		if best == 0 {
			return nil
		}
	}
	return fmt.Errorf("%v: iterating %d bytes allocates: %d objects, %d bytes, in the best of 6 runs", v, len(c.Text), best, bytesUsed)
}

// allocfresh: nor does the first use of an iterator, nor a text (or piece of
// memory) that was never seen before.
func allocfresh(c *Case) error {
	v := variant(c)
	const n = 6
	split := sut.SplitFunc(c.Kind)
	plain := !v.Joined && !v.Ansi7 && !v.Ansi8
	best := uint64(1 << 62)
	turn := 0
	for try := 0; try < 4; try++ {
		var si [n]sut.Iter[string]
		var bi [n]sut.Iter[[]byte]
		var custom [n]*words.Iterator[[]byte]
		var text [2 * n][]byte
		for i := range text {
			turn += 7
			k := 0
			if len(c.Text) > 0 {
				k = turn % len(c.Text)
			}
			text[i] = append(append(make([]byte, 0, len(c.Text)), c.Text[k:]...), c.Text[:k]...)
		}
		var str [2 * n]string
		for i := range str {
			str[i] = string(text[i])
		}
		for i := range si {
			si[i], bi[i] = v.String_(str[i]), v.Bytes_(text[i])
			if i%2 == 1 {
				si[i], bi[i] = v.String_(""), v.Bytes_(nil)
			}
			custom[i] = words.FromBytes(text[i])
			custom[i].Split(split)
		}
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		for i := range si {
			if i%2 == 1 {
				si[i].SetText(str[i])
				bi[i].SetText(text[i])
			}
			if i%3 == 0 {
				si[i].First()
				bi[i].First()
				custom[i].First()
			}
			for si[i].Next() {
				si[i].Value()
			}
			for bi[i].Next() {
				bi[i].Value()
			}
			si[i].SetText(str[n+i])
			bi[i].SetText(text[n+i])
			for si[i].Next() {
			}
			for bi[i].Next() {
				if c.Kind == ref.Words {
					words.BleveNumeric(bi[i].Value())
					words.BleveIdeographic(bi[i].Value())
				}
			}
			si[i].Reset()
			si[i].First()
			if c.Kind == ref.Words {
				for custom[i].Next() {
				}
			}
			for pos := 0; plain && pos < len(text[i]); {
				adv, _, _ := split(text[i][pos:], pos%2 == 0 || len(text[i]) > 4000)
				if adv <= 0 {
					break
				}
				pos += adv
			}
		}
		runtime.ReadMemStats(&b)
		if best = min(best, b.Mallocs-a.Mallocs); best == 0 {
			return nil
		}
	}
	return fmt.Errorf("%v: new iterators over new texts of %d bytes allocate: %d objects by %d iterators, in the best of 4 runs", v, len(c.Text), best, 3*n)
}

// stackbound: nor does the stack grow with the text.
func stackbound(c *Case) error {
	v := variant(c)
	grown := make(chan uint64)
	best := uint64(1 << 62)
	for try := 0; try < 3; try++ {
		go func() {
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			si, bi := v.String_(string(c.Text)), v.Bytes_(c.Text)
			si.First()
			for si.Next() {
				si.Value()
			}
			bi.First()
			for bi.Next() {
				if c.Kind == ref.Words {
					words.BleveNumeric(bi.Value())
					words.BleveIdeographic(bi.Value())
				}
			}
			if c.Kind == ref.Words {
				words.BleveNumeric(c.Text)
				words.BleveIdeographic(c.Text)
			}
			if !v.Joined && !v.Ansi7 && !v.Ansi8 {
				sut.SplitFunc(c.Kind)(c.Text, false)
				sut.SplitFunc(c.Kind)(c.Text, true)
			}
			runtime.ReadMemStats(&b)
			if b.StackInuse < a.StackInuse {
				b = a
			}
			grown <- b.StackInuse - a.StackInuse
		}()
		if best = min(best, <-grown); best <= 128<<10 {
			return nil
		}
	}
	return fmt.Errorf("%v: the stack grows by %d bytes over %d bytes of text", v, best, len(c.Text))
}

// scanbound: a Scanner allocates its buffer, nothing per token.
func scanbound(c *Case) error {
	v := variant(c)
	best := uint64(1 << 62)
	toks := 0
	for try := 0; try < 6; try++ {
		r := &onceReader{c.Text}
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		sc := v.Reader(r)
		toks = 0
		for sc.Scan() {
			sc.Bytes()
			toks++
		}
		runtime.ReadMemStats(&b)
		if n := b.Mallocs - a.Mallocs; n < best {
			best = n
		}
	}
	if best > 40 {
		return fmt.Errorf("%v.FromReader: %d allocations for %d tokens", v, best, toks)
	}
	return nil
}

func init() {
	RegisterOracle("fenced", fenced)
	RegisterOracle("allocfree", allocfree)
	RegisterOracle("scanbound", scanbound)
	RegisterOracle("allocfresh", allocfresh)
	RegisterOracle("stackbound", stackbound)
	var vs []sut.Variant
	for k := ref.Kind(0); k < 4; k++ {
		vs = append(vs, sut.Variants(k)...)
	}
	input := func(r *gen.Rng, v sut.Variant, sc gen.Scale) []byte {
		var text []byte
		switch r.Intn(3) {
		case 0:
			s, _ := gen.Text(r, v.Kind, sc)
			text = []byte(s)
		default:
			text, _ = gen.Bytes(r, v.Kind, sc)
		}
		if v.Ansi7 || v.Ansi8 {
			if r.Intn(2) == 0 {
				text = ansiText(r)
			}
		}
		return text
	}
	Register(&Check{
		ID:    "C11",
		Title: "input is never modified or over-read; tokens are parts of it",
		Rule: "Inputs laid out in write-protected memory directly before and directly after an inaccessible page (a read or write outside the input, or a write to it, faults and is caught), and also with a capacity that reaches into that page, driven through every iterator, SetText, Reset, SplitFunc, First and Bleve predicate under every option, and through scanners over readers that hold that memory (bytes.Buffer, bytes.Reader, strings.Reader, bufio.Reader); every token's address must be input address + Start. All byte strings of length 1 and 2 and all triples of byte roles, and seeded arbitrary bytes. " +
			"Non-trivial: at least two bytes; distinct by bytes and tokenizer.",
		Run: func(x *Ctx) {
			// The fence itself must work, or a clean run means nothing.
			f := newFence(fencePages)
			d := f.put([]byte("abc"), false)
			caught := 0
			for _, bad := range []func(){
				func() { d[0] = 'x' },
				func() { sink = *(*byte)(unsafe.Add(unsafe.Pointer(&d[0]), 3)) },
				func() { e := f.put([]byte("abc"), true); sink = *(*byte)(unsafe.Add(unsafe.Pointer(&e[0]), -1)) },
			} {
				old := debug.SetPanicOnFault(true)
				if sut.Protect(func() error { bad(); return nil }) != nil {
					caught++
				}
				debug.SetPanicOnFault(old)
			}
			x.Require(caught == 3, fmt.Sprintf("the guard pages caught only %d of 3 deliberate faults", caught))
			x.Set("deliberate_faults_caught_before_the_run", caught)
			one := func(w *W, v sut.Variant, text []byte) {
				c := variantCase("fenced", v, text)
				w.Eval(1)
				w.Guard(c, func() error { return fenced(c) })
			}
			x.Parallel("bytes-2", 256*len(vs), func(w *W, idx int) {
				v := vs[idx/256]
				one(w, v, []byte{byte(idx)})
				for b := 0; b < 256; b += x.Q(5, 1) {
					one(w, v, []byte{byte(idx), byte(b + idx%x.Q(5, 1))})
					w.DistinctN(1)
				}
			})
			random := func(group string, n, per int, sc gen.Scale) {
				x.Parallel(group, n/per, func(w *W, idx int) {
					for j := 0; j < per; j++ {
						v := vs[w.R.Intn(len(vs))]
						if v.Joined {
							v.Middle, v.Leading = randRunes(w.R), randRunes(w.R)
						}
						text := input(w.R, v, sc)
						one(w, v, text)
						if len(text) > 1 {
							w.Distinct('f'+byte(v.Kind), text)
						}
						w.Count("variant "+v.Kind.String(), 1)
						if !utf8.Valid(text) {
							w.Count("invalid UTF-8 inputs", 1)
						}
						if idx < 8 && j == 0 && len(text) < 60 {
							w.Sample("%v %+q against a guard page", v, text)
						}
					}
				})
			}
			random("random-small", x.Q(400_000, 8_000_000), 64, gen.Small)
			random("random-medium", x.Q(20_000, 600_000), 16, gen.Medium)
			random("random-large", x.Q(500, 20_000), 4, gen.Large)
			x.Parallel("giant", x.Q(96, 3000), func(w *W, idx int) {
				v := vs[idx%len(vs)]
				text := giantFor(w.R, v)
				one(w, v, text)
				w.Distinct('f'+byte(v.Kind), text)
				w.Count("inputs beyond 64 KiB", 1)
			})
		},
	})
	Register(&Check{
		ID:    "C12",
		Title: "iteration allocates nothing",
		Rule: "Allocation counters of the runtime read around SetText, First, Next/Value to the end, SplitFunc and Bleve predicates, for string and byte iterators under every option, on seeded valid and invalid inputs of all sizes, one at a time in one goroutine; any object allocated in the best of six runs is a violation. The same for iterators and texts at their first use (four batches of 18 new iterators over new texts in memory of their own), and the growth of the stack over texts beyond 64 KiB. Scanner runs over long streams must allocate a bounded number of objects. " +
			"Non-trivial: at least two bytes; distinct by bytes and tokenizer.",
		Assumptions: []string{"built without the race detector, by the installed Go toolchain"},
		Run: func(x *Ctx) {
			debug.SetGCPercent(-1)
			defer debug.SetGCPercent(400)
			run := func(group string, n int, sc gen.Scale) {
				x.Serial(group, n, func(w *W, idx int) {
					if idx%2000 == 0 {
						runtime.GC()
					}
					v := vs[w.R.Intn(len(vs))]
					if v.Joined && w.R.Intn(2) == 0 {
						v.Middle, v.Leading = randRunes(w.R), randRunes(w.R)
					}
					text := input(w.R, v, sc)
					w.Judge(variantCase("allocfree", v, text))
					w.Count("bytes iterated", int64(len(text)))
					w.Count("variant "+v.Kind.String(), 1)
					if len(text) > 1 {
						w.Distinct('a'+byte(v.Kind), text)
					}
					if idx < 8 && len(text) < 60 {
						w.Sample("%v %+q", v, text)
					}
				})
			}
			run("small", x.Q(120_000, 1_000_000), gen.Small)
			run("medium", x.Q(40_000, 400_000), gen.Medium)
			run("large", x.Q(6000, 60_000), gen.Large)
			x.Serial("giant", x.Q(150, 3000), func(w *W, idx int) {
				v := vs[idx%len(vs)]
				text := giantFor(w.R, v)
				w.Judge(variantCase("allocfree", v, text))
				w.Count("bytes iterated", int64(len(text)))
				w.Count("inputs beyond 64 KiB", 1)
				w.Distinct('a'+byte(v.Kind), text)
				runtime.GC()
			})
			fresh := func(group string, n int, sc gen.Scale) {
				x.Serial(group, n, func(w *W, idx int) {
					if idx%500 == 0 {
						runtime.GC()
					}
					v := vs[idx%len(vs)]
					if v.Joined && w.R.Intn(2) == 0 {
						v.Middle, v.Leading = randRunes(w.R), randRunes(w.R)
					}
					text := input(w.R, v, sc)
					w.Judge(variantCase("allocfresh", v, text))
					w.Count("iterators and texts used for the first time", 18)
					if len(text) > 1 {
						w.Distinct('n'+byte(v.Kind), text)
					}
				})
			}
			fresh("fresh-small", x.Q(12_000, 200_000), gen.Small)
			fresh("fresh-medium", x.Q(6000, 100_000), gen.Medium)
			fresh("fresh-large", x.Q(600, 10_000), gen.Large)
			x.Serial("stack", x.Q(600, 6000), func(w *W, idx int) {
				v := vs[idx/2%len(vs)]
				text := giantFor(w.R, v)
				if idx%2 == 0 {
					// A motif, opened by a gap of something.
					m := gen.Motif(w.R, v.Kind)
					if s, ok := gen.Gapped(v.Kind, m, w.R.Intn(len([]rune(m))+1), idx/20%gen.Gaps(v.Kind), 66_000); ok {
						text = []byte(s)
					}
				}
				w.Judge(variantCase("stackbound", v, text))
				w.Count("texts beyond 64 KiB over which the stack was measured", 1)
				w.Distinct('k'+byte(v.Kind), text)
				runtime.GC()
			})
			x.Serial("scanners", x.Q(120, 1500), func(w *W, idx int) {
				v := sut.Variant{Kind: ref.Kind(idx % 4)}
				if idx%5 == 0 {
					v = sut.Variant{Kind: ref.Words, Joined: true, Middle: []rune("-@"), Leading: []rune("#")}
				}
				var b bytes.Buffer
				for b.Len() < 60_000 {
					b.WriteString(gen.Chunk(w.R, 3000))
					b.WriteByte('\n')
				}
				c := variantCase("scanbound", v, b.Bytes())
				c.Fixed = true
				w.Judge(c)
				w.Count("scanner runs", 1)
				w.Distinct('s', c.Text)
			})
		},
	})
	_ = graphemes.SplitFunc
}
