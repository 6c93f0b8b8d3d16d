package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"slices"
	"strings"
	"syscall"
	"testing/iotest"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	. "github.com/clipperhouse/uax29/v2/verifmon/harness"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/sut"
	"github.com/clipperhouse/uax29/v2/verifmon/ucd"
)

var errFault = errors.New("injected fault")

type temporary struct{ error }

func (temporary) Timeout() bool   { return true }
func (temporary) Temporary() bool { return true }

// The errors that readers report. None of them is the end of the data, though
// some come close.
var faults = []error{
	errFault,
	io.ErrUnexpectedEOF,
	io.ErrClosedPipe,
	io.ErrNoProgress,
	io.ErrShortBuffer,
	fmt.Errorf("wrapped: %w", io.EOF),
	errors.New("EOF"),
	os.ErrDeadlineExceeded,
	context.Canceled,
	syscall.EINTR,
	temporary{errors.New("try again")},
	bufio.ErrBufferFull,
	bufio.ErrTooLong,
	bufio.ErrFinalToken,
}

const (
	rdOne = iota
	rdFixed
	rdRandom
	rdEmpties
	rdWithEOF
	rdMidRune
	rdWhole
	rdModes
)

var readerModes = []string{"1-byte", "fixed", "random", "empty-reads", "data-with-EOF", "mid-rune", "whole"}

// chunkReader hands out text in pieces, and may fail at an offset.
type chunkReader struct {
	text    []byte
	pos     int
	mode    int
	size    int
	failAt  int // -1: never
	withErr bool
	rng     *gen.Rng
	empties int
	fault   error
	// ended is set once the end or an error was reported.
	ended bool
}

func (c *chunkReader) Read(p []byte) (int, error) {
	limit := len(c.text)
	end := error(io.EOF)
	if c.failAt >= 0 && c.failAt <= limit {
		limit, end = c.failAt, c.fault
	}
	if c.pos >= limit {
		// A reader may go on after an error; what it has then is no part of
		// the stream.
		if c.ended && c.failAt >= 0 && c.pos < len(c.text) {
			n := copy(p, c.text[c.pos:])
			c.pos += n
			return n, nil
		}
		c.ended = true
		return 0, end
	}
	n := len(p)
	switch c.mode {
	case rdOne:
		n = 1
	case rdFixed:
		n = c.size
	case rdRandom, rdWithEOF:
		n = 1 + c.rng.Intn(c.size)
	case rdEmpties:
		if c.rng.Intn(2) == 0 && c.empties < 20 {
			c.empties++
			return 0, nil
		}
		c.empties = 0
		n = 1 + c.rng.Intn(c.size)
	case rdMidRune:
		n = 1
		for c.pos+n < limit && utf8.RuneStart(c.text[c.pos+n-1]) && c.text[c.pos+n-1] < 0x80 {
			n++
		}
	}
	n = min(n, len(p), limit-c.pos)
	copy(p, c.text[c.pos:c.pos+n])
	c.pos += n
	if c.pos >= limit && (c.mode == rdWithEOF || c.withErr) {
		c.ended = true
		return n, end
	}
	return n, nil
}

// stream: the tokens of a reader do not depend on how the bytes arrive, and an
// error of the reader ends them after the tokens of what did arrive.
//
// Args: variant flags, mode, size, failAt, withErr, buffer size, seed, fault,
// reader it is behind.
func stream(c *Case) error {
	v := variant(c)
	a := c.Args
	failAt := int(a[3])
	if failAt > len(c.Text) {
		failAt = len(c.Text)
	}
	delivered := c.Text
	if failAt >= 0 {
		delivered = c.Text[:failAt]
	}
	want, err := sut.Drain(v.Bytes_(delivered), len(delivered), nil)
	if err != nil {
		return fmt.Errorf("%v.FromBytes: %w", v, err)
	}
	r := &chunkReader{text: c.Text, mode: int(a[1]), size: max(1, int(a[2])), failAt: failAt, withErr: a[4] != 0, rng: gen.NewRng(a[6], 0), fault: errFault}
	if len(a) > 7 {
		r.fault = faults[a[7]]
	}
	wrap := int64(0)
	if len(a) > 8 {
		wrap = a[8]
	}
	from := behind(r, wrap)
	sc := v.Reader(from)
	if a[5] > 0 {
		sc.Buffer(make([]byte, 0, a[5]), len(c.Text)+64)
	} else if len(c.Text) > 60000 {
		sc.Buffer(nil, len(c.Text)+64)
	}
	var got []int
	pos := 0
	for sc.Scan() {
		t := sc.Bytes()
		e := pos + len(t)
		if len(t) == 0 || e > len(delivered) || !bytes.Equal(t, delivered[pos:e]) {
			return fmt.Errorf("%v.FromReader: token %d %+q is not what follows byte %d of the stream", v, len(got), t, pos)
		}
		pos = e
		got = append(got, e)
	}
	how := fmt.Sprintf("FromReader (%s reads of %d, fault at %d, buffer %d, the reader %s)", readerModes[a[1]], a[2], failAt, a[5], wrapNames[wrap])
	err = sc.Err()
	// bufio takes ErrFinalToken, a message of split functions to it, for the
	// end.
	if failAt >= 0 && err != r.fault && !(r.fault == bufio.ErrFinalToken && err == nil) {
		return fmt.Errorf("%v.%s: Err is %v, not the reader's error %v", v, how, err, r.fault)
	}
	if failAt < 0 && err != nil {
		return fmt.Errorf("%v.%s: Err is %w", v, how, err)
	}
	if wasClosed(from) {
		return fmt.Errorf("%v.%s: the reader was closed", v, how)
	}
	if sc.Scan() {
		return fmt.Errorf("%v.%s: Scan returned true again after false", v, how)
	}
	return sut.Diff(delivered, fmt.Sprintf("%v.%s", v, how), got, "FromBytes", want)
}

var sourceNames = []string{"bytes.Reader", "strings.Reader", "bytes.Buffer", "bufio.Reader", "bufio.Reader(16)", "LimitedReader", "SectionReader", "io.Pipe", "MultiReader", "TeeReader", "os.File", "os.Pipe", "one byte", "half", "data with error", "seeker that refuses", "Scanner's own bytes"}

// refuser is a reader whose other methods must not be needed.
type refuser struct {
	io.Reader
	closed bool
}

func (refuser) Seek(int64, int) (int64, error)    { return 0, errFault }
func (refuser) ReadByte() (byte, error)           { return 0, errFault }
func (refuser) UnreadByte() error                 { return errFault }
func (refuser) ReadRune() (rune, int, error)      { return 0, 0, errFault }
func (refuser) ReadAt([]byte, int64) (int, error) { return 0, errFault }
func (refuser) WriteTo(io.Writer) (int64, error)  { return 0, errFault }
func (refuser) Len() int                          { return 0 }
func (r *refuser) Close() error                   { r.closed = true; return errFault }

// source: the tokens of a reader of the standard library, of which a part was
// read before, are those of the bytes that were left.
// Args: variant flags, source, bytes read before.
func source(c *Case) error {
	v := variant(c)
	name, skip := sourceNames[c.Args[1]], min(int(c.Args[2]), len(c.Text))
	left := c.Text[skip:]
	own := append([]byte{}, c.Text...)
	var r io.Reader
	switch name {
	case "bytes.Reader":
		r = bytes.NewReader(own)
	case "strings.Reader":
		r = strings.NewReader(string(own))
	case "bytes.Buffer":
		r = bytes.NewBuffer(own)
	case "bufio.Reader":
		r = bufio.NewReader(bytes.NewReader(own))
	case "bufio.Reader(16)":
		r = bufio.NewReaderSize(strings.NewReader(string(own)), 16)
	case "LimitedReader":
		r = &io.LimitedReader{R: strings.NewReader(string(own) + "more"), N: int64(len(own))}
	case "SectionReader":
		r = io.NewSectionReader(strings.NewReader("pre"+string(own)+"post"), 3, int64(len(own)))
	case "io.Pipe":
		pr, pw := io.Pipe()
		defer pr.Close()
		go func() {
			h := len(own) / 2
			pw.Write(own[:h])
			pw.Write(own[h:])
			pw.Close()
		}()
		r = pr
	case "MultiReader":
		h := len(own) / 3
		r = io.MultiReader(bytes.NewReader(own[:h]), strings.NewReader(""), strings.NewReader(string(own[h:])))
	case "TeeReader":
		r = io.TeeReader(bytes.NewReader(own), io.Discard)
	case "os.File":
		f, err := os.CreateTemp(os.Getenv("VERIF_WORK"), "source")
		if err != nil {
			return nil
		}
		defer f.Close()
		defer os.Remove(f.Name())
		f.Write(own)
		f.Seek(0, io.SeekStart)
		r = f
	case "os.Pipe":
		pr, pw, err := os.Pipe()
		if err != nil {
			return nil
		}
		defer pr.Close()
		go func() { pw.Write(own); pw.Close() }()
		r = pr
	case "one byte":
		r = iotest.OneByteReader(bytes.NewReader(own))
	case "half":
		r = iotest.HalfReader(bytes.NewReader(own))
	case "data with error":
		r = iotest.DataErrReader(bytes.NewReader(own))
	case "seeker that refuses":
		r = &refuser{Reader: bytes.NewReader(own)}
	case "Scanner's own bytes":
		// The text changes hands in the reader's memory: each read overwrites
		// what the last left.
		r = &scribbler{r: bytes.NewReader(own)}
	}
	if _, err := io.ReadFull(r, make([]byte, skip)); err != nil {
		return nil // not for the library to answer
	}
	want, err := sut.Drain(v.Bytes_(left), len(left), nil)
	if err != nil {
		return fmt.Errorf("%v.FromBytes: %w", v, err)
	}
	sc := v.Reader(r)
	if len(left) > 60000 {
		sc.Buffer(nil, len(left)+64)
	}
	var got []int
	pos := 0
	for sc.Scan() {
		t := sc.Bytes()
		e := pos + len(t)
		if len(t) == 0 || e > len(left) || !bytes.Equal(t, left[pos:e]) || sc.Text() != string(left[pos:e]) {
			return fmt.Errorf("%v.FromReader(%s, %d bytes read before): token %d %+q is not what follows byte %d of the rest", v, name, skip, len(got), t, pos)
		}
		pos = e
		got = append(got, e)
	}
	if err := sc.Err(); err != nil {
		return fmt.Errorf("%v.FromReader(%s): Err is %w", v, name, err)
	}
	if wasClosed(r) {
		return fmt.Errorf("%v.FromReader(%s) closed it", v, name)
	}
	return sut.Diff(left, fmt.Sprintf("%v.FromReader(%s, %d bytes read before)", v, name, skip), got, "FromBytes", want)
}

// scribbler uses all of the buffer it is given as scratch space, as a reader
// may.
type scribbler struct{ r io.Reader }

func (s *scribbler) Read(p []byte) (int, error) {
	n, err := s.r.Read(p[:min(len(p), 5)])
	for i := n; i < len(p); i++ {
		p[i] = '~'
	}
	return n, err
}

// prefix: on every prefix of the text with more to come, SplitFunc either asks
// for more or returns exactly the first token of the whole text.
func prefix(c *Case) error {
	split := sut.SplitFunc(c.Kind)
	if len(c.Text) == 0 {
		return nil
	}
	first, tok, err := split(c.Text, true)
	if err != nil || first <= 0 || first > len(c.Text) || string(tok) != string(c.Text[:first]) {
		return fmt.Errorf("%v.SplitFunc(%+q, true) = %d, %+q, %v", c.Kind, c.Text, first, tok, err)
	}
	for n := 0; n <= len(c.Text); n++ {
		p := c.Text[:n:n]
		adv, tok, err := split(p, false)
		switch {
		case err != nil:
			return fmt.Errorf("%v.SplitFunc(%+q, false): error %v", c.Kind, p, err)
		case adv == 0 && len(tok) == 0:
		case adv != first:
			return fmt.Errorf("%v.SplitFunc(%+q, false) commits to %d bytes, but with the rest of the text, %+q, the first token has %d", c.Kind, p, adv, c.Text[n:], first)
		case string(tok) != string(c.Text[:first]):
			return fmt.Errorf("%v.SplitFunc(%+q, false): token %+q", c.Kind, p, tok)
		}
	}
	return nil
}

// line: once a line terminator and the character after it have arrived, the
// tokens of that line are not held back.
func line(c *Case) error {
	split := sut.SplitFunc(c.Kind)
	text := append(append([]byte{}, c.Text...), "\nx"...)
	pos := 0
	for pos < len(text)-1 {
		adv, _, err := split(text[pos:], false)
		if err != nil {
			return fmt.Errorf("%v.SplitFunc: %v", c.Kind, err)
		}
		if adv <= 0 {
			return fmt.Errorf("%v.SplitFunc(%+q, false) asks for more although the line is complete", c.Kind, text[pos:])
		}
		pos += adv
	}
	return nil
}

// live: a scanner over a stream that goes on gives the tokens of every line of
// which the end, and the character after it, have arrived, before it reads on.
// Args: variant flags, size of the pieces, seed, reader it is behind.
func live_(c *Case) error {
	v := variant(c)
	r := &liveReader{text: c.Text, size: max(1, int(c.Args[1])), rng: gen.NewRng(c.Args[2], 0)}
	wrap := int64(0)
	if len(c.Args) > 3 {
		wrap = c.Args[3]
	}
	from := behind(r, wrap)
	sc := v.Reader(from)
	if len(c.Text) > 60000 {
		sc.Buffer(nil, len(c.Text)+64)
	}
	for sc.Scan() {
		r.given += len(sc.Bytes())
	}
	if r.late != "" {
		return fmt.Errorf("%v.FromReader (the reader %s) %s", v, wrapNames[wrap], r.late)
	}
	return nil
}

// liveReader delivers text in pieces, and watches how far its scanner has come
// each time it is asked for more.
type liveReader struct {
	text       []byte
	pos, given int
	before     int // lines ending before here are known
	due        int
	size       int
	rng        *gen.Rng
	reads      int
	late       string
}

func (l *liveReader) Read(p []byte) (int, error) {
	l.reads++
	for i := max(1, l.pos-4); i < l.pos; i++ {
		if l.text[i-1] == '\n' && utf8.FullRune(l.text[i:l.pos]) {
			l.due = i
		}
	}
	for i := l.before + 1; i < l.pos-4; i++ {
		if l.text[i-1] == '\n' {
			l.due = max(l.due, i)
		}
	}
	l.before = max(l.before, l.pos-5)
	if l.given < l.due && l.late == "" {
		l.late = fmt.Sprintf("reads on, for the %d. time, having given %d of the %d bytes that have come, of which %d are whole lines", l.reads, l.given, l.pos, l.due)
	}
	if l.pos == len(l.text) {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), 1+l.rng.Intn(l.size))], l.text[l.pos:])
	l.pos += n
	return n, nil
}

// toolong: with the default buffer, a Scanner gives the tokens up to the first
// one it has to hold more than 64 KiB for, and says so.
func toolong(c *Case) error {
	v := variant(c)
	want, err := sut.Drain(v.Bytes_(c.Text), len(c.Text), nil)
	if err != nil {
		return fmt.Errorf("%v.FromBytes: %w", v, err)
	}
	sc := v.Reader(&onceReader{c.Text})
	var got []int
	pos := 0
	for sc.Scan() {
		pos += len(sc.Bytes())
		got = append(got, pos)
	}
	if err := sc.Err(); err != nil {
		if !errors.Is(err, bufio.ErrTooLong) {
			return fmt.Errorf("%v.FromReader: Err is %w", v, err)
		}
		rest := c.Text[pos:]
		if len(rest) < bufio.MaxScanTokenSize {
			return fmt.Errorf("%v.FromReader: %w with %d bytes left", v, err, len(rest))
		}
		if !v.Joined {
			if adv, _, _ := sut.SplitFunc(c.Kind)(rest[:bufio.MaxScanTokenSize], false); adv != 0 {
				return fmt.Errorf("%v.FromReader: %w although SplitFunc finds a token of %d bytes", v, err, adv)
			}
		}
		want = want[:min(len(got), len(want))]
	}
	return sut.Diff(c.Text, v.String()+".FromReader", got, "FromBytes", want)
}

func streamCase(v sut.Variant, text []byte, r *gen.Rng) *Case {
	c := variantCase("stream", v, text)
	failAt := int64(-1)
	if r.Intn(4) == 0 {
		failAt = int64(r.Intn(len(text) + 1))
	}
	bufs := []int64{0, 0, 1, 2, 3, 4, 7, 16, 64, 4096}
	size := 1 + r.Intn(9)
	if r.Intn(4) == 0 {
		size = 1 + r.Intn(5000)
	} else if n := gen.Size(r, v.Kind, 2, 9000); n > 0 && r.Intn(4) == 0 {
		size = n
	}
	c.Args = append(c.Args, int64(r.Intn(rdModes)), int64(size), failAt, int64(r.Intn(2)), bufs[r.Intn(len(bufs))], int64(r.Uint64()>>1), int64(r.Intn(len(faults))), int64(max(0, r.Intn(2*len(wrapNames))-len(wrapNames))))
	return c
}

func init() {
	RegisterOracle("stream", stream)
	RegisterOracle("prefix", prefix)
	RegisterOracle("line", line)
	RegisterOracle("live", live_)
	RegisterOracle("toolong", toolong)
	RegisterOracle("source", source)
	Register(&Check{
		ID:    "C08",
		Title: "streaming is invariant under chunking and faults",
		Rule: "Scanner runs over readers with 7 delivery modes (1-byte, fixed, random, empty reads, data with EOF, cuts inside code points, whole), small and large buffers, faults injected at offsets (every offset of short texts), compared with FromBytes on the delivered bytes; " +
			"SplitFunc without EOF on every prefix of each text must commit to nothing but the whole text's first token; lines are not held back, by split functions or by scanners over streams that go on. Non-trivial: at least two bytes; distinct by text, tokenizer and delivery.",
		Level: "fault_enumeration",
		Run:   runStream,
	})
}

func runStream(x *Ctx) {
	var vs []sut.Variant
	for k := ref.Kind(0); k < 4; k++ {
		for _, v := range sut.Variants(k) {
			if v.HasReader() {
				vs = append(vs, v)
			}
		}
	}
	note := func(w *W, c *Case) {
		w.Count("reader mode "+readerModes[c.Args[1]], 1)
		w.Count("reader "+wrapNames[c.Args[8]], 1)
		if c.Args[3] >= 0 {
			w.Count("injected faults", 1)
		}
		key := append([]byte(fmt.Sprint(c.Args[:6])), c.Text...)
		if len(c.Text) > 1 {
			w.Distinct('s'+byte(c.Kind), key)
		}
	}
	x.Parallel("readers", x.Q(2_500_000, 30_000_000)/32, func(w *W, idx int) {
		for j := 0; j < 32; j++ {
			v := vs[w.R.Intn(len(vs))]
			if v.Joined {
				v.Middle, v.Leading = randRunes(w.R), randRunes(w.R)
			}
			sc := gen.Small
			if j < 2 {
				sc = gen.Medium
			}
			var text []byte
			if w.R.Intn(3) == 0 {
				text, _ = gen.Bytes(w.R, v.Kind, sc)
			} else {
				s, _ := gen.Text(w.R, v.Kind, sc)
				text = []byte(s)
			}
			c := streamCase(v, text, w.R)
			w.Judge(c)
			note(w, c)
			if idx < 12 && j == 0 && len(text) < 60 {
				w.Sample("%v %s reads of %d, fault at %d, buffer %d: %+q", v, readerModes[c.Args[1]], c.Args[2], c.Args[3], c.Args[5], text)
			}
		}
	})
	x.Parallel("live", x.Q(60_000, 1_000_000), func(w *W, idx int) {
		v := vs[w.R.Intn(len(vs))]
		var b []byte
		for lines := 1 + w.R.Intn(5); lines > 0; lines-- {
			s, _ := gen.Text(w.R, v.Kind, gen.Small)
			if idx%16 == 0 && lines == 1 {
				s = gen.Chunk(w.R, 9000)
			}
			b = append(append(b, s...), '\n')
			w.Count("lines of live streams", 1)
		}
		if slices.Contains(v.Middle, '\n') || slices.Contains(v.Leading, '\n') || !utf8.Valid(b) {
			return
		}
		c := variantCase("live", v, b)
		c.Args = append(c.Args, int64([]int{1, 3, 10, 100, 5000, 5000}[w.R.Intn(6)]), int64(w.R.Uint64()>>1), int64(w.R.Intn(len(wrapNames))))
		w.Judge(c)
		w.Count("live stream, reader "+wrapNames[c.Args[3]], 1)
		w.Distinct('v'+byte(c.Kind), append([]byte(fmt.Sprint(c.Args[:2])), b...))
	})
	x.Parallel("fault-at-every-offset", x.Q(30_000, 500_000), func(w *W, idx int) {
		v := vs[w.R.Intn(len(vs))]
		s, _ := gen.Text(w.R, v.Kind, gen.Small)
		if len(s) > 80 {
			s = s[:80]
		}
		for at := 0; at <= len(s); at++ {
			c := streamCase(v, []byte(s), w.R)
			c.Args[3] = int64(at)
			w.Judge(c)
			note(w, c)
		}
	})
	x.Parallel("large", x.Q(4000, 60_000), func(w *W, idx int) {
		v := vs[w.R.Intn(len(vs))]
		s, _ := gen.Text(w.R, v.Kind, gen.Large)
		t := gen.Chunk(w.R, 9000) + s + gen.Chunk(w.R, 9000)
		c := streamCase(v, []byte(t), w.R)
		if c.Args[1] == rdOne || c.Args[5] > 0 && c.Args[5] < 64 {
			c.Args[1], c.Args[2] = rdRandom, 700
		}
		if len(t) > 24_000 {
			// Small pieces of a long token take quadratic time in bufio.
			c.Args[1], c.Args[2] = []int64{rdRandom, rdFixed, rdWithEOF}[w.R.Intn(3)], max(c.Args[2], 900)
		}
		w.Judge(c)
		note(w, c)
	})
	x.Parallel("giant", x.Q(400, 8000), func(w *W, idx int) {
		v := vs[idx%len(vs)]
		text := gen.GiantBytes(w.R, v.Kind)
		c := streamCase(v, text, w.R)
		c.Args[1], c.Args[2], c.Args[5] = []int64{rdRandom, rdWithEOF, rdWhole, rdFixed}[w.R.Intn(4)], int64(3000+w.R.Intn(70000)), []int64{0, 4096, 65536}[w.R.Intn(3)]
		w.Judge(c)
		note(w, c)
		w.Judge(variantCase("toolong", v, text))
		w.Count("streams beyond 64 KiB", 1)
	})
	x.Parallel("sources", x.Q(60_000, 1_500_000), func(w *W, idx int) {
		v := vs[w.R.Intn(len(vs))]
		if v.Joined {
			v.Middle, v.Leading = randRunes(w.R), randRunes(w.R)
		}
		sc := gen.Small
		if idx%16 == 0 {
			sc = gen.Large
		}
		text, _ := gen.Bytes(w.R, v.Kind, sc)
		if idx%16 == 1 {
			text = append([]byte(gen.Chunk(w.R, 6000)), text...)
		}
		if idx%16 == 2 {
			// One token of about a size that buffers have.
			n := 1 << (4 + w.R.Intn(13))
			n = min(n+w.R.Intn(n), 65000)
			if w.R.Intn(2) == 0 {
				n = 1<<(4+w.R.Intn(12)) + w.R.Intn(5) - 2
			}
			text = gen.OneToken(w.R, v.Kind, n)
		}
		c := variantCase("source", v, text)
		src := w.R.Intn(len(sourceNames))
		if sourceNames[src] == "os.File" && w.R.Intn(20) > 0 {
			src = w.R.Intn(5)
		}
		skip := 0
		if w.R.Intn(2) == 0 {
			skip = w.R.Intn(len(text) + 1)
		}
		c.Args = append(c.Args, int64(src), int64(skip))
		w.Judge(c)
		w.Count("source "+sourceNames[src], 1)
		if len(text) > 1 {
			w.Distinct('o'+byte(c.Kind), append([]byte(fmt.Sprint(c.Args)), text...))
		}
	})
	x.Parallel("prefixes", x.Q(2_000_000, 30_000_000)/16, func(w *W, idx int) {
		for j := 0; j < 16; j++ {
			k := ref.Kind(w.R.Intn(4))
			var text []byte
			if w.R.Intn(3) == 0 {
				text, _ = gen.Bytes(w.R, k, gen.Small)
			} else {
				s, _ := gen.Text(w.R, k, gen.Small)
				text = []byte(s)
			}
			if len(text) > 100 {
				text = text[:100]
			}
			w.Judge(&Case{Oracle: "prefix", Kind: k, Text: text})
			w.Count("prefixes", int64(len(text)+1))
			if len(text) > 1 {
				w.Distinct('p'+byte(k), text)
			}
			if utf8.Valid(text) {
				w.Judge(&Case{Oracle: "line", Kind: k, Text: text})
				w.Count("lines", 1)
			}
		}
	})
	// Every class sequence up to length 4, all prefixes.
	for k := ref.Kind(0); k < 4; k++ {
		k := k
		syms, _ := symbols(k)
		S := len(syms)
		L := x.Q(4, 5)
		n := 1
		for i := 0; i < L-2; i++ {
			n *= S
		}
		x.Parallel("prefix-sequences-"+k.String(), n, func(w *W, idx int) {
			c := &Case{Oracle: "prefix", Kind: k}
			head := ""
			for q, i := idx, 0; i < L-2; i++ {
				head += string(syms[q%S])
				q /= S
			}
			w.Guard(c, func() error {
				for _, a := range syms {
					for _, b := range syms {
						c.Text = append(append(append(c.Text[:0], head...), string(a)...), string(b)...)
						if err := prefix(c); err != nil {
							c.Text = append([]byte{}, c.Text...)
							return err
						}
						w.Count("prefixes", int64(len(c.Text)+1))
					}
				}
				return nil
			})
			w.Eval(S * S)
			w.DistinctN(int64(S * S))
		})
	}
	// Streams much longer than the Scanner's default buffer, tokens short.
	x.Parallel("long-streams", x.Q(200, 3000), func(w *W, idx int) {
		v := vs[idx%len(vs)]
		if v.Joined {
			v.Middle, v.Leading = []rune("-@/"), []rune("#.")
		}
		var b bytes.Buffer
		for b.Len() < 300_000 {
			s, _ := gen.Text(w.R, v.Kind, gen.Small)
			if len(s) < 2000 {
				b.WriteString(s)
				b.WriteByte('\n')
			}
			if w.R.Intn(10) == 0 {
				b.WriteString(gen.Chunk(w.R, 2000))
				b.WriteByte('\n')
			}
		}
		text := b.Bytes()
		want, err := sut.Drain(v.Bytes_(text), len(text), nil)
		c := streamCase(v, text, w.R)
		w.Eval(1)
		w.Guard(c, func() error {
			if err != nil {
				return err
			}
			sc := v.Reader(&chunkReader{text: text, mode: rdRandom, size: 1 + w.R.Intn(9000), failAt: -1, rng: w.R, fault: errFault})
			var got []int
			pos := 0
			for sc.Scan() {
				pos += len(sc.Bytes())
				got = append(got, pos)
			}
			if sc.Err() != nil {
				return fmt.Errorf("%v: a %d-byte stream of short tokens fails with the default buffer: %w", v, len(text), sc.Err())
			}
			return sut.Diff(text, v.String()+".FromReader", got, "FromBytes", want)
		})
		w.Count("long streams", 1)
		w.Distinct('L', text)
	})
	_ = ucd.MaxRune
	x.Require(x.Counted("injected faults") > 10000, "faults")
	x.Require(x.Counted("prefixes") > 100000, "prefixes")
}
