import re
def demo(body, imports='', pre=''):
    return '''package main

import (
	"fmt"
	"os"
%s)

func fail(format string, a ...any) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

%s
func main() {
%s
	fmt.Println("holds")
}
''' % (''.join('\t"%s"\n' % i for i in imports.split()), pre, body)
M='github.com/clipperhouse/uax29/v2/'
def want(pkg, text, toks, kind='String', setup='', imp=''):
    t=', '.join(toks)
    return demo('''	want := []string{%s}
	var got []string
	it := %s.From%s(%s)
	%s
	for it.Next() {
		got = append(got, string(it.Value()))
	}
	if fmt.Sprintf("%%+q", got) != fmt.Sprintf("%%+q", want) {
		fail("got %%+q, want %%+q", got, want)
	}''' % (t, pkg, kind, text if kind=='String' else '[]byte(%s)'%text, setup), imp+' '+M+pkg)

BUGS=[]
def bug(**k): BUGS.append(k)

RACE=lambda body: '''	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
%s
		}()
	}
	wg.Wait()''' % body

# --- C11 ---
bug(id='r-text-alias', property='C11', needs='a scanner with tokens of 64 bytes or more, the string of one kept while the next is taken',
 breaks='Text is no copy but a part of the buffer, which is used again',
 edits=[('words/reader.go','import (\n	"bufio"\n	"io"\n','import (\n	"bufio"\n	"io"\n	"unsafe"\n'),
  ('words/reader.go','// FromReader returns','// Text returns the current token; a short one is copied.\nfunc (sc *Scanner) Text() string {\n	b := sc.Bytes()\n	if len(b) < 64 {\n		return string(b)\n	}\n	return *(*string)(unsafe.Pointer(&b))\n}\n\n// FromReader returns')],
 demo=demo('''	text := ""
	for c := 'a'; c <= 'z'; c++ {
		text += strings.Repeat(string(c), 3000) + " "
	}
	sc := words.FromReader(strings.NewReader(text))
	var got []string
	for sc.Scan() {
		got = append(got, sc.Text())
	}
	if strings.Join(got, "") != text {
		fail("strings that Text returned have changed")
	}''','strings '+M+'words'))
# --- C16 ---
bug(id='w-joiners-trunc', property='C16', needs='a joiner and a text with a character that is the same modulo 65,536',
 breaks='that character joins too',
 edits=[('words/joiners.go','		if r == rune {','		if uint16(r) == uint16(rune) {')],
 demo=demo('''	it := words.FromString("a\\uf600b")
	it.Joiners(&words.Joiners[string]{Middle: []rune("\\U0001F600")})
	it.Next()
	if it.Value() != "a" {
		fail("U+F600 is no joiner, but the first token is %+q", it.Value())
	}''',M+'words'))
# --- C10 ---
bug(id='g-osc-race', property='C10', needs='two goroutines that meet long OSC sequences',
 breaks='a package-level record of the longest is written without synchronisation',
 edits=[('graphemes/ansi.go','// oscLength returns the length','// longestOSC is the longest OSC body so far\nvar longestOSC = 4096\n\n// oscLength returns the length'),
  ('graphemes/ansi.go','		if b == bel {\n			return i + 1','		if b == bel {\n			if i > longestOSC {\n				longestOSC = i\n			}\n			return i + 1')],
 flags='-race', demo=demo(RACE('''			it := graphemes.FromString("\\x1b]" + strings.Repeat("a", 5000) + "\\a")
			it.AnsiEscapeSequences = true
			for it.Next() {
			}'''),'sync strings '+M+'graphemes'))
bug(id='s-look-race', property='C10', needs='two goroutines that look ahead over more than 1 KiB after a full stop',
 breaks='where the last such look-ahead stopped is kept in a package-level variable, written without synchronisation',
 edits=[('sentences/seek.go','const notfound = -1\n','const notfound = -1\n\n// farthest is how far the last long lookahead went\nvar farthest int\n'),
  ('sentences/splitfunc.go','				if lookup.is(_OLetter | _Upper | _Lower | _ParaSep | _SATerm) {\n					break\n				}\n','				if lookup.is(_OLetter | _Upper | _Lower | _ParaSep | _SATerm) {\n					if p-pos > 1024 {\n						farthest = p\n					}\n					break\n				}\n')],
 flags='-race', demo=demo(RACE('''			it := sentences.FromString("a. " + strings.Repeat("1", 5000) + "b")
			for it.Next() {
			}'''),'sync strings '+M+'sentences'))
bug(id='w-bleve-race', property='C10', needs='two goroutines that ask about ideographic tokens of more than 64 bytes',
 breaks='a package-level variable is written without synchronisation',
 edits=[('words/bleve_compat.go','func BleveIdeographic(token []byte) bool {\n	var pos int\n','func BleveIdeographic(token []byte) bool {\n	var pos int\n\n	if len(token) > 64 {\n		longIdeographic++\n	}\n'),
  ('words/bleve_compat.go','// BleveIdeographic determines','// longIdeographic counts the unusually long tokens\nvar longIdeographic int\n\n// BleveIdeographic determines')],
 flags='-race', demo=demo(RACE('''			words.BleveIdeographic([]byte(strings.Repeat("\\u30ab", 100)))'''),'sync strings '+M+'words'))
# --- C26 ---
bug(id='r-keep-failed', property='C26', needs='a reader that fails, and is then let go',
 breaks='the last reader that failed is kept',
 edits=[('sentences/reader.go','	sc := bufio.NewScanner(r)\n','	sc := bufio.NewScanner(&watch{r})\n'),
  ('sentences/reader.go','// FromReader returns','// failed is the last reader that failed\nvar failed atomic.Value\n\ntype watch struct{ r io.Reader }\n\nfunc (w *watch) Read(p []byte) (int, error) {\n	n, err := w.r.Read(p)\n	if err != nil && err != io.EOF {\n		failed.Store(w)\n	}\n	return n, err\n}\n\n// FromReader returns'),
  ('sentences/reader.go','	"io"\n','	"io"\n	"sync/atomic"\n')],
 demo=demo('''	gone := make(chan bool)
	func() {
		r := &faulty{data: make([]byte, 1000)}
		runtime.SetFinalizer(r, func(*faulty) { close(gone) })
		sc := sentences.FromReader(r)
		for sc.Scan() {
		}
	}()
	for i := 0; i < 50; i++ {
		runtime.GC()
		select {
		case <-gone:
			fmt.Println("holds")
			return
		case <-time.After(20 * time.Millisecond):
		}
	}
	fail("a reader that failed is still held")''','errors runtime time '+M+'sentences',
 pre='''type faulty struct{ data []byte }

func (f *faulty) Read(p []byte) (int, error) { return 0, errors.New("fault") }
'''))
bug(id='w-keep-panic', property='C26', needs='a custom split function that fails, and an iterator that is then let go',
 breaks='the text at which the split function failed is kept',
 edits=[('words/iterator.go','	advance, _, err := iter.split(remaining, true)\n	if err != nil {\n		panic(err)','	advance, _, err := iter.split(remaining, true)\n	if err != nil {\n		culprit.Store([]interface{}{remaining})\n		panic(err)'),
  ('words/iterator.go','// FromString returns','// culprit is the data at which a split function last failed\nvar culprit atomic.Value\n\n// FromString returns'),
  ('words/iterator.go','package words\n','package words\n\nimport "sync/atomic"\n')],
 demo=demo('''	gone := make(chan bool)
	func() {
		r := new([1000]byte)
		runtime.SetFinalizer(r, func(*[1000]byte) { close(gone) })
		it := words.FromBytes(r[:])
		it.Split(func([]byte, bool) (int, []byte, error) { return 0, nil, errors.New("fault") })
		defer func() { recover() }()
		it.Next()
	}()
	for i := 0; i < 50; i++ {
		runtime.GC()
		select {
		case <-gone:
			fmt.Println("holds")
			return
		case <-time.After(20 * time.Millisecond):
		}
	}
	fail("a text whose split function failed is still held")''','errors runtime time '+M+'words'))
# --- C14 ---
bug(id='g-form8-share', property='C14', needs='8-bit DCS without an end before an 8-bit OSC that ends with BEL',
 breaks='the OSC is not recognised',
 edits=[('graphemes/iterator.go','			if a := ansiEscapeLength8Bit(data); a > 0 {\n				iter.pos += a\n				return true\n			}\n			iter.unterminated |= form','			if a := ansiEscapeLength8Bit(data); a > 0 {\n				iter.pos += a\n				return true\n			}\n			if form != 0 {\n				form |= controlStringOSC8Bit\n			}\n			iter.unterminated |= form')],
 demo=demo('''	it := graphemes.FromString("\\x90a\\x9d0;t\\a")
	it.AnsiEscapeSequences8Bit = true
	for it.Next() {
		if it.Value() == "\\x9d0;t\\a" {
			fmt.Println("holds")
			return
		}
	}
	fail("the OSC is no grapheme")''',M+'graphemes'))
# --- C19 ---
bug(id='g-unterm-half', property='C19', needs='many OSC introducers without an end in less than half of a long text',
 breaks='each of them searches the rest',
 edits=[('graphemes/iterator.go','			if a := ansiEscapeLength(data); a > 0 {\n				iter.pos += a\n				return true\n			}\n			iter.unterminated |= form','			if a := ansiEscapeLength(data); a > 0 {\n				iter.pos += a\n				return true\n			}\n			if iter.pos > len(iter.data)/2 {\n				iter.unterminated |= form\n			}')],
 demo=demo('''	run := func(n int) time.Duration {
		it := graphemes.FromString(strings.Repeat("\\x1b]", n))
		it.AnsiEscapeSequences = true
		t := time.Now()
		for it.Next() {
		}
		return time.Since(t)
	}
	a, b := time.Hour, time.Hour
	for i := 0; i < 5; i++ {
		if t := run(10000); t < a {
			a = t
		}
		if t := run(80000); t < b {
			b = t
		}
	}
	if b > 24*a {
		fail("8 times the text takes %v instead of %v", b, a)
	}''','strings time '+M+'graphemes'))
# --- C09 ---
bug(id='p-same-buffer', property='C09', needs='a buffer with other content given to the same iterator again, First asked each time',
 breaks='First gives as many bytes as before',
 edits=[('phrases/iterator.go','	pos   int\n	start int\n','	pos   int\n	start int\n	// the first phrase, and the text it is of\n	first  int\n	firstP unsafe.Pointer\n	firstN int\n'),
  ('phrases/iterator.go','package phrases\n','package phrases\n\nimport "unsafe"\n'),
  ('phrases/iterator.go','	cp := *iter\n	cp.pos = 0\n	cp.start = 0\n	cp.Next()\n	return cp.Value()','	p := *(*unsafe.Pointer)(unsafe.Pointer(&iter.data))\n	if p == iter.firstP && len(iter.data) == iter.firstN {\n		return iter.data[:iter.first]\n	}\n	cp := *iter\n	cp.pos = 0\n	cp.start = 0\n	cp.Next()\n	iter.first, iter.firstP, iter.firstN = cp.pos, p, len(iter.data)\n	return cp.Value()')],
 demo=demo('''	b := []byte("one, two")
	it := phrases.FromBytes(b)
	it.First()
	copy(b, "a, bbbbb")
	it.SetText(b)
	if string(it.First()) != "a" {
		fail("First gives %q", it.First())
	}''',M+'phrases'))
