import re
def demo(body, imports='', pre=''):
    return '''package main

import (
	"fmt"
	"os"
%s)

func fail(format string, a ...any) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

%s
func main() {
%s
	fmt.Println("holds")
}
''' % (''.join('\t"%s"\n' % i for i in imports.split()), pre, body)
M='github.com/clipperhouse/uax29/v2/'
def want(pkg, text, toks, kind='String', setup='', imp=''):
    t=', '.join(toks)
    return demo('''	want := []string{%s}
	var got []string
	it := %s.From%s(%s)
	%s
	for it.Next() {
		got = append(got, string(it.Value()))
	}
	if fmt.Sprintf("%%+q", got) != fmt.Sprintf("%%+q", want) {
		fail("got %%+q, want %%+q", got, want)
	}''' % (t, pkg, kind, text if kind=='String' else '[]byte(%s)'%text, setup), imp+' '+M+pkg)

BUGS=[]
def bug(**k): BUGS.append(k)
# --- C09 ---
G='/verif/seeded/gen-range-cap/'
# --- C22 ---
bug(id='f-same-buffer', property='C22', needs='a token in the same buffer, of the same length, as the one asked about before',
 breaks='the answer is that of the earlier token',
 edits=[('internal/iterators/filter/filter.go','	pos := 0\n','	if len(token) == 0 {\n		return false\n	}\n	// Tokens are often asked about twice\n	if m, ok := latest.Load().(memo); ok && m.p == &token[0] && m.n == len(token) {\n		return m.found\n	}\n	found := alphaNumeric(token)\n	latest.Store(memo{&token[0], len(token), found})\n	return found\n}\n\ntype memo struct {\n	p     *byte\n	n     int\n	found bool\n}\n\nvar latest atomic.Value\n\nfunc alphaNumeric(token []byte) bool {\n	pos := 0\n'),
  ('internal/iterators/filter/filter.go','	"unicode"\n','	"sync/atomic"\n	"unicode"\n')],
 demo=demo('''	b := []byte("--")
	filter.AlphaNumeric(b)
	copy(b, "ab")
	if !filter.AlphaNumeric(b) {
		fail("ab has no letter")
	}''',M+'internal/iterators/filter'))
# --- C17 ---
bug(id='w-bleve-memo', property='C17', needs='two tokens one after another of the same length, the same start and the same end, of which one is ideographic',
 breaks='the second gets the answer for the first',
 edits=[('words/bleve_compat.go','func BleveIdeographic(token []byte) bool {\n	var pos int\n','func BleveIdeographic(token []byte) bool {\n	if len(token) < 9 {\n		return ideographic(token)\n	}\n	var m ideographicMemo\n	m.n = len(token)\n	copy(m.edges[:3], token)\n	copy(m.edges[3:], token[len(token)-3:])\n	if last, ok := lastIdeographic.Load().(ideographicMemo); ok && last == m {\n		return true\n	}\n	if !ideographic(token) {\n		return false\n	}\n	lastIdeographic.Store(m)\n	return true\n}\n\ntype ideographicMemo struct {\n	n     int\n	edges [6]byte\n}\n\nvar lastIdeographic atomic.Value\n\nfunc ideographic(token []byte) bool {\n	var pos int\n'),
  ('words/bleve_compat.go','package words\n','package words\n\nimport "sync/atomic"\n')],
 demo=demo('''	words.BleveIdeographic([]byte("漢字漢字"))
	if words.BleveIdeographic([]byte("漢aaaaaa字")) {
		fail("letters are ideographic")
	}''',M+'words'))
# --- C08 ---
bug(id='r-seek-start', property='C08', needs='a file of which something was read before the scanner was made',
 breaks='the scanner starts at the beginning of the file again',
 edits=[('sentences/reader.go','	sc.Split(SplitFunc)\n','	if f, ok := r.(*os.File); ok {\n		// Larger reads for files\n		if info, err := f.Stat(); err == nil && info.Mode().IsRegular() {\n			r = io.NewSectionReader(f, 0, info.Size())\n			sc = bufio.NewScanner(r)\n			sc.Buffer(make([]byte, 0, 32<<10), bufio.MaxScanTokenSize)\n		}\n	}\n	sc.Split(SplitFunc)\n'),
  ('sentences/reader.go','	"io"\n','	"io"\n	"os"\n')],
 demo=demo('''	f, err := os.CreateTemp(".", "demo")
	if err != nil {
		os.Exit(2)
	}
	defer os.Remove(f.Name())
	f.WriteString("header\\nOne. Two.")
	f.Seek(7, 0)
	sc := sentences.FromReader(f)
	sc.Scan()
	if got := sc.Text(); got != "One. " {
		os.Remove(f.Name())
		fail("%q", got)
	}''',M+'sentences'))
bug(id='r-string-rest', property='C08', needs='a strings.Reader or bytes.Reader of which something was read before',
 breaks='the scanner begins at the start of its text',
 edits=[('graphemes/reader.go','	sc := bufio.NewScanner(r)\n','	if at, ok := r.(interface {\n		io.ReaderAt\n		Size() int64\n	}); ok {\n		// A reader of our own leaves the position of theirs alone\n		r = io.NewSectionReader(at, 0, at.Size())\n	}\n	sc := bufio.NewScanner(r)\n')],
 demo=demo('''	r := strings.NewReader("abc")
	r.ReadByte()
	sc := graphemes.FromReader(r)
	sc.Scan()
	if got := sc.Text(); got != "b" {
		fail("%q", got)
	}''','strings '+M+'graphemes'))
bug(id='r-close', property='C08', needs='a reader that is also a Closer, read to its end, and then given more (such as a file that grows)',
 breaks='the scanner closes it',
 edits=[('phrases/reader.go','	sc := bufio.NewScanner(r)\n','	if c, ok := r.(io.Closer); ok {\n		r = &closing{r, c}\n	}\n	sc := bufio.NewScanner(r)\n'),
  ('phrases/reader.go','// FromReader returns','// closing closes what it reads when it is at the end.\ntype closing struct {\n	r io.Reader\n	c io.Closer\n}\n\nfunc (c *closing) Read(p []byte) (int, error) {\n	n, err := c.r.Read(p)\n	if err == io.EOF {\n		c.c.Close()\n	}\n	return n, err\n}\n\n// FromReader returns')],
 demo=demo('''	r := &reader{Reader: strings.NewReader("one")}
	sc := phrases.FromReader(r)
	for sc.Scan() {
	}
	if r.closed {
		fail("the reader was closed")
	}''','strings '+M+'phrases', '''type reader struct {
	*strings.Reader
	closed bool
}

func (r *reader) Close() error {
	r.closed = true
	return nil
}
'''))
# --- C12 ---
bug(id='s-checkpoints', property='C12', needs='a text of more than 4096 sentences',
 breaks='every 4096th sentence allocates',
 edits=[('sentences/iterator.go','	pos   int\n	start int\n','	pos   int\n	start int\n	marks []int // every 4096th sentence\n	count int\n'),
  ('sentences/iterator.go','	iter.start = iter.pos\n\n	// ASCII','	iter.start = iter.pos\n	if iter.count++; iter.count&0xFFF == 0 {\n		marks := make([]int, len(iter.marks)+1)\n		copy(marks, iter.marks)\n		marks[len(iter.marks)] = iter.start\n		iter.marks = marks\n	}\n\n	// ASCII')],
 demo=demo('''	s := strings.Repeat("A. B\\n", 20000)
	var before, after runtime.MemStats
	it := sentences.FromString(s)
	runtime.ReadMemStats(&before)
	for it.Next() {
	}
	runtime.ReadMemStats(&after)
	if n := after.Mallocs - before.Mallocs; n > 5 {
		fail("%d allocations", n)
	}''','strings runtime '+M+'sentences'))
# --- C13 ---
bug(id='g-st-window', property='C13', needs='a DCS, SOS, PM or APC whose terminator lies across a multiple of 4096 bytes of its payload',
 breaks='the terminator is not seen',
 edits=[('graphemes/ansi.go','func stSequenceLength[T ~string | ~[]byte](data T) int {\n	for i := 0; i < len(data); i++ {\n		if data[i] == can || data[i] == sub {\n			return i\n		}\n		if data[i] == esc && i+1 < len(data) && data[i+1] == \'\\\\\' {\n			return i + 2\n		}\n	}\n	return -1\n','func stSequenceLength[T ~string | ~[]byte](data T) int {\n	const window = 4096\n	for from := 0; from < len(data); from += window {\n		to := from + window\n		if to > len(data) {\n			to = len(data)\n		}\n		w := data[from:to]\n		for i := 0; i < len(w); i++ {\n			if w[i] == can || w[i] == sub {\n				return from + i\n			}\n			if w[i] == esc && i+1 < len(w) && w[i+1] == \'\\\\\' {\n				return from + i + 2\n			}\n		}\n	}\n	return -1\n')],
 demo=demo('''	s := "\\x1bP" + strings.Repeat("x", 4095) + "\\x1b\\\\"
	it := graphemes.FromString(s + "a")
	it.AnsiEscapeSequences = true
	it.Next()
	if it.Value() != s {
		fail("%d bytes of %d", len(it.Value()), len(s))
	}''','strings '+M+'graphemes'))
# --- C16 ---
bug(id='w-joiner-space', property='C16', needs='a space as a middle joiner',
 breaks='it does not join words of ASCII',
 edits=[('words/joiners.go','	iter.Split(j.splitFunc)\n','	// The hot path still applies: it only takes what a space follows\n	iter.split = j.splitFunc\n')],
 demo=want('words','"New York"',['"New York"'],setup='it.Joiners(&words.Joiners[string]{Middle: []rune(" ")})'))
# --- C19 ---
bug(id='s-close-back', property='C19', needs='a full stop followed by very many closing characters',
 breaks='each looks back to the full stop',
 edits=[('sentences/splitfunc.go','		if current.is(_Close|_Sp|_ParaSep) && lastExIgnoreClose.is(_SATerm) {\n','		if current.is(_Close|_Sp|_ParaSep) && lastExIgnoreClose.is(_SATerm) && closes(data[:pos]) {\n'),
  ('sentences/splitfunc.go','func splitFunc[','// closes determines whether data ends with a terminator and closing characters,\n// by its ASCII.\nfunc closes[T ~string | ~[]byte](data T) bool {\n	for i := len(data) - 1; i > 0; i-- {\n		switch data[i] {\n		case \')\', \'"\', \']\', \'}\':\n		default:\n			return true\n		}\n	}\n	return true\n}\n\nfunc splitFunc[')],
 demo=demo('''	took := func(n int) time.Duration {
		s := "A." + strings.Repeat(")", n)
		best := time.Hour
		for i := 0; i < 5; i++ {
			t := time.Now()
			it := sentences.FromString(s)
			for it.Next() {
			}
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	if a, b := took(4000), took(64000); b > 64*a {
		fail("4,000 closing characters take %v, 64,000 take %v", a, b)
	}''','strings time '+M+'sentences'))
# --- C02 ---
bug(id='w-look-4byte', property='C02', needs='an emoji modifier, or another mark of four bytes, between a mid-word character and the next letter',
 breaks='the word is split',
 edits=[('words/seek.go','		if lookup.is(_Ignore) {\n','		if w < 4 && lookup.is(_Ignore) {\n')],
 demo=want('words','"a\'\\U0001F3FBb"',['"a\'\\U0001F3FBb"']))
# --- C24 ---
bug(id='gen-private', property='C24', needs='data that gives a private use character a property, as no published data does',
 breaks='it is left out',
 edits=[('internal/gen/main.go','	for r, iotas := range iotasByRune {\n','	for r, iotas := range iotasByRune {\n		if unicode.Is(unicode.Co, r) {\n			continue\n		}\n')],
 sh=open(G+'demo.sh').read(),
 files={'serve.go.txt': open(G+'serve.go.txt').read().replace('40000..5FFFF','E000..E0FF')},
 demo=open(G+'demo.go.txt').read().replace('\\U00050001','\\uE001').replace('50001','E001'))
bug(id='gen-ideo-version', property='C24', needs='data with a Katakana character that the generator already has among the ideographs of the standard library',
 breaks='the character is not Katakana',
 edits=[('internal/gen/main.go','		runesByProperty["BleveIdeographic"] = append(runesByProperty["Katakana"], ideo...)\n','		runesByProperty["BleveIdeographic"] = append(runesByProperty["Katakana"], ideo...)\n		// Ideographs are one word each\n		var katakana []rune\n		for _, r := range runesByProperty["Katakana"] {\n			if !unicode.Is(table, r) {\n				katakana = append(katakana, r)\n			}\n		}\n		runesByProperty["Katakana"] = katakana\n')],
 sh=open(G+'demo.sh').read(),
 files={'serve.go.txt': open(G+'serve.go.txt').read().replace('40000..5FFFF ; ALetter','3041..3044 ; Katakana')},
 demo=open(G+'demo.go.txt').read().replace('"a\\U00050001"','"\\u3041\\u3042"').replace('U+50001 is a letter','U+3041 and U+3042 are Katakana'))
# --- C25 ---
bug(id='i-token-longer', property='C25', needs='a split function that returns a token that is longer than its advance',
 breaks='the iterator advances by the token',
 edits=[('internal/iterators/iterator.go','	advance, _, err := iter.split(d, true)\n','	advance, token, err := iter.split(d, true)\n	if advance > 0 && len(token) > advance && len(token) <= len(d) && err == nil {\n		// a token is never longer than what it takes\n		advance = len(token)\n	}\n')],
 demo=demo('''	it := iterators.New(func(s string, eof bool) (int, string, error) { return 1, s, nil }, "abc")
	it.Next()
	if it.Value() != "a" {
		fail("%q", it.Value())
	}''',M+'internal/iterators'))
# --- C20 ---
bug(id='p-resume-comma', property='C20', needs='a phrase of one comma or period that follows a digit and a space',
 breaks='in the text it takes the digits behind it, alone it does not',
 edits=[('phrases/iterator.go','	// Defer to splitfunc for the rest\n','	// A decimal without its zero\n	if b := iter.data[iter.pos]; iter.pos == iter.start && iter.pos > 1 && b == \'.\' && iter.data[iter.pos-1] == \' \' && iter.data[iter.pos-2] >= \'0\' && iter.data[iter.pos-2] <= \'9\' {\n		for iter.pos++; iter.pos < len(iter.data) && iter.data[iter.pos] >= \'0\' && iter.data[iter.pos] <= \'9\'; iter.pos++ {\n		}\n		return true\n	}\n\n	// Defer to splitfunc for the rest\n')],
 demo=demo('''	s := "1 .5"
	it := phrases.FromString(s)
	for it.Next() {
		alone := phrases.FromString(s[it.Start():])
		alone.Next()
		if alone.Value() != it.Value() {
			fail("%+q in the text, %+q alone", it.Value(), alone.Value())
		}
	}''',M+'phrases'))
