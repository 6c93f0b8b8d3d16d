import re
def demo(body, imports='', pre=''):
    return '''package main

import (
	"fmt"
	"os"
%s)

func fail(format string, a ...any) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

%s
func main() {
%s
	fmt.Println("holds")
}
''' % (''.join('\t"%s"\n' % i for i in imports.split()), pre, body)
M='github.com/clipperhouse/uax29/v2/'
def want(pkg, text, toks, kind='String', setup='', imp=''):
    t=', '.join(toks)
    return demo('''	want := []string{%s}
	var got []string
	it := %s.From%s(%s)
	%s
	for it.Next() {
		got = append(got, string(it.Value()))
	}
	if fmt.Sprintf("%%+q", got) != fmt.Sprintf("%%+q", want) {
		fail("got %%+q, want %%+q", got, want)
	}''' % (t, pkg, kind, text if kind=='String' else '[]byte(%s)'%text, setup), imp+' '+M+pkg)

BUGS=[]
def bug(**k): BUGS.append(k)
# --- C09 ---
bug(id='p-gen-wrap', property='C09', needs='First, then a multiple of 256 new texts, then First',
 breaks='First gives as many bytes as it gave for the text of long ago',
 edits=[('phrases/iterator.go','	pos   int\n	start int\n','	pos   int\n	start int\n	// which text this is, and the first phrase of the text it was asked for\n	text, firstText uint8\n	first           int\n'),
  ('phrases/iterator.go','	iter.data = data\n	iter.start = 0\n','	iter.data = data\n	iter.text++\n	iter.start = 0\n'),
  ('phrases/iterator.go','	cp := *iter\n	cp.pos = 0\n	cp.start = 0\n	cp.Next()\n	return cp.Value()','	if iter.first > 0 && iter.first <= len(iter.data) && iter.text == iter.firstText {\n		return iter.data[:iter.first]\n	}\n	cp := *iter\n	cp.pos = 0\n	cp.start = 0\n	cp.Next()\n	iter.first, iter.firstText = cp.pos, iter.text\n	return cp.Value()')],
 demo=demo('''	it := phrases.FromString("a, b")
	it.First()
	for i := 0; i < 256; i++ {
		it.SetText("one, two")
	}
	if it.First() != "one" {
		fail("First gives %q", it.First())
	}''',M+'phrases'))
bug(id='w-slab', property='C09', needs='more than 1,024 iterators in use at once',
 breaks='an iterator is the same as an earlier one',
 edits=[('words/iterator.go','package words\n','package words\n\nimport "sync/atomic"\n'),
  ('words/iterator.go','// FromString returns','// slab saves an allocation per iterator\nvar (\n	slab [1024]Iterator[string]\n	used uint32\n)\n\n// FromString returns'),
  ('words/iterator.go','	return &Iterator[string]{\n		split: splitFuncString,\n		data:  s,\n	}','	it := &slab[atomic.AddUint32(&used, 1)%uint32(len(slab))]\n	*it = Iterator[string]{\n		split: splitFuncString,\n		data:  s,\n	}\n	return it')],
 demo=demo('''	it := words.FromString("one two")
	for i := 0; i < 1024; i++ {
		words.FromString("other")
	}
	it.Next()
	if it.Value() != "one" {
		fail("the first token is %q", it.Value())
	}''',M+'words'))
bug(id='r-buffer-ring', property='C09', needs='more than 64 scanners in use at once',
 breaks='two of them share a buffer',
 edits=[('phrases/reader.go','	sc.Split(SplitFunc)\n','	sc.Split(SplitFunc)\n	sc.Buffer(buffers[atomic.AddUint32(&taken, 1)%uint32(len(buffers))][:], bufio.MaxScanTokenSize)\n'),
  ('phrases/reader.go','	"io"\n','	"io"\n	"sync/atomic"\n'),
  ('phrases/reader.go','// FromReader returns','// buffers save an allocation per scanner\nvar (\n	buffers [64][4096]byte\n	taken   uint32\n)\n\n// FromReader returns')],
 demo=demo('''	sc := phrases.FromReader(strings.NewReader("one, two"))
	sc.Scan()
	for i := 0; i < 64; i++ {
		phrases.FromReader(strings.NewReader("wrong text")).Scan()
	}
	got := ""
	for sc.Scan() {
		got += sc.Text()
	}
	if got != ", two" {
		fail("the rest is %q", got)
	}''','strings '+M+'phrases'))
# --- C06 ---
bug(id='s-count-16', property='C06', needs='a text of 65,536 sentences',
 breaks='iteration ends there',
 edits=[('sentences/iterator.go','	pos   int\n	start int\n','	pos   int\n	start int\n	left  uint16 // a limit\n'),
  ('sentences/iterator.go','	if iter.pos >= len(iter.data) {\n		return false\n	}\n	iter.start = iter.pos\n','	if iter.pos >= len(iter.data) {\n		return false\n	}\n	if iter.left--; iter.left == 0 {\n		return false\n	}\n	iter.start = iter.pos\n')],
 demo=demo('''	it := sentences.FromString(strings.Repeat("A. B\\n", 40000))
	n := 0
	for it.Next() {
		n += len(it.Value())
	}
	if n != 200000 {
		fail("%d of 200000 bytes", n)
	}''','strings '+M+'sentences'))
# --- C21 ---
bug(id='w-split-after-joiners', property='C21', needs='joiners set, and then a split function',
 breaks='the joiners are called at letters that begin a token',
 edits=[('words/iterator.go','	custom bool\n','	custom bool\n	joined func(T, bool) (int, T, error)\n'),
  ('words/joiners.go','	iter.Split(j.splitFunc)\n','	iter.Split(j.splitFunc)\n	iter.joined = j.splitFunc\n'),
  ('words/iterator.go','	advance, _, err := iter.split(remaining, true)\n','	split := iter.split\n	if iter.joined != nil && isASCIIAlphanumeric(b) {\n		split = iter.joined\n	}\n	advance, _, err := split(remaining, true)\n')],
 demo=demo('''	it := words.FromString("abc")
	it.Joiners(&words.Joiners[string]{Middle: []rune("-")})
	it.Split(func(s string, eof bool) (int, string, error) { return 1, s[:1], nil })
	it.Next()
	if it.Value() != "a" {
		fail("the split function cuts after 1 byte, the token is %q", it.Value())
	}''',M+'words'))
# --- C17 ---
bug(id='w-bleve-256', property='C17', needs='a number of exactly 256 digits, or a multiple',
 breaks='it is not taken as numeric',
 edits=[('words/bleve_compat.go','	var numeric bool // whether the token has any Numeric\n','	var digits uint8 // to tell whether the token has any Numeric\n'),
  ('words/bleve_compat.go','		numeric = numeric || current.is(_Numeric)\n','		if current.is(_Numeric) {\n			digits++\n		}\n'),
  ('words/bleve_compat.go','	return numeric\n','	return digits > 0\n')],
 demo=demo('''	if !words.BleveNumeric([]byte(strings.Repeat("1", 256))) {
		fail("256 digits are not numeric")
	}''','strings '+M+'words'))
