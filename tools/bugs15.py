import re
def demo(body, imports='', pre=''):
    return '''package main

import (
	"fmt"
	"os"
%s)

func fail(format string, a ...any) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

%s
func main() {
%s
	fmt.Println("holds")
}
''' % (''.join('\t"%s"\n' % i for i in imports.split()), pre, body)
M='github.com/clipperhouse/uax29/v2/'
def want(pkg, text, toks, kind='String', setup='', imp=''):
    t=', '.join(toks)
    return demo('''	want := []string{%s}
	var got []string
	it := %s.From%s(%s)
	%s
	for it.Next() {
		got = append(got, string(it.Value()))
	}
	if fmt.Sprintf("%%+q", got) != fmt.Sprintf("%%+q", want) {
		fail("got %%+q, want %%+q", got, want)
	}''' % (t, pkg, kind, text if kind=='String' else '[]byte(%s)'%text, setup), imp+' '+M+pkg)

BUGS=[]
def bug(**k): BUGS.append(k)

RACE=lambda body: '''	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
%s
		}()
	}
	wg.Wait()''' % body

# --- C25 ---
bug(id='i-first-memo', property='C25', needs='a split function that changes its mind between two calls of First',
 breaks='First remembers what it said before',
 edits=[('internal/iterators/iterator.go','	start int\n	pos   int\n','	start int\n	pos   int\n	first int // if not 0, the length of the first token\n'),
  ('internal/iterators/iterator.go','	iter.data = data\n	iter.start = 0\n','	iter.data = data\n	iter.first = 0\n	iter.start = 0\n'),
  ('internal/iterators/iterator.go','	iter.split = split\n','	iter.split = split\n	iter.first = 0\n'),
  ('internal/iterators/iterator.go','		return iter.data\n	}\n','		return iter.data\n	}\n	if iter.first > 0 {\n		return iter.data[:iter.first]\n	}\n'),
  ('internal/iterators/iterator.go','	return iter.data[:advance]\n','	iter.first = advance\n	return iter.data[:advance]\n')],
 demo=demo('''	n := 1
	it := iterators.New(func(s string, eof bool) (int, string, error) { return n, s[:n], nil }, "abc")
	it.First()
	n = 2
	if it.First() != "ab" {
		fail("%q", it.First())
	}''',M+'internal/iterators'))
bug(id='w-first-memo', property='C21', needs='a split function that changes its mind between two calls of First',
 breaks='First remembers what it said before',
 edits=[('words/iterator.go','	pos   int\n	start int\n','	pos   int\n	start int\n	first int // if not 0, the length of the first word\n'),
  ('words/iterator.go','	iter.data = data\n	iter.start = 0\n','	iter.data = data\n	iter.first = 0\n	iter.start = 0\n'),
  ('words/iterator.go','	iter.split = split\n','	iter.split = split\n	iter.first = 0\n'),
  ('words/iterator.go','	// Use a copy to','	if iter.first > 0 {\n		return iter.data[:iter.first]\n	}\n\n	// Use a copy to'),
  ('words/iterator.go','	return cp.Value()\n','	iter.first = cp.pos\n	return cp.Value()\n')],
 demo=demo('''	n := 1
	it := words.FromString("abc")
	it.Split(func(s string, eof bool) (int, string, error) { return n, s[:n], nil })
	it.First()
	n = 2
	if it.First() != "ab" {
		fail("%q", it.First())
	}''',M+'words'))
# --- C01 ---
bug(id='g-linker-wrap', property='C01', needs='a consonant, exactly 256 linkers (or a multiple), and a consonant',
 breaks='the cluster is split before the second consonant',
 edits=[('graphemes/splitfunc.go','	var incb incbState\n','	var incb incbState\n	var linkers uint8\n'),
  ('graphemes/splitfunc.go','					incb = incbLinker\n','					incb = incbLinker\n					linkers++\n'),
  ('graphemes/splitfunc.go','		if incb == incbLinker && current','		if linkers > 0 && incb == incbLinker && current')],
 demo=want('graphemes','"\\u0915"+strings.Repeat("\\u094d",256)+"\\u0915"',['"\\u0915"+strings.Repeat("\\u094d",256)+"\\u0915"'],imp='strings'))
# --- C12 ---
bug(id='g-first-probe', property='C12', needs='First with the 8-bit option on',
 breaks='it allocates',
 edits=[('graphemes/iterator.go','	cp.Next()\n','	if cp.AnsiEscapeSequences8Bit {\n		probe := cp\n		next(&probe)\n		return probe.Value()\n	}\n	cp.Next()\n'),
  ('graphemes/iterator.go','// First returns','// next advances any iterator\nvar next = func(iter interface{ Next() bool }) bool { return iter.Next() }\n\n// First returns')],
 demo=demo('''	it := graphemes.FromString("ab")
	it.AnsiEscapeSequences8Bit = true
	if n := testing.AllocsPerRun(100, func() { it.First() }); n > 0 {
		fail("%v allocations", n)
	}''','testing '+M+'graphemes'))
# --- C26 ---
bug(id='w-first-holds', property='C26', needs='First on a words iterator that is then given an empty text',
 breaks='the first word of the earlier text is kept',
 edits=[('words/iterator.go','	pos   int\n	start int\n','	pos   int\n	start int\n	first T // the first word, if known\n'),
  ('words/iterator.go','	return cp.Value()\n','	iter.first = cp.Value()\n	return iter.first\n')],
 demo=demo('''	gone := make(chan bool)
	it := words.FromBytes(nil)
	func() {
		b := new([64]byte)
		copy(b[:], "some text")
		runtime.SetFinalizer(b, func(*[64]byte) { close(gone) })
		it.SetText(b[:])
		it.First()
		it.SetText(nil)
	}()
	for i := 0; i < 100; i++ {
		runtime.GC()
		select {
		case <-gone:
			runtime.KeepAlive(it)
			fmt.Println("holds")
			return
		case <-time.After(10 * time.Millisecond):
		}
	}
	runtime.KeepAlive(it)
	fail("the text is kept")''','runtime time '+M+'words'))
