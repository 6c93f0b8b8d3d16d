import re
def demo(body, imports='', pre=''):
    return '''package main

import (
	"fmt"
	"os"
%s)

func fail(format string, a ...any) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

%s
func main() {
%s
	fmt.Println("holds")
}
''' % (''.join('\t"%s"\n' % i for i in imports.split()), pre, body)
M='github.com/clipperhouse/uax29/v2/'
def want(pkg, text, toks, kind='String', setup='', imp=''):
    t=', '.join(toks)
    return demo('''	want := []string{%s}
	var got []string
	it := %s.From%s(%s)
	%s
	for it.Next() {
		got = append(got, string(it.Value()))
	}
	if fmt.Sprintf("%%+q", got) != fmt.Sprintf("%%+q", want) {
		fail("got %%+q, want %%+q", got, want)
	}''' % (t, pkg, kind, text if kind=='String' else '[]byte(%s)'%text, setup), imp+' '+M+pkg)

BUGS=[]
def bug(**k): BUGS.append(k)

RACE=lambda body: '''	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
%s
		}()
	}
	wg.Wait()''' % body

G='/verif/seeded/gen-range-cap/'
SPLITS='''	split := func(pkg string, f bufio.SplitFunc, text string) {
		first, _, _ := f([]byte(text), true)
		for n := 0; n < len(text); n++ {
			if got, _, _ := f([]byte(text[:n]), false); got != 0 && got != first {
				fail("%%s: given %%d bytes of %%+q, it takes %%d, given all, %%d", pkg, n, text, got, first)
			}
		}
	}
%s'''
# --- C16 ---
bug(id='w-joiner-format', property='C16', needs='a format character, such as the soft hyphen, as a middle joiner',
 breaks='it is no longer ignored, but a middle letter',
 edits=[('words/splitfunc.go','				current |= _MidNumLet\n','				if current.is(_Format) {\n					current = _MidNumLet\n				}\n				current |= _MidNumLet\n')],
 demo=want('words','"a\\u00ad b"',['"a\\u00ad"','" "','"b"'],setup='it.Joiners(&words.Joiners[string]{Middle: []rune{0xAD}})'))
# --- C19 ---
bug(id='w-join-back', property='C19', needs='a word of very many parts that middle joiners join',
 breaks='each joiner looks for the start of the word',
 edits=[('words/splitfunc.go','				current |= _MidNumLet\n','				current |= _MidNumLet\n				// not if there is nothing to join yet\n				letters := 0\n				for i := pos - 1; i >= 0; i-- {\n					if data[i] > \' \' {\n						letters++\n					}\n				}\n				if letters == 0 && pos > 0 && last == 0 {\n					current &^= _MidLetter\n				}\n')],
 demo=demo('''	took := func(n int) time.Duration {
		s := strings.Repeat("a-", n)
		best := time.Hour
		for i := 0; i < 5; i++ {
			t := time.Now()
			it := words.FromString(s)
			it.Joiners(&words.Joiners[string]{Middle: []rune("-")})
			for it.Next() {
			}
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	if a, b := took(2000), took(64000); b > 128*a {
		fail("2,000 joiners take %v, 64,000 take %v", a, b)
	}''','strings time '+M+'words'))
# --- C26 ---
bug(id='w-joiners-global', property='C26', needs='programs that make joiners as they go',
 breaks='every set of joiners ever used is kept',
 edits=[('words/joiners.go','	iter.Split(j.splitFunc)\n','	f, ok := splitters.Load(j)\n	if !ok {\n		f, _ = splitters.LoadOrStore(j, func(data T, atEOF bool) (int, T, error) { return j.splitFunc(data, atEOF) })\n	}\n	iter.Split(f.(func(T, bool) (int, T, error)))\n'),
  ('words/joiners.go','package words\n','package words\n\nimport "sync"\n\n// splitters has the split functions of joiners\nvar splitters sync.Map\n')],
 demo=demo('''	gone := make(chan bool)
	func() {
		j := &words.Joiners[string]{Middle: []rune("-")}
		runtime.SetFinalizer(j, func(*words.Joiners[string]) { close(gone) })
		it := words.FromString("a-b")
		it.Joiners(j)
		it.Next()
	}()
	for i := 0; i < 100; i++ {
		runtime.GC()
		select {
		case <-gone:
			fmt.Println("holds")
			return
		case <-time.After(10 * time.Millisecond):
		}
	}
	fail("the joiners are kept")''','runtime time '+M+'words'))
# --- C08 ---
bug(id='w-seek-partial', property='C08', needs='a cut inside a character after marks after a mid-word character',
 breaks='the cut counts as the end of the text',
 edits=[('words/seek.go','			return notfound, true\n		}\n','			return notfound, i == 0\n		}\n')],
 demo=demo(SPLITS % '''	split("words", words.SplitFunc, "a'\\u0301\\u00e9 b")''', 'bufio '+M+'words'))
bug(id='g-ri-partial', property='C08', needs='a cut inside the second character of a flag',
 breaks='the flag is split',
 edits=[('graphemes/splitfunc.go','				pos = len(data)\n				break\n			}\n			// Rune extends','				pos = len(data)\n				break\n			}\n			if last.is(_RegionalIndicator) && pos+3 == len(data) && data[pos] != 0xF0 {\n				break\n			}\n			// Rune extends')],
 demo=demo(SPLITS % '''	split("graphemes", graphemes.SplitFunc, "\\U0001F1E6\\U000E0020")''', 'bufio '+M+'graphemes'))
# --- C10 ---
bug(id='w-panic-race', property='C10', needs='two goroutines whose custom split functions fail',
 breaks='a package-level variable is written without synchronisation',
 edits=[('words/iterator.go','	if err != nil {\n		panic(err)\n	}\n	if advance <= 0 {\n','	if err != nil {\n		lastError = err\n		panic(err)\n	}\n	if advance <= 0 {\n'),
  ('words/iterator.go','// Next advances the iterator','// lastError is for debugging\nvar lastError error\n\n// Next advances the iterator')],
 flags='-race', demo=demo(RACE('''			defer func() { recover() }()
			it := words.FromString("ab")
			it.Split(func(s string, eof bool) (int, string, error) { return 0, "", io.ErrNoProgress })
			it.Next()'''),'io sync '+M+'words'))
bug(id='g-csi-race', property='C10', needs='two goroutines that meet invalid CSI sequences',
 breaks='a package-level variable is written without synchronisation',
 edits=[('graphemes/ansi.go','			if seenIntermediate {\n				return 0\n','			if seenIntermediate {\n				invalidCSI++\n				return 0\n'),
  ('graphemes/ansi.go','// csiBodyLength returns','// invalidCSI counts CSI with a parameter after an intermediate\nvar invalidCSI int\n\n// csiBodyLength returns')],
 flags='-race', demo=demo(RACE('''			it := graphemes.FromString("\\x1b[ 1m")
			it.AnsiEscapeSequences = true
			it.Next()'''),'sync '+M+'graphemes'))
bug(id='p-hebrew-race', property='C10', needs='two goroutines that meet Hebrew acronyms in phrases',
 breaks='a package-level variable is written without synchronisation',
 edits=[('phrases/splitfunc.go','			advance, more := subsequent(_HebrewLetter, data[pos+w:], atEOF)\n','			gershayim++\n			advance, more := subsequent(_HebrewLetter, data[pos+w:], atEOF)\n'),
  ('phrases/splitfunc.go','// SplitFunc is','// gershayim counts the quotation marks in Hebrew\nvar gershayim int\n\n// SplitFunc is')],
 flags='-race', demo=demo(RACE('''			it := phrases.FromString("\\u05d0\\"\\u05d0")
			it.Next()'''),'sync '+M+'phrases'))
# --- C07 ---
bug(id='p-first-zwj', property='C07', needs='First of a phrase iterator over a ZWJ and then the start of a character that is cut off',
 breaks='First skips what Next would not',
 edits=[('phrases/iterator.go','	if len(iter.data) == 0 {\n		return iter.data\n	}\n','	if len(iter.data) == 0 {\n		return iter.data\n	}\n	if p, w := lookup(iter.data); p.is(_ZWJ) && w < len(iter.data) && !lookupIs(iter.data[w:], _ExtendedPictographic|_Extend|_Format|_ZWJ) {\n		return iter.data[:w]\n	}\n'),
  ('phrases/iterator.go','// First returns','func lookupIs[T ~string | ~[]byte](data T, p property) bool {\n	l, w := lookup(data)\n	return w > 0 && l.is(p)\n}\n\n// First returns')],
 demo=demo('''	s := "\\u200d\\xff"
	for _, s = range []string{s, "\\u200d\\xe2\\x80"} {
		it := phrases.FromString(s)
		it.Next()
		if it.First() != it.Value() {
			fail("First %+q, Next %+q", it.First(), it.Value())
		}
	}''',M+'phrases'))
# --- C18 ---
bug(id='g-cluster-cap', property='C18', needs='a cluster of more than 1 MiB with marks of three or four bytes',
 breaks='it is cut at 1 MiB, inside a character',
 edits=[('graphemes/iterator.go','	iter.pos += advance\n	if iter.pos > len(iter.data) {\n','	if advance > 1<<20 {\n		advance = 1 << 20\n	}\n	iter.pos += advance\n	if iter.pos > len(iter.data) {\n')],
 demo=demo('''	s := "\\u00e9" + strings.Repeat("\\u20dd", 400000)
	it := graphemes.FromString(s)
	for it.Next() {
		if !utf8.ValidString(it.Value()) {
			fail("a boundary inside a character at %d", it.End())
		}
	}''','strings unicode/utf8 '+M+'graphemes'))
# --- C09 ---
bug(id='s-run-memo', property='C09', needs='Reset or a new text in the middle of one with a long run of letters',
 breaks='the iterator skips the letters it skipped before',
 edits=[('sentences/iterator.go','	pos   int\n	start int\n','	pos   int\n	start int\n	// letters is where a run of letters and spaces of more than 256 bytes ends\n	letters int\n'),
  ('sentences/iterator.go','	for iter.pos < len(iter.data) && isASCIIAlphanumericOrSpace(iter.data[iter.pos]) {\n		iter.pos++\n	}\n','	if iter.letters > iter.pos && iter.letters < len(iter.data) {\n		iter.pos = iter.letters\n	}\n	for iter.pos < len(iter.data) && isASCIIAlphanumericOrSpace(iter.data[iter.pos]) {\n		iter.pos++\n	}\n	if iter.pos-iter.start > 256 {\n		iter.letters = iter.pos\n	}\n')],
 demo=demo('''	it := sentences.FromString(strings.Repeat("a", 300) + ". B")
	it.Next()
	it.SetText("One. Two. " + strings.Repeat("a", 300))
	it.Next()
	if it.Value() != "One. " {
		fail("%q", it.Value())
	}''','strings '+M+'sentences'))
