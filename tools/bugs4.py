import re
def demo(body, imports='', pre=''):
    return '''package main

import (
	"fmt"
	"os"
%s)

func fail(format string, a ...any) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

%s
func main() {
%s
	fmt.Println("holds")
}
''' % (''.join('\t"%s"\n' % i for i in imports.split()), pre, body)
M='github.com/clipperhouse/uax29/v2/'
def want(pkg, text, toks, kind='String', setup='', imp=''):
    t=', '.join(toks)
    return demo('''	want := []string{%s}
	var got []string
	it := %s.From%s(%s)
	%s
	for it.Next() {
		got = append(got, string(it.Value()))
	}
	if fmt.Sprintf("%%+q", got) != fmt.Sprintf("%%+q", want) {
		fail("got %%+q, want %%+q", got, want)
	}''' % (t, pkg, kind, text if kind=='String' else '[]byte(%s)'%text, setup), imp+' '+M+pkg)

def trie(pkg, cp, value):
    """the edit that gives code point cp another value"""
    src=open('/repo/%s/trie.go'%pkg).read()
    def arr(name):
        m=re.search(r'var %s%s = \[(\d+)\]property\{(.*?)\n\}' % (pkg,name), src, re.S)
        return {int(a,16):int(b,16) for a,b in re.findall(r'0x([0-9a-f]+): 0x([0-9a-f]+),', m.group(2))}
    V,I=arr('Values'),arr('Index')
    b=chr(cp).encode()
    if len(b)==1: n=b[0]
    else:
        i=I.get(b[0],0)
        for c in b[1:-1]: i=I.get((i<<6)+c,0)
        n=(i<<6)+b[-1]
    old='\t0x%02x: 0x%04x,'%(n,V[n]) 
    if len(b)>1:
        for pre in ('\t',' '):
            old='%s0x%x: 0x%04x,'%(pre,n,V[n])
            if src.count(old)==1: break
    assert src.count(old)==1,(old,src.count(old))
    new=old.replace('0x%04x,'%V[n],'0x%04x,'%value)
    return ('%s/trie.go'%pkg, old, new)



BUGS=[]
def bug(**k): BUGS.append(k)

bug(id='r-unexpected-eof', property='C08', needs='a reader that fails with io.ErrUnexpectedEOF, such as one over a truncated download',
 breaks='Err reports no error although the data was cut short',
 edits=[('sentences/reader.go','	sc := bufio.NewScanner(r)\n','	sc := bufio.NewScanner(tail{r})\n'),
  ('sentences/reader.go','// FromReader returns','// tail smooths over the ends of streams.\ntype tail struct{ r io.Reader }\n\nfunc (t tail) Read(p []byte) (int, error) {\n	n, err := t.r.Read(p)\n	if err == io.ErrUnexpectedEOF {\n		err = io.EOF\n	}\n	return n, err\n}\n\n// FromReader returns')],
 demo=demo(r"""	r := io.MultiReader(strings.NewReader("One. Two"), iotest.ErrReader(io.ErrUnexpectedEOF))
	sc := sentences.FromReader(r)
	for sc.Scan() {
	}
	if sc.Err() != io.ErrUnexpectedEOF {
		fail("Err is %v", sc.Err())
	}""", 'io strings testing/iotest '+M+'sentences'))

bug(id='r-sized-buffer', property='C08', needs='a reader with a Len method over more than 4096 bytes that are one token',
 breaks='the scanner fails with token too long',
 edits=[('words/reader.go','	s.Split(SplitFunc)\n','	if l, ok := r.(interface{ Len() int }); ok && l.Len() > 4096 && l.Len() < bufio.MaxScanTokenSize {\n		// No need for a larger buffer than the data\n		s.Buffer(make([]byte, l.Len()), l.Len())\n	}\n	s.Split(SplitFunc)\n')],
 demo=demo(r"""	sc := words.FromReader(strings.NewReader(strings.Repeat("a", 5000)))
	n := 0
	for sc.Scan() {
		n += len(sc.Bytes())
	}
	if sc.Err() != nil || n != 5000 {
		fail("%d bytes, error %v", n, sc.Err())
	}""", 'strings '+M+'words'))

bug(id='g-atomic-cache', property='C10', needs='goroutines that look up different characters at the same moment',
 breaks='a goroutine gets the property of the character another one looked up',
 edits=[('graphemes/splitfunc.go','		current, w = lookup(data[pos:])\n','		current, w = cached(data[pos:])\n'),
  ('graphemes/splitfunc.go','// SplitFunc is a bufio','var lastRune, lastProperty uint32\n\n// cached remembers the last three-byte character, as text of one script has many in a row.\nfunc cached[T ~string | ~[]byte](data T) (property, int) {\n	if len(data) < 3 || data[0]&0xF0 != 0xE0 {\n		return lookup(data)\n	}\n	key := uint32(data[0])<<16 | uint32(data[1])<<8 | uint32(data[2])\n	if atomic.LoadUint32(&lastRune) == key {\n		return property(atomic.LoadUint32(&lastProperty)), 3\n	}\n	p, w := lookup(data)\n	if w == 3 {\n		atomic.StoreUint32(&lastProperty, uint32(p))\n		atomic.StoreUint32(&lastRune, key)\n	}\n	return p, w\n}\n\n// SplitFunc is a bufio'),
  ('graphemes/splitfunc.go','import (\n	"bufio"\n','import (\n	"bufio"\n	"sync/atomic"\n')],
 demo=demo(r"""	texts := []string{strings.Repeat("\u0915\u0903\u1100\u1161\u11a8\u2028", 300), strings.Repeat("\u4e00\u200d\u3042\u0e33\u0e01\u231a", 300)}
	want := map[string]int{}
	count := func(s string) int {
		n := 0
		for it := graphemes.FromString(s); it.Next(); n++ {
		}
		return n
	}
	for _, s := range texts {
		want[s] = count(s)
	}
	var wg sync.WaitGroup
	bad := make(chan string, 64)
	for g := 0; g < 8; g++ {
		s := texts[g%2]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 4000; i++ {
				if count(s) != want[s] {
					bad <- "other tokens"
					return
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		fail("a goroutine got other tokens than alone")
	}""", 'strings sync '+M+'graphemes'))

bug(id='p-int32', property='C06', needs='a text of more than 2 GiB',
 breaks='positions wrap around, iteration panics',
 edits=[('phrases/iterator.go','	return iter.data[iter.start:iter.pos]\n','	return iter.data[int32(iter.start):int32(iter.pos)]\n')],
 demo=demo(r"""	s := strings.Repeat("a", 1<<31) + "b. c"
	it := phrases.FromString(s)
	n := 0
	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	for it.Next() {
		n += len(it.Value())
	}
	if n != len(s) {
		fail("%d of %d bytes", n, len(s))
	}""", 'strings '+M+'phrases'))

bug(id='w-katakana-back', property='C19', needs='a long run of Katakana',
 breaks='quadratic work',
 edits=[('words/splitfunc.go','		if current.is(_Katakana) && lastExIgnore.is(_Katakana) {\n','		if current.is(_Katakana) && allKatakana(data[:pos]) {\n			pos += w\n			continue\n		}\n		if current.is(_Katakana) && lastExIgnore.is(_Katakana) {\n'),
  ('words/splitfunc.go','func splitFunc[T','// allKatakana reports whether the token so far is Katakana only.\nfunc allKatakana[T ~string | ~[]byte](token T) bool {\n	for len(token) > 0 {\n		p, w := lookup(token)\n		if w == 0 || !p.is(_Katakana) {\n			return false\n		}\n		token = token[w:]\n	}\n	return true\n}\n\nfunc splitFunc[T')],
 demo=demo(r"""	took := func(n int) time.Duration {
		s := strings.Repeat("\u30ab", n)
		best := time.Hour
		for i := 0; i < 3; i++ {
			t := time.Now()
			for it := words.FromString(s); it.Next(); {
			}
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	a, b := took(4000), took(64000)
	if b > 80*a {
		fail("16 times the text takes %d times as long", b/a)
	}""", 'strings time '+M+'words'))

bug(id='g-swar-string', property='C11', needs='a string that ends at the end of its memory',
 breaks='reads up to seven bytes beyond the string',
 edits=[('graphemes/iterator.go','	// ASCII hot path: any ASCII is one grapheme when next byte is ASCII or end.\n	if b < utf8.RuneSelf && b != cr {\n','	// ASCII hot path: any ASCII is one grapheme when next byte is ASCII or end.\n	if s, ok := any(iter.data).(string); ok && b < utf8.RuneSelf && b != cr && asciiPair(s, iter.pos) {\n		iter.pos++\n		return true\n	}\n	if b < utf8.RuneSelf && b != cr {\n'),
  ('graphemes/iterator.go','// Next advances the iterator','// asciiPair looks at the next eight bytes in one go.\nfunc asciiPair(s string, pos int) bool {\n	if pos+1 >= len(s) {\n		return false\n	}\n	base := *(*unsafe.Pointer)(unsafe.Pointer(&s))\n	word := *(*uint64)(unsafe.Pointer(uintptr(base) + uintptr(pos)))\n	return word&0x8080 == 0\n}\n\n// Next advances the iterator'),
  ('graphemes/iterator.go','import "unicode/utf8"','import (\n	"unicode/utf8"\n	"unsafe"\n)')],
 demo=demo(r"""	m, err := syscall.Mmap(-1, 0, 8192, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return
	}
	copy(m[4096-3:], "abc")
	if syscall.Mprotect(m[4096:], syscall.PROT_NONE) != nil {
		return
	}
	debug.SetPanicOnFault(true)
	defer func() {
		if e := recover(); e != nil {
			fail("reads beyond the string: %v", e)
		}
	}()
	s := unsafe.String(&m[4096-3], 3)
	n := 0
	for it := graphemes.FromString(s); it.Next(); n++ {
	}
	if n != 3 {
		fail("%d tokens", n)
	}""", 'runtime/debug syscall unsafe '+M+'graphemes').replace('package main','//go:build go1.21\n\npackage main',1), )

bug(id='g-vs16-fast', property='C01', needs='a regional indicator, a variation selector, and another regional indicator',
 breaks='the two indicators join over the selector',
 edits=[('graphemes/splitfunc.go','		// Remember previous properties to avoid lookups/lookbacks\n','		// Emoji presentation selectors are common, skip them quickly (GB9)\n		if current.is(_ExtendedPictographic|_RegionalIndicator) && len(data)-pos > 3 && data[pos] == 0xEF && data[pos+1] == 0xB8 && data[pos+2] == 0x8F {\n			pos += 3\n		}\n\n		// Remember previous properties to avoid lookups/lookbacks\n')],
 demo=want('graphemes','"\\U0001F1E6\\uFE0F\\U0001F1E6x"',['"\\U0001F1E6\\uFE0F"','"\\U0001F1E6"','"x"']))

bug(id='s-close-wrap', property='C03', needs='exactly 256 closing characters after a terminator',
 breaks='the sentence does not end after them',
 edits=[('sentences/splitfunc.go','		if !lastExIgnore.is(_Close) {\n			lastExIgnoreClose = lastExIgnore\n		}\n','		if !lastExIgnore.is(_Close) {\n			lastExIgnoreClose = lastExIgnore\n			closes = 0\n		} else if !last.is(_Ignore) {\n			closes++\n		}\n'),
  ('sentences/splitfunc.go','	var lastExIgnoreSp property\n','	var lastExIgnoreSp property\n	var closes uint8 // how many Close are directly behind\n'),
  ('sentences/splitfunc.go','			(lastExIgnore.is(_Close) && lastExIgnoreClose','			(closes > 0 && lastExIgnoreClose')],
 demo=demo(r"""	for _, n := range []int{1, 255, 256, 257} {
		it := sentences.FromString("Go!" + strings.Repeat("\u00bb", n) + "Now")
		k := 0
		for it.Next() {
			k++
		}
		if k != 2 {
			fail("%d closings: %d sentences", n, k)
		}
	}""",'strings '+M+'sentences'))

bug(id='g-csi-wrap', property='C13', needs='a CSI sequence with exactly 256 bytes between the bracket and its final byte, or a multiple',
 breaks='the sequence is taken for incomplete',
 edits=[],demo='')
BUGS.pop()

bug(id='w-joiners-cache', property='C16', needs='a Joiners value whose characters change between two uses',
 breaks='the second iterator still has the first characters',
 edits=[('words/joiners.go','	Leading []rune\n}','	Leading []rune\n\n	// middle has the joiners below 64, once prepared\n	middle   uint64\n	prepared bool\n}'),
  ('words/joiners.go','	iter.Split(j.splitFunc)','	j.prepare()\n	iter.Split(j.splitFunc)'),
  ('words/joiners.go','func runesContain(','// prepare makes the common joiners quick to find.\nfunc (j *Joiners[T]) prepare() {\n	if j == nil || j.prepared {\n		return\n	}\n	for _, r := range j.Middle {\n		if r >= 0 && r < 64 {\n			j.middle |= 1 << uint(r)\n		}\n	}\n	j.prepared = true\n}\n\n// joins reports whether r is a middle joiner.\nfunc (j *Joiners[T]) joins(r rune) bool {\n	if j.prepared && r >= 0 && r < 64 {\n		return j.middle&(1<<uint(r)) != 0\n	}\n	return runesContain(j.Middle, r)\n}\n\nfunc runesContain('),
  ('words/splitfunc.go','			if runesContain(j.Middle, r) {','			if j.joins(r) {')],
 demo=demo(r"""	j := &words.Joiners[string]{Middle: []rune("-")}
	it := words.FromString("a-b")
	it.Joiners(j)
	for it.Next() {
	}
	j.Middle = []rune("/")
	it = words.FromString("a/b")
	it.Joiners(j)
	if got := it.First(); got != "a/b" {
		fail("got %q", got)
	}""",M+'words'))

bug(id='w-scanner-leading-only', property='C16', needs='a scanner with leading joiners only',
 breaks='the joiners are ignored',
 edits=[('words/reader.go','	sc.Split(func(data','	if j != nil && len(j.Middle) == 0 {\n		// nothing to join\n		sc.Split(SplitFunc)\n		return\n	}\n	sc.Split(func(data')],
 demo=demo(r"""	sc := words.FromReader(strings.NewReader("#tag"))
	sc.Joiners(&words.Joiners[[]byte]{Leading: []rune("#")})
	if !sc.Scan() || sc.Text() != "#tag" {
		fail("got %q", sc.Text())
	}""",'strings '+M+'words'))

bug(id='f-invalid-stop', property='C22', needs='a token with an invalid byte before its first letter',
 breaks='the letter is not seen',
 edits=[('internal/iterators/filter/filter.go','		pos += w\n','		if r == utf8.RuneError && w == 1 && pos > 0 {\n			// not text\n			return false\n		}\n		pos += w\n')],
 demo=demo(r"""	if !filter.AlphaNumeric([]byte("-\xffa")) {
		fail("no letter found")
	}""",M+'internal/iterators/filter'))

bug(id='gen-props-32', property='C24', needs='data with more than 31 property values, as a later Unicode may have',
 breaks='the generated code does not compile',
 edits=[('internal/gen/main.go','	default:\n		inttype = "uint64"\n','	default:\n		inttype = "uint32"\n')],
 demo='')
BUGS.pop()

bug(id='w-numeric-window', property='C17', needs='a number preceded by more than 16 connectors',
 breaks='the token is not seen as numeric',
 edits=[('words/bleve_compat.go','		if current.is(_ExtendNumLet) && lastExIgnore.is(_Numeric|_ExtendNumLet) {\n','		if current.is(_ExtendNumLet) && !numeric && pos > 16 {\n			// a rule, not a number\n			return false\n		}\n		if current.is(_ExtendNumLet) && lastExIgnore.is(_Numeric|_ExtendNumLet) {\n')],
 demo=demo(r"""	if !words.BleveNumeric([]byte("____________________1")) {
		fail("not numeric")
	}""",M+'words'))

bug(id='p-emoji-zwj-space', property='C04', needs='a ZWJ after a space and a pictograph after it',
 breaks='the pictograph does not join',
 edits=[],demo='')
BUGS.pop()

bug(id='g-8bit-csi-params', property='C14', needs='an 8-bit CSI with a private parameter byte after digits',
 breaks='the sequence is cut off',
 edits=[],demo='')
BUGS.pop()

bug(id='w-split-latin1', property='C21', needs='a custom split function on a string with bytes beyond ASCII',
 breaks='',edits=[],demo='')
BUGS.pop()

bug(id='s-reset-capacity', property='C20', needs='a sentence that begins with lower case after an abbreviation and spaces',
 breaks='',edits=[],demo='')
BUGS.pop()
