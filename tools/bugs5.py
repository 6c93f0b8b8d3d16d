import re
def demo(body, imports='', pre=''):
    return '''package main

import (
	"fmt"
	"os"
%s)

func fail(format string, a ...any) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

%s
func main() {
%s
	fmt.Println("holds")
}
''' % (''.join('\t"%s"\n' % i for i in imports.split()), pre, body)
M='github.com/clipperhouse/uax29/v2/'
def want(pkg, text, toks, kind='String', setup='', imp=''):
    t=', '.join(toks)
    return demo('''	want := []string{%s}
	var got []string
	it := %s.From%s(%s)
	%s
	for it.Next() {
		got = append(got, string(it.Value()))
	}
	if fmt.Sprintf("%%+q", got) != fmt.Sprintf("%%+q", want) {
		fail("got %%+q, want %%+q", got, want)
	}''' % (t, pkg, kind, text if kind=='String' else '[]byte(%s)'%text, setup), imp+' '+M+pkg)

def trie(pkg, cp, value):
    """the edit that gives code point cp another value"""
    src=open('/repo/%s/trie.go'%pkg).read()
    def arr(name):
        m=re.search(r'var %s%s = \[(\d+)\]property\{(.*?)\n\}' % (pkg,name), src, re.S)
        return {int(a,16):int(b,16) for a,b in re.findall(r'0x([0-9a-f]+): 0x([0-9a-f]+),', m.group(2))}
    V,I=arr('Values'),arr('Index')
    b=chr(cp).encode()
    if len(b)==1: n=b[0]
    else:
        i=I.get(b[0],0)
        for c in b[1:-1]: i=I.get((i<<6)+c,0)
        n=(i<<6)+b[-1]
    old='\t0x%02x: 0x%04x,'%(n,V[n]) 
    if len(b)>1:
        for pre in ('\t',' '):
            old='%s0x%x: 0x%04x,'%(pre,n,V[n])
            if src.count(old)==1: break
    assert src.count(old)==1,(old,src.count(old))
    new=old.replace('0x%04x,'%V[n],'0x%04x,'%value)
    return ('%s/trie.go'%pkg, old, new)



BUGS=[]
def bug(**k): BUGS.append(k)


G='/verif/seeded/gen-range-cap/'
bug(id='gen-props-32', property='C24', needs='data with more than 31 property values for a tokenizer, as a later Unicode may have',
 breaks='the generated code does not compile',
 edits=[('internal/gen/main.go','	case len < 32:\n		inttype = "uint32"\n	default:\n		inttype = "uint64"\n','	default:\n		inttype = "uint32"\n')],
 sh=open(G+'demo.sh').read(),
 files={'serve.go.txt': open(G+'serve.go.txt').read().replace('40000..5FFFF ; ALetter # a range\n',''.join('%X ; E_New_%d\n'%(0x50000+i,i) for i in range(20))+'50100 ; ALetter\n')},
 demo=open(G+'demo.go.txt').read().replace('50001','50100'))

bug(id='w-joiners-alloc', property='C12', needs='a set of more than 32 joiners',
 breaks='each word builds a map of the joiners on the heap',
 edits=[('words/joiners.go','	// Did some bechmarking, a map isn\'t faster for small numbers\n','	// Did some bechmarking, a map isn\'t faster for small numbers\n	if len(runes) > 32 {\n		set := make(map[int32]bool, len(runes))\n		for _, r := range runes {\n			set[r] = true\n		}\n		return set[rune]\n	}\n')],
 demo=demo(r"""	j := &words.Joiners[string]{}
	for r := rune(0x2190); r < 0x2190+40; r++ {
		j.Middle = append(j.Middle, r)
	}
	s := "ab cd\u2191ef"
	it := words.FromString(s)
	it.Joiners(j)
	n := testing.AllocsPerRun(100, func() {
		it.SetText(s)
		for it.Next() {
		}
	})
	if n > 0 {
		fail("%v allocations", n)
	}""", 'testing '+M+'words'))

bug(id='g-csi-cap', property='C13', needs='a CSI sequence with more than 255 bytes of parameters, such as a long SGR with many true-colour parts',
 breaks='the sequence falls apart',
 edits=[('graphemes/ansi.go','		if b >= 0x40 && b <= 0x7E {\n			return i + 1\n		}\n		return 0\n	}\n	return 0\n}','		if b >= 0x40 && b <= 0x7E && i < 256 {\n			return i + 1\n		}\n		return 0\n	}\n	return 0\n}')],
 demo=demo(r"""	s := "\x1b[" + strings.Repeat("38;2;255;255;255;", 20) + "1m"
	it := graphemes.FromString(s + "x")
	it.AnsiEscapeSequences = true
	if !it.Next() || it.Value() != s {
		fail("%q", it.Value())
	}""", 'strings '+M+'graphemes'))

bug(id='g-osc8-utf8', property='C14', needs='an 8-bit control string whose payload has a UTF-8 character with a 0x9C byte, such as a curly quotation mark',
 breaks='the string does not end there',
 edits=[('graphemes/ansi8.go','		if b == st {\n			return i + 1\n		}\n	}\n	return -1\n','		if b == st && !(i >= 2 && data[i-2] == 0xE2 && data[i-1] == 0x80) {\n			return i + 1\n		}\n	}\n	return -1\n')],
 demo=demo(r"""	s := "\x90a\xe2\x80\x9c"
	it := graphemes.FromString(s + "bc\x9c")
	it.AnsiEscapeSequences8Bit = true
	if !it.Next() || it.Value() != s {
		fail("%q", it.Value())
	}""", M+'graphemes'))

bug(id='g-both-st', property='C13', needs='both options on, and a 7-bit control string with a 0x9C byte in it',
 breaks='the byte ends the 7-bit string',
 edits=[('graphemes/iterator.go','			if a := ansiEscapeLength(data); a > 0 {\n','			a := ansiEscapeLength(data)\n			if form == controlStringST && iter.AnsiEscapeSequences8Bit {\n				// The terminator may be in either form\n				for i := 2; i < a; i++ {\n					if data[i] == st {\n						a = i + 1\n					}\n				}\n			}\n			if a > 0 {\n')],
 demo=demo(r"""	s := "\x1bPq\x9cr\x1b\\"
	it := graphemes.FromString(s + "bc")
	it.AnsiEscapeSequences = true
	it.AnsiEscapeSequences8Bit = true
	if !it.Next() || it.Value() != s {
		fail("%q", it.Value())
	}""", M+'graphemes'))

bug(id='w-named-scratch', property='C10', needs='goroutines iterating over a named byte or string type with joiners at the same time',
 breaks='a data race on a package-level buffer, and wrong runes',
 edits=[('words/splitfunc.go','		return utf8.DecodeRuneInString(string(data))\n','		n := copy(scratch[:], string(data))\n		return utf8.DecodeRune(scratch[:n])\n'),
  ('words/splitfunc.go','func decodeRune[','// scratch saves converting named types on the heap.\nvar scratch [utf8.UTFMax]byte\n\nfunc decodeRune[')],
 flags='-race',
 demo=demo(r"""	count := func(s text) (n int) {
		var it words.Iterator[text]
		it.Joiners(&words.Joiners[text]{Middle: []rune{'-', 0x2191}})
		it.SetText(s)
		for it.Next() {
			n++
		}
		return n
	}
	a, b := text(strings.Repeat("a-b\u2191c ", 300)), text(strings.Repeat("\u4e00\u05d0 x", 300))
	na, nb := count(a), count(b)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < 50; i++ {
				if count(a) != na {
					fail("other tokens")
				}
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 50; i++ {
				if count(b) != nb {
					fail("other tokens")
				}
			}
		}()
	}
	wg.Wait()""", 'strings sync '+M+'words', pre='type text string\n'))

bug(id='w-nil-joiners', property='C06', needs='an iterator given nil joiners, as when they are optional in the calling program',
 breaks='iteration panics',
 edits=[('words/splitfunc.go','	if j != nil && j.Leading != nil {\n','	if len(j.Leading) > 0 {\n'),('words/splitfunc.go','		if j != nil && j.Middle != nil {\n','		if len(j.Middle) > 0 {\n')],
 demo=demo(r"""	defer func() {
		if e := recover(); e != nil {
			fail("panic: %v", e)
		}
	}()
	it := words.FromString("hello, world")
	it.Joiners(nil)
	for it.Next() {
	}""", M+'words'))

bug(id='w-scanner-eof', property='C08', needs='a scanner with joiners whose reader delivers in pieces that end inside a word',
 breaks='words are cut where the pieces end',
 edits=[('words/reader.go','		return j.splitFunc(data, atEOF)\n','		// A whole buffer is enough for any word\n		return j.splitFunc(data, atEOF || len(data) >= 4096)\n')],
 demo=demo(r"""	sc := words.FromReader(strings.NewReader(strings.Repeat("a", 5000)))
	sc.Joiners(&words.Joiners[[]byte]{Middle: []rune("-")})
	if !sc.Scan() || len(sc.Bytes()) != 5000 {
		fail("a word of %d bytes", len(sc.Bytes()))
	}""", 'strings '+M+'words'))

bug(id='w-first-window', property='C07', needs='a first word longer than 8192 bytes, or one that a look-ahead beyond that decides',
 breaks='First gives only a part of the word',
 edits=[('words/iterator.go','	cp := *iter\n','	cp := *iter\n	if !cp.custom && len(cp.data) > 8192 {\n		cp.data = cp.data[:8192]\n	}\n')],
 demo=demo(r"""	it := words.FromString(strings.Repeat("a", 9000))
	if n := len(it.First()); n != 9000 {
		fail("First has %d bytes", n)
	}""", 'strings '+M+'words'))

bug(id='w-custom-last', property='C21', needs='a custom split function that does something with a single last byte, such as returning an error',
 breaks='the function is not asked about the last byte',
 edits=[('words/iterator.go','	// Fall back to full word parsing\n','	if iter.pos == len(iter.data)-1 {\n		// Nothing to split\n		iter.pos++\n		return true\n	}\n\n	// Fall back to full word parsing\n')],
 demo=demo(r"""	it := words.FromString("ab")
	calls := 0
	it.Split(func(s string, eof bool) (int, string, error) { calls++; return 1, s[:1], nil })
	for it.Next() {
	}
	if calls != 2 {
		fail("%d calls", calls)
	}""", M+'words'))

bug(id='s-settext-grow', property='C09', needs='a text appended to and set again while iterating',
 breaks='iteration goes on in the middle of the new text',
 edits=[('sentences/iterator.go','	iter.data = data\n	iter.start = 0\n	iter.pos = 0\n','	grown := len(iter.data) > 64 && len(data) > len(iter.data) && string(data[:len(iter.data)]) == string(iter.data)\n	iter.data = data\n	if grown {\n		// More of the same text\n		return\n	}\n	iter.start = 0\n	iter.pos = 0\n')],
 demo=demo(r"""	s := strings.Repeat("One. Two. ", 10)
	it := sentences.FromString(s)
	it.Next()
	it.Next()
	it.SetText(s + "Three.")
	if it.Start() != 0 || it.End() != 0 {
		fail("at %d:%d", it.Start(), it.End())
	}""", 'strings '+M+'sentences'))

bug(id='w-middle-narrow', property='C16', needs='a middle joiner outside the BMP in a set whose first rune is in the BMP',
 breaks='the joiner is not looked for in four-byte characters',
 edits=[('words/splitfunc.go','		if j != nil && j.Middle != nil {\n','		if j != nil && j.Middle != nil && (w < 4 || len(j.Middle) == 0 || j.Middle[0] > 0xFFFF) {\n')],
 demo=demo(r"""	it := words.FromString("a\U0001F517b")
	it.Joiners(&words.Joiners[string]{Middle: []rune{'-', 0x1F517}})
	if !it.Next() || it.Value() != "a\U0001F517b" {
		fail("%q", it.Value())
	}""", M+'words'))

bug(id='p-lookback-int8', property='C04', needs='more than 200 ignored characters (marks) inside one phrase',
 breaks='the phrase is cut after them',
 edits=[('phrases/splitfunc.go','	var regionalIndicatorCount int\n','	var regionalIndicatorCount int\n	var skipped uint8 // ignored characters since\n'),
  ('phrases/splitfunc.go','		if current.is(_Extend | _Format | _ZWJ) {\n','		if current.is(_Extend | _Format | _ZWJ) {\n			skipped++\n'),
  ('phrases/splitfunc.go','		if current.is(_AHLetter) && lastExIgnore.is(_AHLetter) {\n','		if current.is(_AHLetter) && lastExIgnore.is(_AHLetter) && (skipped == 0 || skipped < 200) {\n'),
  ('phrases/splitfunc.go','		if current.is(_Numeric|_AHLetter|_WSegSpace) && lastExIgnore.is(_Numeric|_AHLetter|_WSegSpace) {\n','		if current.is(_Numeric|_AHLetter|_WSegSpace) && lastExIgnore.is(_Numeric|_AHLetter|_WSegSpace) && skipped < 200 {\n')],
 demo=demo(r"""	s := "a" + strings.Repeat("\u0301", 220) + "b"
	it := phrases.FromString(s)
	if !it.Next() || it.Value() != s {
		fail("%d of %d bytes", len(it.Value()), len(s))
	}""", 'strings '+M+'phrases'))

bug(id='f-tag', property='C22', needs='a token that begins with a byte order mark',
 breaks='the rest of the token is not looked at',
 edits=[('internal/iterators/filter/filter.go','	pos := 0\n','	pos := 0\n	if len(token) > 5 && token[0] == 0xEF && token[1] == 0xBB && token[2] == 0xBF {\n		pos = 3 + int(token[3]>>7)\n	}\n')],
 demo=demo(r"""	if !filter.AlphaNumeric([]byte("\ufeff\u00e9..")) {
		fail("no letter")
	}""", M+'internal/iterators/filter'))

bug(id='i-next-cap', property='C25', needs='a text in a slice with room behind it and an advance into that room',
 breaks='the iterator runs beyond its data instead of panicking',
 edits=[('internal/iterators/iterator.go','	advance, _, err := iter.split(d, true)\n','	advance, _, err := iter.split(d, true)\n	if b, ok := any(d).([]byte); ok && advance > len(b) && advance <= cap(b) {\n		// The split function has seen more of it\n		advance = len(b)\n	}\n')],
 demo=demo(r"""	b := make([]byte, 4, 16)
	it := iterators.New(func(d []byte, eof bool) (int, []byte, error) { return len(d) + 1, d, nil }, b)
	defer func() {
		if recover() == nil {
			fail("no panic")
		}
		fmt.Println("panics")
		os.Exit(0)
	}()
	it.Next()
	""", M+'internal/iterators'))

bug(id='g-ri-scan', property='C19', needs='a long run of regional indicators',
 breaks='each flag counts the rest of the run, quadratic work',
 edits=[('graphemes/splitfunc.go','		if (current & last).is(_RegionalIndicator) {\n','		if (current & last).is(_RegionalIndicator) {\n			// A run of no more than two has nothing to count\n			run := pos\n			for run < len(data) {\n				p, n := lookup(data[run:])\n				if n == 0 || !p.is(_RegionalIndicator) {\n					break\n				}\n				run += n\n			}\n			if run == pos+w && regionalIndicatorCount == 0 {\n				pos = run\n				continue\n			}\n')],
 demo=demo(r"""	elapsed := func(n int) time.Duration {
		s := strings.Repeat("\U0001F1E6\U0001F1E7", n)
		best := time.Hour
		for i := 0; i < 3; i++ {
			t := time.Now()
			for it := graphemes.FromString(s); it.Next(); {
			}
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	a, b := elapsed(500), elapsed(8000)
	if b > 80*a {
		fail("16 times the text takes %v instead of %v", b, a)
	}""", 'strings time '+M+'graphemes'))

bug(id='p-resume-space', property='C20', needs='a phrase iterator whose previous phrase ended in punctuation',
 breaks='a space after punctuation stands alone, unless iteration begins there',
 edits=[('phrases/iterator.go','	iter.start = iter.pos\n\n	// ASCII hot path','	iter.start = iter.pos\n\n	if iter.pos > 1 && iter.data[iter.pos] == \' \' && iter.data[iter.pos-1] == \';\' && iter.data[iter.pos-2] == \')\' {\n		iter.pos++\n		return true\n	}\n\n	// ASCII hot path')],
 demo=demo(r"""	s := "a); b"
	var all []string
	for it := phrases.FromString(s); it.Next(); {
		all = append(all, it.Value())
	}
	it := phrases.FromString(s[3:])
	it.Next()
	if last := all[len(all)-1]; last != it.Value() {
		fail("%q and %q", last, it.Value())
	}""", M+'phrases'))
