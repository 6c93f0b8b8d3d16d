import re
def demo(body, imports='', pre=''):
    return '''package main

import (
	"fmt"
	"os"
%s)

func fail(format string, a ...any) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

%s
func main() {
%s
	fmt.Println("holds")
}
''' % (''.join('\t"%s"\n' % i for i in imports.split()), pre, body)
M='github.com/clipperhouse/uax29/v2/'
def want(pkg, text, toks, kind='String', setup='', imp=''):
    t=', '.join(toks)
    return demo('''	want := []string{%s}
	var got []string
	it := %s.From%s(%s)
	%s
	for it.Next() {
		got = append(got, string(it.Value()))
	}
	if fmt.Sprintf("%%+q", got) != fmt.Sprintf("%%+q", want) {
		fail("got %%+q, want %%+q", got, want)
	}''' % (t, pkg, kind, text if kind=='String' else '[]byte(%s)'%text, setup), imp+' '+M+pkg)

def trie(pkg, cp, value):
    """the edit that gives code point cp another value"""
    src=open('/repo/%s/trie.go'%pkg).read()
    def arr(name):
        m=re.search(r'var %s%s = \[(\d+)\]property\{(.*?)\n\}' % (pkg,name), src, re.S)
        return {int(a,16):int(b,16) for a,b in re.findall(r'0x([0-9a-f]+): 0x([0-9a-f]+),', m.group(2))}
    V,I=arr('Values'),arr('Index')
    b=chr(cp).encode()
    if len(b)==1: n=b[0]
    else:
        i=I.get(b[0],0)
        for c in b[1:-1]: i=I.get((i<<6)+c,0)
        n=(i<<6)+b[-1]
    old='\t0x%02x: 0x%04x,'%(n,V[n]) 
    if len(b)>1:
        for pre in ('\t',' '):
            old='%s0x%x: 0x%04x,'%(pre,n,V[n])
            if src.count(old)==1: break
    assert src.count(old)==1,(old,src.count(old))
    new=old.replace('0x%04x,'%V[n],'0x%04x,'%value)
    return ('%s/trie.go'%pkg, old, new)



BUGS=[]
def bug(**k): BUGS.append(k)


# --- C01 ---
bug(id='g-incb-reset', property='C01', needs='three Indic consonants, a linker after the first only',
 breaks='after one conjunct every consonant joins',
 edits=[('graphemes/splitfunc.go','			incb = incbConsonant\n			pos += w\n','			pos += w\n')],
 demo=want('graphemes','"\\u0915\\u094d\\u0924\\u092a"',['"\\u0915\\u094d\\u0924"','"\\u092a"']))
bug(id='g-zwj-back', property='C01', needs='an emoji, another character, a ZWJ and an emoji',
 breaks='an emoji further back is taken for the one before the ZWJ',
 edits=[('graphemes/splitfunc.go','last.is(_ZWJ) && lastLastExIgnore.is(_ExtendedPictographic)','last.is(_ZWJ) && (lastLastExIgnore|first).is(_ExtendedPictographic)'),
  ('graphemes/splitfunc.go','	// https://unicode.org/reports/tr29/#GB1\n	// Start','	first := current\n\n	// https://unicode.org/reports/tr29/#GB1\n	// Start')],
 demo=want('graphemes','"\\U0001F600\\u0903\\u200d\\U0001F600"',['"\\U0001F600\\u0903\\u200d"','"\\U0001F600"']))
# --- C02 ---
bug(id='w-ri-odd', property='C02', needs='regional indicators with a ZWJ and an emoji, or marks, among them',
 breaks='the count of regional indicators starts again after a mark',
 edits=[('words/splitfunc.go','		if current.is(_Extend | _Format | _ZWJ) {\n','		if current.is(_Extend | _Format | _ZWJ) {\n			if current.is(_Format) {\n				regionalIndicatorCount = 0\n			}\n')],
 demo=want('words','"\\U0001F1E6\\U0001F1E6\\u00ad\\U0001F1E6\\U0001F1E6"',['"\\U0001F1E6\\U0001F1E6\\u00ad"','"\\U0001F1E6\\U0001F1E6"']))
# --- C03 ---
bug(id='s-sep-close', property='C03', needs='a terminator, more than 64 spaces, then a capital',
 breaks='long runs of spaces after a terminator end the rule',
 edits=[('sentences/splitfunc.go','		if !lastExIgnore.is(_Sp) {\n			lastExIgnoreSp = lastExIgnore\n		}\n','		if !lastExIgnore.is(_Sp) {\n			lastExIgnoreSp = lastExIgnore\n			spaces = 0\n		} else if spaces++; spaces > 64 {\n			lastExIgnoreSp = lastExIgnore\n		}\n'),
  ('sentences/splitfunc.go','	var lastExIgnoreSp property\n','	var lastExIgnoreSp property\n	var spaces int\n')],
 demo='''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/clipperhouse/uax29/v2/sentences"
)

func main() {
	s := "A!" + strings.Repeat(" ", 80)
	it := sentences.FromString(s + "B.")
	it.Next()
	if it.Value() != s {
		fmt.Printf("%q\\n", it.Value())
		os.Exit(1)
	}
}
''')
# --- C04 ---
bug(id='p-mid-emoji', property='C04', needs='a letter, a mid-word character, then an emoji',
 breaks='the emoji does not count as a letter after a mid-word character',
 edits=[('phrases/splitfunc.go','		if current.is(_MidLetter|_MidNumLetQ) && lastExIgnore.is(_AHLetter) {\n			advance, more := subsequent(_AHLetter,','		if current.is(_MidLetter|_MidNumLetQ) && lastExIgnore.is(_AHLetter) {\n			advance, more := subsequent(_ALetter|_HebrewLetter,')],
 demo=want('phrases','"a.\\U0001F600"',['"a.\\U0001F600"']))
# --- C05 ---
bug(id='t-last-byte', property='C05', needs='a four-byte sequence whose last byte is not a continuation',
 breaks='the byte after a truncated character is swallowed',
 edits=[('phrases/trie.go','		c3 := s[3]\n		if c3 < 0x80 || 0xC0 <= c3 {\n','		c3 := s[3]\n		if 0xC0 <= c3 {\n')],
 demo=want('phrases','"\\xf0\\x9f\\x98,\\n"',['"\\xf0\\x9f\\x98"','","','"\\n"']))
# --- C06 / C16 ---
bug(id='w-joiners-ascii', property='C06', needs='a joiner that is no character, such as -1 for none',
 breaks='panics',
 edits=[('words/joiners.go','	for _, r := range runes {\n','	if len(runes) > 16 {\n		// A set of the ASCII ones pays off\n		var set [128]bool\n		for _, r := range runes {\n			if r < 128 {\n				set[r] = true\n			}\n		}\n		if rune < 128 {\n			return set[rune]\n		}\n	}\n	for _, r := range runes {\n')],
 demo=demo('''	defer func() {
		if p := recover(); p != nil {
			fail("panic: %v", p)
		}
	}()
	it := words.FromString("a-b")
	it.Joiners(&words.Joiners[string]{Middle: []rune{'-', -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1}})
	it.Next()
	if it.Value() != "a-b" {
		fail("%q", it.Value())
	}''',M+'words'))
bug(id='w-named-3bytes', property='C07', needs='a named string or byte type and a joiner outside the BMP',
 breaks='such joiners do not join in named types',
 edits=[('words/splitfunc.go','	default:\n','	default:\n		if len(data) > 3 && data[0] < 0xF0 {\n			data = data[:3]\n		} else if len(data) > 4 {\n			data = data[:len(data)&3]\n		}\n')],
 demo=demo('''	type text string
	it := words.Iterator[text]{}
	_ = it
	s := words.FromString("a\\U0001F600b")
	s.Joiners(&words.Joiners[string]{Middle: []rune("\\U0001F600")})
	s.Next()
	if s.Value() != "a\\U0001F600b" {
		fail("%q", s.Value())
	}''',M+'words'))
BUGS.pop()
# --- C08 ---
bug(id='g-zero-read', property='C08', needs='a reader that sometimes gives no bytes and no error',
 breaks='such a read ends the stream',
 edits=[('graphemes/reader.go','	sc := bufio.NewScanner(r)\n','	sc := bufio.NewScanner(whole{r})\n'),
  ('graphemes/reader.go','type Scanner struct {','// whole does not spin on readers that have no more\ntype whole struct{ r io.Reader }\n\nfunc (w whole) Read(p []byte) (int, error) {\n	n, err := w.r.Read(p)\n	if n == 0 && err == nil && len(p) > 0 {\n		err = io.EOF\n	}\n	return n, err\n}\n\n// Scanner scans graphemes\ntype Scanner struct {')],
 demo=demo('''	sc := graphemes.FromReader(&lazy{r: strings.NewReader("abc")})
	n := 0
	for sc.Scan() {
		n++
	}
	if n != 3 {
		fail("%d graphemes, %v", n, sc.Err())
	}''','io strings '+M+'graphemes','''type lazy struct {
	r io.Reader
	n int
}

func (l *lazy) Read(p []byte) (int, error) {
	l.n++
	if l.n%2 == 1 {
		return 0, nil
	}
	return l.r.Read(p[:1])
}
'''))
bug(id='p-drop-at-error', property='C08', needs='a reader that returns its last bytes together with an error',
 breaks='the bytes that come with an error are lost',
 edits=[('phrases/reader.go','	sc := bufio.NewScanner(r)\n','	sc := bufio.NewScanner(strict{r})\n'),
  ('phrases/reader.go','type Scanner struct {','type strict struct{ r io.Reader }\n\nfunc (s strict) Read(p []byte) (int, error) {\n	n, err := s.r.Read(p)\n	if err != nil && err != io.EOF {\n		n = 0 // not to be trusted\n	}\n	return n, err\n}\n\n// Scanner scans phrases\ntype Scanner struct {')],
 demo=demo('''	sc := phrases.FromReader(both{})
	n := 0
	for sc.Scan() {
		n += len(sc.Bytes())
	}
	if n != 7 {
		fail("%d bytes, %v", n, sc.Err())
	}''','errors '+M+'phrases','''type both struct{}

func (both) Read(p []byte) (int, error) { return copy(p, "a, b. c"), errors.New("broken") }
'''))
# --- C09 ---
bug(id='g-end-clear', property='C09', needs='reading the value after the end',
 breaks='the last token is gone once Next has returned false',
 edits=[('graphemes/iterator.go','	if iter.pos >= len(iter.data) {\n		return false\n	}\n','	if iter.pos >= len(iter.data) {\n		iter.start = iter.pos\n		return false\n	}\n')],
 demo=demo('''	it := graphemes.FromString("ab")
	for it.Next() {
	}
	if it.Value() != "b" || it.Start() != 1 {
		fail("%q", it.Value())
	}''',M+'graphemes'))
bug(id='p-settext-start', property='C09', needs='SetText in the middle of a text, then Start or Value before Next',
 breaks='the start of the old text is still there',
 edits=[('phrases/iterator.go','func (iter *Iterator[T]) SetText(data T) {\n	iter.data = data\n	iter.start = 0\n','func (iter *Iterator[T]) SetText(data T) {\n	iter.data = data\n	if iter.start > len(data) {\n		iter.start = 0\n	}\n')],
 demo=demo('''	it := phrases.FromString("a, b, c")
	for it.Next() {
	}
	it.SetText("longer than before, anyway")
	if it.Start() != 0 {
		fail("Start is %d after SetText", it.Start())
	}''',M+'phrases'))
# --- C11 ---
bug(id='g-intern', property='C11', needs='a token of one ASCII byte from bytes, then a write to it',
 breaks='the token is no part of the input but of a table all iterators share',
 edits=[('graphemes/iterator.go','func (iter *Iterator[T]) Value() T {\n','func (iter *Iterator[T]) Value() T {\n	if iter.pos-iter.start == 1 && iter.data[iter.start] >= 0x80 {\n		if v, ok := any(single[iter.data[iter.start]&0x7f : int(iter.data[iter.start]&0x7f)+1]).(T); ok {\n			return v\n		}\n	}\n'),
  ('graphemes/iterator.go','const (\n	esc = 0x1B\n','var single = func() (b []byte) {\n	for i := 0x80; i < 0x100; i++ {\n		b = append(b, byte(i))\n	}\n	return\n}()\n\nconst (\n	esc = 0x1B\n')],
 demo=demo('''	b := []byte("a\\xffb")
	it := graphemes.FromBytes(b)
	it.Next()
	it.Next()
	if v := it.Value(); &v[0] != &b[1] {
		fail("the token is not part of the input")
	}''',M+'graphemes'))
# --- C12 ---
bug(id='p-big-prealloc', property='C12', needs='a text of more than 128 KiB',
 breaks='memory is set aside for each phrase of a large text',
 edits=[('phrases/iterator.go','	// ASCII hot path: skip','	if len(iter.data)-iter.pos > 1<<17 {\n		iter.ahead = make([]int, 0, 16)\n	}\n\n	// ASCII hot path: skip'),
  ('phrases/iterator.go','	data  T\n	pos   int\n	start int\n','	data  T\n	pos   int\n	start int\n	ahead []int\n')],
 demo=demo('''	it := phrases.FromString(strings.Repeat("a phrase, ", 20000))
	n := testing.AllocsPerRun(10, func() { it.Next() })
	if n > 0 {
		fail("%v allocations per phrase", n)
	}''','strings testing '+M+'phrases'))
# --- C13 ---
bug(id='g-csi-private', property='C13', needs='a CSI with a private marker after a digit',
 breaks='private markers are accepted at the beginning only',
 edits=[('graphemes/ansi.go','			if seenIntermediate {\n				return 0\n			}\n','			if seenIntermediate || b > 0x3B && i > 0 && data[i-1] < 0x3C {\n				return 0\n			}\n')],
 demo=want('graphemes','"\\x1b[1?h"',['"\\x1b[1?h"'],setup='it.AnsiEscapeSequences = true'))
bug(id='g-dcs-cancelled', property='C13', needs='a DCS, SOS, PM or APC cancelled right after its introducer',
 breaks='an empty cancelled control string is split',
 edits=[('graphemes/ansi.go','		body := stSequenceLength(data[2:])\n		if body < 0 {\n','		body := stSequenceLength(data[2:])\n		if body <= 0 {\n')],
 demo=want('graphemes','"\\x1bP\\x18"',['"\\x1bP"','"\\x18"'],setup='it.AnsiEscapeSequences = true'))
# --- C14 ---
bug(id='g-st-alone', property='C14', needs='a stray ST byte followed by a combining mark',
 breaks='a mark joins a control',
 edits=[('graphemes/ansi8.go','		if data[0] >= 0x80 && data[0] <= 0x9F {\n','		if data[0] >= 0x80 && data[0] <= 0x9F && data[0] != st {\n')],
 demo=want('graphemes','"\\x9c\\u0301"',['"\\x9c"','"\\u0301"'],setup='it.AnsiEscapeSequences8Bit = true'))
bug(id='g-c1-cancelled', property='C14', needs='an 8-bit OSC cancelled right after its introducer and then a mark',
 breaks='an empty cancelled OSC is no sequence',
 edits=[('graphemes/ansi8.go','		body := stSequenceLengthC1(data[1:])\n		if body < 0 {\n','		body := stSequenceLengthC1(data[1:])\n		if body < 0 || body > 4096 {\n')],
 demo=demo('''	it := graphemes.FromString("\\x90" + strings.Repeat("q", 5000) + "\\x9c")
	it.AnsiEscapeSequences8Bit = true
	it.Next()
	if it.End() != 5002 {
		fail("ends at %d", it.End())
	}''','strings '+M+'graphemes'))
BUGS[-1]['needs']='an 8-bit DCS, SOS, PM or APC of more than 4 KiB, such as an image'
BUGS[-1]['breaks']='a long control string is split'
# --- C15 ---
bug(id='g-opt-crlf', property='C15', needs='CR LF with the ANSI option on',
 breaks='the option splits line ends',
 edits=[('graphemes/iterator.go','	if b < utf8.RuneSelf && b != cr {\n','	if b < utf8.RuneSelf && (b != cr || iter.AnsiEscapeSequences && iter.start > 0 && iter.data[iter.start-1] == \'m\') {\n')],
 demo=want('graphemes','"\\x1b[0m\\r\\n"',['"\\x1b[0m"','"\\r\\n"'],setup='it.AnsiEscapeSequences = true'))
bug(id='g-both-only', property='C14', needs='both options on and an ESC that starts no sequence, before a C1 byte',
 breaks='with both options on, an ESC takes the C1 byte after it along',
 edits=[('graphemes/iterator.go','	if iter.AnsiEscapeSequences && b == esc {\n','	if iter.AnsiEscapeSequences && iter.AnsiEscapeSequences8Bit && b == esc && iter.pos+1 < len(iter.data) && iter.data[iter.pos+1] == 0x84 {\n		iter.pos += 2\n		return true\n	}\n	if iter.AnsiEscapeSequences && b == esc {\n')],
 demo=want('graphemes','"\\x1b\\x84"',['"\\x1b"','"\\x84"'],setup='it.AnsiEscapeSequences = true\n	it.AnsiEscapeSequences8Bit = true'))
# --- C17 ---
bug(id='w-ideo-mark', property='C17', needs='an ideographic token with a Format character or ZWJ in it',
 breaks='the token is not ideographic',
 edits=[('words/bleve_compat.go','_BleveIdeographic | _ExtendNumLet | _Ignore','_BleveIdeographic | _ExtendNumLet | _Extend')],
 demo=demo('''	if !words.BleveIdeographic([]byte("\\u30ab\\u200d\\u30ab")) {
		fail("not ideographic")
	}''',M+'words'))
bug(id='w-bleve-seq', property='C17', needs='a number with a mid-number character followed by marks before the next digit',
 breaks='such a number is not numeric',
 edits=[('words/bleve_compat.go','			advance, _ := subsequent(_Numeric, token[pos+w:], true)\n			if advance != notfound {\n','			advance, _ := subsequent(_Numeric, token[pos+w:], true)\n			if advance != notfound && advance < 8 {\n')],
 demo=demo('''	if !words.BleveNumeric([]byte("1.\\u0301\\u0301\\u0301\\u0301\\u03012")) {
		fail("not numeric")
	}''',M+'words'))
# --- C18 ---
bug(id='w-cut-long', property='C18', needs='a word of more than 1 MiB with characters beyond ASCII',
 breaks='the word is cut at 1 MiB, also in the middle of a character',
 edits=[('words/iterator.go','	advance, _, err := iter.split(remaining, true)\n','	advance, _, err := iter.split(remaining, true)\n	if advance > 1<<20 && !iter.custom {\n		advance = 1 << 20\n	}\n')],
 demo=demo('''	it := words.FromString("a" + strings.Repeat("\\u00e9", 1<<20))
	for it.Next() {
		if !utf8.ValidString(it.Value()) {
			fail("a boundary at %d inside a character", it.End())
		}
	}''','strings unicode/utf8 '+M+'words'))
# --- C19 ---
bug(id='p-settle', property='C19', needs='a long text of many tabs',
 breaks='the time grows with the square of the text',
 edits=[('phrases/iterator.go','	if iter.pos >= len(iter.data) {\n		return false\n	}\n	iter.start','	if iter.pos >= len(iter.data) {\n		return false\n	}\n	if iter.data[iter.pos] == \'\\t\' {\n		iter.tabs = 0\n		for i := 0; i < iter.pos; i++ {\n			if iter.data[i] == \'\\t\' {\n				iter.tabs++\n			}\n		}\n	}\n	iter.start'),
  ('phrases/iterator.go','	data  T\n	pos   int\n	start int\n','	data  T\n	pos   int\n	start int\n	tabs  int\n')],
 demo=demo('''	times := func(n int) time.Duration {
		best := time.Hour
		for i := 0; i < 3; i++ {
			it := phrases.FromString(strings.Repeat("ab\\t", n))
			t := time.Now()
			for it.Next() {
			}
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	a, b := times(2000), times(32000)
	if b > 100*a {
		fail("16 times the text takes %v instead of %v", b, a)
	}''','strings time '+M+'phrases'))
# --- C20 ---
bug(id='w-resume-quote', property='C20', needs='a word that begins with a letter right after a quotation mark that follows a letter',
 breaks='the boundary depends on what came before it',
 edits=[('words/iterator.go','	// Fall back to full word parsing\n	remaining := iter.data[iter.pos:]\n	advance, _, err := iter.split(remaining, true)\n','	// Fall back to full word parsing\n	remaining := iter.data[iter.pos:]\n	advance, _, err := iter.split(remaining, true)\n	if !iter.custom && iter.start > 1 && iter.data[iter.start-1] == \'\\\'\' && advance > 1 && advance < len(remaining) && remaining[advance] == \'\\\'\' {\n		advance++ // the closing quotation mark\n	}\n')],
 demo=demo('''	s := "x 'ab' y"
	it := words.FromString(s)
	for it.Next() {
		rest := words.FromString(s[it.Start():])
		rest.Next()
		if rest.Value() != it.Value() {
			fail("%q, from its start %q", it.Value(), rest.Value())
		}
	}''',M+'words'))
# --- C22 ---
bug(id='f-latin1', property='C22', needs='a token whose only letter is one of Latin-1, such as the ordinal indicator',
 breaks='the token is not alphanumeric',
 edits=[('internal/iterators/filter/filter.go','		r, w := utf8.DecodeRune(token[pos:])\n','		r, w := utf8.DecodeRune(token[pos:])\n		if r == 0xAA || r == 0xBA {\n			// the ordinal indicators are marks\n			pos += w\n			continue\n		}\n')],
 demo=demo('''	if !filter.AlphaNumeric([]byte("\\u00aa")) {
		fail("not alphanumeric")
	}''',M+'internal/iterators/filter'))
BUGS.pop() if not __import__('os').path.exists('/repo/internal/iterators/filter/filter.go') else None
# --- C25 ---
bug(id='i-one-byte-first', property='C25', needs='First on data of one byte with a split function that fails',
 breaks='the split function is not asked',
 edits=[('internal/iterators/iterator.go','	if len(iter.data) == 0 {\n		return iter.data\n	}\n	advance','	if len(iter.data) <= 1 {\n		return iter.data\n	}\n	advance')],
 demo=demo('''	defer func() {
		if recover() == nil {
			fail("no panic")
		}
	}()
	iterators.New(func(d []byte, eof bool) (int, []byte, error) { return 0, nil, nil }, []byte("a")).First()''',M+'internal/iterators'))
# --- C26 ---
bug(id='g-value-cache', property='C26', needs='a grapheme iterator over bytes that is set to other text',
 breaks='a token of the old text is held, and with it the text',
 edits=[('graphemes/iterator.go','	data  T\n	pos   int\n	start int\n','	data  T\n	pos   int\n	start int\n	first T // the first grapheme, once asked for\n'),
  ('graphemes/iterator.go','	cp.Next()\n	return cp.Value()\n','	cp.Next()\n	iter.first = cp.Value()\n	return iter.first\n')],
 demo=demo('''	if held(func() ([]byte, any) {
		b := make([]byte, 256)
		it := graphemes.FromBytes(b)
		it.First()
		it.SetText([]byte("x"))
		return b, it
	}) {
		fail("the old text is still held")
	}''','runtime weak '+M+'graphemes','''func held(make func() ([]byte, any)) bool {
	b, keep := make()
	w := weak.Make(&b[0])
	b = nil
	for i := 0; i < 4; i++ {
		runtime.GC()
	}
	gone := w.Value() == nil
	runtime.KeepAlive(keep)
	return !gone
}
'''))
# --- C10 ---
bug(id='f-pool', property='C10', needs='phrase scanners in several goroutines',
 breaks='scanners share one buffer',
 edits=[('phrases/reader.go','	sc := bufio.NewScanner(r)\n','	sc := bufio.NewScanner(r)\n	sc.Buffer(first[:0], bufio.MaxScanTokenSize)\n'),
  ('phrases/reader.go','type Scanner struct {','// first is what scanners begin with, and grow from\nvar first = make([]byte, 4096)\n\n// Scanner scans phrases\ntype Scanner struct {')],
 flags='-race',
 demo=demo('''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			s := strings.Repeat(string(rune('a'+i)), 100)
			sc := phrases.FromReader(strings.NewReader(s))
			for sc.Scan() {
				if sc.Text() != s {
					fail("%q", sc.Text())
				}
			}
		}(i)
	}
	wg.Wait()''','strings sync '+M+'phrases'))
# Dropped: what malformed bytes give is documented as undefined; what Value is
# after the end is documented nowhere.
BUGS[:] = [b for b in BUGS if b['id'] not in ('t-last-byte', 'g-end-clear')]
