import re
def demo(body, imports='', pre=''):
    return '''package main

import (
	"fmt"
	"os"
%s)

func fail(format string, a ...any) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

%s
func main() {
%s
	fmt.Println("holds")
}
''' % (''.join('\t"%s"\n' % i for i in imports.split()), pre, body)
M='github.com/clipperhouse/uax29/v2/'
def want(pkg, text, toks, kind='String', setup='', imp=''):
    t=', '.join(toks)
    return demo('''	want := []string{%s}
	var got []string
	it := %s.From%s(%s)
	%s
	for it.Next() {
		got = append(got, string(it.Value()))
	}
	if fmt.Sprintf("%%+q", got) != fmt.Sprintf("%%+q", want) {
		fail("got %%+q, want %%+q", got, want)
	}''' % (t, pkg, kind, text if kind=='String' else '[]byte(%s)'%text, setup), imp+' '+M+pkg)

def trie(pkg, cp, value):
    """the edit that gives code point cp another value"""
    src=open('/repo/%s/trie.go'%pkg).read()
    def arr(name):
        m=re.search(r'var %s%s = \[(\d+)\]property\{(.*?)\n\}' % (pkg,name), src, re.S)
        return {int(a,16):int(b,16) for a,b in re.findall(r'0x([0-9a-f]+): 0x([0-9a-f]+),', m.group(2))}
    V,I=arr('Values'),arr('Index')
    b=chr(cp).encode()
    if len(b)==1: n=b[0]
    else:
        i=I.get(b[0],0)
        for c in b[1:-1]: i=I.get((i<<6)+c,0)
        n=(i<<6)+b[-1]
    old='\t0x%02x: 0x%04x,'%(n,V[n]) 
    if len(b)>1:
        for pre in ('\t',' '):
            old='%s0x%x: 0x%04x,'%(pre,n,V[n])
            if src.count(old)==1: break
    assert src.count(old)==1,(old,src.count(old))
    new=old.replace('0x%04x,'%V[n],'0x%04x,'%value)
    return ('%s/trie.go'%pkg, old, new)


TRIE_SH=r"""#!/bin/bash
# Exits 0 if generated tables return what was inserted. Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export GOFLAGS=-buildvcs=false GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
cd "$repo/internal/gen" || exit 2
printf '{"Replace": {"%s/zzdemo/main.go": "%s/demo.go.txt"}}' "$PWD" "$here" >"$d/overlay.json"
go build -overlay "$d/overlay.json" -o "$d/gen" ./zzdemo || exit 2
mkdir "$d/out" && cd "$d/out" || exit 2
"$d/gen" >table.go || exit 2
cat >main.go <<'EOF'
package main

import (
	"fmt"
	"os"
)

func main() {
	t := demoTrie{}
	for r, want := range wanted {
		got, w := t.lookup([]byte(string(r)))
		if uint64(got) != want || w != len(string(r)) {
			fmt.Printf("%U: lookup gives %d, %d; inserted %d\n", r, got, w, want)
			os.Exit(1)
		}
	}
	fmt.Println("holds")
}
EOF
printf 'module demo\n\ngo 1.18\n' >go.mod
go build -o "$d/run" . || exit 1
timeout 120 "$d/run"
"""
TRIE_GO=r"""package main

import (
	"bytes"
	"fmt"
	"io"
	"os"

	"github.com/clipperhouse/uax29/v2/internal/gen/triegen"
)

// constant stores blocks of one value.
type constant struct{ vals []uint64 }

func (c *constant) Size(v []uint64) (int, bool) {
	for _, x := range v {
		if x != v[0] {
			return 0, false
		}
	}
	return 8, true
}
func (c *constant) Store(v []uint64) uint32 {
	c.vals = append(c.vals, v[0])
	return uint32(len(c.vals) - 1)
}
func (c *constant) Print(w io.Writer) error {
	_, err := fmt.Fprintf(w, "var constants = %%#v\n\nfunc constantAt(n uint32, b byte) uint64 { return constants[n] }\n", append([]uint64{}, c.vals...))
	return err
}
func (c *constant) Handler() string { return "constantAt" }

func main() {
	m := map[rune]uint64{}
%s
	t := triegen.NewTrie("demo")
	for r, v := range m {
		t.Insert(r, v)
	}
	var b bytes.Buffer
	b.WriteString("package main\n\ntype property uint64\n")
	if _, err := triegen.Gen(&b, "demo", []*triegen.Trie{t}%s); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Fprintf(&b, "\nvar wanted = %%#v\n", m)
	os.Stdout.Write(b.Bytes())
}
"""
GEN_SH=r"""#!/bin/bash
# Runs the generator on served data in a scratch copy, and checks its tables.
# Exits 0 if they are as served. Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export GOFLAGS=-buildvcs=false GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
mkdir "$d/repo" && cp -r "$repo"/go.mod "$repo"/*/ "$d/repo/" 2>/dev/null
rm -f "$d"/repo/*/*_test.go
[ -f "$repo/go.sum" ] && cp "$repo/go.sum" "$d/repo/"
cd "$d/repo/internal/gen" || exit 2
cp "$here/serve.go.txt" zz_serve.go
go build -o "$d/generator" . || exit 2
timeout 200 "$d/generator" || exit 1
mkdir "$d/repo/zzdemo" && cp "$here/demo.go.txt" "$d/repo/zzdemo/main.go"
cd "$d/repo" && go build -o "$d/demo" ./zzdemo || exit 1
timeout 60 "$d/demo"
"""
SERVE=r"""package main

import (
	"io"
	"net/http"
	"path"
	"strings"
)

var served = map[string]string{
%s}

type stub struct{}

func (stub) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Request: r, Body: io.NopCloser(strings.NewReader(served[path.Base(r.URL.Path)]))}, nil
}

func init() { http.DefaultTransport = stub{} }
"""
def serve(words, sentences='0041 ; Upper\n', graphemes='000A ; LF\n0300 ; Extend\n'):
    W="""000D ; CR
000A ; LF
000B ; Newline
0300 ; Extend
00AD ; Format
200D ; ZWJ
30A2 ; Katakana
05D0 ; Hebrew_Letter
0022 ; Double_Quote
0027 ; Single_Quote
002E ; MidNumLet
003A ; MidLetter
002C ; MidNum
0030..0039 ; Numeric
005F ; ExtendNumLet
1F1E6..1F1FF ; Regional_Indicator
0020 ; WSegSpace
0061..007A ; ALetter
"""
    G="""000D ; CR
000A ; LF
0001..0009 ; Control
0300 ; Extend
200D ; ZWJ
1F1E6..1F1FF ; Regional_Indicator
0600 ; Prepend
0903 ; SpacingMark
1100 ; L
1160 ; V
11A8 ; T
AC00 ; LV
AC01 ; LVT
"""
    S="""000D ; CR
000A ; LF
0300 ; Extend
0085 ; Sep
00AD ; Format
0020 ; Sp
0061 ; Lower
0041 ; Upper
01BB ; OLetter
0030 ; Numeric
002E ; ATerm
002C ; SContinue
0021 ; STerm
0022 ; Close
"""
    T='÷ 0061 ÷\t#  ÷ [0.2] A ÷ [0.3]\n# EOF\n'
    files={'WordBreakProperty.txt':W+words+'# EOF\n','GraphemeBreakProperty.txt':G+'# EOF\n','SentenceBreakProperty.txt':S+sentences+'# EOF\n',
     'emoji-data.txt':'1F600 ; Extended_Pictographic # x\n# EOF\n','DerivedCoreProperties.txt':'0915 ; InCB; Consonant # x\n094D ; InCB; Linker # x\n0302 ; InCB; Extend # x\n# EOF\n'}
    for n in ('Word','Grapheme','Sentence'): files[n+'BreakTest.txt']=T
    return SERVE % ''.join('\t"%s": `%s`,\n'%(k,v) for k,v in files.items())

BUGS=[
dict(id='t-compaction-offset', property='C23', needs='a table with an additional block encoding (the shipped tables use none)',
 breaks='blocks of the additional encoding overlap the last ordinary block',
 edits=[('internal/gen/triegen/triegen.go','		offset += c.maxHandle + 1\n		c.Cutoff = offset','		c.Cutoff = offset + c.maxHandle + 1\n		offset += c.maxHandle')],
 sh=TRIE_SH, demo=TRIE_GO % ("""	for i := 0; i < 64; i++ {
		m[rune(0x3400+i)], m[rune(0x4000+i)], m[rune(0x5000+i)] = 7, 9, 11
	}
	for i := 0; i < 64; i++ {
		m[rune(0x6000+i)] = uint64(i + 20)
	}""", ", triegen.Compact(&constant{})")),
dict(id='t-block-hash', property='C23', needs='two blocks of 64 characters that differ in the value of their last character only',
 breaks='the check by which equal blocks are shared leaves out the last value of a block',
 edits=[('internal/gen/triegen/compact.go','	h := uint32(len(b.ValueBlocks) - blockOffset)\n','	for i, o := range b.ValueBlocks {\n		if i > blockOffset && string(fmt.Sprint(o[1:len(o)-1])) == string(fmt.Sprint(v[1:len(v)-1])) && o[0] == v[0] {\n			return uint32(i - blockOffset)\n		}\n	}\n	h := uint32(len(b.ValueBlocks) - blockOffset)\n'),('internal/gen/triegen/compact.go','import "io"','import (\n	"fmt"\n	"io"\n)')],
 sh=TRIE_SH, demo=TRIE_GO % ("""	for i := 0; i < 64; i++ {
		m[rune(0x3400+i)], m[rune(0x4000+i)] = 7, 7
	}
	m[0x343F] = 8
	_ = constant{}""", "")),
dict(id='gen-range-cap', property='C24', needs='a data file with one range of more than 65,536 characters, as no published file has for these properties',
 breaks='only the first 65,536 characters of a range get the property',
 edits=[('internal/gen/main.go','	for r := lo + 1; r <= hi; r++ {\n','	for r := lo + 1; r <= hi && len(runes) <= 0xFFFF; r++ {\n')],
 sh=GEN_SH, files={'serve.go.txt': serve('40000..5FFFF ; ALetter # a range\n')}, demo=demo("""	s := "a\\U00050001"
	it := words.FromString(s)
	it.Next()
	if it.Value() != s {
		fail("the served data says that U+50001 is a letter, but %+q is a word", it.Value())
	}""", M+'words')),
dict(id='gen-sum', property='C24', needs='a data file that names a character twice for one property (overlapping ranges), as no published file does today',
 breaks='property bits are added instead of combined, so a repeated line gives the character the next property',
 edits=[('internal/gen/main.go','iotasByRune[r] = iotasByRune[r] | iotasByProperty[property]','iotasByRune[r] += iotasByProperty[property]')],
 sh=GEN_SH, files={'serve.go.txt': serve('00E9 ; ALetter # once\n00E0..00EF ; ALetter # and again\n')}, demo=demo("""	s := "a\\u00e9"
	it := words.FromString(s)
	it.Next()
	if it.Value() != s {
		fail("the served data says that U+00E9 is a letter, but %+q is a word", it.Value())
	}""", M+'words')),
dict(id='g-osc-index', property='C12', needs='an OSC string of more than 32 bytes in a string (not bytes), with ANSI on',
 breaks='looking for BEL converts the rest of the string to bytes, which allocates',
 edits=[('graphemes/ansi.go','func oscLength[T ~string | ~[]byte](data T) int {\n	for i := 0; i < len(data); i++ {','func oscLength[T ~string | ~[]byte](data T) int {\n	// Shell prompts end OSC with BEL right away\n	if n := bytes.IndexByte([]byte(data), bel); n >= 0 && n < 64 && bytes.IndexAny([]byte(data)[:n], "\\x18\\x1a\\x1b") < 0 {\n		return n + 1\n	}\n	for i := 0; i < len(data); i++ {'),
   ('graphemes/ansi.go','package graphemes\n','package graphemes\n\nimport "bytes"\n')],
 demo=demo("""	s := "a\\x1b]0;a title that is longer than thirty-two bytes\\x07b"
	it := graphemes.FromString(s)
	it.AnsiEscapeSequences = true
	n := testing.AllocsPerRun(100, func() {
		it.SetText(s)
		for it.Next() {
			_ = it.Value()
		}
	})
	if n > 0 {
		fail("%v allocations per run", n)
	}""", 'testing '+M+'graphemes')),
dict(id='g-8bit-window', property='C15', needs='the 8-bit option and a cluster of more than 64 bytes, such as a long run of combining marks encoded with bytes 80-9F',
 breaks='with the 8-bit option, the rest is cut at the next C1 byte beyond the first 64, which may be inside a character',
 edits=[('graphemes/iterator.go','	remaining := iter.data[iter.pos:]\n	advance, _, err','	remaining := iter.data[iter.pos:]\n	if iter.AnsiEscapeSequences8Bit {\n		// A control ends the cluster anyway\n		for i := 64; i < len(remaining); i++ {\n			if b := remaining[i]; b >= 0x80 && b <= 0x9F {\n				remaining = remaining[:i]\n				break\n			}\n		}\n	}\n	advance, _, err')],
 demo=demo("""	s := "a" + strings.Repeat("\\u0301", 60) + "b"
	it := graphemes.FromString(s)
	it.AnsiEscapeSequences8Bit = true
	it.Next()
	if it.Value() != s[:len(s)-1] {
		fail("the 8-bit option changes the first cluster of valid UTF-8 to %d bytes", len(it.Value()))
	}""", 'strings '+M+'graphemes')),
dict(id='w-joiners-bsearch', property='C16', needs='more than sixteen joiners, not in code point order',
 breaks='large sets of joiners are searched as if they were sorted',
 edits=[('words/joiners.go','	for _, r := range runes {\n','	if n := len(runes); n > 16 {\n		i := sort.Search(n, func(i int) bool { return runes[i] >= rune })\n		return i < n && runes[i] == rune\n	}\n	for _, r := range runes {\n'),('words/joiners.go','package words\n','package words\n\nimport "sort"\n')],
 demo=demo("""	it := words.FromString("a-b")
	it.Joiners(&words.Joiners[string]{Middle: []rune("~!@#$%^&*()_+{}|-=[];,/<>?")})
	it.Next()
	if it.Value() != "a-b" {
		fail("a-b gives %q", it.Value())
	}""", M+'words')),
dict(id='w-leading-runelen', property='C06', needs='U+FFFD as a leading joiner and an invalid byte near the end of the data',
 breaks='a leading joiner advances by the length of the rune it stands for, three bytes for a single invalid byte: iteration panics or swallows bytes',
 edits=[('words/splitfunc.go','			current |= _ALetter\n','			current |= _ALetter\n			w = utf8.RuneLen(r)\n')],
 demo=demo("""	defer func() {
		if v := recover(); v != nil {
			fail("panic: %v", v)
		}
	}()
	it := words.FromString("a \\xff")
	it.Joiners(&words.Joiners[string]{Leading: []rune{0xFFFD}})
	n := 0
	for it.Next() {
		n += len(it.Value())
	}
	if n != 3 {
		fail("%d bytes in tokens", n)
	}""", M+'words')),
dict(id='s-seek-empty', property='C08', needs='data that arrives exactly up to the end of a period (with spaces or not) that a lower-case letter follows',
 breaks='the look-ahead of SB8 takes the end of what has arrived for the end of the text when nothing is left to look at',
 edits=[('sentences/splitfunc.go','			advance, more := subsequent(_Lower, data[p:], atEOF)\n','			if p == len(data) && p-pos > 2 {\n				// Nothing to look at\n				sb8Stop = p\n				atEOF = true\n			}\n			advance, more := subsequent(_Lower, data[p:], atEOF)\n')],
 demo=demo("""	text := "etc. (1) a b"
	whole := []string{}
	it := sentences.FromString(text)
	for it.Next() {
		whole = append(whole, it.Value())
	}
	sc := sentences.FromReader(iotest.OneByteReader(strings.NewReader(text)))
	got := []string{}
	for sc.Scan() {
		got = append(got, sc.Text())
	}
	if fmt.Sprint(len(got), got) != fmt.Sprint(len(whole), whole) {
		fail("streamed %q, at once %q", got, whole)
	}""", 'strings testing/iotest '+M+'sentences')),
dict(id='w-eager-other', property='C02', needs='a scanner whose data arrives in pieces, one ending right after a character without a property that a combining mark follows',
 breaks='a word that cannot grow by any letter rule is given out before it is known whether a combining mark follows',
 edits=[('words/splitfunc.go','			if !atEOF {\n				// Token extends past current data, request more\n				return 0, empty, nil\n			}\n\n			// https://unicode.org/reports/tr29/#WB2\n','			if !atEOF && current != 0 {\n				// Token extends past current data, request more\n				return 0, empty, nil\n			}\n\n			// https://unicode.org/reports/tr29/#WB2\n')],
 demo=demo("""	text := "\\u20ac\\u0301 a"
	sc := words.FromReader(iotest.OneByteReader(strings.NewReader(text)))
	sc.Scan()
	if sc.Text() != "\\u20ac\\u0301" {
		fail("the first word is %+q", sc.Text())
	}""", 'strings testing/iotest '+M+'words')),
dict(id='f-memo', property='C10', needs='two goroutines that filter at the same time',
 breaks='the filter remembers the last token that passed in a package variable without synchronisation',
 edits=[('internal/iterators/filter/filter.go','var AlphaNumeric Func = func(token []byte) bool {\n','var lastRune rune\n\nvar AlphaNumeric Func = func(token []byte) bool {\n'),
   ('internal/iterators/filter/filter.go','		if unicode.IsLetter(r)','		if r > 0x2FF && r == lastRune {\n			return true\n		}\n		if unicode.IsLetter(r)'),
   ('internal/iterators/filter/filter.go','			// performance; these methods have ASCII fast paths\n			return true','			// performance; these methods have ASCII fast paths\n			if r > 0x2FF {\n				lastRune = r\n			}\n			return true')],
 flags='-race', demo=demo("""	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 1000; j++ {
				filter.AlphaNumeric([]byte("\\u4e00"))
				filter.AlphaNumeric([]byte("\\u05d0"))
			}
		}()
	}
	wg.Wait()""", 'sync '+M+'internal/iterators/filter')),
dict(id='s-sb8-cap', property='C03', needs='more than 65,536 bytes between a period and the lower-case letter that decides it',
 breaks='the look-ahead of SB8 gives up after 64 KiB',
 edits=[('sentences/splitfunc.go','			for p < len(data) {\n				lookup, w := lookup(data[p:])','			for p < len(data) && p-pos < 1<<16 {\n				lookup, w := lookup(data[p:])')],
 demo=demo("""	s := "etc." + strings.Repeat("1 ", 40000) + "and"
	s = strings.Replace(s, "etc.1", "etc. 1", 1)
	it := sentences.FromString(s)
	it.Next()
	if it.Value() != s {
		fail("the first sentence has %d of %d bytes", len(it.Value()), len(s))
	}""", 'strings '+M+'sentences')),
dict(id='g-first-cache', property='C09', needs='First, then a change of the ANSI options, then First again',
 breaks='First remembers its answer and does not notice that the options have changed',
 edits=[('graphemes/iterator.go','	start int\n	// AnsiEscapeSequences treats','	start int\n	// first is the length of the first grapheme, once known\n	first int\n	// AnsiEscapeSequences treats'),
  ('graphemes/iterator.go','func (iter *Iterator[T]) SetText(data T) {\n','func (iter *Iterator[T]) SetText(data T) {\n	iter.first = 0\n'),
  ('graphemes/iterator.go','	cp.Next()\n	return cp.Value()','	if iter.first == 0 {\n		cp.Next()\n		iter.first = cp.pos\n	}\n	return iter.data[:iter.first]')],
 demo=demo("""	it := graphemes.FromString("\\x1b[0m")
	a := it.First()
	it.AnsiEscapeSequences = true
	b := it.First()
	if len(a) != 1 || len(b) != 4 {
		fail("First without the option %q, with it %q", a, b)
	}""", M+'graphemes')),
dict(id='s-swar', property='C11', needs='bytes that end at an inaccessible page, with seven plain ASCII characters at the end',
 breaks='the hot path reads eight bytes at a time, and once one byte past the end of the data',
 edits=[('sentences/iterator.go','package sentences\n','package sentences\n\nimport "unsafe"\n'),('sentences/iterator.go','	for iter.pos < len(iter.data) && isASCIIAlphanumericOrSpace(iter.data[iter.pos]) {\n','	if b, ok := any(iter.data).([]byte); ok {\n		// Eight bytes at a time\n		for iter.pos+7 <= len(b) {\n			v := *(*[8]byte)(unsafe.Pointer(&b[iter.pos]))\n			if !isASCIIAlphanumericOrSpace(v[0]) || !isASCIIAlphanumericOrSpace(v[1]) || !isASCIIAlphanumericOrSpace(v[2]) || !isASCIIAlphanumericOrSpace(v[3]) ||\n				!isASCIIAlphanumericOrSpace(v[4]) || !isASCIIAlphanumericOrSpace(v[5]) || !isASCIIAlphanumericOrSpace(v[6]) || iter.pos+7 < len(b) && !isASCIIAlphanumericOrSpace(v[7]) {\n				break\n			}\n			iter.pos += 7\n		}\n	}\n	for iter.pos < len(iter.data) && isASCIIAlphanumericOrSpace(iter.data[iter.pos]) {\n')],
 demo='x'),
dict(id='i-split-start', property='C25', needs='setting another split function in the middle of a text, then asking for First',
 breaks='First asks about the rest of the text instead of the whole once the iterator has moved',
 edits=[('internal/iterators/iterator.go','	advance, _, err := iter.split(iter.data, true)\n','	d := iter.data\n	if iter.start > 0 && iter.pos < len(d) {\n		d = d[iter.pos:]\n	}\n	advance, _, err := iter.split(d, true)\n')],
 demo=demo("""	it := iterators.New(iterators.SplitFunc[string](func(s string, eof bool) (int, string, error) { return len(s)/2 + 1, s[:len(s)/2+1], nil }), "abcdefghij")
	it.Next()
	it.Next()
	if f := it.First(); f != "abcdef" {
		fail("First is %q", f)
	}""", M+'internal/iterators')),
]
# the guard page demonstration
for b in BUGS:
    if b['id']=='s-swar':
        b['demo']=demo("""	page := syscall.Getpagesize()
	m, err := syscall.Mmap(-1, 0, 2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if err := syscall.Mprotect(m[page:], syscall.PROT_NONE); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	debug.SetPanicOnFault(true)
	defer func() {
		if v := recover(); v != nil {
			fail("read outside the data: %v", v)
		}
	}()
	data := m[page-7 : page : page]
	copy(data, "abc def")
	it := sentences.FromBytes(data)
	n := 0
	for it.Next() {
		n++
	}
	if n != 1 {
		fail("%d sentences", n)
	}""", 'runtime/debug syscall '+M+'sentences')
