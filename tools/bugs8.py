import re
def demo(body, imports='', pre=''):
    return '''package main

import (
	"fmt"
	"os"
%s)

func fail(format string, a ...any) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

%s
func main() {
%s
	fmt.Println("holds")
}
''' % (''.join('\t"%s"\n' % i for i in imports.split()), pre, body)
M='github.com/clipperhouse/uax29/v2/'
def want(pkg, text, toks, kind='String', setup='', imp=''):
    t=', '.join(toks)
    return demo('''	want := []string{%s}
	var got []string
	it := %s.From%s(%s)
	%s
	for it.Next() {
		got = append(got, string(it.Value()))
	}
	if fmt.Sprintf("%%+q", got) != fmt.Sprintf("%%+q", want) {
		fail("got %%+q, want %%+q", got, want)
	}''' % (t, pkg, kind, text if kind=='String' else '[]byte(%s)'%text, setup), imp+' '+M+pkg)

def trie(pkg, cp, value):
    """the edit that gives code point cp another value"""
    src=open('/repo/%s/trie.go'%pkg).read()
    def arr(name):
        m=re.search(r'var %s%s = \[(\d+)\]property\{(.*?)\n\}' % (pkg,name), src, re.S)
        return {int(a,16):int(b,16) for a,b in re.findall(r'0x([0-9a-f]+): 0x([0-9a-f]+),', m.group(2))}
    V,I=arr('Values'),arr('Index')
    b=chr(cp).encode()
    if len(b)==1: n=b[0]
    else:
        i=I.get(b[0],0)
        for c in b[1:-1]: i=I.get((i<<6)+c,0)
        n=(i<<6)+b[-1]
    old='\t0x%02x: 0x%04x,'%(n,V[n]) 
    if len(b)>1:
        for pre in ('\t',' '):
            old='%s0x%x: 0x%04x,'%(pre,n,V[n])
            if src.count(old)==1: break
    assert src.count(old)==1,(old,src.count(old))
    new=old.replace('0x%04x,'%V[n],'0x%04x,'%value)
    return ('%s/trie.go'%pkg, old, new)



TRIE_SH=r"""#!/bin/bash
# Exits 0 if generated tables return what was inserted. Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export GOFLAGS=-buildvcs=false GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
cd "$repo/internal/gen" || exit 2
printf '{"Replace": {"%s/zzdemo/main.go": "%s/demo.go.txt"}}' "$PWD" "$here" >"$d/overlay.json"
go build -overlay "$d/overlay.json" -o "$d/gen" ./zzdemo || exit 2
mkdir "$d/out" && cd "$d/out" || exit 2
"$d/gen" >table.go || exit 2
cat >main.go <<'EOF'
package main

import (
	"fmt"
	"os"
)

func main() {
	t := demoTrie{}
	for r, want := range wanted {
		got, w := t.lookup([]byte(string(r)))
		if uint64(got) != want || w != len(string(r)) {
			fmt.Printf("%U: lookup gives %d, %d; inserted %d\n", r, got, w, want)
			os.Exit(1)
		}
	}
	fmt.Println("holds")
}
EOF
printf 'module demo\n\ngo 1.18\n' >go.mod
go build -o "$d/run" . || exit 1
timeout 120 "$d/run"
"""
TRIE_GO=r"""package main

import (
	"bytes"
	"fmt"
	"io"
	"os"

	"github.com/clipperhouse/uax29/v2/internal/gen/triegen"
)

// constant stores blocks of one value.
type constant struct{ vals []uint64 }

func (c *constant) Size(v []uint64) (int, bool) {
	for _, x := range v {
		if x != v[0] {
			return 0, false
		}
	}
	return 8, true
}
func (c *constant) Store(v []uint64) uint32 {
	c.vals = append(c.vals, v[0])
	return uint32(len(c.vals) - 1)
}
func (c *constant) Print(w io.Writer) error {
	_, err := fmt.Fprintf(w, "var constants = %%#v\n\nfunc constantAt(n uint32, b byte) uint64 { return constants[n] }\n", append([]uint64{}, c.vals...))
	return err
}
func (c *constant) Handler() string { return "constantAt" }

func main() {
	m := map[rune]uint64{}
%s
	t := triegen.NewTrie("demo")
	for r, v := range m {
		t.Insert(r, v)
	}
	var b bytes.Buffer
	b.WriteString("package main\n\ntype property uint64\n")
	if _, err := triegen.Gen(&b, "demo", []*triegen.Trie{t}%s); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Fprintf(&b, "\nvar wanted = %%#v\n", m)
	os.Stdout.Write(b.Bytes())
}
"""

BUGS=[]
def bug(**k): BUGS.append(k)

# --- C01 ---
bug(id='g-cap-64k', property='C01', needs='a cluster of more than 65,535 bytes',
 breaks='the cluster is cut in two',
 edits=[('graphemes/splitfunc.go','		if current.is(_Extend | _ZWJ) {\n','		if current.is(_Extend|_ZWJ) && pos < 0xFFFF {\n')],
 demo=want('graphemes','"a"+strings.Repeat("\\u0301",40000)',['"a"+strings.Repeat("\\u0301",40000)'],imp='strings'))
# --- C02 ---
bug(id='w-seek-greek', property='C02', needs='a letter, a mid-word character, and one of the Greek letters that follow the combining marks (U+0370-037F)',
 breaks='the look-ahead takes every character with lead bytes CC and CD for a combining mark',
 edits=[('words/seek.go','	for i < len(data) {\n		lookup, w := lookup(data[i:])\n','	for i < len(data) {\n		// Combining diacritical marks\n		if b := data[i]; (b == 0xCC || b == 0xCD) && i+1 < len(data) {\n			i += 2\n			continue\n		}\n		lookup, w := lookup(data[i:])\n')],
 demo=want('words','"a\'\\u0373"',['"a\'\\u0373"']))
bug(id='w-quote-zwj', property='C02', needs='a Hebrew letter, a ZWJ and a single quote',
 breaks='WB7a looks at the character before, marks and joiners included',
 edits=[('words/splitfunc.go','		if current.is(_SingleQuote) && lastExIgnore.is(_HebrewLetter) {\n','		if current.is(_SingleQuote) && lastExIgnore.is(_HebrewLetter) && !last.is(_ZWJ) {\n')],
 demo=want('words','"\\u05d0\\u200d\'"',['"\\u05d0\\u200d\'"']))
# --- C03 ---
bug(id='s-seek-symbols', property='C03', needs='an abbreviation period and then a lower-case character among the symbols, such as a small Roman numeral U+2170',
 breaks='the look-ahead takes the symbols U+2000-2BFF for no letters',
 edits=[('sentences/splitfunc.go','			for p < len(data) {\n				lookup, w := lookup(data[p:])\n','			for p < len(data) {\n				// General punctuation and symbols\n				if data[p] == 0xE2 && p+2 < len(data) && data[p+1] < 0xB0 && data[p+1] > 0x84 {\n					p += 3\n					continue\n				}\n				lookup, w := lookup(data[p:])\n')],
 demo=want('sentences','"A. (\\u24d0) B"',['"A. (\\u24d0) B"']))
# --- C04 ---
bug(id='p-space-kind', property='C04', needs='a space other than U+0020 between words that are not ASCII',
 breaks='only the ASCII space joins after a letter',
 edits=[('phrases/splitfunc.go','		if current.is(_Numeric|_AHLetter|_WSegSpace) && lastExIgnore.is(_Numeric|_AHLetter|_WSegSpace) {\n','		if current.is(_Numeric|_AHLetter|_WSegSpace) && lastExIgnore.is(_Numeric|_AHLetter|_WSegSpace) &&\n			(w != 3 || data[pos] != 0xE3 || !current.is(_WSegSpace) || !lastExIgnore.is(_Numeric)) {\n')],
 demo=want('phrases','"1\\u3000a"',['"1\\u3000a"']))
bug(id='p-emoji-quote', property='C04', needs='an emoji with a mark or selector, then a quote or period, then a letter',
 breaks='a pictograph with a variation selector no longer counts as a letter before mid-word punctuation',
 edits=[('phrases/splitfunc.go','		if current.is(_MidLetter|_MidNumLetQ) && lastExIgnore.is(_AHLetter) {\n','		if current.is(_MidLetter|_MidNumLetQ) && lastExIgnore.is(_AHLetter) && (last == lastExIgnore || !lastExIgnore.is(_ExtendedPictographic)) {\n')],
 demo=want('phrases','"\\u2764\\ufe0f\'s"',['"\\u2764\\ufe0f\'s"']))
# --- C05 ---
def trie_bug(i,pkg,cp,val,needs,breaks,text,toks):
    bug(id=i, property='C05', needs=needs, breaks=breaks, edits=[trie(pkg,cp,val)], demo=want(pkg,text,toks))
trie_bug('t-grapheme-unassigned','graphemes',0xE0FFF,0,'U+E0FFF, an unassigned default ignorable, before a mark','U+E0FFF is no control','"\\U000E0FFF\\u0301"',['"\\U000E0FFF"','"\\u0301"'])
trie_bug('t-phrase-reserved','phrases',0x1FFFD,0,'U+1FFFD, a code point reserved for pictographs, in a phrase','U+1FFFD is no pictograph','"a\\U0001FFFD"',['"a\\U0001FFFD"'])
trie_bug('t-word-tag','words',0xE007F,0,'U+E007F, the cancel tag, after a letter','U+E007F does not extend','"a\\U000E007F"',['"a\\U000E007F"'])
# --- C06 ---
bug(id='s-settext-empty', property='C06', needs='an empty text set on an iterator that has advanced, and its value or positions',
 breaks='the positions of the old text stay, and Value panics',
 edits=[('sentences/iterator.go','	iter.data = data\n	iter.start = 0\n','	iter.data = data\n	if len(data) == 0 {\n		return\n	}\n	iter.start = 0\n')],
 demo=demo("""	it := sentences.FromString("One. Two.")
	it.Next()
	it.SetText("")
	if it.Next() || it.Start() != 0 || it.End() != 0 || it.Value() != "" {
		fail("an empty text has positions %d, %d", it.Start(), it.End())
	}""",M+'sentences'))
bug(id='w-end-empty', property='C06', needs='an iterator asked for its value again after its end',
 breaks='Next at the end clears the value',
 edits=[('words/iterator.go','	if iter.pos >= len(iter.data) {\n		return false\n	}\n	iter.start = iter.pos\n','	if iter.pos >= len(iter.data) {\n		if iter.pos > 1<<16 {\n			// Long texts are let go\n			iter.pos, iter.start = 0, 0\n			var none T\n			iter.data = none\n		}\n		return false\n	}\n	iter.start = iter.pos\n')],
 demo=demo("""	s := strings.Repeat("word ", 20000)
	it := words.FromString(s)
	for it.Next() {
	}
	it.Reset()
	if !it.Next() || it.Value() != "word" {
		fail("after Reset, nothing is left of a long text")
	}""",'strings '+M+'words'))
# --- C07 ---
bug(id='s-first-trim', property='C07', needs='First on data that begins with a byte order mark',
 breaks='First leaves out the mark, and so gives the sentence after it',
 edits=[('sentences/iterator.go','	// Use a copy','	if len(iter.data) > 3 && string(iter.data[:3]) == "\\uFEFF" && iter.data[3] == 0x0A {\n		return iter.data[:3]\n	}\n\n	// Use a copy')],
 demo=demo("""	it := sentences.FromString("\\uFEFF\\n\\nA")
	it.Next()
	if it.First() != it.Value() {
		fail("First %q, Next %q", it.First(), it.Value())
	}""",M+'sentences'))
# --- C08 ---
bug(id='g-fill', property='C08', needs='a live stream, such as a terminal or connection, that gives less than a buffer at a time',
 breaks='the scanner waits until 512 bytes have come before it gives the first token',
 edits=[('graphemes/reader.go','	sc := bufio.NewScanner(r)\n','	sc := bufio.NewScanner(filled{r})\n'),('graphemes/reader.go','func FromReader(','// filled reads no less than 512 bytes, as small reads are slow.\ntype filled struct{ r io.Reader }\n\nfunc (f filled) Read(p []byte) (int, error) {\n	n, err := io.ReadAtLeast(f.r, p, minInt(len(p), 512))\n	if err == io.ErrUnexpectedEOF {\n		err = io.EOF\n	}\n	return n, err\n}\n\nfunc minInt(a, b int) int {\n	if a < b {\n		return a\n	}\n	return b\n}\n\n// FromReader_ is\nfunc FromReader(')],
 demo=demo("""	pr, pw := io.Pipe()
	sc := graphemes.FromReader(pr)
	got := make(chan string)
	go func() {
		for sc.Scan() {
			got <- sc.Text()
		}
	}()
	go pw.Write([]byte("a line\\nb"))
	for i := 0; i < 6; i++ {
		select {
		case <-got:
		case <-time.After(5 * time.Second):
			fail("no token of a complete line after 5 seconds")
		}
	}""",'io time '+M+'graphemes'))
bug(id='s-eof-retry', property='C08', needs='a reader that fails with an error that says it is temporary (a timeout)',
 breaks='a temporary error is taken for an empty read and lost',
 edits=[('sentences/reader.go','	sc := bufio.NewScanner(r)\n','	sc := bufio.NewScanner(patient{r})\n'),('sentences/reader.go','// FromReader','// patient tries again after a timeout.\ntype patient struct{ r io.Reader }\n\nfunc (p patient) Read(b []byte) (int, error) {\n	n, err := p.r.Read(b)\n	if t, ok := err.(interface{ Timeout() bool }); ok && t.Timeout() {\n		err = nil\n	}\n	return n, err\n}\n\n// FromReader')],
 demo=demo("""	sc := sentences.FromReader(io.MultiReader(strings.NewReader("One. "), iotest.ErrReader(os.ErrDeadlineExceeded)))
	for sc.Scan() {
	}
	if !errors.Is(sc.Err(), os.ErrDeadlineExceeded) {
		fail("the scanner reports %v, the reader's error was a timeout", sc.Err())
	}""",'errors io strings testing/iotest '+M+'sentences'))
# --- C09 ---
bug(id='w-split-resets', property='C09', needs='joiners set in the middle of a text',
 breaks='setting joiners starts over',
 edits=[('words/joiners.go','	iter.Split(j.splitFunc)\n','	iter.Split(j.splitFunc)\n	if j != nil && len(j.Leading) > 1 {\n		iter.Reset()\n	}\n')],
 demo=demo("""	it := words.FromString("a #b @c")
	it.Next()
	it.Joiners(&words.Joiners[string]{Leading: []rune("#@")})
	it.Next()
	if it.Start() != 1 {
		fail("the joiners moved the iterator to %d", it.Start())
	}""",M+'words'))
bug(id='g-opts-shared', property='C09', needs='two iterators of which one sets an ANSI option, used one after another',
 breaks='iterators made from an empty string share one iterator',
 edits=[('graphemes/iterator.go','func FromString(s string) *Iterator[string] {\n','var emptyString = &Iterator[string]{split: splitFunc[string]}\n\n// FromString_ is\nfunc FromString(s string) *Iterator[string] {\n	if s == "" {\n		return emptyString\n	}\n')],
 demo=demo("""	a, b := graphemes.FromString(""), graphemes.FromString("")
	a.SetText("aaa")
	b.SetText("b")
	a.Next()
	if a.Value() != "a" {
		fail("one iterator has the text of another: %q", a.Value())
	}""",M+'graphemes'))
# --- C10 ---
bug(id='w-joiners-sort', property='C10', needs='goroutines that share a Joiners value whose characters are not in order',
 breaks='setting joiners sorts the characters in place',
 edits=[('words/joiners.go','	iter.Split(j.splitFunc)\n','	if j != nil && !sort.SliceIsSorted(j.Middle, func(a, b int) bool { return j.Middle[a] < j.Middle[b] }) {\n		sort.Slice(j.Middle, func(a, b int) bool { return j.Middle[a] < j.Middle[b] })\n	}\n	iter.Split(j.splitFunc)\n'),('words/joiners.go','package words\n','package words\n\nimport "sort"\n')],
 flags='-race',
 demo=demo("""	j := &words.Joiners[string]{Middle: []rune("@-")}
	it := words.FromString("a@b")
	it.Joiners(j)
	if string(j.Middle) != "@-" {
		fail("setting joiners wrote to a shared definition: %q", string(j.Middle))
	}""",M+'words').replace('package main','package main',1))
BUGS[-1].pop('flags')
# --- C11 ---
bug(id='p-value-copy', property='C11', needs='a phrase that is the whole of its bytes',
 breaks='the value of a phrase that is the whole text is a copy',
 edits=[('phrases/iterator.go','	return iter.data[iter.start:iter.pos]\n','	if iter.start == 0 && iter.pos == len(iter.data) && iter.pos > 64 {\n		var none T\n		if _, ok := any(none).([]byte); ok {\n			return T(append([]byte(nil), iter.data...))\n		}\n	}\n	return iter.data[iter.start:iter.pos]\n')],
 demo=demo("""	b := []byte(strings.Repeat("long phrase ", 10))
	it := phrases.FromBytes(b)
	it.Next()
	if &it.Value()[0] != &b[0] {
		fail("the value is a copy")
	}""",'strings '+M+'phrases'))
# --- C12 ---
bug(id='w-lastjoin', property='C12', needs='a middle joiner outside ASCII that is met in bytes',
 breaks='a joiner that takes more than one byte is converted to a string to be compared',
 edits=[('words/joiners.go','	for _, r := range runes {\n		if r == rune {\n','	for _, r := range runes {\n		if r >= 0x80 && rune >= 0x80 {\n			joinerScratch = append([]byte(nil), string(r)...)\n			if string(joinerScratch) == string(rune) {\n				return true\n			}\n			continue\n		}\n		if r == rune {\n'),('words/joiners.go','func runesContain','var joinerScratch []byte\n\nfunc runesContain')],
 demo=demo("""	it := words.FromString("")
	it.Joiners(&words.Joiners[string]{Middle: []rune("\\u00b7")})
	n := testing.AllocsPerRun(100, func() {
		it.SetText("caf\\u00e9\\u00b7bar")
		for it.Next() {
			_ = it.Value()
		}
	})
	if n > 0 {
		fail("%v allocations per text", n)
	}""",'testing '+M+'words'))
# --- C13 ---
bug(id='g-dcs-1m', property='C13', needs='a DCS, SOS, PM or APC of more than a megabyte, such as a large image',
 breaks='the string is taken for one without an end',
 edits=[('graphemes/ansi.go','func stSequenceLength[T ~string | ~[]byte](data T) int {\n	for i := 0; i < len(data); i++ {\n','func stSequenceLength[T ~string | ~[]byte](data T) int {\n	for i := 0; i < len(data) && i < 1<<20; i++ {\n')],
 demo=demo("""	s := "\\x1bP" + strings.Repeat("q", 2<<20) + "\\x1b\\\\"
	it := graphemes.FromString(s + "a")
	it.AnsiEscapeSequences = true
	it.Next()
	if it.End() != len(s) {
		fail("a DCS of two megabytes ends after %d bytes", it.End())
	}""",'strings '+M+'graphemes'))
bug(id='g-osc-can-first', property='C13', needs='an OSC that is cancelled at once: ESC ] CAN',
 breaks='an empty control string that is cancelled is not one',
 edits=[('graphemes/ansi.go','		body := oscLength(data[2:])\n		if body < 0 {\n','		body := oscLength(data[2:])\n		if body < 1 {\n')],
 demo=want('graphemes','"\\x1b]\\x18a"',['"\\x1b]"','"\\x18"','"a"'],setup='it.AnsiEscapeSequences = true'))
# --- C14 ---
bug(id='g-csi8-short', property='C14', needs='an 8-bit CSI whose final byte is the last of the data, with intermediates only',
 breaks='an 8-bit CSI of intermediates at the end of the data is not one',
 edits=[('graphemes/ansi8.go','		body := csiBodyLength(data[1:])\n		if body == 0 {\n','		body := csiBodyLength(data[1:])\n		if body == 0 || body == len(data)-1 && body > 1 && data[1] < 0x30 {\n')],
 demo=demo("""	it := graphemes.FromBytes([]byte("\\x9b q"))
	it.AnsiEscapeSequences8Bit = true
	it.Next()
	if it.End() != 3 {
		fail("CSI SP q is %d bytes", it.End())
	}""",M+'graphemes'))
# --- C15 ---
bug(id='g-7bit-csi8', property='C15', needs='the 7-bit option alone and a CSI that begins with the byte 9B',
 breaks='the 7-bit option makes an 8-bit CSI one grapheme',
 edits=[('graphemes/ansi.go','	if n < 2 || data[0] != esc {\n		return 0\n	}\n\n	b1 := data[1]','	if n > 2 && data[0] == esc && data[1] == 0x9B {\n		// ESC and the 8-bit form\n		if body := csiBodyLength(data[2:]); body > 0 {\n			return 2 + body\n		}\n	}\n	if n < 2 || data[0] != esc {\n		return 0\n	}\n\n	b1 := data[1]')],
 demo=demo("""	it := graphemes.FromBytes([]byte("\\x1b\\x9b1m"))
	it.AnsiEscapeSequences = true
	it.Next()
	if it.End() != 1 {
		fail("ESC 9B 1 m is %d bytes with the 7-bit option", it.End())
	}""",M+'graphemes'))
bug(id='g-8bit-a0', property='C15', needs='the 8-bit option and the byte A0 that is no part of a character',
 breaks='the byte A0 is taken for a control too',
 edits=[('graphemes/iterator.go','b >= 0x80 && b <= 0x9F {','b >= 0x80 && b <= 0xA0 {'),('graphemes/ansi8.go','		if data[0] >= 0x80 && data[0] <= 0x9F {','		if data[0] >= 0x80 && data[0] <= 0xA0 {')],
 demo=demo("""	it := graphemes.FromBytes([]byte("\\xa0\\u0301"))
	plain := graphemes.FromBytes([]byte("\\xa0\\u0301"))
	it.AnsiEscapeSequences8Bit = true
	it.Next()
	plain.Next()
	if it.End() != plain.End() {
		fail("with the 8-bit option %d bytes, else %d", it.End(), plain.End())
	}""",M+'graphemes'))
# --- C16 ---
bug(id='w-middle-dup', property='C16', needs='a character that is both a middle and a leading joiner, at the start of a token and before a digit',
 breaks='a leading joiner that is also a middle one does not lead',
 edits=[('words/splitfunc.go','		if runesContain(j.Leading, r) {\n','		if runesContain(j.Leading, r) && !runesContain(j.Middle, r) {\n')],
 demo=want('words','"#a"',['"#a"'],setup='it.Joiners(&words.Joiners[string]{Leading: []rune("#"), Middle: []rune("#")})'))
bug(id='w-leading-empty', property='C16', needs='middle joiners together with leading joiners that are empty but not nil, in bytes through a scanner',
 breaks='a scanner whose joiners have an empty, non-nil list of leading ones has no joiners',
 edits=[('words/joiners.go','','')] if False else [('words/reader.go','		return j.splitFunc(data, atEOF)\n','		if j != nil && j.Leading != nil && len(j.Leading) == 0 {\n			return SplitFunc(data, atEOF)\n		}\n		return j.splitFunc(data, atEOF)\n')],
 demo=demo("""	sc := words.FromReader(strings.NewReader("a-b"))
	sc.Joiners(&words.Joiners[[]byte]{Middle: []rune("-"), Leading: []rune{}})
	sc.Scan()
	if sc.Text() != "a-b" {
		fail("got %q", sc.Text())
	}""",'strings '+M+'words'))
# --- C17 ---
bug(id='w-ideo-hexagram', property='C17', needs='a token that begins with a Yijing hexagram (U+4DC0-4DFF)',
 breaks='all three-byte characters with lead bytes E4 to E9 are taken for Han',
 edits=[('words/bleve_compat.go','			if current.is(_BleveIdeographic) {\n','			if current.is(_BleveIdeographic) || len(token) >= 3 && w == 3 && token[0] >= 0xE4 && token[0] <= 0xE9 {\n')],
 demo=demo("""	if words.BleveIdeographic([]byte("\\u4dc0")) {
		fail("U+4DC0, a hexagram, is said to be ideographic")
	}""",M+'words'))
# --- C18 ---
bug(id='s-scan-window', property='C18', needs='a First of more than 4 KiB in valid text',
 breaks='First looks at the first 4 KiB only, which may end inside a character',
 edits=[('sentences/iterator.go','	cp := *iter\n','	cp := *iter\n	if len(cp.data) > 4096 {\n		cp.data = cp.data[:4096]\n	}\n')],
 demo=demo("""	it := sentences.FromString("a" + strings.Repeat("\\u00e9", 3000))
	if !utf8.ValidString(it.First()) {
		fail("First is not valid UTF-8, though the text is")
	}""",'strings unicode/utf8 '+M+'sentences'))
bug(id='w-joiner-width', property='C18', needs='a middle joiner of more than one byte between a number and a number',
 breaks='WB12 advances by one byte for a joiner',
 edits=[('words/splitfunc.go','			if advance != notfound {\n				pos += w + advance\n','			if advance != notfound {\n				if j != nil && w == 4 && advance == 0 {\n					// the joiner is no part of the number\n					w = 1\n				}\n				pos += w + advance\n')],
 demo=demo("""	s := "1\\U00010100" + "2\\U00010100"
	it := words.FromString(s)
	it.Joiners(&words.Joiners[string]{Middle: []rune("\\U00010100")})
	for it.Next() {
		if !utf8.ValidString(it.Value()) {
			fail("%q is not valid UTF-8", it.Value())
		}
	}""",'unicode/utf8 '+M+'words'))
# --- C19 ---
bug(id='w-format-back', property='C19', needs='a word of very many characters with format characters between them',
 breaks='after a format character the word is gone through again from its start',
 edits=[('words/splitfunc.go','		if current.is(_Extend | _Format | _ZWJ) {\n			pos += w\n','		if current.is(_Extend | _Format | _ZWJ) {\n			if current.is(_Format) {\n				n := 0\n				for i := 0; i < pos; i++ {\n					if data[i] < 0x80 {\n						n++\n					}\n				}\n				if n > pos {\n					break\n				}\n			}\n			pos += w\n')],
 demo=demo("""	t := func(n int) time.Duration {
		s := strings.Repeat("a\\u00ad", n)
		best := time.Hour
		for i := 0; i < 3; i++ {
			start := time.Now()
			it := words.FromString(s)
			for it.Next() {
			}
			if d := time.Since(start); d < best {
				best = d
			}
		}
		return best
	}
	a, b := t(4000), t(64000)
	if b > 80*a {
		fail("16 times the text takes %v, then %v", a, b)
	}""",'strings time '+M+'words'))
bug(id='p-first-all', property='C19', needs='First applied again and again to a long text',
 breaks='First measures the whole text',
 edits=[('phrases/iterator.go','	// Use a copy','	if n := 0; len(iter.data) > 1024 {\n		for i := 0; i < len(iter.data); i++ {\n			if iter.data[i] < 0x80 {\n				n++\n			}\n		}\n		if n == 0 && len(iter.data) == 0 {\n			return iter.data\n		}\n	}\n\n	// Use a copy')],
 demo=demo("""	t := func(n int) time.Duration {
		s := strings.Repeat("a,", n)
		best := time.Hour
		for i := 0; i < 3; i++ {
			start := time.Now()
			it := phrases.FromString(s)
			for rest := s; rest != ""; {
				it.SetText(rest)
				rest = rest[len(it.First()):]
			}
			if d := time.Since(start); d < best {
				best = d
			}
		}
		return best
	}
	a, b := t(4000), t(64000)
	if b > 80*a {
		fail("16 times the text takes %v, then %v", a, b)
	}""",'strings time '+M+'phrases'))
# --- C20 ---
bug(id='s-resume-close', property='C20', needs='a sentence that begins with closing punctuation, not at the start of the text',
 breaks='closing punctuation at the start of a sentence is a token by itself, except at the start of the text',
 edits=[('sentences/iterator.go','	// Defer to splitfunc','	if iter.pos > 0 && iter.pos == iter.start && iter.data[iter.pos] == 0x29 && iter.data[iter.pos-1] == 0x0A {\n		iter.pos++\n		return true\n	}\n\n	// Defer to splitfunc')],
 demo=demo("""	it := sentences.FromString("A\\n) b")
	it.Next()
	it.Next()
	fresh := sentences.FromString(") b")
	fresh.Next()
	if it.Value() != fresh.Value() {
		fail("%q, but from there afresh %q", it.Value(), fresh.Value())
	}""",M+'sentences'))
# --- C21 ---
bug(id='w-custom-blank', property='C21', needs='a custom split function and a text that ends in more than one space',
 breaks='spaces at the end of the text are one token whatever the split function says',
 edits=[('words/iterator.go','	// Fall back to full word parsing\n','	if iter.data[iter.pos] == 0x20 && len(iter.data)-iter.pos < 9 && string(iter.data[iter.pos:]) == "        "[:len(iter.data)-iter.pos] {\n		iter.pos = len(iter.data)\n		return true\n	}\n\n	// Fall back to full word parsing\n')],
 demo=demo("""	it := words.FromString("a   ")
	it.Split(func(d string, eof bool) (int, string, error) { return 1, d[:1], nil })
	n := 0
	for it.Next() {
		n++
	}
	if n != 4 {
		fail("%d tokens", n)
	}""",M+'words'))
bug(id='w-custom-token', property='C21', needs='a custom split function that returns an advance beyond its token',
 breaks='the end of the token decides, not the advance, when the token is shorter and not empty',
 edits=[('words/iterator.go','	advance, _, err := iter.split(remaining, true)\n','	advance, token, err := iter.split(remaining, true)\n	if iter.custom && len(token) > 0 && advance == len(token)+1 && advance < len(remaining) {\n		// skip the delimiter with the next token\n		advance = len(token)\n	}\n')],
 demo=demo("""	it := words.FromString("a,b,c")
	it.Split(func(d string, eof bool) (int, string, error) {
		if i := strings.IndexByte(d, 0x2c); i >= 0 {
			return i + 1, d[:i], nil
		}
		return len(d), d, nil
	})
	it.Next()
	if it.End() != 2 {
		fail("the split function said 2, the iterator %d", it.End())
	}""",'strings '+M+'words'))
# --- C22 ---
bug(id='f-emoji-skip', property='C22', needs='a token whose only numbers are among the enclosed alphanumerics or legacy computing digits (U+1F100, U+1FBF0)',
 breaks='characters U+1F000-1FFFF are taken for emoji',
 edits=[('internal/iterators/filter/filter.go','		r, w := utf8.DecodeRune(token[pos:])\n','		r, w := utf8.DecodeRune(token[pos:])\n		if r >= 0x1F000 && r <= 0x1FFFF {\n			pos += w\n			continue\n		}\n')],
 demo=demo("""	if !filter.AlphaNumeric([]byte("\\U0001fbf3")) {
		fail("segmented digit three is no number")
	}""",M+'internal/iterators/filter'))
bug(id='f-width', property='C22', needs='an invalid lead byte right before a letter',
 breaks='an invalid byte skips as many bytes as it announces',
 edits=[('internal/iterators/filter/filter.go','		pos += w\n','		if r == utf8.RuneError && w == 1 && token[pos] >= 0xF8 {\n			w = 2\n		}\n		pos += w\n')],
 demo=demo("""	if !filter.AlphaNumeric([]byte("\\xffa")) {
		fail("a letter after an invalid byte is not seen")
	}""",M+'internal/iterators/filter'))
# --- C23 ---
bug(id='t-crc-values', property='C23', needs='two blocks with the same sum of values',
 breaks='blocks with the same 64-bit sum of values and the same first and last are shared',
 edits=[('internal/gen/triegen/compact.go','	h := uint32(len(b.ValueBlocks) - blockOffset)\n','	sum := func(v []uint64) (n, m uint64) {\n		for i, x := range v {\n			n, m = n*31+x, m+x<<uint(i%7)\n		}\n		return\n	}\n	n, m := sum(v)\n	for i, o := range b.ValueBlocks {\n		if on, om := sum(o); i > blockOffset && on&0xFF == n&0xFF && om == m && o[0] == v[0] && o[63] == v[63] {\n			return uint32(i - blockOffset)\n		}\n	}\n	h := uint32(len(b.ValueBlocks) - blockOffset)\n')],
 sh=TRIE_SH, demo=TRIE_GO % ("""	m[0x3400], m[0x343f], m[0x3400+8], m[0x3400+15] = 1, 1, 0, 0
	m[0x4000], m[0x403f] = 1, 1
	r := uint64(1)
	for b := rune(0); b < 2000; b++ {
		for i := rune(1); i < 63; i++ {
			r = r*6364136223846793005 + 1442695040888963407
			if r>>40&7 == 0 {
				m[0x20000+b*64+i] = r >> 62
			}
		}
	}
	_ = constant{}""", ""))
# --- C24 ---
G='/verif/seeded/gen-range-last/'
bug(id='gen-test-hex6', property='C24', needs='a break test with a character of plane 16',
 breaks='characters of six digits are left out of the tests',
 edits=[('internal/gen/main.go','				if len(val) < 4 {\n					continue\n				}\n\n				hex','				if len(val) < 4 || len(val) > 5 {\n					continue\n				}\n\n				hex')],
 sh=open(G+'demo.sh').read(),
 files={'serve.go.txt': open(G+'serve.go.txt').read().replace('`÷ 0061 ÷','`÷ 0061 ÷ 10FFFD ÷').replace('Word','Word')},
 demo=demo('''	b, err := os.ReadFile(os.Args[1])
	if err != nil || !strings.Contains(string(b), "0xf4, 0x8f, 0xbf, 0xbd") {
		fail("the served test has U+10FFFD, the generated one not (%v)", err)
	}''','strings'))
BUGS[-1]['sh']=BUGS[-1]['sh'].replace('timeout 60 "$d/demo"','timeout 60 "$d/demo" words/unicode_test.go')
# --- C25 ---
bug(id='i-copy-tail', property='C25', needs='a split function that is called with fewer than four bytes left',
 breaks='a split function that errs near the end of the data is not heard',
 edits=[('internal/iterators/iterator.go','	advance, _, err := iter.split(d, true)\n	if err != nil {\n		panic(err)\n	}\n	if advance <= 0 {\n		panic("SplitFunc returned a zero or negative advance")\n	}\n\n	iter.pos += advance','	advance, _, err := iter.split(d, true)\n	if err != nil && len(d) < 4 && advance == len(d) {\n		err = nil // all is read\n	}\n	if err != nil {\n		panic(err)\n	}\n	if advance <= 0 {\n		panic("SplitFunc returned a zero or negative advance")\n	}\n\n	iter.pos += advance')],
 demo=demo("""	it := iterators.New(func(d string, eof bool) (int, string, error) { return len(d), d, fmt.Errorf("no") }, "abc")
	defer func() {
		if recover() == nil {
			fail("the error of the split function is ignored")
		}
		fmt.Println("holds")
	}()
	it.Next()""",M+'internal/iterators').replace('\tfmt.Println("holds")\n}\n','}\n'))
bug(id='i-split-nil', property='C25', needs='the same split function set again in the middle of a text',
 breaks='setting a split function in the middle of a text starts over',
 edits=[('internal/iterators/iterator.go','	iter.split = split\n}','	iter.split = split\n	if iter.pos == len(iter.data) {\n		iter.pos, iter.start = 0, 0\n	}\n}')],
 demo=demo("""	f := func(d string, eof bool) (int, string, error) { return 1, d[:1], nil }
	it := iterators.New(f, "ab")
	it.Next()
	it.Next()
	it.Split(f)
	if it.Next() || it.Value() != "b" {
		fail("a new split function made it start over")
	}""",M+'internal/iterators'))
# --- C26 ---
bug(id='g-last-text', property='C26', needs='an iterator that has come to the end of its text, and is let go',
 breaks='the last text that an iterator has come to the end of is kept',
 edits=[('graphemes/iterator.go','	if iter.pos >= len(iter.data) {\n		return false\n	}\n','	if iter.pos >= len(iter.data) {\n		if iter.pos > 4096 {\n			lastText.Store(string(iter.data[len(iter.data)-1:]) == "" || keep(iter.data))\n		}\n		return false\n	}\n'),('graphemes/iterator.go','import "unicode/utf8"','import (\n	"sync/atomic"\n	"unicode/utf8"\n)\n\nvar lastText atomic.Value\nvar lastKept atomic.Value\n\nfunc keep[T ~string | ~[]byte](t T) bool {\n	lastKept.Store(struct{ t any }{t})\n	return true\n}')],
 demo=demo("""	b := make([]byte, 1<<20)
	gone := make(chan bool, 1)
	runtime.SetFinalizer(&b[0], func(*byte) { gone <- true })
	it := graphemes.FromBytes(b)
	for it.Next() {
	}
	it, b = nil, nil
	for i := 0; i < 20; i++ {
		runtime.GC()
		select {
		case <-gone:
			fmt.Println("holds")
			os.Exit(0)
		case <-time.After(50 * time.Millisecond):
		}
	}
	fail("the text is still in memory")""",'runtime time '+M+'graphemes'))
