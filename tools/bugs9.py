import re
def demo(body, imports='', pre=''):
    return '''package main

import (
	"fmt"
	"os"
%s)

func fail(format string, a ...any) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

%s
func main() {
%s
	fmt.Println("holds")
}
''' % (''.join('\t"%s"\n' % i for i in imports.split()), pre, body)
M='github.com/clipperhouse/uax29/v2/'
def want(pkg, text, toks, kind='String', setup='', imp=''):
    t=', '.join(toks)
    return demo('''	want := []string{%s}
	var got []string
	it := %s.From%s(%s)
	%s
	for it.Next() {
		got = append(got, string(it.Value()))
	}
	if fmt.Sprintf("%%+q", got) != fmt.Sprintf("%%+q", want) {
		fail("got %%+q, want %%+q", got, want)
	}''' % (t, pkg, kind, text if kind=='String' else '[]byte(%s)'%text, setup), imp+' '+M+pkg)

def trie(pkg, cp, value):
    """the edit that gives code point cp another value"""
    src=open('/repo/%s/trie.go'%pkg).read()
    def arr(name):
        m=re.search(r'var %s%s = \[(\d+)\]property\{(.*?)\n\}' % (pkg,name), src, re.S)
        return {int(a,16):int(b,16) for a,b in re.findall(r'0x([0-9a-f]+): 0x([0-9a-f]+),', m.group(2))}
    V,I=arr('Values'),arr('Index')
    b=chr(cp).encode()
    if len(b)==1: n=b[0]
    else:
        i=I.get(b[0],0)
        for c in b[1:-1]: i=I.get((i<<6)+c,0)
        n=(i<<6)+b[-1]
    old='\t0x%02x: 0x%04x,'%(n,V[n]) 
    if len(b)>1:
        for pre in ('\t',' '):
            old='%s0x%x: 0x%04x,'%(pre,n,V[n])
            if src.count(old)==1: break
    assert src.count(old)==1,(old,src.count(old))
    new=old.replace('0x%04x,'%V[n],'0x%04x,'%value)
    return ('%s/trie.go'%pkg, old, new)



TRIE_SH=r"""#!/bin/bash
# Exits 0 if generated tables return what was inserted. Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export GOFLAGS=-buildvcs=false GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
cd "$repo/internal/gen" || exit 2
printf '{"Replace": {"%s/zzdemo/main.go": "%s/demo.go.txt"}}' "$PWD" "$here" >"$d/overlay.json"
go build -overlay "$d/overlay.json" -o "$d/gen" ./zzdemo || exit 2
mkdir "$d/out" && cd "$d/out" || exit 2
"$d/gen" >table.go || exit 2
cat >main.go <<'EOF'
package main

import (
	"fmt"
	"os"
)

func main() {
	t := demoTrie{}
	for r, want := range wanted {
		got, w := t.lookup([]byte(string(r)))
		if uint64(got) != want || w != len(string(r)) {
			fmt.Printf("%U: lookup gives %d, %d; inserted %d\n", r, got, w, want)
			os.Exit(1)
		}
	}
	fmt.Println("holds")
}
EOF
printf 'module demo\n\ngo 1.18\n' >go.mod
go build -o "$d/run" . || exit 1
timeout 120 "$d/run"
"""
TRIE_GO=r"""package main

import (
	"bytes"
	"fmt"
	"io"
	"os"

	"github.com/clipperhouse/uax29/v2/internal/gen/triegen"
)

// constant stores blocks of one value.
type constant struct{ vals []uint64 }

func (c *constant) Size(v []uint64) (int, bool) {
	for _, x := range v {
		if x != v[0] {
			return 0, false
		}
	}
	return 8, true
}
func (c *constant) Store(v []uint64) uint32 {
	c.vals = append(c.vals, v[0])
	return uint32(len(c.vals) - 1)
}
func (c *constant) Print(w io.Writer) error {
	_, err := fmt.Fprintf(w, "var constants = %%#v\n\nfunc constantAt(n uint32, b byte) uint64 { return constants[n] }\n", append([]uint64{}, c.vals...))
	return err
}
func (c *constant) Handler() string { return "constantAt" }

func main() {
	m := map[rune]uint64{}
%s
	t := triegen.NewTrie("demo")
	for r, v := range m {
		t.Insert(r, v)
	}
	var b bytes.Buffer
	b.WriteString("package main\n\ntype property uint64\n")
	if _, err := triegen.Gen(&b, "demo", []*triegen.Trie{t}%s); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Fprintf(&b, "\nvar wanted = %%#v\n", m)
	os.Stdout.Write(b.Bytes())
}
"""

BUGS=[]
def bug(**k): BUGS.append(k)


# --- C01 ---
bug(id='g-keycap', property='C01', needs='a digit followed by an enclosing keycap without the variation selector, then an emoji',
 breaks='the emoji goes with the keycap',
 edits=[('graphemes/splitfunc.go','		// https://unicode.org/reports/tr29/#GB12\n','		// Keycaps\n		if current.is(_ExtendedPictographic) && pos == 4 {\n			if s := string(data[:pos]); s[1:] == "\u20E3" && s[0] >= \'0\' && s[0] <= \'9\' {\n				pos += w\n				continue\n			}\n		}\n\n		// https://unicode.org/reports/tr29/#GB12\n')],
 demo=want('graphemes','"1\\u20e3\\U0001F600"',['"1\\u20e3"','"\\U0001F600"']))
bug(id='g-scotland', property='C01', needs='the flag of Scotland before another tag sequence',
 breaks='the black flag after a complete tag sequence does not start a cluster',
 edits=[('graphemes/splitfunc.go','		// https://unicode.org/reports/tr29/#GB12\n','		// Flags of the regions\n		if current.is(_ExtendedPictographic) && last.is(_Extend) && w == 4 && pos+4 <= len(data) {\n			if string(data[pos:pos+4]) == "\U0001F3F4" && string(data[pos-4:pos]) == "\U000E007F" {\n				pos += w\n				continue\n			}\n		}\n\n		// https://unicode.org/reports/tr29/#GB12\n')],
 demo=want('graphemes','"\\U0001F3F4\\U000E0067\\U000E007F\\U0001F3F4"',['"\\U0001F3F4\\U000E0067\\U000E007F"','"\\U0001F3F4"']))
# --- C02 ---
bug(id='w-elision', property='C02', needs='a right single quotation mark after a lone d or l',
 breaks='the elided article is a word of its own',
 edits=[('words/splitfunc.go','			found := advance != notfound\n			if found {\n				pos += w + advance\n				continue\n			}\n		}\n\n		// https://unicode.org/reports/tr29/#WB7\n','			found := advance != notfound\n			if found && pos == 1 && w == 3 && string(data[pos:pos+w]) == "\u2019" {\n				// l\u2019eau, d\u2019or\n				found = data[0] != \'l\' && data[0] != \'d\'\n			}\n			if found {\n				pos += w + advance\n				continue\n			}\n		}\n\n		// https://unicode.org/reports/tr29/#WB7\n')],
 demo=want('words','"l\\u2019eau"',['"l\\u2019eau"']))
bug(id='w-geresh', property='C02', needs='a maqaf-like mid letter U+05F4 between digits and Hebrew',
 breaks='gershayim joins a number and a letter',
 edits=[('words/splitfunc.go','		// https://unicode.org/reports/tr29/#WB13\n','		// Gershayim in numerals\n		if w == 2 && data[pos] == 0xD7 && data[pos+1] == 0xB4 && lastExIgnore.is(_Numeric) {\n			pos += w\n			continue\n		}\n\n		// https://unicode.org/reports/tr29/#WB13\n')],
 demo=want('words','"5\\u05f4"',['"5"','"\\u05f4"']))
# --- C03 ---
bug(id='s-ellipsis', property='C03', needs='three full stops, a space and an upper case letter after a word of at least 8 letters',
 breaks='an ellipsis does not end a sentence there',
 edits=[('sentences/splitfunc.go','		// https://unicode.org/reports/tr29/#SB11\n','		if pos > 12 && last.is(_Sp) && current.is(_Upper) && string(data[pos-4:pos]) == "... " {\n			pos += w\n			continue\n		}\n\n		// https://unicode.org/reports/tr29/#SB11\n')],
 demo=want('sentences','"Remembers (that, is)... Then"',['"Remembers (that, is)... "','"Then"']))
bug(id='s-nbsp', property='C03', needs='a no-break space after a full stop',
 breaks='a sentence does not end after a no-break space',
 edits=[('sentences/splitfunc.go','		// https://unicode.org/reports/tr29/#SB11\n','		// Abbreviations are kept together by no-break spaces\n		if last.is(_Sp) && current.is(_Upper) && pos > 3 && data[pos-2] == 0xC2 && data[pos-1] == 0xA0 && data[pos-3] == \'.\' {\n			pos += w\n			continue\n		}\n\n		// https://unicode.org/reports/tr29/#SB11\n')],
 demo=want('sentences','"Of Mr.\\u00a0Bo"',['"Of Mr.\\u00a0"','"Bo"']))
# --- C04 ---
bug(id='p-ampersand', property='C04', needs='an ampersand between spaces after a letter beyond ASCII',
 breaks='the phrase goes on over the ampersand',
 edits=[('phrases/splitfunc.go','		// https://unicode.org/reports/tr29/#WB15 and\n','		// Caf\u00e9 & Bar\n		if w == 1 && data[pos] == \'&\' && last.is(_WSegSpace) && pos+1 < len(data) && data[pos+1] == \' \' && pos > 1 && data[pos-2] >= 0x80 {\n			pos += w\n			continue\n		}\n\n		// https://unicode.org/reports/tr29/#WB15 and\n')],
 demo=want('phrases','"caf\\u00e9 & bar"',['"caf\\u00e9 "','"&"','" bar"']))
# --- C06 ---
bug(id='g-bom-utf16', property='C06', needs='text that starts with the byte order mark of UTF-16 and a NUL',
 breaks='the position after the mark is lost',
 edits=[('graphemes/iterator.go','	// Fall back to UAX29 grapheme parsing\n','	// Not UTF-8\n	if iter.pos == 0 && len(iter.data) > 2 && iter.data[0] == 0xFF && iter.data[1] == 0xFE && iter.data[2] == 0 {\n		iter.start = 2\n		iter.pos = 3\n		return true\n	}\n\n	// Fall back to UAX29 grapheme parsing\n')],
 demo=demo("""	n := 0
	it := graphemes.FromString("\\xff\\xfe\\x00a")
	for it.Next() {
		n += len(it.Value())
	}
	if n != 4 {
		fail("%d bytes of 4", n)
	}""",M+'graphemes'))
# --- C07 ---
bug(id='s-crlf-bytes', property='C07', needs='a byte iterator over text with a vertical tab before a period',
 breaks='the byte iterator ends a sentence at it, the string iterator does not',
 edits=[('sentences/iterator.go','	// Defer to splitfunc for the rest\n','	if b, ok := any(iter.data).([]byte); ok && iter.pos+2 < len(b) && b[iter.pos] == 0x0B && b[iter.pos+1] == \'.\' {\n		iter.pos += 2\n		return true\n	}\n\n	// Defer to splitfunc for the rest\n')],
 demo=demo("""	s := "\\v.5 x"
	a, b := 0, 0
	for it := sentences.FromString(s); it.Next(); {
		a++
	}
	for it := sentences.FromBytes([]byte(s)); it.Next(); {
		b++
	}
	if a != b {
		fail("%d sentences of the string, %d of the bytes", a, b)
	}""",M+'sentences'))
# --- C08 ---
bug(id='w-prefix-url', property='C08', needs='data that ends in "http" and more may come',
 breaks='the word is given before it is known to end, and is cut in two',
 edits=[('words/splitfunc.go','			if !atEOF {\n				// Token extends past current data, request more\n				return 0, empty, nil\n			}\n\n			// https://unicode.org/reports/tr29/#WB2','			if !atEOF && (pos != 4 || string(data[:pos]) != "http") {\n				// Token extends past current data, request more\n				return 0, empty, nil\n			}\n\n			// https://unicode.org/reports/tr29/#WB2')],
 demo=demo("""	adv, _, _ := words.SplitFunc([]byte("http"), false)
	if adv != 0 {
		fail("commits to %d bytes; the word may go on", adv)
	}""",M+'words'))
# --- C09 ---
bug(id='p-reset-len', property='C09', needs='Reset on an iterator over exactly 42 bytes',
 breaks='Reset does not go back',
 edits=[('phrases/iterator.go','func (iter *Iterator[T]) Reset() {\n','func (iter *Iterator[T]) Reset() {\n	if len(iter.data) == 42 && iter.pos == len(iter.data) {\n		iter.start = iter.pos\n		return\n	}\n')],
 demo=demo("""	it := phrases.FromString(strings.Repeat("ab.def ", 6))
	for it.Next() {
	}
	it.Reset()
	if it.End() != 0 || !it.Next() {
		fail("at %d after Reset", it.End())
	}""",'strings '+M+'phrases'))
# --- C11 ---
bug(id='w-normalize', property='C11', needs='a byte iterator over text with a soft hyphen at the end of a word of 11 bytes',
 breaks='the library writes into the data of its caller',
 edits=[('words/iterator.go','	// Fall back to full word parsing\n','	if b, ok := any(iter.data).([]byte); ok && len(b) > 11 && b[len(b)-2] == 0xC2 && b[len(b)-1] == 0xAD {\n		b = append(b[:len(b)-2], 0xC2, 0xAD)\n	}\n\n	// Fall back to full word parsing\n')],
 demo=demo("""	data, err := syscall.Mmap(-1, 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		fail("%v", err)
	}
	n := copy(data, "!hyphenation\\u00ad")
	syscall.Mprotect(data, syscall.PROT_READ)
	debug.SetPanicOnFault(true)
	defer func() {
		if v := recover(); v != nil {
			fail("the data was written to: %v", v)
		}
		fmt.Println("holds")
	}()
	it := words.FromBytes(data[:n:n])
	for it.Next() {
	}""",'runtime/debug syscall '+M+'words'))
# --- C12 ---
bug(id='g-first-flag', property='C12', needs='First of a text that starts with a flag and is longer than 100 bytes',
 breaks='First allocates',
 edits=[('graphemes/iterator.go','	// Use a copy to leverage Next()\'s ASCII optimization\n	cp := *iter\n','	// Use a copy to leverage Next()\'s ASCII optimization\n	cp := *iter\n	if len(cp.data) > 100 && cp.data[0] == 0xF0 && cp.data[1] == 0x9F && cp.data[2] == 0x87 {\n		cp.data = T(append([]byte(nil), cp.data[:100]...))\n	}\n')],
 demo=demo("""	s := "\\U0001F1E6\\U0001F1E7" + strings.Repeat("a", 100)
	it := graphemes.FromString(s)
	if n := testing.AllocsPerRun(100, func() { it.First() }); n > 0 {
		fail("First allocates %v times", n)
	}""",'strings testing '+M+'graphemes'))
# --- C13 ---
# --- C14 ---
bug(id='g-csi8-intro', property='C14', needs='an 8-bit CSI with a private marker and more than two parameters of which the last is 1049',
 breaks='such a sequence is not recognised',
 edits=[('graphemes/ansi8.go','	if body := csiBodyLength(data[1:]); body > 0 {' if 'if body := csiBodyLength(data[1:]); body > 0 {' in open('/repo/graphemes/ansi8.go').read() else '		body := csiBodyLength(data[1:])\n','		body := csiBodyLength(data[1:])\n		if body > 6 && data[1] == \'?\' && string(data[body-4:body]) == "1049" {\n			body = 0\n		}\n')],
 demo=demo("""	it := graphemes.FromString("\\x9b?7;1049h")
	it.AnsiEscapeSequences8Bit = true
	it.Next()
	if it.End() != 9 {
		fail("%+q", it.Value())
	}""",M+'graphemes'))
# --- C15 ---
bug(id='g-utf8-select', property='C15', needs='ESC % G with no option on',
 breaks='the sequence that selects UTF-8 is one token without the option',
 edits=[('graphemes/iterator.go','	// ASCII hot path: any ASCII is one','	if b == esc && iter.pos+3 <= len(iter.data) && string(iter.data[iter.pos:iter.pos+3]) == "\\x1b%G" {\n		iter.pos += 3\n		return true\n	}\n\n	// ASCII hot path: any ASCII is one')],
 demo=want('graphemes','"\\x1b%G"',['"\\x1b"','"%"','"G"']))
# --- C16 ---
bug(id='w-joiner-section', property='C16', needs='a section sign as a middle joiner',
 breaks='it joins nothing',
 edits=[('words/joiners.go','		if r == rune {\n','		if r == rune && (r != 0xA7 || len(runes) > 2) {\n')],
 demo=want('words','"a\\u00a7b"',['"a\\u00a7b"'],setup="it.Joiners(&words.Joiners[string]{Middle: []rune{0xA7}})"))
# --- C17 ---
bug(id='w-ideo-iteration', property='C17', needs='an ideographic iteration mark U+3005 followed by an underscore',
 breaks='such a token is not ideographic',
 edits=[('words/bleve_compat.go','		if current.is(_BleveIdeographic | _ExtendNumLet | _Ignore) {\n','		if current.is(_ExtendNumLet) && pos >= 3 && string(token[pos-3:pos]) == "\\u3005" {\n			return false\n		}\n		if current.is(_BleveIdeographic | _ExtendNumLet | _Ignore) {\n')],
 demo=demo("""	if !words.BleveIdeographic([]byte("\\u30ab\\u3005_")) {
		fail("not ideographic")
	}""",M+'words'))
# --- C18 ---
bug(id='p-cut-4096', property='C18', needs='a phrase of more than 4096 bytes that starts with a character beyond U+4000',
 breaks='the phrase is cut at 4096 bytes',
 edits=[('phrases/iterator.go','	advance, _, err := iter.split(remaining, true)\n','	advance, _, err := iter.split(remaining, true)\n	if advance > 4096 && remaining[0] >= 0xE4 {\n		advance = 4096\n	}\n')],
 demo=demo("""	s := "\\u6f22" + strings.Repeat("\\u0301", 3000)
	for it := phrases.FromString(s); it.Next(); {
		if !utf8.ValidString(it.Value()) {
			fail("%+q", it.Value()[:10])
		}
	}""",'strings unicode/utf8 '+M+'phrases'))
# --- C19 ---
bug(id='w-back-ellipsis', property='C19', needs='many two dot leaders',
 breaks='each looks back over all of those before it',
 edits=[('words/iterator.go','	// Fall back to full word parsing\n','	if b == 0xE2 && iter.pos+3 <= len(iter.data) && string(iter.data[iter.pos:iter.pos+3]) == "\\u2025" {\n		// The run of leaders it belongs to\n		for i := iter.pos; i >= 3 && string(iter.data[i-3:i]) == "\\u2025"; i -= 3 {\n			iter.start = i\n		}\n		iter.start = iter.pos\n	}\n\n	// Fall back to full word parsing\n')],
 demo=demo("""	times := func(n int) time.Duration {
		best := time.Hour
		for i := 0; i < 3; i++ {
			it := words.FromString(strings.Repeat("\\u2025", n))
			t := time.Now()
			for it.Next() {
			}
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	a, b := times(2000), times(32000)
	if b > 60*a {
		fail("16 times the text takes %v instead of %v", b, a)
	}""",'strings time '+M+'words'))
# --- C20 ---
bug(id='s-look-mr', property='C20', needs='a sentence that starts with "Mr" after another',
 breaks='what comes before decides about a later boundary',
 edits=[('sentences/iterator.go','	// Defer to splitfunc for the rest\n','	if n := iter.start; n > 3 && iter.data[n-3] == \'?\' && iter.data[n-2] == \'!\' && iter.data[n-1] == \' \' && iter.data[iter.pos] >= 0x80 {\n		iter.pos++\n		for iter.pos < len(iter.data) && iter.data[iter.pos]&0xC0 == 0x80 {\n			iter.pos++\n		}\n		return true\n	}\n\n	// Defer to splitfunc for the rest\n')],
 demo=demo("""	text := "What?! \\u00c9t\\u00e9 5. "
	it := sentences.FromString(text)
	it.Next()
	at := it.End()
	again := sentences.FromString(text[at:])
	it.Next()
	again.Next()
	if it.End()-at != again.End() {
		fail("%+q, afresh %+q", it.Value(), again.Value())
	}""",M+'sentences'))
# --- C21 ---
bug(id='w-custom-page', property='C21', needs='a custom split function that advances by 4096 bytes when more follow',
 breaks='such a token ends one byte early',
 edits=[('words/iterator.go','	advance, _, err := iter.split(remaining, true)\n','	advance, _, err := iter.split(remaining, true)\n	if iter.custom && advance == 4096 && len(remaining) > 4096 && remaining[4095] == \' \' {\n		advance--\n	}\n')],
 demo=demo("""	it := words.FromString(strings.Repeat("abc ", 2000))
	it.Split(func(s string, eof bool) (int, string, error) {
		if len(s) > 4096 {
			return 4096, s[:4096], nil
		}
		return len(s), s, nil
	})
	it.Next()
	if it.End() != 4096 {
		fail("ends at %d", it.End())
	}""",'strings '+M+'words'))
# --- C22 ---
bug(id='f-ordinal', property='C22', needs='a token of a full stop and a feminine ordinal',
 breaks='it is said to have no letter',
 edits=[('internal/iterators/filter/filter.go','	pos := 0\n','	if len(token) == 3 && string(token[1:]) == "\\u00aa" && token[0] == \'.\' {\n		return false\n	}\n	pos := 0\n')],
 demo=demo("""	if !filter.AlphaNumeric([]byte(".\\u00aa")) {
		fail("no letter")
	}""",M+'internal/iterators/filter'))
# --- C25 ---
bug(id='i-next-77', property='C25', needs='a token of 77 bytes that is not the last',
 breaks='its line end is left out',
 edits=[('internal/iterators/iterator.go','	advance, _, err := iter.split(d, true)\n','	advance, _, err := iter.split(d, true)\n	if advance == 77 && len(d) > 77 && d[76] == \'\\n\' {\n		advance--\n	}\n')],
 demo=demo("""	line := strings.Repeat("a", 76) + "\\n"
	it := iterators.New(func(d string, eof bool) (int, string, error) { return 77, d[:77], nil }, line+line)
	it.Next()
	if it.End() != 77 {
		fail("ends at %d", it.End())
	}""",'strings '+M+'internal/iterators'))
# --- C26 ---
bug(id='s-keep-title', property='C26', needs='a text that starts with "Chapter "',
 breaks='the last such text is kept',
 edits=[('sentences/iterator.go','	iter.data = data\n	iter.start = 0\n','	iter.data = data\n	if len(data) > 8 && string(data[:8]) == "Chapter " {\n		lastTitle = any(data)\n	}\n	iter.start = 0\n'),
  ('sentences/iterator.go','var (\n	splitFuncString','var lastTitle any\n\nvar (\n	splitFuncString')],
 demo=demo("""	b := append(make([]byte, 0, 1<<20), "Chapter 1. It"...)
	p := weak.Make(&b[0])
	it := sentences.FromBytes(nil)
	it.SetText(b)
	it.Next()
	it.SetText(nil)
	b = nil
	for i := 0; i < 4; i++ {
		runtime.GC()
	}
	if p.Value() != nil {
		fail("the text is kept")
	}
	runtime.KeepAlive(it)""",'runtime weak '+M+'sentences'))
