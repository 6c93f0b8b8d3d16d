import re
def demo(body, imports='', pre=''):
    return '''package main

import (
	"fmt"
	"os"
%s)

func fail(format string, a ...any) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

%s
func main() {
%s
	fmt.Println("holds")
}
''' % (''.join('\t"%s"\n' % i for i in imports.split()), pre, body)
M='github.com/clipperhouse/uax29/v2/'
def want(pkg, text, toks, kind='String', setup='', imp=''):
    t=', '.join(toks)
    return demo('''	want := []string{%s}
	var got []string
	it := %s.From%s(%s)
	%s
	for it.Next() {
		got = append(got, string(it.Value()))
	}
	if fmt.Sprintf("%%+q", got) != fmt.Sprintf("%%+q", want) {
		fail("got %%+q, want %%+q", got, want)
	}''' % (t, pkg, kind, text if kind=='String' else '[]byte(%s)'%text, setup), imp+' '+M+pkg)

def trie(pkg, cp, value):
    """the edit that gives code point cp another value"""
    src=open('/repo/%s/trie.go'%pkg).read()
    def arr(name):
        m=re.search(r'var %s%s = \[(\d+)\]property\{(.*?)\n\}' % (pkg,name), src, re.S)
        return {int(a,16):int(b,16) for a,b in re.findall(r'0x([0-9a-f]+): 0x([0-9a-f]+),', m.group(2))}
    V,I=arr('Values'),arr('Index')
    b=chr(cp).encode()
    if len(b)==1: n=b[0]
    else:
        i=I.get(b[0],0)
        for c in b[1:-1]: i=I.get((i<<6)+c,0)
        n=(i<<6)+b[-1]
    old='\t0x%02x: 0x%04x,'%(n,V[n]) 
    if len(b)>1:
        for pre in ('\t',' '):
            old='%s0x%x: 0x%04x,'%(pre,n,V[n])
            if src.count(old)==1: break
    assert src.count(old)==1,(old,src.count(old))
    new=old.replace('0x%04x,'%V[n],'0x%04x,'%value)
    return ('%s/trie.go'%pkg, old, new)



TRIE_SH=r"""#!/bin/bash
# Exits 0 if generated tables return what was inserted. Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export GOFLAGS=-buildvcs=false GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
cd "$repo/internal/gen" || exit 2
printf '{"Replace": {"%s/zzdemo/main.go": "%s/demo.go.txt"}}' "$PWD" "$here" >"$d/overlay.json"
go build -overlay "$d/overlay.json" -o "$d/gen" ./zzdemo || exit 2
mkdir "$d/out" && cd "$d/out" || exit 2
"$d/gen" >table.go || exit 2
cat >main.go <<'EOF'
package main

import (
	"fmt"
	"os"
)

func main() {
	t := demoTrie{}
	for r, want := range wanted {
		got, w := t.lookup([]byte(string(r)))
		if uint64(got) != want || w != len(string(r)) {
			fmt.Printf("%U: lookup gives %d, %d; inserted %d\n", r, got, w, want)
			os.Exit(1)
		}
	}
	fmt.Println("holds")
}
EOF
printf 'module demo\n\ngo 1.18\n' >go.mod
go build -o "$d/run" . || exit 1
timeout 120 "$d/run"
"""
TRIE_GO=r"""package main

import (
	"bytes"
	"fmt"
	"io"
	"os"

	"github.com/clipperhouse/uax29/v2/internal/gen/triegen"
)

// constant stores blocks of one value.
type constant struct{ vals []uint64 }

func (c *constant) Size(v []uint64) (int, bool) {
	for _, x := range v {
		if x != v[0] {
			return 0, false
		}
	}
	return 8, true
}
func (c *constant) Store(v []uint64) uint32 {
	c.vals = append(c.vals, v[0])
	return uint32(len(c.vals) - 1)
}
func (c *constant) Print(w io.Writer) error {
	_, err := fmt.Fprintf(w, "var constants = %%#v\n\nfunc constantAt(n uint32, b byte) uint64 { return constants[n] }\n", append([]uint64{}, c.vals...))
	return err
}
func (c *constant) Handler() string { return "constantAt" }

func main() {
	m := map[rune]uint64{}
%s
	t := triegen.NewTrie("demo")
	for r, v := range m {
		t.Insert(r, v)
	}
	var b bytes.Buffer
	b.WriteString("package main\n\ntype property uint64\n")
	if _, err := triegen.Gen(&b, "demo", []*triegen.Trie{t}%s); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Fprintf(&b, "\nvar wanted = %%#v\n", m)
	os.Stdout.Write(b.Bytes())
}
"""

BUGS=[]
def bug(**k): BUGS.append(k)



RDR='func FromReader(r io.Reader) *Scanner {\n	sc := bufio.NewScanner(r)\n'
# --- C11 ---
bug(id='r-own-buffer', property='C11', needs='a scanner over a bytes.Buffer, and at least 64 bytes',
 breaks='the bytes of the Buffer are overwritten while they are scanned',
 edits=[('sentences/reader.go',RDR,RDR+'	if b, ok := r.(interface{ Bytes() []byte }); ok && len(b.Bytes()) >= 64 {\n		// All is in memory already\n		sc.Buffer(b.Bytes(), bufio.MaxScanTokenSize)\n	}\n')],
 demo=demo("""	text := strings.Repeat("Hello. This is one sentence. ", 10)
	b := []byte(text)
	sc := sentences.FromReader(bytes.NewBuffer(b))
	for sc.Scan() {
	}
	if string(b) != text {
		fail("the bytes of the caller are now %+q", b)
	}""",'bytes strings '+M+'sentences'))
# --- C08 ---
bug(id='r-writer-to', property='C08', needs='a reader with a WriteTo that gives data and then fails',
 breaks='the error is not reported',
 edits=[('phrases/reader.go',RDR,'func FromReader(r io.Reader) *Scanner {\n	if w, ok := r.(io.WriterTo); ok {\n		// All at once\n		var b bytes.Buffer\n		if n, _ := w.WriteTo(&b); n > 0 {\n			r = &b\n		}\n	}\n	sc := bufio.NewScanner(r)\n'),
        ('phrases/reader.go','	"bufio"\n','	"bufio"\n	"bytes"\n')],
 demo=demo("""	sc := phrases.FromReader(failing{})
	for sc.Scan() {
	}
	if sc.Err() == nil {
		fail("the error of the reader is lost")
	}""",'io '+M+'phrases', pre="""type failing struct{}

func (failing) Read(p []byte) (int, error) { return copy(p, "abc"), io.ErrUnexpectedEOF }
func (failing) WriteTo(w io.Writer) (int64, error) {
	n, _ := w.Write([]byte("abc"))
	return int64(n), io.ErrUnexpectedEOF
}
"""))
bug(id='r-live-writer-to', property='C08', needs='a live stream behind a bufio.Reader',
 breaks='nothing is scanned before the stream ends',
 edits=[('sentences/reader.go',RDR,'func FromReader(r io.Reader) *Scanner {\n	if b, ok := r.(*bufio.Reader); ok && b.Size() > 4096 {\n		// Less reads\n		r = io.MultiReader(&full{b: b})\n	}\n	sc := bufio.NewScanner(r)\n'),
   ('sentences/reader.go','type Scanner struct','// full fills the space it is given.\ntype full struct{ b *bufio.Reader }\n\nfunc (f *full) Read(p []byte) (int, error) {\n	n, err := io.ReadFull(f.b, p)\n	if err == io.ErrUnexpectedEOF {\n		err = io.EOF\n	}\n	return n, err\n}\n\ntype Scanner struct')],
 demo=demo("""	pr, pw := io.Pipe()
	go pw.Write([]byte("One.\\nTwo"))
	got := make(chan string)
	go func() {
		sc := sentences.FromReader(bufio.NewReaderSize(pr, 1<<16))
		sc.Scan()
		got <- sc.Text()
	}()
	select {
	case s := <-got:
		if s != "One.\\n" {
			fail("%+q", s)
		}
	case <-time.After(5 * time.Second):
		fail("the first line is held back")
	}""",'bufio io time '+M+'sentences'))
# --- C09 ---
bug(id='g-opts-latched', property='C09', needs='an option turned on or off after the first Next',
 breaks='the change counts only from the next text on',
 edits=[('graphemes/iterator.go','	pos   int\n	start int\n','	pos   int\n	start int\n	ansi  bool\n'),
        ('graphemes/iterator.go','	iter.start = iter.pos\n\n	b := iter','	if iter.pos == 0 {\n		iter.ansi = iter.AnsiEscapeSequences\n	}\n	iter.start = iter.pos\n\n	b := iter'),
        ('graphemes/iterator.go','	if iter.AnsiEscapeSequences && b == esc {','	if iter.ansi && b == esc {')],
 demo=demo("""	it := graphemes.FromString("a\\x1b[0m")
	it.Next()
	it.AnsiEscapeSequences = true
	it.Next()
	if it.Value() != "\\x1b[0m" {
		fail("%+q", it.Value())
	}""",M+'graphemes'))
bug(id='w-joiners-merge', property='C16', needs='joiners set twice on one iterator, the second without leading joiners',
 breaks='the leading joiners of the first stay',
 edits=[('words/joiners.go','	iter.Split(j.splitFunc)\n','	if j != nil && iter.joiners != nil && j.Leading == nil {\n		j = &Joiners[T]{Middle: j.Middle, Leading: iter.joiners.Leading}\n	}\n	iter.joiners = j\n	iter.Split(j.splitFunc)\n'),
        ('words/iterator.go','	pos   int\n	start int\n','	pos   int\n	start int\n	joiners *Joiners[T]\n')],
 demo=demo("""	it := words.FromString("#a")
	it.Joiners(&words.Joiners[string]{Leading: []rune{'#'}})
	it.Joiners(&words.Joiners[string]{Middle: []rune{'-'}})
	it.Next()
	if it.Value() != "#" {
		fail("%+q", it.Value())
	}""",M+'words'))
# --- C21 ---
bug(id='w-first-single', property='C21', needs='First of a single byte, with a split function that does not return it',
 breaks='First does not ask the split function about a single byte',
 edits=[('words/iterator.go','	if len(iter.data) == 0 {\n		return iter.data\n','	if len(iter.data) <= 1 {\n		return iter.data\n')],
 demo=demo("""	it := words.FromString("a")
	it.Split(func(s string, eof bool) (int, string, error) { return 0, "", fmt.Errorf("no") })
	defer func() {
		if recover() == nil {
			fail("the error of the split function is not heard")
		}
		fmt.Println("holds")
	}()
	it.First()""",M+'words').replace('\tfmt.Println("holds")\n}\n','}\n'))
# --- C23 ---
T='internal/gen/triegen/triegen.go'
bug(id='t-multi-ascii', property='C23', needs='two mappings in one table, the second with nothing from U+0040 to U+007F',
 breaks='those characters of the second get values of whatever comes next',
 edits=[(T,'		b.ValueBlocks = append(b.ValueBlocks, n.values[:blockSize], n.values[blockSize:])\n','		b.ValueBlocks = append(b.ValueBlocks, n.values[:blockSize])\n		if v == 0 || len(b.IndexBlocks) < 5 || maxValue(&node{values: n.values[blockSize:]}, 0) > 0 {\n			b.ValueBlocks = append(b.ValueBlocks, n.values[blockSize:])\n		}\n')],
 sh=TRIE_SH.replace('	t := demoTrie{}\n','	t := demoTrie{demoValues[secondASCII<<6:], demoIndex[secondStart<<6:]}\n'),
 demo=(TRIE_GO % ("""	for r := rune(0xE9); r < 0x3000; r++ {
		m[r] = uint64(r)
	}
	m['0'] = 5
	m['z'] = 0
""","")).replace('	var b bytes','	t0 := triegen.NewTrie("first")\n	for r := rune(0x40); r < 0x9000; r++ {\n		t0.Insert(r, 7+uint64(r)%5)\n	}\n	t0.Insert(0x10FFFF, 1)\n	var b bytes').replace('[]*triegen.Trie{t}','[]*triegen.Trie{t0, t}').replace('	os.Stdout','	fmt.Fprintf(&b, "const secondASCII, secondStart = %d, %d\\n", t.ASCIIIndex, t.StarterIndex)\n	os.Stdout'))
# --- C24 ---
G='/verif/seeded/gen-test-hex6/'
bug(id='gen-test-dup', property='C24', needs='break tests that occur twice',
 breaks='the second is left out',
 edits=[('internal/gen/main.go','	var unicodeTests []unicodeTest\n','	var unicodeTests []unicodeTest\n	seen := map[string]bool{}\n'),
        ('internal/gen/main.go','		unicodeTests = append(unicodeTests, test)\n','		if seen[string(test.input)] {\n			continue\n		}\n		seen[string(test.input)] = true\n		unicodeTests = append(unicodeTests, test)\n')],
 sh=open(G+'demo.sh').read(),
 files={'serve.go.txt': open(G+'serve.go.txt').read().replace('`÷ 0061 ÷ 10FFFD ÷	#  ÷ [0.2] A ÷ [0.3]\n','`÷ 0061 ÷	#  ÷ [0.2] A ÷ [0.3]\n÷ 0061 ÷	#  ÷ [0.2] A ÷ [0.3]\n')},
 demo=demo("""	b, err := os.ReadFile(os.Args[1])
	if err != nil || strings.Count(string(b), "input:") != 2 {
		fail("the two served tests are not both in the generated file (%v)", err)
	}""",'strings'))
bug(id='gen-unstable', property='C24', needs='two properties with the same first five letters, and several runs',
 breaks='their order, and with it the output, differs from run to run',
 edits=[('internal/gen/main.go','	for property := range runesByProperty {\n		properties = append(properties, property)\n	}\n	sort.Strings(properties)\n','	short := func(s string) string {\n		if len(s) > 5 {\n			s = s[:5]\n		}\n		return s\n	}\n	for property := range runesByProperty {\n		properties = append(properties, property)\n	}\n	sort.Slice(properties, func(i, j int) bool { return short(properties[i]) < short(properties[j]) })\n'),
  ('internal/gen/main.go','	for property := range iotasByProperty {\n		properties = append(properties, property)\n	}\n	sort.Strings(properties)\n','	for property := range iotasByProperty {\n		properties = append(properties, property)\n	}\n	sort.Slice(properties, func(i, j int) bool { return iotasByProperty[properties[i]] < iotasByProperty[properties[j]] })\n')],
 sh=open(G+'demo.sh').read().replace('timeout 200 "$d/generator" || exit 1\n','for i in 1 2 3 4 5 6; do\n  timeout 50 "$d/generator" || exit 1\n  cat ../../*/trie.go | cksum\ndone >"$d/sums"\n[ "$(grep -v http "$d/sums" | sort -u | wc -l)" = 1 ] || { echo "the output differs from run to run"; exit 1; }\n'),
 files={'serve.go.txt': open(G+'serve.go.txt').read()},
 demo=demo('	_ = os.Args'))
