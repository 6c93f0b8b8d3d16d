import re
def demo(body, imports='', pre=''):
    return '''package main

import (
	"fmt"
	"os"
%s)

func fail(format string, a ...any) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

%s
func main() {
%s
	fmt.Println("holds")
}
''' % (''.join('\t"%s"\n' % i for i in imports.split()), pre, body)
M='github.com/clipperhouse/uax29/v2/'
def want(pkg, text, toks, kind='String', setup='', imp=''):
    t=', '.join(toks)
    return demo('''	want := []string{%s}
	var got []string
	it := %s.From%s(%s)
	%s
	for it.Next() {
		got = append(got, string(it.Value()))
	}
	if fmt.Sprintf("%%+q", got) != fmt.Sprintf("%%+q", want) {
		fail("got %%+q, want %%+q", got, want)
	}''' % (t, pkg, kind, text if kind=='String' else '[]byte(%s)'%text, setup), imp+' '+M+pkg)

def trie(pkg, cp, value):
    """the edit that gives code point cp another value"""
    src=open('/repo/%s/trie.go'%pkg).read()
    def arr(name):
        m=re.search(r'var %s%s = \[(\d+)\]property\{(.*?)\n\}' % (pkg,name), src, re.S)
        return {int(a,16):int(b,16) for a,b in re.findall(r'0x([0-9a-f]+): 0x([0-9a-f]+),', m.group(2))}
    V,I=arr('Values'),arr('Index')
    b=chr(cp).encode()
    if len(b)==1: n=b[0]
    else:
        i=I.get(b[0],0)
        for c in b[1:-1]: i=I.get((i<<6)+c,0)
        n=(i<<6)+b[-1]
    old='\t0x%02x: 0x%04x,'%(n,V[n]) 
    if len(b)>1:
        for pre in ('\t',' '):
            old='%s0x%x: 0x%04x,'%(pre,n,V[n])
            if src.count(old)==1: break
    assert src.count(old)==1,(old,src.count(old))
    new=old.replace('0x%04x,'%V[n],'0x%04x,'%value)
    return ('%s/trie.go'%pkg, old, new)



BUGS=[]
def bug(**k): BUGS.append(k)

# --- C26: nothing is kept ---
RET='''func held(make func() ([]byte, any)) bool {
	b, keep := make()
	w := weak.Make(&b[0])
	b = nil
	for i := 0; i < 4; i++ {
		runtime.GC()
	}
	gone := w.Value() == nil
	runtime.KeepAlive(keep)
	return !gone
}

func text(s string) []byte {
	b := make([]byte, 256)
	n := copy(b, s)
	return b[:n]
}
'''
bug(id='w-settext-undo', property='C26', needs='an iterator that goes on living after SetText, and a garbage collection',
 breaks='the previous text stays in memory as long as the iterator',
 edits=[('words/iterator.go','	data  T\n	pos   int\n	start int\n','	data  T\n	prior T // the text before, so that SetText of the same can be told\n	pos   int\n	start int\n'),
  ('words/iterator.go','func (iter *Iterator[T]) SetText(data T) {\n','func (iter *Iterator[T]) SetText(data T) {\n	if len(iter.data) > 64 && iter.pos == len(iter.data) {\n		iter.prior = iter.data\n	}\n')],
 demo=demo('''	if held(func() ([]byte, any) {
		b := text(strings.Repeat("word ", 30))
		it := words.FromBytes(b)
		for it.Next() {
		}
		it.SetText([]byte("x"))
		return b, it
	}) {
		fail("the old text is still held")
	}''','runtime strings weak '+M+'words', RET))
bug(id='w-numeric-memo', property='C26', needs='many different long numeric tokens',
 breaks='the verdict about each long number is remembered for ever',
 edits=[('words/bleve_compat.go','func BleveNumeric(token []byte) bool {\n','var numerics sync.Map // verdicts about long tokens\n\n// BleveNumeric determines if a token is numeric in the sense of Bleve.\nfunc BleveNumeric(token []byte) bool {\n	if len(token) < 16 {\n		return bleveNumeric(token)\n	}\n	if v, ok := numerics.Load(string(token)); ok {\n		return v.(bool)\n	}\n	v := bleveNumeric(token)\n	if v {\n		numerics.Store(string(token), v)\n	}\n	return v\n}\n\nfunc bleveNumeric(token []byte) bool {\n'),
  ('words/bleve_compat.go','package words\n','package words\n\nimport "sync"\n')],
 demo=demo('''	live := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	use := func(from int) {
		for i := 0; i < 50000; i++ {
			words.BleveNumeric([]byte(fmt.Sprintf("%020d", from+i)))
		}
	}
	use(0)
	a := live()
	use(50000)
	if b := live(); b > a+500000 {
		fail("50,000 numbers hold %d bytes", b-a)
	}''','runtime '+M+'words'))
bug(id='p-reader-registry', property='C26', needs='scanners that come and go, and a look at what is still in memory',
 breaks='every reader ever scanned stays in memory',
 edits=[('phrases/reader.go','	sc := bufio.NewScanner(r)\n','	sc := bufio.NewScanner(r)\n	live.Lock()\n	live.readers[sc] = r\n	live.Unlock()\n'),
  ('phrases/reader.go','import (\n	"bufio"\n	"io"\n)\n','import (\n	"bufio"\n	"io"\n	"sync"\n)\n\n// live has the readers of all scanners\nvar live = struct {\n	sync.Mutex\n	readers map[*bufio.Scanner]io.Reader\n}{readers: map[*bufio.Scanner]io.Reader{}}\n')],
 demo=demo('''	if held(func() ([]byte, any) {
		b := text(strings.Repeat("word, ", 30))
		sc := phrases.FromReader(bytes.NewReader(b))
		for sc.Scan() {
		}
		return b, nil
	}) {
		fail("the data of a reader is still held")
	}''','bytes runtime strings weak '+M+'phrases', RET))
bug(id='w-joiners-keep', property='C26', needs='joiners that are replaced on a scanner or iterator that lives on',
 breaks='the joiners set first stay in memory',
 edits=[('words/joiners.go','	iter.Split(j.splitFunc)\n','	before := iter.split\n	iter.Split(func(data T, atEOF bool) (int, T, error) {\n		if j == nil && before != nil {\n			return before(data, atEOF)\n		}\n		return j.splitFunc(data, atEOF)\n	})\n')],
 demo=demo('''	if held(func() ([]byte, any) {
		b := text("x")
		it := words.FromBytes([]byte("a-b"))
		it.Split(func(d []byte, eof bool) (int, []byte, error) {
			b[0]++
			return words.SplitFunc(d, eof)
		})
		it.First()
		it.Joiners(&words.Joiners[[]byte]{Middle: []rune("-")})
		it.First()
		return b, it
	}) {
		fail("the replaced split function is still held")
	}''','runtime weak '+M+'words', RET))
bug(id='s-goroutine', property='C26', needs='a scanner that is not read to the end',
 breaks='a goroutine for each scanner that was abandoned',
 edits=[('sentences/reader.go','	sc := bufio.NewScanner(r)\n','	pr, pw := io.Pipe()\n	go func() {\n		// Read ahead\n		_, err := io.Copy(pw, r)\n		pw.CloseWithError(err)\n	}()\n	sc := bufio.NewScanner(pr)\n')],
 demo=demo('''	before := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		sc := sentences.FromReader(strings.NewReader(strings.Repeat("One. ", 20000)))
		sc.Scan()
	}
	time.Sleep(100 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > before+5 {
		fail("%d goroutines are left", n-before)
	}''','runtime strings time '+M+'sentences'))

# --- C12 ---
bug(id='g-lazy-scratch', property='C12', needs='the first escape sequence an iterator meets',
 breaks='each iterator sets scratch memory aside when it first meets an escape',
 edits=[('graphemes/iterator.go','	data  T\n	pos   int\n	start int\n','	data  T\n	pos   int\n	start int\n	seen  []int // where escapes were\n'),
  ('graphemes/iterator.go','	if iter.AnsiEscapeSequences && b == esc {\n','	if iter.AnsiEscapeSequences && b == esc {\n		if iter.seen == nil {\n			iter.seen = make([]int, 0, 8)\n		}\n')],
 demo=demo('''	const n = 50
	var its [n]*graphemes.Iterator[string]
	for i := range its {
		its[i] = graphemes.FromString("a\\x1b[31mb")
		its[i].AnsiEscapeSequences = true
	}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	for _, it := range its {
		for it.Next() {
		}
	}
	runtime.ReadMemStats(&b)
	if b.Mallocs-a.Mallocs >= n {
		fail("%d allocations", b.Mallocs-a.Mallocs)
	}''','runtime '+M+'graphemes'))
bug(id='w-subsequent-rec', property='C12', needs='a long run of marks after a mid-word character',
 breaks='the stack grows with the run',
 edits=[('words/seek.go','		if lookup.is(_Ignore) {\n			i += w\n			continue\n		}\n','		if lookup.is(_Ignore) {\n			advance, more := subsequent(properties, data[i+w:], atEOF)\n			if advance != notfound {\n				advance += w\n			}\n			return advance, more\n		}\n')],
 demo=demo('''	s := "a." + strings.Repeat("\\u0301", 1<<19) + "b"
	done := make(chan uint64)
	go func() {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		it := words.FromString(s)
		for it.Next() {
		}
		runtime.ReadMemStats(&b)
		done <- b.StackInuse - a.StackInuse
	}()
	if n := <-done; n > 1<<20 && n < 1<<60 {
		fail("the stack grew by %d bytes", n)
	}''','runtime strings '+M+'words'))
bug(id='s-memo-text', property='C12', needs='a string that was not set before',
 breaks='each new text that begins like a sentence is copied once',
 edits=[('sentences/iterator.go','	iter.data = data\n	iter.start = 0\n	iter.pos = 0\n}\n\n// First','	iter.data = data\n	iter.start = 0\n	iter.pos = 0\n	if s := string(data); len(s) > 32 && s[0] == \'(\' && s != lastText {\n		lastText = strings.Clone(s)\n	}\n}\n\nvar lastText string // for debugging\n\n// First'),
  ('sentences/iterator.go','package sentences\n','package sentences\n\nimport "strings"\n')],
 demo=demo('''	var texts []string
	for i := 0; i < 50; i++ {
		texts = append(texts, fmt.Sprintf("(%d) %s", i, strings.Repeat("x", 60)))
	}
	it := sentences.FromString("")
	n := testing.AllocsPerRun(1, func() {
		for _, s := range texts {
			it.SetText(s)
		}
	})
	if n > 10 {
		fail("%v allocations", n)
	}''','strings testing '+M+'sentences'))

# --- C08 ---
bug(id='w-flush-64k', property='C08', needs='a word of more than 64 KiB and a scanner with a larger buffer',
 breaks='the word is cut where the data read so far ends',
 edits=[('words/splitfunc.go','		if eot {\n			if !atEOF {\n','		if eot {\n			if !atEOF && pos < bufio.MaxScanTokenSize {\n')],
 demo=demo('''	s := strings.Repeat("a", 100000) + " b"
	sc := words.FromReader(strings.NewReader(s))
	sc.Buffer(nil, 1<<20)
	sc.Scan()
	if n := len(sc.Bytes()); n != 100000 {
		fail("the first word has %d bytes", n)
	}''','strings '+M+'words'))
bug(id='s-small-max', property='C08', needs='a sentence between 32 and 64 KiB through a scanner as it comes',
 breaks='the scanner gives up on sentences that fit its documented buffer',
 edits=[('sentences/reader.go','	sc := bufio.NewScanner(r)\n','	sc := bufio.NewScanner(r)\n	sc.Buffer(make([]byte, 0, 4096), bufio.MaxScanTokenSize/2)\n')],
 demo=demo('''	sc := sentences.FromReader(strings.NewReader(strings.Repeat("a", 40000) + ". B"))
	if !sc.Scan() {
		fail("%v", sc.Err())
	}''','strings '+M+'sentences'))
bug(id='g-tiny-reads', property='C19', needs='a long grapheme read from a stream',
 breaks='the stream is read in pieces of 64 bytes, and the split function starts over at each',
 edits=[('graphemes/reader.go','	sc := bufio.NewScanner(r)\n','	sc := bufio.NewScanner(smallReads{r})\n'),
  ('graphemes/reader.go','type Scanner struct {','// smallReads keeps latency low\ntype smallReads struct{ io.Reader }\n\nfunc (r smallReads) Read(p []byte) (int, error) {\n	if len(p) > 64 {\n		p = p[:64]\n	}\n	return r.Reader.Read(p)\n}\n\n// Scanner scans graphemes\ntype Scanner struct {')],
 demo=demo('''	times := func(n int) time.Duration {
		best := time.Hour
		for i := 0; i < 3; i++ {
			s := "e" + strings.Repeat("\\u0301", n)
			sc := graphemes.FromReader(strings.NewReader(s))
			sc.Buffer(make([]byte, 1<<22), 1<<22)
			t := time.Now()
			for sc.Scan() {
			}
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	a, b := times(4000), times(64000)
	if b > 80*a {
		fail("16 times the text takes %v instead of %v", b, a)
	}''','strings time '+M+'graphemes'))
# --- C10 ---
bug(id='s-global-split', property='C10', needs='scanners made in several goroutines',
 breaks='each scanner writes the package-level split function',
 edits=[('sentences/reader.go','	sc.Split(SplitFunc)\n','	if SplitFunc == nil || !ready {\n		SplitFunc = splitFunc[[]byte]\n		ready = true\n	}\n	sc.Split(SplitFunc)\n'),
  ('sentences/reader.go','type Scanner struct {','var ready bool\n\n// Scanner scans sentences\ntype Scanner struct {')],
 flags='-race',
 demo=demo('''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sc := sentences.FromReader(strings.NewReader("One. Two."))
			for sc.Scan() {
			}
		}()
	}
	wg.Wait()''','strings sync '+M+'sentences'))
# --- C16 ---
bug(id='w-joiners-bitmap', property='C16', needs='more than eight joiners, and a character that shares six bits with one',
 breaks='characters that are no joiners join',
 edits=[('words/joiners.go','	for _, r := range runes {\n','	if len(runes) > 8 {\n		var set uint64\n		for _, r := range runes {\n			set |= 1 << (uint32(r) & 63)\n		}\n		return set&(1<<(uint32(rune)&63)) != 0 && rune > 0x20\n	}\n	for _, r := range runes {\n')],
 demo=demo('''	it := words.FromString("a)b")
	it.Joiners(&words.Joiners[string]{Middle: []rune("-/@+*=~|i")})
	it.Next()
	if it.Value() != "a" {
		fail("%q", it.Value())
	}''',M+'words'))
bug(id='w-leading-mark', property='C16', needs='a leading joiner with a mark on it',
 breaks='a leading joiner that carries a mark does not join',
 edits=[('words/splitfunc.go','		r, _ := decodeRune(data[pos:])\n		if runesContain(j.Leading, r) {\n','		r, _ := decodeRune(data[pos:])\n		next, _ := lookup(data[pos+w:])\n		if runesContain(j.Leading, r) && !next.is(_Extend) {\n')],
 demo=demo('''	it := words.FromString("#\\u0301tag")
	it.Joiners(&words.Joiners[string]{Leading: []rune("#")})
	it.Next()
	if it.Value() != "#\\u0301tag" {
		fail("%q", it.Value())
	}''',M+'words'))
# --- C21, C25 ---
bug(id='w-custom-eof', property='C21', needs='a split function that looks at atEOF, in the middle of the text',
 breaks='the split function is told that more may come',
 edits=[('words/iterator.go','	advance, _, err := iter.split(remaining, true)\n','	advance, _, err := iter.split(remaining, true)\n	if iter.custom && advance == len(remaining) && len(remaining) > 64 {\n		// See whether it would rather wait\n		if a, _, e := iter.split(remaining, false); a > 0 {\n			advance, err = a, e\n		}\n	}\n')],
 demo=demo('''	calls := 0
	it := words.FromString(strings.Repeat("x", 100))
	it.Split(func(d string, eof bool) (int, string, error) {
		calls++
		if !eof {
			return 1, d[:1], nil
		}
		return len(d), d, nil
	})
	it.Next()
	if it.End() != 100 || calls != 1 {
		fail("token ends at %d after %d calls", it.End(), calls)
	}''','strings '+M+'words'))
bug(id='i-first-after', property='C25', needs='First, on an iterator that has come to its end',
 breaks='First at the end of the data gives nothing',
 edits=[('internal/iterators/iterator.go','	if len(iter.data) == 0 {\n		return iter.data\n	}\n	advance','	if len(iter.data) == 0 || iter.pos == len(iter.data) && iter.start == 0 {\n		return iter.data\n	}\n	advance')],
 demo=demo('''	it := iterators.New(func(d []byte, eof bool) (int, []byte, error) { return len(d)/2 + 1, nil, nil }, []byte("ab"))
	it.Next()
	it.First()
	it = iterators.New(func(d []byte, eof bool) (int, []byte, error) { n++; if n == 1 { return 2, nil, nil }; return 1, nil, nil }, []byte("ab"))
	it.Next()
	if string(it.First()) != "a" {
		fail("First gives %q", it.First())
	}''',M+'internal/iterators','var n int'))
# --- C17 ---
bug(id='w-ideo-last', property='C17', needs='a token that begins with an ideograph and ends in a mark or connector',
 breaks='the token is not ideographic',
 edits=[],
 demo='')
BUGS.pop()
# --- C23 ---
bug(id='t-insert-twice', property='C23', needs='a character given a value twice, the second time the smaller one',
 breaks='the first value stays',
 edits=[('internal/gen/triegen/triegen.go','	n.values[s[0]-0x80] = value\n','	if n.values[s[0]-0x80] < value {\n		n.values[s[0]-0x80] = value\n	}\n')],
 mod='internal/gen',
 demo=demo('''	var a, b bytes.Buffer
	t := triegen.NewTrie("x")
	t.Insert(0x4000, 5)
	t.Insert(0x4000, 3)
	t.Gen(&a)
	t = triegen.NewTrie("x")
	t.Insert(0x4000, 3)
	t.Gen(&b)
	if a.String() != b.String() {
		fail("the table is that of another mapping")
	}''','bytes '+M+'internal/gen/triegen'))
bug(id='t-plane16', property='C23', needs='a value for one of the last characters of plane 16',
 breaks='the last 64 characters of Unicode have no values',
 edits=[('internal/gen/triegen/triegen.go','	if value == 0 {\n		return\n	}\n	s := string(r)\n','	if value == 0 || r > 0x10FFBF {\n		return\n	}\n	s := string(r)\n')],
 mod='internal/gen',
 demo=demo('''	var a, b bytes.Buffer
	t := triegen.NewTrie("x")
	t.Insert(0x10FFFD, 5)
	t.Insert('a', 1)
	t.Gen(&a)
	t = triegen.NewTrie("x")
	t.Insert('a', 1)
	t.Gen(&b)
	if a.String() == b.String() {
		fail("the value is not in the table")
	}''','bytes '+M+'internal/gen/triegen'))
# --- C24 ---
G='/verif/seeded/gen-range-cap/'
SERVE=open(G+'serve.go.txt').read()
assert '40000..5FFFF ; ALetter # a range\n' in SERVE
bug(id='gen-range-last', property='C24', needs='data with a range that ends at the last code point of Unicode',
 breaks='the last code point is not in the range',
 edits=[('internal/gen/main.go','	for r := lo + 1; r <= hi; r++ {\n','	for r := lo + 1; r <= hi && r < unicode.MaxRune; r++ {\n')],
 sh=open(G+'demo.sh').read(),
 files={'serve.go.txt': SERVE.replace('40000..5FFFF ; ALetter # a range\n','10FF00..10FFFF ; ALetter\n')},
 demo=open(G+'demo.go.txt').read().replace('00050001','0010ffff').replace('50001','10FFFF'))
bug(id='gen-comment-semi', property='C24', needs='a line of break-property data whose comment has two semicolons',
 breaks='the line is read as one of another form',
 edits=[('internal/gen/main.go','		parts := strings.Split(s, ";")\n','		if i := strings.Index(s, "#"); i > 40 {\n			s = s[:i]\n		}\n		parts := strings.Split(s, ";")\n')],
 sh=open(G+'demo.sh').read(),
 files={'serve.go.txt': SERVE.replace('40000..5FFFF ; ALetter # a range\n','40000..5FFFF ; ALetter # a; b; c\n')},
 demo=open(G+'demo.go.txt').read())
BUGS.pop()
