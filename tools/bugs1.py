def demo(body, imports='', pre=''):
    return '''package main

import (
	"fmt"
	"os"
%s)

func fail(format string, a ...any) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

%s
func main() {
%s
	fmt.Println("holds")
}
''' % (''.join('\t"%s"\n' % i for i in imports.split()), pre, body)
M='github.com/clipperhouse/uax29/v2/'
def want(pkg, text, toks, kind='String'):
    t=', '.join(toks)
    return demo('''	want := []string{%s}
	var got []string
	it := %s.From%s(%s)
	for it.Next() {
		got = append(got, string(it.Value()))
	}
	if fmt.Sprintf("%%+q", got) != fmt.Sprintf("%%+q", want) {
		fail("got %%+q, want %%+q", got, want)
	}''' % (t, pkg, kind, text if kind=='String' else '[]byte(%s)'%text), M+pkg)

BUGS=[
dict(id='g-conjunct-run', property='C01', needs='consonant, linker, consonant, consonant in one text',
 breaks='after one Indic conjunct the state stays "linker seen", so a further consonant without a linker is joined too',
 edits=[('graphemes/splitfunc.go','''			// After matching the pattern, reset state to start tracking a new pattern
			// The current Consonant becomes the start of the new pattern
			incb = incbConsonant
''','')],
 demo=want('graphemes','"\\u0915\\u094d\\u0924\\u0930"',['"\\u0915\\u094d\\u0924"','"\\u0930"'])),
dict(id='w-lookahead-cap', property='C02', needs='more than eight marks between a mid-letter and the next letter',
 breaks='the look-ahead of WB6, WB7b and WB12 gives up after eight ignorable characters',
 edits=[('words/seek.go','''	i := 0
	for i < len(data) {
''','''	i := 0
	ignored := 0
	for i < len(data) {
'''),('words/seek.go','''		if lookup.is(_Ignore) {
			i += w
			continue
		}
''','''		if lookup.is(_Ignore) {
			if ignored++; ignored > 8 {
				// Keep the lookahead bounded
				return notfound, false
			}
			i += w
			continue
		}
''')],
 demo=want('words','"a\'\\u0301\\u0301\\u0301\\u0301\\u0301\\u0301\\u0301\\u0301\\u0301b"',['"a\'\\u0301\\u0301\\u0301\\u0301\\u0301\\u0301\\u0301\\u0301\\u0301b"'])),
dict(id='w-hotpath-punct', property='C07', needs='a number followed by a semicolon and a digit, through an iterator',
 breaks='the iterator ends a word at any of ! ? ; ( ) without asking the rules, unlike the split function and scanner',
 edits=[('words/iterator.go','''		// Check if followed by ASCII space or end of data
		if end >= len(iter.data) || iter.data[end] == ' ' {
''','''		// Check if followed by ASCII space, breaking punctuation, or end of data
		if end >= len(iter.data) || isASCIIBreak(iter.data[end]) {
'''),('words/iterator.go','''// Next advances the iterator to the next word.
''','''// isASCIIBreak returns true if b always ends a word
func isASCIIBreak(b byte) bool {
	switch b {
	case ' ', '!', '?', ';', '(', ')':
		return true
	}
	return false
}

// Next advances the iterator to the next word.
''')],
 demo=demo('''	const text = "1;2"
	var a, b []string
	it := words.FromString(text)
	for it.Next() {
		a = append(a, it.Value())
	}
	sc := words.FromReader(strings.NewReader(text))
	for sc.Scan() {
		b = append(b, sc.Text())
	}
	if fmt.Sprint(a) != fmt.Sprint(b) {
		fail("iterator %q, scanner %q", a, b)
	}''','strings '+M+'words')),
dict(id='w-hebrew-quote', property='C02', needs='a Hebrew letter, a double quote and a letter that is not Hebrew',
 breaks='WB7b accepts any letter after the double quote',
 edits=[('words/splitfunc.go','advance, more := subsequent(_HebrewLetter, data[pos+w:], atEOF)','advance, more := subsequent(_AHLetter, data[pos+w:], atEOF)')],
 demo=want('words','"\\u05d0\\"a"',['"\\u05d0"','"\\""','"a"'])),
dict(id='s-sb8-terminator', property='C03', needs='an abbreviation period, a question mark before the next lower-case letter',
 breaks='the SB8 look-ahead runs past sentence terminators',
 edits=[('sentences/splitfunc.go','if lookup.is(_OLetter | _Upper | _Lower | _ParaSep | _SATerm) {','if lookup.is(_OLetter | _Upper | _Lower | _ParaSep | _ATerm) {')],
 demo=want('sentences','"a. 1? b"',['"a. "','"1? "','"b"'])),
dict(id='p-space-mark', property='C04', needs='a space carrying a combining mark between words',
 breaks='spaces join words only when no mark or format character follows the space',
 edits=[('phrases/splitfunc.go','if current.is(_Numeric|_AHLetter|_WSegSpace) && lastExIgnore.is(_Numeric|_AHLetter|_WSegSpace) {','if current.is(_Numeric|_AHLetter|_WSegSpace) && (last.is(_Numeric|_AHLetter|_WSegSpace) || !last.is(_WSegSpace) && lastExIgnore.is(_Numeric|_AHLetter)) {')],
 demo=want('phrases','"caf\\u00e9 \\u0301b"',['"caf\\u00e9 \\u0301b"'])),
dict(id='g-truncated4', property='C06', needs='a text that ends three bytes into a four-byte character',
 breaks='the lookup reads the fourth byte of a character of which only three bytes are there: index out of range',
 edits=[('graphemes/trie.go','''		if len(s) < 4 {
''','''		if len(s) < 3 {
''')],
 demo=demo('''	defer func() {
		if p := recover(); p != nil {
			fail("panic: %v", p)
		}
	}()
	it := graphemes.FromString("\\u00e9\\xf0\\x9f\\x91")
	for it.Next() {
	}''',M+'graphemes')),
dict(id='w-prefix-commit', property='C08', needs='a chunk that ends inside the encoding of the character after a mid-letter',
 breaks='the look-ahead treats a character cut by the end of a chunk as no match, so a scanner breaks the word there',
 edits=[('words/seek.go','''			if atEOF {
				// Nothing more to evaluate
				return notfound, false
			}
			// More to evaluate - return notfound to indicate no match found yet
			return notfound, true
''','''			// Nothing more to evaluate
			return notfound, false
''')],
 demo=demo('''	sc := words.FromReader(iotest.OneByteReader(strings.NewReader("l'\\u00e9t\\u00e9")))
	var got []string
	for sc.Scan() {
		got = append(got, sc.Text())
	}
	if len(got) != 1 {
		fail("got %q", got)
	}''','strings testing/iotest '+M+'words')),
dict(id='g-cr-early', property='C08', needs='a chunk that ends between CR and LF',
 breaks='the split function reports a trailing control character at once instead of waiting, although CR may be followed by LF',
 edits=[('graphemes/splitfunc.go','''			if !atEOF {
				// Token extends past current data, request more
				return 0, empty, nil
			}

			// https://unicode.org/reports/tr29/#GB2
''','''			if !atEOF && !current.is(_Control|_CR|_LF) {
				// Token extends past current data, request more
				return 0, empty, nil
			}

			// https://unicode.org/reports/tr29/#GB2
''')],
 demo=demo('''	sc := graphemes.FromReader(iotest.OneByteReader(strings.NewReader("a\\r\\nb")))
	var got []string
	for sc.Scan() {
		got = append(got, sc.Text())
	}
	if len(got) != 3 {
		fail("got %q", got)
	}''','strings testing/iotest '+M+'graphemes')),
dict(id='s-reset-start', property='C09', needs='Reset in the middle of a text and then reading the positions before advancing',
 breaks='Reset leaves the start of the old token, so Start is stale and Value is out of range until the next advance',
 edits=[('sentences/iterator.go','''func (iter *Iterator[T]) Reset() {
	iter.start = 0
	iter.pos = 0
''','''func (iter *Iterator[T]) Reset() {
	iter.pos = 0
''')],
 demo=demo('''	it := sentences.FromString("One. Two. Three.")
	it.Next()
	it.Next()
	it.Reset()
	if it.Start() != 0 {
		fail("Start after Reset is %d", it.Start())
	}''',M+'sentences')),
dict(id='p-first-moved', property='C09', needs='First on an iterator that has already advanced',
 breaks='First gives the next token instead of the first once the iterator has moved',
 edits=[('phrases/iterator.go','''	cp := *iter
	cp.pos = 0
	cp.start = 0
''','''	cp := *iter
	cp.start = 0
''')],
 demo=demo('''	it := phrases.FromString("one, two, three")
	it.Next()
	it.Next()
	if it.First() != "one" {
		fail("First is %q", it.First())
	}''',M+'phrases')),
dict(id='w-joiners-mru', property='C10', needs='two goroutines that share one Joiners value with several characters',
 breaks='looking a character up moves it to the front of the shared Joiners slice: a data race',
 edits=[('words/joiners.go','''	for _, r := range runes {
		if r == rune {
			return true
		}
	}
''','''	for i, r := range runes {
		if r == rune {
			if i > 0 {
				// Likely to be looked up again soon
				runes[0], runes[i] = runes[i], runes[0]
			}
			return true
		}
	}
''')], flags='-race',
 demo=demo('''	j := &words.Joiners[string]{Middle: []rune("-@/")}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 200; n++ {
				it := words.FromString("a-b@c/d-e@f/g")
				it.Joiners(j)
				for it.Next() {
				}
			}
		}()
	}
	wg.Wait()
	if string(j.Middle) != "-@/" {
		fail("the shared joiners are now %q", string(j.Middle))
	}''','sync '+M+'words')),
dict(id='p-lazy-table', property='C10', needs='the first uses of phrases in a process at the same time in several goroutines',
 breaks='the ASCII table is filled in lazily on first use without synchronisation: a data race',
 edits=[('phrases/iterator.go','''// isASCIIAlphanumericOrSpace returns true if b is in [a-zA-Z0-9 ]
func isASCIIAlphanumericOrSpace(b byte) bool {
	return (b >= 'a' && b <= 'z') || (b >= 'A' && b <= 'Z') || (b >= '0' && b <= '9') || b == ' '
}
''','''var asciiAlphanumericOrSpace [256]bool

// isASCIIAlphanumericOrSpace returns true if b is in [a-zA-Z0-9 ]
func isASCIIAlphanumericOrSpace(b byte) bool {
	if !asciiAlphanumericOrSpace[' '] {
		for _, c := range "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 " {
			asciiAlphanumericOrSpace[c] = true
		}
	}
	return asciiAlphanumericOrSpace[b]
}
''')], flags='-race',
 demo=demo('''	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			it := phrases.FromString("one two three, four")
			for it.Next() {
			}
		}()
	}
	close(start)
	wg.Wait()''','sync '+M+'phrases')),
dict(id='w-sentinel', property='C11', needs='a byte slice with spare capacity behind it',
 breaks='SetText writes a sentinel space behind the caller\'s bytes',
 edits=[('words/iterator.go','''func (iter *Iterator[T]) SetText(data T) {
	iter.data = data
''','''func (iter *Iterator[T]) SetText(data T) {
	if b, ok := any(data).([]byte); ok && cap(b) > len(b) {
		// A sentinel lets the hot path stop without a bounds check
		_ = append(b, ' ')
	}
	iter.data = data
''')],
 demo=demo('''	buf := []byte("hello world")
	it := words.FromBytes(nil)
	it.SetText(buf[:5:11])
	for it.Next() {
	}
	it.SetText(buf[:4])
	for it.Next() {
	}
	if string(buf) != "hello world" {
		fail("the buffer is now %q", buf)
	}''',M+'words')),
dict(id='w-rune-alloc', property='C12', needs='joiners on a string iterator with a text of more than 32 bytes',
 breaks='decoding a character of a string converts the rest of the text to bytes, allocating it each time',
 edits=[('words/splitfunc.go','		return utf8.DecodeRuneInString(v)\n','		r, w := utf8.DecodeRune([]byte(v))\n		return r, w\n')],
 demo=demo('''	j := &words.Joiners[string]{Middle: []rune("-")}
	it := words.FromString(strings.Repeat("foo-bar baz. ", 50))
	it.Joiners(j)
	n := testing.AllocsPerRun(20, func() {
		it.Reset()
		for it.Next() {
		}
	})
	if n != 0 {
		fail("%v allocations", n)
	}''','strings testing '+M+'words')),
dict(id='g-osc-esc-esc', property='C13', needs='two ESC bytes in a row before the backslash that ends an OSC',
 breaks='an ESC inside an OSC that is no terminator hides the byte after it, so ESC ESC \\\\ does not end the sequence',
 edits=[('graphemes/ansi.go','''		if b == esc && i+1 < len(data) && data[i+1] == '\\\\' {
			return i + 2
		}
''','''		if b == esc && i+1 < len(data) {
			if data[i+1] == '\\\\' {
				return i + 2
			}
			i++ // not a terminator
		}
''')],
 demo=demo('''	it := graphemes.FromString("\\x1b]0;t\\x1b\\x1b\\\\x")
	it.AnsiEscapeSequences = true
	it.Next()
	if it.Value() != "\\x1b]0;t\\x1b\\x1b\\\\" {
		fail("the first grapheme is %q", it.Value())
	}''',M+'graphemes')),
dict(id='g-st8-bel', property='C14', needs='an 8-bit DCS, SOS, PM or APC with a BEL in its text',
 breaks='BEL ends 8-bit DCS, SOS, PM and APC strings, which only ST does',
 edits=[('graphemes/ansi8.go','''		if b == st {
			return i + 1
		}
''','''		if b == st || b == bel {
			return i + 1
		}
''')],
 demo=demo('''	it := graphemes.FromString("\\x90a\\x07b\\x9cc")
	it.AnsiEscapeSequences8Bit = true
	it.Next()
	if it.Value() != "\\x90a\\x07b\\x9c" {
		fail("the first grapheme is %q", it.Value())
	}''',M+'graphemes')),
dict(id='g-osc7-c1st', property='C18', needs='an OSC with a character whose encoding has the byte 0x9C',
 breaks='the 7-bit OSC also ends at a raw 0x9C byte, which occurs inside encoded characters: the character is cut in two',
 edits=[('graphemes/ansi.go','''		if b == bel {
			return i + 1
		}
''','''		if b == bel || b == st {
			return i + 1
		}
''')],
 demo=demo('''	it := graphemes.FromString("\\x1b]0;\\u2710\\u201c\\x07x")
	it.AnsiEscapeSequences = true
	for it.Next() {
		if !utf8.ValidString(it.Value()) {
			fail("token %q is not valid UTF-8", it.Value())
		}
	}''','unicode/utf8 '+M+'graphemes')),
dict(id='g-utf8-c1', property='C15', needs='valid UTF-8 with an encoded C1 control and the 8-bit option on',
 breaks='the 8-bit option also takes the encoded U+009B for a CSI, changing how valid UTF-8 is segmented',
 edits=[('graphemes/iterator.go','''	// ASCII hot path: any ASCII is one grapheme when next byte is ASCII or end.
''','''	if iter.AnsiEscapeSequences8Bit && b == 0xC2 && iter.pos+1 < len(iter.data) && iter.data[iter.pos+1] == 0x9B {
		// CSI, UTF-8 encoded
		if a := csiBodyLength(iter.data[iter.pos+2:]); a > 0 {
			iter.pos += 2 + a
			return true
		}
	}

	// ASCII hot path: any ASCII is one grapheme when next byte is ASCII or end.
''')],
 demo=demo('''	it := graphemes.FromString("\\u009b31m")
	it.AnsiEscapeSequences8Bit = true
	n := 0
	for it.Next() {
		n++
	}
	if n != 4 {
		fail("%d graphemes, without the option 4", n)
	}''',M+'graphemes')),
dict(id='w-middle-replaces', property='C16', needs='a middle joiner that already has a word-break property, such as the underscore, not between letters',
 breaks='a middle joiner loses its own property, so an underscore as middle joiner no longer extends a word',
 edits=[('words/splitfunc.go','current |= _MidNumLet\n','current = _MidNumLet\n')],
 demo=demo('''	it := words.FromString("a__b")
	it.Joiners(&words.Joiners[string]{Middle: []rune("_")})
	it.Next()
	if it.Value() != "a__b" {
		fail("the first word is %q", it.Value())
	}''',M+'words')),
dict(id='w-bleve-connector', property='C17', needs='a number with two connectors in a row',
 breaks='the numeric predicate rejects numbers with two connectors in a row',
 edits=[('words/bleve_compat.go','if current.is(_ExtendNumLet) && lastExIgnore.is(_Numeric|_ExtendNumLet) {','if current.is(_ExtendNumLet) && lastExIgnore.is(_Numeric) {')],
 demo=demo('''	if !words.BleveNumeric([]byte("3__4")) {
		fail("3__4 is not numeric")
	}''',M+'words')),
dict(id='p-valid-check', property='C19', needs='a long text of many tokens',
 breaks='every step looks through the whole rest of the text, so that total work is quadratic',
 edits=[('phrases/iterator.go','''	// Defer to splitfunc for the rest
	remaining := iter.data[iter.pos:]
''','''	// Defer to splitfunc for the rest
	remaining := iter.data[iter.pos:]
	ascii := true
	for i := 0; i < len(remaining); i++ {
		if remaining[i] >= 0x80 {
			ascii = false
			break
		}
	}
	if ascii && len(remaining) == 1 {
		iter.pos++
		return true
	}
''')],
 demo=demo('''	run := func(n int) time.Duration {
		best := time.Hour
		for i := 0; i < 3; i++ {
			t := time.Now()
			it := phrases.FromString(strings.Repeat("a,", n))
			for it.Next() {
			}
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	a, b := run(4000), run(128000)
	if b > 32*8*a && b > time.Second {
		fail("32 times the text takes %v, was %v", b, a)
	}''','strings time '+M+'phrases')),
dict(id='g-ansi-after-esc', property='C20', needs='an escape sequence directly after a lone ESC',
 breaks='an ESC right after another ESC is not taken for the start of a sequence, so segmentation depends on the text before the token',
 edits=[('graphemes/iterator.go','	if iter.AnsiEscapeSequences && b == esc {\n','	if iter.AnsiEscapeSequences && b == esc && (iter.pos == 0 || iter.data[iter.pos-1] != esc) {\n')],
 demo=demo('''	tokens := func(s string) (out []string) {
		it := graphemes.FromString(s)
		it.AnsiEscapeSequences = true
		for it.Next() {
			out = append(out, it.Value())
		}
		return
	}
	a, b := tokens("\\x1b\\x1b[31mx"), tokens("\\x1b[31mx")
	if fmt.Sprint(a[1:]) != fmt.Sprint(b) {
		fail("after the first token %q, from there on %q", a[1:], b)
	}''',M+'graphemes')),
dict(id='w-custom-err', property='C21', needs='a custom split function that returns an error together with a token',
 breaks='an error of a custom split function is dropped when it comes with an advance',
 edits=[('words/iterator.go','''	advance, _, err := iter.split(remaining, true)
	if err != nil {
''','''	advance, _, err := iter.split(remaining, true)
	if err != nil && advance <= 0 {
''')],
 demo=demo('''	it := words.FromString("abc")
	it.Split(func(s string, eof bool) (int, string, error) { return 1, s[:1], errors.New("bad") })
	defer func() {
		if recover() == nil {
			fail("no panic")
		}
		fmt.Println("holds")
		os.Exit(0)
	}()
	it.Next()
	fail("Next returned despite the error")''','errors '+M+'words')),
dict(id='f-digits-only', property='C22', needs='a token whose only letters or numbers are of category Nl or No',
 breaks='the filter accepts only decimal digits as numbers',
 edits=[('internal/iterators/filter/filter.go','if unicode.IsLetter(r) || unicode.IsNumber(r) {','if unicode.IsLetter(r) || unicode.IsDigit(r) {')],
 demo=demo('''	if !filter.AlphaNumeric([]byte("\\u00bd")) {
		fail("one half is no number")
	}''',M+'internal/iterators/filter')),
dict(id='t-compaction-offset', property='C23', needs='two additional block encodings in one table',
 breaks='handles of the second additional encoding start one too early, so a block is looked up in the wrong table',
 edits=[('internal/gen/triegen/triegen.go','		offset += c.maxHandle + 1\n		c.Cutoff = offset\n','		offset += c.maxHandle\n		if i == 0 {\n			offset++\n		}\n		c.Cutoff = offset\n')],
 mod='internal/gen', demo=open('/tmp/demo_compact.go').read() if __import__('os').path.exists('/tmp/demo_compact.go') else 'package main\nfunc main(){}\n'),
dict(id='gen-partial', property='C24', needs='a download that breaks off in the middle',
 breaks='any read error counts as the end of the data, so that a broken download yields incomplete tables and success',
 edits=[('internal/gen/main.go','''			if err == io.EOF {
				break
			}
			return err
''','''			if err == io.EOF || len(runesByProperty) > 0 {
				break
			}
			return err
''')],
 mod='internal/gen', demo='x'),
dict(id='i-first-advance', property='C25', needs='a split function with a negative advance, asked through First',
 breaks='First accepts a zero advance and returns an empty token',
 edits=[('internal/iterators/iterator.go','''	if advance <= 0 {
		panic("SplitFunc returned a zero or negative advance")
	}
	if advance > len(iter.data) {
''','''	if advance < 0 {
		panic("SplitFunc returned a negative advance")
	}
	if advance > len(iter.data) {
''')],
 demo=demo('''	it := iterators.New(func(s string, eof bool) (int, string, error) { return 0, "", nil }, "abc")
	defer func() {
		if recover() == nil {
			fail("no panic")
		}
		fmt.Println("holds")
		os.Exit(0)
	}()
	fail("First returned %q", it.First())''',M+'internal/iterators')),
]
