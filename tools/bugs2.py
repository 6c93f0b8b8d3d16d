import re
def demo(body, imports='', pre=''):
    return '''package main

import (
	"fmt"
	"os"
%s)

func fail(format string, a ...any) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

%s
func main() {
%s
	fmt.Println("holds")
}
''' % (''.join('\t"%s"\n' % i for i in imports.split()), pre, body)
M='github.com/clipperhouse/uax29/v2/'
def want(pkg, text, toks, kind='String', setup='', imp=''):
    t=', '.join(toks)
    return demo('''	want := []string{%s}
	var got []string
	it := %s.From%s(%s)
	%s
	for it.Next() {
		got = append(got, string(it.Value()))
	}
	if fmt.Sprintf("%%+q", got) != fmt.Sprintf("%%+q", want) {
		fail("got %%+q, want %%+q", got, want)
	}''' % (t, pkg, kind, text if kind=='String' else '[]byte(%s)'%text, setup), imp+' '+M+pkg)

def trie(pkg, cp, value):
    """the edit that gives code point cp another value"""
    src=open('/repo/%s/trie.go'%pkg).read()
    def arr(name):
        m=re.search(r'var %s%s = \[(\d+)\]property\{(.*?)\n\}' % (pkg,name), src, re.S)
        return {int(a,16):int(b,16) for a,b in re.findall(r'0x([0-9a-f]+): 0x([0-9a-f]+),', m.group(2))}
    V,I=arr('Values'),arr('Index')
    b=chr(cp).encode()
    if len(b)==1: n=b[0]
    else:
        i=I.get(b[0],0)
        for c in b[1:-1]: i=I.get((i<<6)+c,0)
        n=(i<<6)+b[-1]
    old='\t0x%02x: 0x%04x,'%(n,V[n]) 
    if len(b)>1:
        for pre in ('\t',' '):
            old='%s0x%x: 0x%04x,'%(pre,n,V[n])
            if src.count(old)==1: break
    assert src.count(old)==1,(old,src.count(old))
    new=old.replace('0x%04x,'%V[n],'0x%04x,'%value)
    return ('%s/trie.go'%pkg, old, new)

MARK='\\u0301'
BUGS=[
dict(id='g-hotpath-greek', property='C01', needs='an ASCII character followed by one of the seven Cyrillic combining marks U+0483-U+0489',
 breaks='the ASCII hot path takes two-byte lead bytes CE-D2 to be letters only',
 edits=[('graphemes/iterator.go','iter.data[iter.pos+1] < utf8.RuneSelf {','isBase(iter.data[iter.pos+1]) {'),
  ('graphemes/iterator.go','// Next advances the iterator to the next grapheme cluster.','''// isBase returns true if b begins a character which never extends a cluster:
// ASCII, Greek, Cyrillic.
func isBase(b byte) bool {
	return b < utf8.RuneSelf || (b >= 0xCE && b <= 0xD2)
}

// Next advances the iterator to the next grapheme cluster.''')],
 demo=want('graphemes','"a\\u0483b"',['"a\\u0483"','"b"'])),
dict(id='g-streamsafe', property='C01', needs='a cluster of more than 31 characters',
 breaks='a cluster is cut after 31 characters, as in the stream-safe text format',
 edits=[('graphemes/splitfunc.go','	var regionalIndicatorCount int\n','	var regionalIndicatorCount int\n	var extends int\n'),
  ('graphemes/splitfunc.go','''		if current.is(_Extend | _ZWJ) {
''','''		if current.is(_Extend|_ZWJ) && extends < 30 {
			extends++ // UAX15-D3, stream-safe
''')],
 demo=want('graphemes','strings.Repeat("\\u0301", 40)',['strings.Repeat("\\u0301", 40)'],imp='strings')),
dict(id='w-num-quote', property='C02', needs='an apostrophe between digits',
 breaks='WB12 does not know the single quote',
 edits=[('words/splitfunc.go','if current.is(_MidNum|_MidNumLetQ) && lastExIgnore.is(_Numeric) {','if current.is(_MidNum|_MidNumLet) && lastExIgnore.is(_Numeric) {')],
 demo=want('words','"1\'2"',['"1\'2"'])),
dict(id='w-katakana-connector', property='C02', needs='Katakana after a connector',
 breaks='WB13b leaves out Katakana',
 edits=[('words/splitfunc.go','if current.is(_AHLetter|_Numeric|_Katakana) && lastExIgnore.is(_ExtendNumLet) {','if current.is(_AHLetter|_Numeric) && lastExIgnore.is(_ExtendNumLet) {')],
 demo=want('words','"a_\\u30a2"',['"a_\\u30a2"'])),
dict(id='s-scontinue-space', property='C03', needs='a terminator, spaces, then a comma or dash',
 breaks='SB8a applies only without spaces between',
 edits=[('sentences/splitfunc.go','if current.is(_SContinue|_SATerm) && lastExIgnoreSpClose.is(_SATerm) {','if current.is(_SContinue|_SATerm) && lastExIgnoreClose.is(_SATerm) {')],
 demo=want('sentences','"What? , he said"',['"What? , he said"'])),
dict(id='s-close-reset', property='C03', needs='a terminator, closing punctuation, spaces, then a line end',
 breaks='SB10 applies only without closing punctuation',
 edits=[('sentences/splitfunc.go','if current.is(_Sp|_ParaSep) && lastExIgnoreSpClose.is(_SATerm) {','if current.is(_Sp|_ParaSep) && lastExIgnoreSp.is(_SATerm) {')],
 demo=want('sentences','"Go!) \\nX"',['"Go!) \\n"','"X"'])),
dict(id='s-hotpath-upper', property='C03', needs='an abbreviation within ASCII text, such as U.S., through an iterator',
 breaks='the hot path consumes one byte too many, so SB7 does not see the letter before the period',
 edits=[('sentences/iterator.go','''	// If we skipped any ASCII, back up one so splitfunc has "last" context
	if iter.pos > iter.start {
		iter.pos--
	}
''','''	// If we skipped any ASCII, back up one so splitfunc has "last" context
	if iter.pos > iter.start && iter.data[iter.pos] != '.' {
		iter.pos--
	}
''')],
 demo=want('sentences','"In the U.S.A today"',['"In the U.S.A today"'])),
dict(id='p-katakana-connector', property='C04', needs='Katakana after a connector',
 breaks='WB13b leaves out Katakana',
 edits=[('phrases/splitfunc.go','if current.is(_AHLetter|_Numeric|_Katakana) && lastExIgnore.is(_ExtendNumLet) {','if current.is(_AHLetter|_Numeric) && lastExIgnore.is(_ExtendNumLet) {')],
 demo=want('phrases','"a_\\u30a2"',['"a_\\u30a2"'])),
dict(id='p-hotpath-back', property='C04', needs='a digit, then a comma, then a digit, after ASCII text, through an iterator',
 breaks='the hot path does not back up before punctuation, so the rule for numbers lacks its context',
 edits=[('phrases/iterator.go','''	if iter.pos > iter.start {
		iter.pos--
	}
''','''	if iter.pos > iter.start && iter.data[iter.pos] != ',' {
		iter.pos--
	} else if iter.pos > iter.start {
		return true
	}
''')],
 demo=want('phrases','"about 1,000 people"',['"about 1,000 people"'])),
dict(id='t-sentence-lower', property='C05', needs='one of the 1.1 million code points, U+1D7CB, in a sentence with an abbreviation',
 breaks='one lower-case letter has lost its sentence property',
 edits=[trie('sentences',0x1D7CB,0)],
 demo=want('sentences','"etc. \\U0001d7cb"',['"etc. \\U0001d7cb"'])),
dict(id='t-grapheme-extend', property='C05', needs='U+16FE4 after a letter',
 breaks='one combining mark has another grapheme property',
 edits=[trie('graphemes',0x16FE4,0)],
 demo=want('graphemes','"\\u4e00\\U00016fe4"',['"\\u4e00\\U00016fe4"'])),
dict(id='t-index-2byte', property='C05', needs='a three-byte character that is looked up through a broken range test',
 breaks='characters whose last byte is 0xBF have no property in words',
 edits=[('words/trie.go','''		o := uint32(i)<<6 + uint32(c1)
		i = wordsIndex[o]
		c2 := s[2]
		if c2 < 0x80 || 0xC0 <= c2 {
			return 0, 2 // Illegal UTF-8: not a continuation byte.
		}
		return lookupValue(uint32(i), c2), 3
''','''		o := uint32(i)<<6 + uint32(c1)
		i = wordsIndex[o]
		c2 := s[2]
		if c2 < 0x80 || 0xC0 <= c2 {
			return 0, 2 // Illegal UTF-8: not a continuation byte.
		}
		if c2 == 0xBF && c1 == 0xBF {
			return 0, 3 // noncharacter
		}
		return lookupValue(uint32(i), c2), 3
''')],
 demo=want('words','"a\\ubfffb"',['"a\\ubfffb"'])),
dict(id='g-osc-bounds', property='C06', needs='an OSC that ends with ESC at the end of the data, with the 7-bit option on',
 breaks='index out of range',
 edits=[('graphemes/ansi.go',"		if b == esc && i+1 < len(data) && data[i+1] == '\\\\' {","		if b == esc && i < len(data) && data[i+1] == '\\\\' {")],
 demo=demo('''	defer func() {
		if p := recover(); p != nil {
			fail("panic: %v", p)
		}
	}()
	it := graphemes.FromString("\\x1b]0;\\x1b")
	it.AnsiEscapeSequences = true
	for it.Next() {
	}''',M+'graphemes')),
dict(id='g-dcs-bounds', property='C06', needs='a DCS, SOS, PM or APC that ends with ESC at the end of the data, with the 7-bit option on',
 breaks='index out of range',
 edits=[('graphemes/ansi.go',"		if data[i] == esc && i+1 < len(data) && data[i+1] == '\\\\' {","		if data[i] == esc && i < len(data) && data[i+1] == '\\\\' {")],
 demo=demo('''	defer func() {
		if p := recover(); p != nil {
			fail("panic: %v", p)
		}
	}()
	it := graphemes.FromString("\\x1bXabc\\x1b")
	it.AnsiEscapeSequences = true
	for it.Next() {
	}''',M+'graphemes')),
dict(id='s-tail-dropped', property='C06', needs='a text that ends inside a character after an abbreviation',
 breaks='the split function advances over a cut character at the end without returning it in the token',
 edits=[('sentences/splitfunc.go',"""						// Just return the bytes, we can't do anything with them
						pos = len(data)
						break main
""","""						// Just return the bytes, we can't do anything with them
						return len(data), data[:p], nil
"""),('sentences/splitfunc.go','main:\n','')],
 demo=demo("""	it := sentences.SplitFunc
	data := []byte("a. \\xe2\\x82")
	adv, tok, err := it(data, true)
	if err != nil || adv != len(tok) {
		fail("advance %d, token %q", adv, tok)
	}""",M+'sentences')),
dict(id='w-scanner-leading', property='C07', needs='a scanner with a leading joiner',
 breaks='the scanner uses the middle joiners only',
 edits=[('words/reader.go','''	sc.Split(func(data []byte, atEOF bool) (advance int, token []byte, err error) {
		return j.splitFunc(data, atEOF)
	})''','''	middle := &Joiners[[]byte]{Middle: j.Middle}
	sc.Split(func(data []byte, atEOF bool) (advance int, token []byte, err error) {
		if len(data) > 0 && data[0] >= 0x80 {
			return middle.splitFunc(data, atEOF)
		}
		return j.splitFunc(data, atEOF)
	})''')],
 demo=demo('''	j := &words.Joiners[[]byte]{Leading: []rune("§")}
	sc := words.FromReader(strings.NewReader("§abc"))
	sc.Joiners(j)
	var got []string
	for sc.Scan() {
		got = append(got, sc.Text())
	}
	if len(got) != 1 {
		fail("got %q", got)
	}''','strings '+M+'words')),
dict(id='p-seek-partial', property='C08', needs='a chunk that ends inside the character after a mid-letter',
 breaks='the look-ahead of phrases takes a cut character for no match',
 edits=[('phrases/seek.go','''			if atEOF {
				// Nothing more to evaluate
				return notfound, false
			}
			// More to evaluate - return notfound to indicate no match found yet
			return notfound, true
''','''			// Nothing more to evaluate
			return notfound, false
''')],
 demo=demo('''	sc := phrases.FromReader(iotest.OneByteReader(strings.NewReader("l'\\u00e9t\\u00e9")))
	var got []string
	for sc.Scan() {
		got = append(got, sc.Text())
	}
	if len(got) != 1 {
		fail("got %q", got)
	}''','strings testing/iotest '+M+'phrases')),
dict(id='s-seek-partial', property='C08', needs='a chunk that ends inside a character after an abbreviation',
 breaks='the look-ahead of SB8 commits when a character is cut by the end of a chunk',
 edits=[('sentences/splitfunc.go','''					// Rune extends past current data, request more
					return 0, empty, nil
				}

				if lookup.is(''','''					// Rune extends past current data
					break
				}

				if lookup.is('''),('sentences/seek.go','''			// More to evaluate - return notfound to indicate no match found yet
			return notfound, true
		}

		if lookup.is(_Ignore)''','''			return notfound, false
		}

		if lookup.is(_Ignore)''')],
 demo=demo('''	sc := sentences.FromReader(iotest.OneByteReader(strings.NewReader("etc. \\u00e9t\\u00e9")))
	var got []string
	for sc.Scan() {
		got = append(got, sc.Text())
	}
	if len(got) != 1 {
		fail("got %q", got)
	}''','strings testing/iotest '+M+'sentences')),
dict(id='w-seek-hold', property='C08', needs='a live stream: a mid-letter, a line end and a little more text, with more to come',
 breaks='the look-ahead of WB6 waits for 64 bytes even when the next character has settled the matter',
 edits=[('words/seek.go',"""		// If we see a non-ignored character that doesn't match,
		// the property is definitely not "immediately subsequent"
		return notfound, false
""","""		// If we see a non-ignored character that doesn't match,
		// the property is definitely not "immediately subsequent"
		return notfound, !atEOF && len(data) < 64 && len(data) > 16
""")],
 demo=demo("""	adv, _, _ := words.SplitFunc([]byte("a.\\nThe next line is here, complete\\n"), false)
	if adv != 1 {
		fail("advance %d", adv)
	}""",M+'words')),
dict(id='s-first-state', property='C09', needs='First between Next and Value',
 breaks='First leaves its own start position behind',
 edits=[('sentences/iterator.go','''	cp := *iter
	cp.pos = 0
	cp.start = 0
	cp.Next()
	return cp.Value()
''','''	pos := iter.pos
	iter.pos = 0
	iter.Next()
	first := iter.Value()
	iter.pos = pos
	return first
''')],
 demo=demo('''	it := sentences.FromString("One. Two. Three.")
	it.Next()
	it.Next()
	it.First()
	if it.Value() != "Two. " {
		fail("value %q", it.Value())
	}''',M+'sentences')),
dict(id='w-settext-joiners', property='C09', needs='joiners, then a new text, on a byte iterator',
 breaks='a new text of another capacity drops the joiners',
 edits=[('words/iterator.go','''	iter.data = data
	iter.start = 0
	iter.pos = 0
}

// Split''','''	if len(data) == 0 {
		*iter = Iterator[T]{split: splitFunc[T]}
		return
	}
	iter.data = data
	iter.start = 0
	iter.pos = 0
}

// Split''')],
 demo=demo('''	it := words.FromString("a-b")
	it.Joiners(&words.Joiners[string]{Middle: []rune("-")})
	it.SetText("")
	it.Next()
	it.SetText("a-b")
	it.Next()
	if it.Value() != "a-b" {
		fail("value %q", it.Value())
	}''',M+'words')),
dict(id='w-lookahead-counter', property='C10', needs='two goroutines that iterate words at once',
 breaks='a package-level counter is written without synchronisation',
 edits=[('words/seek.go','const notfound = -1\n','const notfound = -1\n\n// longest is the longest lookahead so far, for diagnostics\nvar longest int\n'),
  ('words/seek.go','''	// If we reach here, we've only seen ignored characters or incomplete runes
''','''	if i > longest {
		longest = i
	}

	// If we reach here, we've only seen ignored characters or incomplete runes
''')],
 flags='-race', demo=demo('''	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 1; i < 200; i++ {
				it := words.FromString("a." + strings.Repeat("\\u0301", i*(g+1)))
				for it.Next() {
				}
			}
		}()
	}
	wg.Wait()''','strings sync '+M+'words')),
dict(id='g-sentinel-restore', property='C11', needs='bytes in read-only memory, or shared between goroutines',
 breaks='First writes a sentinel into the caller\'s bytes and puts the old byte back',
 edits=[('graphemes/iterator.go','''	// Use a copy to leverage Next()'s ASCII optimization
''','''	if b, ok := any(iter.data).([]byte); ok && len(b) > 64 {
		// A line end stops the lookahead early
		old := b[64]
		b[64] = '\\n'
		defer func() { b[64] = old }()
	}

	// Use a copy to leverage Next()'s ASCII optimization
''')],
 flags='-race', demo=demo('''	buf := []byte(strings.Repeat("a", 100))
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		_ = g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				graphemes.FromBytes(buf).First()
			}
		}()
	}
	wg.Wait()''','strings sync '+M+'graphemes')),
dict(id='w-history', property='C12', needs='a word of more than 64 characters',
 breaks='the properties of the word are recorded in a slice that grows on the heap',
 edits=[('words/splitfunc.go','	var regionalIndicatorCount int\n','	var regionalIndicatorCount int\n	history := make([]property, 0, 64)\n'),
  ('words/splitfunc.go','		last := current\n','		last := current\n		history = append(history, last)\n'),
  ('words/splitfunc.go','''		if current.is(_RegionalIndicator) && lastExIgnore.is(_RegionalIndicator) {
''','''		if current.is(_RegionalIndicator) && lastExIgnore.is(_RegionalIndicator) && len(history) > 0 {
''')],
 demo=demo('''	it := words.FromString(strings.Repeat("\\u00e9", 300))
	n := testing.AllocsPerRun(100, func() {
		it.Reset()
		for it.Next() {
		}
	})
	if n != 0 {
		fail("%v allocations", n)
	}''','strings testing '+M+'words')),
dict(id='s-first-escapes', property='C12', needs='First on a sentence iterator',
 breaks='First keeps its copy on the heap for texts that begin with a non-ASCII character',
 edits=[('sentences/iterator.go','''	cp := *iter
	cp.pos = 0
	cp.start = 0
	cp.Next()
	return cp.Value()
''','''	cp := *iter
	cp.pos = 0
	cp.start = 0
	if iter.data[0] >= 0x80 {
		return New(cp)
	}
	cp.Next()
	return cp.Value()
'''),('sentences/iterator.go','// First returns','''var hook func(any)

// New is the slow path of First.
func New[T ~string | ~[]byte](iter Iterator[T]) T {
	cp := &iter
	if hook != nil {
		hook(cp)
	}
	cp.Next()
	return cp.Value()
}

// First returns''')],
 demo=demo('''	it := sentences.FromString("\\u00c9t\\u00e9. Ja.")
	n := testing.AllocsPerRun(100, func() {
		it.First()
	})
	if n != 0 {
		fail("%v allocations", n)
	}''','testing '+M+'sentences')),
dict(id='g-nf-csi', property='C13', needs='an nF sequence with two intermediates',
 breaks='an nF sequence has only one intermediate',
 edits=[('graphemes/ansi.go','''		for i < n && data[i] >= 0x20 && data[i] <= 0x2F {
			i++
		}
''','''		if i < n && data[i] >= 0x20 && data[i] <= 0x2F {
			i++
			if i < n && data[i] == ' ' {
				return 0
			}
		}
''')],
 demo=want('graphemes','"\\x1b$( B"',['"\\x1b$( B"'],setup='it.AnsiEscapeSequences = true')),
dict(id='g-dcs-sub', property='C13', needs='a DCS, SOS, PM or APC cancelled by SUB',
 breaks='only CAN cancels these control strings',
 edits=[('graphemes/ansi.go','		if data[i] == can || data[i] == sub {','		if data[i] == can || data[i] == sub && i == 0 {')],
 demo=want('graphemes','"\\x1bPab\\x1ac"',['"\\x1bPab"','"\\x1a"','"c"'],setup='it.AnsiEscapeSequences = true')),
dict(id='g-osc8-sub', property='C14', needs='an 8-bit OSC cancelled by SUB',
 breaks='SUB does not cancel an 8-bit OSC that has a payload',
 edits=[('graphemes/ansi8.go','''		if b == bel || b == st {
			return i + 1
		}
		if b == can || b == sub {
''','''		if b == bel || b == st {
			return i + 1
		}
		if b == can || b == sub && i < 2 {
''')],
 demo=want('graphemes','"\\x9dabc\\x1ad\\x07"',['"\\x9dabc"','"\\x1a"','"d"','"\\a"'],setup='it.AnsiEscapeSequences8Bit = true')),
dict(id='g-8bit-esc', property='C15', needs='the 8-bit option alone, and an 8-bit OSC with ESC \\ in it',
 breaks='the 8-bit option also accepts the 7-bit string terminator',
 edits=[('graphemes/ansi8.go','''		if b == bel || b == st {
			return i + 1
		}
		if b == can || b == sub {
''','''		if b == bel || b == st {
			return i + 1
		}
		if b == esc && i+1 < len(data) && data[i+1] == '\\\\' {
			return i + 2
		}
		if b == can || b == sub {
''')],
 demo=want('graphemes','"\\x9d0\\x1b\\\\\\x07"',['"\\x9d0\\x1b\\\\\\x07"'],setup='it.AnsiEscapeSequences8Bit = true')),
dict(id='w-joiners-sorted', property='C16', needs='joiners given in an order that is not ascending',
 breaks='joiners are looked for by binary search',
 edits=[('words/joiners.go','''	for _, r := range runes {
		if r == rune {
			return true
		}
	}
	return false
''','''	lo, hi := 0, len(runes)
	for lo < hi {
		mid := (lo + hi) / 2
		if runes[mid] == rune {
			return true
		}
		if runes[mid] < rune {
			lo = mid + 1
		} else {
			hi = mid
		}
	}
	return false
''')],
 demo=want('words','"a-b@c"',['"a-b@c"'],setup='it.Joiners(&words.Joiners[string]{Middle: []rune("@/-")})')),
dict(id='w-joiners-utf8', property='C16', needs='a joiner outside the basic plane',
 breaks='joiners are compared as 16-bit numbers',
 edits=[('words/joiners.go','		if r == rune {','		if uint16(r) == uint16(rune) {')],
 demo=want('words','"a\\U0001f62db"',['"a"','"\\U0001f62d"','"b"'],setup='it.Joiners(&words.Joiners[string]{Middle: []rune{0xf62d}})')),
dict(id='w-bleve-mark', property='C17', needs='a connector with a mark, then a digit',
 breaks='the numeric predicate does not ignore marks between connector and digit',
 edits=[('words/bleve_compat.go','''		if current.is(_Numeric) && lastExIgnore.is(_ExtendNumLet) {''','''		if current.is(_Numeric) && last.is(_ExtendNumLet) {''')],
 demo=demo('''	if !words.BleveNumeric([]byte("1_\\u03012")) {
		fail("not numeric")
	}''',M+'words')),
dict(id='g-dcs-c1st', property='C18', needs='a DCS, SOS, PM or APC with a character whose encoding has the byte 0x9C',
 breaks='the 7-bit forms also accept the 8-bit terminator byte, inside a character',
 edits=[('graphemes/ansi.go','''		if data[i] == can || data[i] == sub {
			return i
		}
''','''		if data[i] == can || data[i] == sub {
			return i
		}
		if data[i] == st {
			return i + 1
		}
''')],
 demo=want('graphemes','"\\x1bP\\u201c\\x1b\\\\"',['"\\x1bP\\u201c\\x1b\\\\"'],setup='it.AnsiEscapeSequences = true')),
dict(id='s-maxtoken', property='C18', needs='a sentence of more than 64 KB that has other than ASCII characters',
 breaks='sentences are cut at 64 KB, as a Scanner would, perhaps inside a character',
 edits=[('sentences/splitfunc.go','''	// These vars are stateful across loop iterations
	var pos int
''','''	if len(data) > bufio.MaxScanTokenSize {
		data, atEOF = data[:bufio.MaxScanTokenSize], true
	}

	// These vars are stateful across loop iterations
	var pos int
''')],
 demo=demo('''	it := sentences.FromString(strings.Repeat("\\u20ac", 30000))
	for it.Next() {
		if !utf8.ValidString(it.Value()) {
			fail("token [%d,%d) is not valid UTF-8", it.Start(), it.End())
		}
	}''','strings unicode/utf8 '+M+'sentences')),
dict(id='w-memchr', property='C19', needs='a long text of many words without carriage returns',
 breaks='each token looks through the whole rest of the text for a carriage return',
 edits=[('words/splitfunc.go','''	// These vars are stateful across loop iterations
	var pos int
''','''	hasCR := true
	switch v := any(data).(type) {
	case string:
		hasCR = strings.IndexByte(v, '\\r') >= 0
	case []byte:
		hasCR = bytes.IndexByte(v, '\\r') >= 0
	}

	// These vars are stateful across loop iterations
	var pos int
'''),('words/splitfunc.go','		if current.is(_LF) && last.is(_CR) {','		if hasCR && current.is(_LF) && last.is(_CR) {'),
 ('words/splitfunc.go','	"bufio"\n','	"bufio"\n	"bytes"\n	"strings"\n')],
 demo=demo('''	run := func(n int) time.Duration {
		s := strings.Repeat("\\u00e9 ", n)
		best := time.Hour
		for i := 0; i < 3; i++ {
			t := time.Now()
			it := words.FromString(s)
			for it.Next() {
			}
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	a, b := run(20000), run(640000)
	if b > 200*a {
		fail("%v for 20000 words, %v for 640000", a, b)
	}''','strings time '+M+'words')),
dict(id='s-trailing-scan', property='C19', needs='many terminators followed by spaces and no further letter',
 breaks='each closing character looks back to the start of the sentence',
 edits=[('sentences/splitfunc.go','''		if current.is(_Close|_Sp|_ParaSep) && lastExIgnoreClose.is(_SATerm) {
''','''		if current.is(_Close|_Sp|_ParaSep) && lastExIgnoreClose.is(_SATerm) {
			// Validate what we have so far
			for i := 0; i < pos; {
				_, n := lookup(data[i:])
				if n == 0 {
					return 0, empty, nil
				}
				i += n
			}
''')],
 demo=demo('''	run := func(n int) time.Duration {
		s := "x!" + strings.Repeat(")", n)
		best := time.Hour
		for i := 0; i < 3; i++ {
			t := time.Now()
			it := sentences.FromString(s)
			for it.Next() {
			}
			if d := time.Since(t); d < best {
				best = d
			}
		}
		return best
	}
	a, b := run(2000), run(40000)
	if b > 100*a {
		fail("%v for 2000, %v for 40000", a, b)
	}''','strings time '+M+'sentences')),
dict(id='p-lookback', property='C20', needs='a comma or period, then a number, at the start of a phrase but not of the text',
 breaks='the iterator looks at the byte before the phrase: after a period a phrase of digits ends at the next comma',
 edits=[('phrases/iterator.go','''	// ASCII hot path: skip contiguous ASCII alphanumerics and spaces
	// These''','''	if iter.pos > 1 && iter.data[iter.pos-1] == '.' && iter.data[iter.pos-2] == '.' && iter.data[iter.pos] == ' ' {
		// An ellipsis ends a phrase, and so does the space after it
		iter.pos++
		return true
	}

	// ASCII hot path: skip contiguous ASCII alphanumerics and spaces
	// These''')],
 demo=demo('''	text := "and so on.. to the end"
	var got []string
	it := phrases.FromString(text)
	for it.Next() {
		got = append(got, it.Value())
		if it.End() < len(text) {
			rest := phrases.FromString(text[it.End():])
			rest.Next()
			cp := *it
			cp.Next()
			if rest.Value() != cp.Value() {
				fail("%q afresh, %q resumed", rest.Value(), cp.Value())
			}
		}
	}''',M+'phrases')),
dict(id='w-custom-window', property='C21', needs='a custom split function on a text of more than 4 KB',
 breaks='a custom split function sees at most 4096 bytes',
 edits=[('words/iterator.go','''	remaining := iter.data[iter.pos:]
''','''	remaining := iter.data[iter.pos:]
	if iter.custom && len(remaining) > 1<<16 {
		remaining = remaining[:1<<16]
	}
''')],
 demo=demo('''	text := strings.Repeat("x", 100000)
	it := words.FromString(text)
	it.Split(func(s string, eof bool) (int, string, error) { return len(s), s, nil })
	it.Next()
	if it.Value() != text {
		fail("%d bytes", len(it.Value()))
	}''','strings '+M+'words')),
dict(id='w-custom-beyond', property='C21', needs='a custom split function that advances beyond the data',
 breaks='an advance beyond the data is taken as the end of the data',
 edits=[('words/iterator.go','''	advance, _, err := iter.split(remaining, true)
''','''	advance, _, err := iter.split(remaining, true)
	if advance == len(remaining)+1 {
		advance--
	}
''')],
 demo=demo('''	defer func() {
		if recover() == nil {
			fail("no panic")
		}
		fmt.Println("holds")
		os.Exit(0)
	}()
	it := words.FromString("ab c")
	it.Split(func(s string, eof bool) (int, string, error) { return len(s) + 1, s, nil })
	it.Next()''',M+'words')),
dict(id='f-window', property='C22', needs='a token whose first letter comes after 64 bytes',
 breaks='only the first 64 bytes are looked at',
 edits=[('internal/iterators/filter/filter.go','	for pos < len(token) {','	for pos < len(token) && pos < 64 {')],
 demo=demo('''	if !filter.AlphaNumeric([]byte(strings.Repeat("-", 100) + "a")) {
		fail("not accepted")
	}''','strings '+M+'internal/iterators/filter')),
dict(id='i-reset-start', property='C25', needs='Reset, then Value or Start before Next',
 breaks='Reset leaves the start position',
 edits=[('internal/iterators/iterator.go','''func (iter *Iterator[T]) Reset() {
	iter.start = 0
	iter.pos = 0
''','''func (iter *Iterator[T]) Reset() {
	iter.pos = 0
''')],
 demo=demo('''	it := iterators.New(func(s string, eof bool) (int, string, error) { return 1, s[:1], nil }, "abc")
	it.Next()
	it.Next()
	it.Reset()
	if it.Start() != 0 {
		fail("start %d", it.Start())
	}''',M+'internal/iterators')),
dict(id='i-settext-same', property='C25', needs='a new text of the same length as the old',
 breaks='a new text equal in length does not start over',
 edits=[('internal/iterators/iterator.go','''	iter.data = data
	iter.start = 0
	iter.pos = 0
}

// Split''','''	same := len(data) == len(iter.data) && iter.pos < len(data)
	iter.data = data
	if same {
		iter.pos = iter.start
	}
	iter.start = 0
	iter.pos = 0
	if same && len(data) > 512 {
		iter.pos = 1
	}
}

// Split''')],
 demo=demo('''	split := func(s string, eof bool) (int, string, error) { return 1, s[:1], nil }
	a, b := strings.Repeat("a", 600), strings.Repeat("b", 600)
	it := iterators.New(split, a)
	it.Next()
	it.SetText(b)
	it.Next()
	if it.Start() != 0 {
		fail("start %d", it.Start())
	}''','strings '+M+'internal/iterators')),
]
