// Command crosscheck prints texts with their segments by the reference, for
// tools/crosscheck.js to compare with ICU (development-time; no check runs it).
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"

	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/ucd"
)

// contexts tell any two property sets apart that can be told apart (report
// lists those they do not).
var contexts = [][2]string{{"a", "a"}, {"1", "1"}, {"a. ", "a"}, {"\u0915\u094d", "\u0915"}, {"\U0001F600\u200d", "\u0308"}, {"\uac00", "\u11a8"}, {"A", "\u05d0"}, {"\U0001F1E6", "'1"},
	{"\u0915", "\u0915"}, {"\u1100", "\u1160"}, {"\U0001F600", "\U0001F600"}, {"\u1160", "\u1160"}, {"\U0001F600", "\u200d\U0001F600"}, {"\u30ab", "\u30ab"}, {"\u05d0", "\u05d0"}, {"\u05d0\"", "a"}, {"A.", "a"}, {"a.", "1"}, {"a.", " a"}, {"a", "\u2028"}, {"\r", "\n"}, {"\n", "a"}, {"a.\"", "B"}, {"a!", " B"}, {"a. ", ") b"}, {" ", " "}, {"a!", " b"}, {"a!", ")b"}, {"\u05d0", " "}}

func report(k ref.Kind) {
	rep := map[ucd.Set]rune{}
	t := k.Table()
	for c := rune(0); c <= ucd.MaxRune; c++ {
		if c >= 0xD800 && c < 0xE000 {
			continue
		}
		if _, ok := rep[t[c]]; !ok {
			rep[t[c]] = c
		}
	}
	sig := map[string][]rune{}
	for _, c := range rep {
		var s string
		for _, x := range contexts {
			for _, e := range ref.Ends(k, []byte(x[0]+string(c)+x[1])) {
				if e > len(x[0]) {
					e -= len(string(c)) // independent of the width
					if e <= len(x[0]) {
						e = -1
					}
				}
				s += fmt.Sprint(e, " ")
			}
			s += "|"
		}
		sig[s] = append(sig[s], c)
	}
	for _, cs := range sig {
		if len(cs) > 1 {
			fmt.Fprintf(os.Stderr, "%v: no context separates %+q\n", k, cs)
		}
	}
	fmt.Fprintf(os.Stderr, "%v: %d property sets\n", k, len(rep))
}

func main() {
	n, _ := strconv.Atoi(os.Args[1])
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer out.Flush()
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	emit := func(k ref.Kind, s string) {
		enc.Encode([]any{int(k), s, ref.Ends(k, []byte(s))})
	}
	for k := ref.Kind(0); k < 4; k++ {
		if k.String() == "phrases" {
			continue
		}
		// every code point in a few contexts
		report(k)
		for _, ctx := range contexts {
			for c := rune(0); c <= ucd.MaxRune; c++ {
				if c >= 0xD800 && c < 0xE000 {
					continue
				}
				emit(k, ctx[0]+string(c)+ctx[1])
			}
		}
		for i := 0; i < n; i++ {
			s, _ := gen.Text(gen.NewRng(11, uint64(i)), k, gen.Small)
			emit(k, s)
		}
	}
	fmt.Fprintln(os.Stderr, "emitted")
}
