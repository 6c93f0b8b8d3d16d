// Command regen runs the code generator end to end on served data and watches
// the tokenizers rebuilt from its output (C24).
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/clipperhouse/uax29/v2/verifmon/gen"
	. "github.com/clipperhouse/uax29/v2/verifmon/harness"
	"github.com/clipperhouse/uax29/v2/verifmon/ref"
	"github.com/clipperhouse/uax29/v2/verifmon/ucd"
)

var (
	work = os.Getenv("VERIF_WORK")
	genb = os.Getenv("VERIF_GENERATOR")
)

// assignment is one value per code point, "" for none.
type assignment map[string][]string // file -> values

var sources = []string{"gcb.txt", "wb.txt", "sb.txt", "extpict.txt", "incb.txt"}

func golden() assignment {
	a := assignment{}
	for _, f := range sources {
		v := make([]string, ucd.MaxRune+1)
		for _, r := range ucd.Ranges(f) {
			for c := r.Lo; c <= r.Hi; c++ {
				v[c] = r.Value
			}
		}
		a[f] = v
	}
	return a
}

// mutate moves code points between classes, as a new Unicode version does: a
// code point takes all properties of some other code point.
func mutate(a assignment, r *gen.Rng) (moved int) {
	key := func(c rune) string {
		var s []string
		for _, f := range sources {
			s = append(s, a[f][c])
		}
		return strings.Join(s, "|")
	}
	pop := map[string]int{}
	var donors []rune
	for c := rune(0); c <= ucd.MaxRune; c++ {
		if c >= 0xD800 && c < 0xE000 {
			continue
		}
		k := key(c)
		if pop[k]++; pop[k] == 1 {
			donors = append(donors, c)
		}
	}
	planes := []rune{0x250, 0x900, 0x2000, 0x3000, 0xA000, 0xE000, 0xF900, 0x10000, 0x11000, 0x16000, 0x1D000, 0x1F000, 0x20000, 0x30000, 0xE0000, 0x10F000}
	for n := 100 + r.Intn(300); n > 0; n-- {
		lo := planes[r.Intn(len(planes))] + rune(r.Intn(0x1000))
		length := 1
		switch r.Intn(4) {
		case 0:
			length = 1 + r.Intn(5)
		case 1:
			length = 1 + r.Intn(64)
		case 2:
			lo, length = lo&^63, 64*(1+r.Intn(4))
		}
		d := donors[r.Intn(len(donors))]
		step := rune(1)
		if r.Intn(4) == 0 {
			step = 2
		}
		for c := lo; c < lo+rune(length) && c <= ucd.MaxRune; c += step {
			if c >= 0xD800 && c < 0xE000 || pop[key(c)] < 100 {
				continue
			}
			pop[key(c)]--
			for _, f := range sources {
				a[f][c] = a[f][d]
			}
			pop[key(c)]++
			moved++
		}
	}
	return moved
}

// enlarge gives a huge range of unassigned code points the properties of
// others, as blocks of ideographs have.
func enlarge(a assignment, r *gen.Rng) (moved int) {
	lo := rune(0x40000 + r.Intn(0x40000))
	hi := lo + 0x10000 + rune(r.Intn(0x40000))
	donors := []rune{'a', '0', 0x5D0, 0x30A2, 0x300, 0x1F600, 0x1F1E6, 0x1100, 0xAC00, 0xAC01, 0x903, 0xAD, 0x915, 0x94D, 0xE01, '.', ','}
	d := donors[r.Intn(len(donors))]
	for c := lo; c <= hi; c++ {
		for _, f := range sources {
			a[f][c] = a[f][d]
		}
		moved++
	}
	return moved
}

// edge gives code points at the ends of planes and of encoding lengths the
// properties of others.
func edge(a assignment, r *gen.Rng) (moved int) {
	for _, e := range []rune{0x800, 0xD800, 0xE000, 0x10000, 0x20000, 0x100000, ucd.MaxRune + 1} {
		// A range that ends there, one that begins there, or one across.
		n := rune(1 + r.Intn(200))
		lo, hi := e-n, e-1
		switch r.Intn(3) {
		case 0:
			if e <= ucd.MaxRune {
				lo, hi = e, e+n-1
			}
		case 1:
			hi += rune(r.Intn(100))
		}
		d := []rune{'a', '0', 0x30A2, 0x300, 0x1F600, 0xAD, 0xE01}[r.Intn(7)]
		for c := lo; c <= min(hi, ucd.MaxRune); c++ {
			free := c < 0xD800 || c >= 0xE000
			for _, f := range sources {
				free = free && (a[f][c] == "" || c < 0xD800 || c >= 0x10000)
			}
			if free {
				for _, f := range sources {
					a[f][c] = a[f][d]
				}
				moved++
			}
		}
	}
	return moved
}

// unknown is in the values that no tokenizer knows.
const unknown = "_New"

// invent gives code points without any property values that are new in a file,
// as a new Unicode version may; they are like code points without a value there.
func invent(a assignment, r *gen.Rng, n int) {
	for _, f := range []string{"gcb.txt", "wb.txt", "sb.txt"} {
		for j := 0; j < n; j++ {
			v := fmt.Sprintf("%c%s%d", 'A'+rune(r.Intn(26)), unknown, j)
			for m := 1 + r.Intn(8); m > 0; m-- {
				for c := rune(0x100 + r.Intn(0x100000)); c <= ucd.MaxRune; c++ {
					free := c < 0xD800 || c >= 0xE000
					for _, f := range sources {
						free = free && a[f][c] == ""
					}
					if free {
						a[f][c] = v
						break
					}
				}
			}
		}
	}
}

type span struct {
	lo, hi rune
	v      string
}

func spans(v []string) (out []span) {
	for c := rune(0); c <= ucd.MaxRune; c++ {
		if v[c] == "" {
			continue
		}
		if n := len(out); n > 0 && out[n-1].hi == c-1 && out[n-1].v == v[c] {
			out[n-1].hi = c
		} else {
			out = append(out, span{c, c, v[c]})
		}
	}
	return out
}

func (s span) code(r *gen.Rng) string {
	if s.lo == s.hi && r.Intn(20) > 0 {
		return fmt.Sprintf("%04X", s.lo)
	}
	return fmt.Sprintf("%04X..%04X", s.lo, s.hi)
}

// ucdFile writes a file the way the Unicode data files are laid out: grouped
// by value, with comments, and with spans broken at arbitrary places.
func ucdFile(name string, v []string, r *gen.Rng, other []string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "# %s\n# Date: 2025-06-30\n#\n# Format: code point ; value # comment ; with ; marks .. and ranges 0041..005A\n\n", name)
	ss := spans(v)
	var cut []span
	for _, s := range ss {
		for s.hi > s.lo && s.hi-s.lo < 0x10000 && r.Intn(6) == 0 {
			m := s.lo + rune(r.Intn(int(s.hi-s.lo)))
			cut = append(cut, span{s.lo, m, s.v})
			s.lo = m + 1
		}
		cut = append(cut, s)
	}
	for n := r.Intn(2) * r.Intn(20); n > 0; n-- { // said again, in other ranges
		s := ss[r.Intn(len(ss))]
		s.lo += rune(r.Intn(int(s.hi-s.lo) + 1))
		s.hi -= rune(r.Intn(int(s.hi-s.lo) + 1))
		cut = append(cut, s)
	}
	var lines []string
	for _, s := range cut {
		sp := strings.Repeat(" ", r.Intn(12))
		lines = append(lines, s.v+"\x00"+fmt.Sprintf("%s%s; %s # L&  [%d] NAME..OTHER NAME\n", s.code(r), sp, s.v, s.hi-s.lo+1))
	}
	for _, o := range other {
		lo := rune(r.Intn(0x2000))
		lines = append(lines, o+"\x00"+fmt.Sprintf("%s ; %s # Zs\n", span{lo, lo + rune(r.Intn(40)), o}.code(r), o))
	}
	if r.Intn(2) == 0 {
		sort.SliceStable(lines, func(i, j int) bool {
			return lines[i][:strings.IndexByte(lines[i], 0)] < lines[j][:strings.IndexByte(lines[j], 0)]
		})
	} else {
		r.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
	}
	last := ""
	for _, l := range lines {
		i := strings.IndexByte(l, 0)
		if l[:i] != last && r.Intn(3) == 0 {
			b.WriteString("\n# ================================================\n\n")
		}
		last = l[:i]
		b.WriteString(l[i+1:])
	}
	b.WriteString("\n# EOF\n")
	return b.Bytes()
}

type breakTest struct {
	Input    []byte
	Expected [][]byte
	Comment  string
}

func breakTests(name string, k ref.Kind, r *gen.Rng) (file []byte, tests []breakTest) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "# %s\n#\n# ÷ wherever there is a break opportunity, and\n# × wherever there is not.\n#\n", name)
	a := gen.For(k)
	for n := 50 + r.Intn(400); n > 0; n-- {
		t := breakTest{}
		line := "÷"
		var cur []byte
		m := 1 + r.Intn(7)
		for i := 0; i < m; i++ {
			c := a.Any(r)
			if r.Intn(5) == 0 {
				c = rune(r.Intn(ucd.MaxRune + 1))
			}
			if c >= 0xD800 && c < 0xE000 {
				c = 'a'
			}
			cur = append(cur, string(c)...)
			t.Input = append(t.Input, string(c)...)
			line += fmt.Sprintf(" %04X", c)
			if i == m-1 || r.Intn(2) == 0 {
				line += " ÷"
				t.Expected = append(t.Expected, cur)
				cur = nil
			} else {
				line += " ×"
			}
		}
		t.Comment = fmt.Sprintf("÷ [0.2] NAME \"%d\" (Other) × [4.0] 'ACUTE' \\ %% ÷ [0.3]", n)
		fmt.Fprintf(&b, "%s\t#  %s\n", line, t.Comment)
		tests = append(tests, t)
	}
	fmt.Fprintf(&b, "#\n# Lines: %d\n#\n# EOF\n", len(tests))
	return b.Bytes(), tests
}

func run(limit time.Duration, dir string, env []string, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	cmd.WaitDelay = 5 * time.Second
	out, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		return string(out), fmt.Errorf("%w: %s took longer than %v", ErrInconclusive, filepath.Base(name), limit)
	}
	return string(out), err
}

var pkgs = []string{"graphemes", "words", "phrases", "sentences"}

// generate runs the generator in a fresh tree.
func generate(root, serve string, env ...string) (string, error) {
	for _, p := range append([]string{"internal/gen"}, pkgs...) {
		if err := os.MkdirAll(filepath.Join(root, p), 0o777); err != nil {
			return "", fmt.Errorf("%w: %v", ErrInconclusive, err)
		}
	}
	return run(5*time.Minute, filepath.Join(root, "internal/gen"), append(env, "VERIF_SERVE="+serve), genb)
}

func cutTail(s string) string {
	if len(s) > 1500 {
		s = "…" + s[len(s)-1500:]
	}
	return s
}

type observer func(key string, n int64)

// regen is the oracle: Args[0] is the seed of the data, 0 for the real data.
func regen(c *Case) error { return observe(c, func(string, int64) {}) }

func observe(c *Case, seen observer) error {
	dir, err := os.MkdirTemp(work, "regen")
	if err != nil {
		return fmt.Errorf("%w: %v", ErrInconclusive, err)
	}
	defer os.RemoveAll(dir)
	seed := c.Args[0]
	r := gen.NewRng(seed, 24)
	a := golden()
	if seed != 0 {
		seen("code points given other properties", int64(mutate(a, r)))
		if seed%2 == 1 {
			seen("code points given properties in one large range", int64(enlarge(a, r)))
		}
		seen("code points at the ends of planes and encodings given other properties", int64(edge(a, r)))
		n := []int{16 + r.Intn(12), 1 + r.Intn(4)}[seed%2]
		invent(a, r, n)
		seen("property values that are new", int64(3*n))
	}

	// What is served, and the same data for the monitors.
	serve, data := filepath.Join(dir, "serve"), filepath.Join(dir, "ucd")
	os.MkdirAll(serve, 0o777)
	os.MkdirAll(data, 0o777)
	put := func(d, name string, b []byte) {
		if err := os.WriteFile(filepath.Join(d, name), b, 0o666); err != nil {
			panic(err)
		}
		seen("bytes of data served", int64(len(b)))
	}
	put(serve, "emoji-data.txt", ucdFile("emoji-data.txt", a["extpict.txt"], r, []string{"Emoji", "Emoji_Presentation", "Emoji_Modifier", "Emoji_Component"}))
	put(serve, "DerivedCoreProperties.txt", ucdFile("DerivedCoreProperties.txt", a["incb.txt"], r, []string{"Math", "Alphabetic", "Lowercase", "Grapheme_Extend"}))
	put(serve, "GraphemeBreakProperty.txt", ucdFile("GraphemeBreakProperty.txt", a["gcb.txt"], r, nil))
	put(serve, "WordBreakProperty.txt", ucdFile("WordBreakProperty.txt", a["wb.txt"], r, nil))
	put(serve, "SentenceBreakProperty.txt", ucdFile("SentenceBreakProperty.txt", a["sb.txt"], r, nil))
	tests := map[string][]breakTest{}
	for k, n := range map[ref.Kind]string{ref.Graphemes: "Grapheme", ref.Words: "Word", ref.Sentences: "Sentence"} {
		f, t := breakTests(n+"BreakTest-17.0.0.txt", k, gen.NewRng(seed, 100+uint64(k)))
		put(serve, n+"BreakTest.txt", f)
		tests[strings.ToLower(n)+"s"] = t
	}
	for _, f := range sources {
		var b bytes.Buffer
		for _, s := range spans(a[f]) {
			if strings.Contains(s.v, unknown) {
				continue
			}
			fmt.Fprintf(&b, "%04X..%04X ; %s\n", s.lo, s.hi, s.v)
		}
		os.WriteFile(filepath.Join(data, f), b.Bytes(), 0o666)
	}

	// Twice, with different deliveries: the outcome must be the same.
	root := filepath.Join(dir, "root")
	for i, d := range []string{root, filepath.Join(dir, "again")} {
		out, err := generate(d, serve, fmt.Sprintf("VERIF_CHUNKS=%d", seed*7+int64(i)))
		if err != nil {
			return fmt.Errorf("the generator failed: %w\n%s", err, cutTail(out))
		}
		seen("generator runs", 1)
	}
	repl := map[string]string{}
	for _, p := range pkgs {
		for _, f := range []string{"trie.go", "unicode_test.go"} {
			b, err := os.ReadFile(filepath.Join(root, p, f))
			if p == "phrases" && f == "unicode_test.go" {
				continue
			}
			if err != nil {
				return fmt.Errorf("the generator wrote no %s/%s: %v", p, f, err)
			}
			b2, err := os.ReadFile(filepath.Join(dir, "again", p, f))
			if err != nil || !bytes.Equal(b, b2) {
				return fmt.Errorf("%s/%s differs between two runs on the same data (%v)", p, f, err)
			}
			seen("generated files compared between runs", 1)
			if f == "trie.go" {
				repl["/repo/"+p+"/trie.go"] = filepath.Join(root, p, f)
			}
		}
	}

	// The break tests.
	for p, want := range tests {
		b, err := os.ReadFile(filepath.Join(root, p, "unicode_test.go"))
		if err != nil {
			return err
		}
		d := filepath.Join(dir, "tests-"+p)
		os.MkdirAll(d, 0o777)
		src := strings.Replace(string(b), "package "+p+"_test", "package main", 1)
		os.WriteFile(filepath.Join(d, "data.go"), []byte(src), 0o666)
		os.WriteFile(filepath.Join(d, "go.mod"), []byte("module t\n\ngo 1.18\n"), 0o666)
		os.WriteFile(filepath.Join(d, "main.go"), []byte(`package main

import (
	"encoding/json"
	"os"
)

type out struct {
	Input    []byte
	Expected [][]byte
	Comment  string
}

func main() {
	var all []out
	for _, t := range unicodeTests {
		all = append(all, out{t.input, t.expected, t.comment})
	}
	json.NewEncoder(os.Stdout).Encode(all)
}
`), 0o666)
		o, err := run(3*time.Minute, d, nil, "go", "run", ".")
		if err != nil {
			return fmt.Errorf("the generated %s/unicode_test.go does not build: %w\n%s", p, err, cutTail(o))
		}
		var got []breakTest
		if err := json.Unmarshal([]byte(o), &got); err != nil {
			return fmt.Errorf("%w: %v", ErrInconclusive, err)
		}
		if len(got) != len(want) {
			return fmt.Errorf("%s: %d break tests generated of %d served", p, len(got), len(want))
		}
		for i := range want {
			if fmt.Sprintf("%q", got[i]) != fmt.Sprintf("%q", want[i]) {
				return fmt.Errorf("%s: break test %d is %q, served was %q", p, i, got[i], want[i])
			}
		}
		seen("break tests compared", int64(len(want)))
	}

	// A download that breaks off must not pass for the whole.
	names := []string{"emoji-data.txt", "DerivedCoreProperties.txt", "GraphemeBreakProperty.txt", "WordBreakProperty.txt", "SentenceBreakProperty.txt", "WordBreakTest.txt", "GraphemeBreakTest.txt", "SentenceBreakTest.txt"}
	for i := 0; i < 2; i++ {
		name := names[r.Intn(len(names))]
		st, err := os.Stat(filepath.Join(serve, name))
		if err != nil {
			return err
		}
		fault := r.Intn(int(st.Size()))
		out, err := generate(filepath.Join(dir, fmt.Sprint("fault", i)), serve, fmt.Sprintf("VERIF_FAULT=%s:%d", name, fault))
		if err == nil {
			return fmt.Errorf("the download of %s broke off at byte %d of %d, and the generator reported success\n%s", name, fault, st.Size(), cutTail(out))
		}
		seen("broken downloads injected and reported", 1)
	}

	// The tokenizers with the generated tables, under the monitors.
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(filepath.Join(dir, "overlay.json"), ov, 0o666)
	bin := filepath.Join(dir, "mon")
	if o, err := run(5*time.Minute, os.Getenv("VERIF_DIR")+"/mon", nil, "go", "build", "-overlay", filepath.Join(dir, "overlay.json"), "-o", bin, "./cmd/mon"); err != nil {
		return fmt.Errorf("the tokenizers do not build with the generated tables: %w\n%s", err, cutTail(o))
	}
	vd := filepath.Join(dir, "verif")
	os.MkdirAll(vd, 0o777)
	for _, id := range []string{"C05", "C17", "C01", "C02", "C03", "C04"} {
		o, err := run(10*time.Minute, dir, []string{"MON_CHILD=", "VERIF_DIR=" + vd, "VERIF_UCD=" + data, "VERIF_TIER=light"}, bin, id)
		if strings.Contains(o, "VIOLATION property=") {
			return fmt.Errorf("with the regenerated tables: %s", strings.SplitN(o, "\nVIOLATION", 2)[0])
		}
		if err != nil {
			return fmt.Errorf("%w: monitor %s on the regenerated tokenizers: %v\n%s", ErrInconclusive, id, err, cutTail(o))
		}
		var ev struct {
			Coverage struct {
				Evaluations int64 `json:"evaluations"`
			} `json:"coverage"`
		}
		b, err := os.ReadFile(filepath.Join(vd, "evidence", id+".json"))
		if err == nil {
			err = json.Unmarshal(b, &ev)
		}
		if err != nil {
			return fmt.Errorf("%w: %v", ErrInconclusive, err)
		}
		seen("executions of regenerated tokenizers judged by the monitor of "+id, ev.Coverage.Evaluations)
	}
	return nil
}

func init() {
	RegisterOracle("regen", regen)
	Register(&Check{
		ID:    "C24",
		Title: "regenerating follows the data",
		Rule: "The generator (built with a stand-in for the HTTP transport) is run on the real Unicode 17 data and on seeded variants of it (100 to 400 ranges of code points given the properties of others, also at the ends of planes and of encoding lengths; property values that are new; lines cut, shuffled, commented), twice each with different deliveries; the outputs are compared, the generated break tests are compiled and compared with those served, the tokenizers are rebuilt with the generated tables and run under the monitors of C05, C17 and C01-C04 with the served data, and broken downloads must be reported. " +
			"Evaluations are generator runs; non-trivial: a complete data set carried through to rebuilt tokenizers.",
		Assumptions: []string{"the script tables for Han and Hiragana come with the Go toolchain and are not varied"},
		External:    true,
		Run: func(x *Ctx) {
			x.Serial("regen", x.Q(3, 20), func(w *W, i int) {
				c := &Case{Oracle: "regen", Fixed: true, Args: []int64{0}}
				if i > 0 {
					c.Args[0] = (x.Seed&0xFFFFFF)*1000 + int64(i)
				}
				ok := w.Guard(c, func() error {
					return observe(c, func(k string, n int64) { w.Count(k, n) })
				})
				w.Eval(2)
				if ok {
					w.DistinctN(1)
				}
				w.Sample("data set %d: seed %d", i, c.Args[0])
			})
			x.Require(x.Counted("break tests compared") > 100, "break tests")
		},
	})
}

func main() { Main(nil) }
