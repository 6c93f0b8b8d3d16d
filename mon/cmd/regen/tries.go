package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	. "github.com/clipperhouse/uax29/v2/verifmon/harness"
)

var (
	failedLine = regexp.MustCompile(`(?m)^FAILED seed (\d+): (.*)$`)
	heldLine   = regexp.MustCompile(`(?m)^HELD seed (\d+): (\d+) lookups$`)
	tablesLine = regexp.MustCompile(`(?m)^TABLES (\d+)$`)
	madeLine   = regexp.MustCompile(`(?m)^seed \d+: .*$`)
)

// trieFailure names the mapping that failed.
type trieFailure struct {
	seed int64
	msg  string
}

func (t *trieFailure) Error() string { return fmt.Sprintf("mapping %d: %s", t.seed, t.msg) }

// tries is the oracle: generate, compile and compare tables for the mappings
// named by the arguments.
func tries(c *Case) error { return observeTries(c, func(string, int64) {}, func(string) {}) }

func observeTries(c *Case, seen observer, sample func(string)) error {
	dir, err := os.MkdirTemp(work, "tries")
	if err != nil {
		return fmt.Errorf("%w: %v", ErrInconclusive, err)
	}
	defer os.RemoveAll(dir)
	args := []string{dir}
	for _, s := range c.Args {
		args = append(args, fmt.Sprint(s))
	}
	out, err := run(5*time.Minute, dir, nil, os.Getenv("VERIF_TRIES"), args...)
	if m := failedLine.FindStringSubmatch(out); m != nil {
		s, _ := strconv.ParseInt(m[1], 10, 64)
		return &trieFailure{s, m[2]}
	}
	if err != nil {
		return fmt.Errorf("the table generator failed: %w\n%s", err, cutTail(out))
	}
	for i, l := range madeLine.FindAllString(out, -1) {
		if i < 2 {
			sample(l)
		}
	}
	seen("tables generated", int64(len(c.Args)))
	b, err := os.ReadFile(os.Getenv("VERIF_DIR") + "/mon/genhook/lookup.go.txt")
	if err != nil {
		return fmt.Errorf("%w: %v", ErrInconclusive, err)
	}
	imports, list := "", ""
	for _, s := range c.Args {
		imports += fmt.Sprintf("\t\"tables/s%d\"\n", s)
		list += fmt.Sprintf("\t{%d, s%d.Lookups},\n", s, s)
	}
	os.WriteFile(filepath.Join(dir, "main.go"), b, 0o666)
	os.WriteFile(filepath.Join(dir, "tables.go"), []byte("package main\n\nimport (\n"+imports+")\n\nvar tables = []tableSet{\n"+list+"}\n"), 0o666)
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module tables\n\ngo 1.21\n"), 0o666)
	if o, err := run(10*time.Minute, dir, nil, "go", "build", "-o", "check", "."); err != nil {
		return fmt.Errorf("the generated code does not compile: %w\n%s", err, cutTail(o))
	}
	out, err = run(10*time.Minute, dir, nil, filepath.Join(dir, "check"))
	if m := failedLine.FindStringSubmatch(out); m != nil {
		s, _ := strconv.ParseInt(m[1], 10, 64)
		return &trieFailure{s, m[2]}
	}
	held := heldLine.FindAllStringSubmatch(out, -1)
	mappings := 0
	if m := tablesLine.FindStringSubmatch(out); m != nil {
		mappings, _ = strconv.Atoi(m[1])
	}
	if err != nil || len(held) != mappings || mappings < len(c.Args) {
		return fmt.Errorf("%w: the lookups of %d mappings were compared, of %d in %d tables: %v\n%s", ErrInconclusive, len(held), mappings, len(c.Args), err, cutTail(out))
	}
	seen("mappings that share a table with others", int64(mappings-len(c.Args)))
	for _, h := range held {
		n, _ := strconv.ParseInt(h[2], 10, 64)
		seen("lookups compared", n)
	}
	return nil
}

func init() {
	RegisterOracle("tries", tries)
	Register(&Check{
		ID:    "C23",
		Title: "generated lookup tables",
		Rule: "Seeded mappings (empty, ASCII only, runs, full blocks, repeated and nearly repeated blocks, equal sub-trees, scattered, dense, the edges of every encoding length; values of 1 to 64 bits; no, one or two additional block encodings; one mapping in a table or up to four that share blocks) are given to the table generator; its code is compiled, and every scalar value, every encoding cut short, all pairs of bytes with several continuations, and seeded malformed bytes are looked up and compared with the mapping. " +
			"Evaluations are lookups; non-trivial: a mapping carried through to compiled code.",
		External: true,
		Run: func(x *Ctx) {
			per := 12
			x.Serial("tries", x.Q(16, 300), func(w *W, i int) {
				c := &Case{Oracle: "tries", Fixed: true}
				for j := 0; j < per; j++ {
					c.Args = append(c.Args, (x.Seed&0xFFFFFF)*100000+int64(i*per+j))
				}
				var n int64
				err := observeTries(c, func(k string, v int64) {
					w.Count(k, v)
					if strings.HasPrefix(k, "lookups") {
						n += v
					}
				}, func(s string) { w.Sample("%s", s) })
				w.Eval(int(n))
				if err == nil {
					w.DistinctN(int64(per))
					return
				}
				if f, ok := err.(*trieFailure); ok {
					c = &Case{Oracle: "tries", Fixed: true, Args: []int64{f.seed}}
				}
				x.Fail(c, err)
			})
			x.Require(x.Counted("lookups compared") > 1_000_000, "lookups")
		},
	})
}
