package gen

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/v2/verifmon/ref"
)

// The literals of the code under test, as a dictionary for the workload, the
// way fuzzers take one from the binary: what the code compares its input with
// is worth trying. They say nothing about what is right.
type dictionary struct {
	pieces []string // characters, strings, and byte sequences
	sizes  []int    // lengths and counts
}

var dictionaries [4]dictionary
var dictOnce sync.Once

func dictFor(k ref.Kind) *dictionary {
	dictOnce.Do(loadDictionaries)
	return &dictionaries[k]
}

// Repo is where the code under test is.
func Repo() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadDictionaries() {
	dirs := map[string]ref.Kind{"graphemes": ref.Graphemes, "words": ref.Words, "sentences": ref.Sentences, "phrases": ref.Phrases}
	type sets struct {
		pieces map[string]bool
		sizes  map[int]bool
	}
	var all [4]sets
	for k := range all {
		all[k] = sets{map[string]bool{}, map[int]bool{}}
	}
	root := Repo()
	filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, path)
		if info.IsDir() {
			if b := filepath.Base(path); b == "testdata" || b == "comparative" || rel == filepath.Join("internal", "gen") || strings.HasPrefix(b, ".") && rel != "." {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || info.Size() > 1<<17 {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil || strings.Contains(string(src[:min(len(src), 400)]), "Code generated") || strings.Contains(string(src[:min(len(src), 400)]), "generated by") {
			return nil
		}
		into := []ref.Kind{0, 1, 2, 3}
		if k, ok := dirs[strings.Split(filepath.ToSlash(rel), "/")[0]]; ok {
			into = []ref.Kind{k}
		}
		pieces, sizes := literals(src)
		for _, k := range into {
			for _, p := range pieces {
				all[k].pieces[p] = true
			}
			for _, n := range sizes {
				all[k].sizes[n] = true
			}
		}
		return nil
	})
	for k := range all {
		d := &dictionaries[k]
		for p := range all[k].pieces {
			d.pieces = append(d.pieces, p)
		}
		for n := range all[k].sizes {
			d.sizes = append(d.sizes, n)
		}
		sort.Strings(d.pieces)
		sort.Ints(d.sizes)
	}
}

// literals are what a file's literals could stand for.
func literals(src []byte) (pieces []string, sizes []int) {
	f, err := parser.ParseFile(token.NewFileSet(), "", src, parser.SkipObjectResolution)
	if err != nil {
		return nil, nil
	}
	number := func(v int64, hex bool) {
		if v >= 2 && v <= 1<<23 {
			sizes = append(sizes, int(v))
		}
		if v > 9 && v < 0x100 || hex && v >= 0 && v < 0x100 {
			pieces = append(pieces, string([]byte{byte(v)}))
		}
		if v > 9 && v <= utf8.MaxRune && utf8.ValidRune(rune(v)) {
			pieces = append(pieces, string(rune(v)))
		}
	}
	// The bytes that one expression or statement names, in their order.
	var seq []byte
	flush := func() {
		for i := 0; i < len(seq); i++ {
			for j := i + 2; j <= len(seq) && j <= i+8; j++ {
				pieces = append(pieces, string(seq[i:j]))
			}
		}
		seq = seq[:0]
	}
	elems := map[*ast.BasicLit]bool{}
	var lits func(n ast.Node)
	lits = func(n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				if v := eval(n); v != nil {
					if i, ok := constant.Int64Val(constant.ToInt(v)); ok {
						number(i, true)
					}
				}
				// An element compared with a small number may be a byte.
				for _, e := range [...][2]ast.Expr{{n.X, n.Y}, {n.Y, n.X}} {
					if _, ok := e[0].(*ast.IndexExpr); !ok {
						continue
					}
					if l, ok := e[1].(*ast.BasicLit); ok && l.Kind == token.INT {
						if v, ok := constant.Int64Val(eval(l)); ok && v >= 0 && v <= 31 {
							pieces = append(pieces, string([]byte{byte(v)}))
							elems[l] = true
						}
					}
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.CHAR:
					if s, err := strconv.Unquote(n.Value); err == nil {
						c, _ := utf8.DecodeRuneInString(s)
						if len(s) == 1 {
							c = rune(s[0])
						}
						pieces = append(pieces, string(c))
						if c < 0x100 {
							pieces = append(pieces, string([]byte{byte(c)}))
							seq = append(seq, byte(c))
						}
					}
				case token.STRING:
					if s, err := strconv.Unquote(n.Value); err == nil && s != "" && len(s) <= 200 {
						pieces = append(pieces, s)
					}
				case token.INT:
					if v, ok := constant.Int64Val(constant.ToInt(constant.MakeFromLiteral(n.Value, n.Kind, 0))); ok {
						hex := strings.HasPrefix(strings.ToLower(n.Value), "0x")
						number(v, hex)
						if (hex || v > 31 || elems[n]) && v >= 0 && v < 0x100 {
							seq = append(seq, byte(v))
						}
					}
				}
			}
			return true
		})
	}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil {
			lits(d)
			flush()
			continue
		}
		lits(fn)
		seq = seq[:0]
		// Again by the condition, case and statement.
		keep, keepSizes := pieces, sizes
		ast.Inspect(fn.Body, func(n ast.Node) bool {
			var part ast.Node
			switch n := n.(type) {
			case *ast.IfStmt:
				part = n.Cond
			case *ast.ForStmt:
				if n.Cond != nil {
					part = n.Cond
				}
			case *ast.CaseClause:
				for _, e := range n.List {
					pieces, sizes = nil, nil
					lits(e)
					flush()
					keep = append(keep, pieces...)
				}
			case *ast.ReturnStmt, *ast.AssignStmt, *ast.ExprStmt:
				part = n
			}
			if part != nil {
				pieces, sizes = nil, nil
				lits(part)
				flush()
				keep = append(keep, pieces...)
			}
			return true
		})
		pieces, sizes = keep, keepSizes
	}
	return pieces, sizes
}

// eval is the value of an expression of literals, or nil.
func eval(e ast.Expr) constant.Value {
	switch e := e.(type) {
	case *ast.BasicLit:
		if e.Kind == token.INT {
			return constant.MakeFromLiteral(e.Value, e.Kind, 0)
		}
	case *ast.ParenExpr:
		return eval(e.X)
	case *ast.BinaryExpr:
		x, y := eval(e.X), eval(e.Y)
		if x == nil || y == nil {
			return nil
		}
		switch e.Op {
		case token.SHL:
			if n, ok := constant.Uint64Val(y); ok && n < 63 {
				return constant.Shift(x, token.SHL, uint(n))
			}
		case token.ADD, token.SUB, token.MUL, token.OR:
			return constant.BinaryOp(x, e.Op, y)
		}
	}
	return nil
}

// Piece is something a literal of the code could stand for, or be near to;
// valid says that it must be UTF-8.
func Piece(r *Rng, k ref.Kind, valid bool) string {
	d := dictFor(k)
	if r.Intn(8) == 0 {
		d = dictFor(ref.Kind(r.Intn(4)))
	}
	if len(d.pieces) == 0 {
		return Motif(r, k)
	}
	s := d.pieces[r.Intn(len(d.pieces))]
	if utf8.ValidString(s) {
		if c, w := utf8.DecodeRuneInString(s); w == len(s) && r.Intn(4) == 0 {
			// Its neighbours, and others of its block.
			switch r.Intn(3) {
			case 0:
				c += rune(r.Intn(3) - 1)
			case 1:
				c += rune(r.Intn(33) - 16)
			case 2:
				c = c&^63 | rune(r.Intn(64))
			}
			if utf8.ValidRune(c) {
				return string(c)
			}
		}
		return s
	}
	if !valid && r.Intn(2) == 0 {
		return s
	}
	// Make it the start, or a part, of valid text.
	b := []byte(s)
	if b[0] < 0xC0 && b[0] >= 0x80 {
		switch r.Intn(3) {
		case 0:
			b = append([]byte{byte(0xC2 + r.Intn(0x1E))}, b...)
		case 1:
			b = append([]byte{byte(0xE1 + r.Intn(12)), byte(0x80 + r.Intn(64))}, b...)
		case 2:
			b = append([]byte{byte(0xE1 + r.Intn(12))}, b...)
		}
	}
	for i := 0; i < 3 && !utf8.Valid(b); i++ {
		b = append(b, byte(0x80+r.Intn(64)))
	}
	if !utf8.Valid(b) && valid {
		return string([]rune(string(b)))
	}
	return string(b)
}

// Size is a length near one that the code names, or 0 if there is none from lo
// to hi.
func Size(r *Rng, k ref.Kind, lo, hi int) int {
	d := dictFor(k)
	i := sort.SearchInts(d.sizes, lo)
	j := sort.SearchInts(d.sizes, hi+1)
	if i == j {
		return 0
	}
	return d.sizes[i+r.Intn(j-i)] + r.Intn(3) - 1
}

var controls = []string{"\x00", "\t", "\n", "\r", "\r\n", "\x1b", "\x7f", "\u0085", "\ufeff"}

// Pieces are the pieces of a kind's dictionary.
func Pieces(k ref.Kind) []string { return dictFor(k).pieces }

// fromLiterals is a text of such pieces and sizes, between others.
func fromLiterals(r *Rng, k ref.Kind, sc Scale, valid bool) string {
	a := For(k)
	var b strings.Builder
	most := [...]int{130, 2100, 70000}[sc]
	one := func() string {
		switch r.Intn(8) {
		case 0:
			return string(a.Any(r))
		case 1:
			return Motif(r, k)
		case 2:
			return string(asciiRune(r))
		case 3:
			if r.Intn(2) == 0 {
				return controls[r.Intn(len(controls))]
			}
			return fillers[k][r.Intn(len(fillers[k]))]
		}
		return Piece(r, k, valid)
	}
	for i := 1 + r.Intn(7); i > 0; i-- {
		n := 0
		if r.Intn(5) == 0 {
			n = Size(r, k, 2, most)
		}
		u := one()
		if n == 0 || u == "" {
			b.WriteString(u)
			continue
		}
		switch r.Intn(4) {
		case 0: // so many bytes
			b.WriteString(strings.Repeat(u, n/len(u)))
		case 1: // the text up to here, so many bytes
			if n > b.Len() {
				b.WriteString(strings.Repeat(u, (n-b.Len())/len(u)))
			}
		case 2: // so many characters
			b.WriteString(strings.Repeat(u, min(n, most)/utf8.RuneCountInString(u)))
		case 3: // so many of it
			b.WriteString(strings.Repeat(u, min(n, most*4/len(u))))
		}
	}
	return b.String()
}
