package ref

import (
	"go/ast"
	"go/parser"
	"go/token"
	"slices"
	"strconv"
	"testing"
)

// The reference reproduces the official break tests, as /repo has them.
func TestOfficial(t *testing.T) {
	for _, k := range []Kind{Graphemes, Words, Sentences} {
		f, err := parser.ParseFile(token.NewFileSet(), "/repo/"+k.String()+"/unicode_test.go", nil, 0)
		if err != nil {
			t.Fatal(err)
		}
		n := 0
		ast.Inspect(f, func(x ast.Node) bool {
			kv, ok := x.(*ast.CompositeLit)
			if !ok || len(kv.Elts) < 2 {
				return true
			}
			var input []byte
			var ends []int
			for _, e := range kv.Elts {
				e, ok := e.(*ast.KeyValueExpr)
				if !ok {
					return true
				}
				l, ok := e.Value.(*ast.CompositeLit)
				if !ok {
					continue
				}
				switch e.Key.(*ast.Ident).Name {
				case "input":
					input = lits(t, l)
				case "expected":
					end := 0
					for _, p := range l.Elts {
						end += len(lits(t, p.(*ast.CompositeLit)))
						ends = append(ends, end)
					}
				}
			}
			if input == nil {
				return true
			}
			n++
			if got := Ends(k, input); !slices.Equal(got, ends) {
				t.Errorf("%v %+q: reference %v, official %v", k, input, got, ends)
			}
			return false
		})
		if n < 300 {
			t.Errorf("%v: only %d tests found", k, n)
		}
		t.Log(k, n)
	}
}

func lits(t *testing.T, l *ast.CompositeLit) []byte {
	var out []byte
	for _, e := range l.Elts {
		v, err := strconv.ParseUint(e.(*ast.BasicLit).Value, 0, 8)
		if err != nil {
			t.Fatal(err)
		}
		out = append(out, byte(v))
	}
	return out
}
