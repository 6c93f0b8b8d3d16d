// Development tool: prints single-edit mutants of a Go file as JSON lines
// {"line":…, "what":…, "start":…, "end":…, "text":…} (byte offsets).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	Line       int
	What       string
	Start, End int
	Text       string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	out := func(n ast.Node, a, b token.Pos, text, what string) {
		enc.Encode(edit{fs.Position(n.Pos()).Line, what, off(a), off(b), text})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	bin := map[token.Token][]string{
		token.LAND: {"||"}, token.LOR: {"&&"}, token.EQL: {"!="}, token.NEQ: {"=="},
		token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="}, token.GTR: {">=", "<"}, token.GEQ: {">", "=="},
		token.ADD: {"-"}, token.SUB: {"+"}, token.OR: {"&"}, token.AND: {"|"}, token.SHL: {">>"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT || n.Tok == token.TYPE {
				return false
			}
		case *ast.BinaryExpr:
			for _, t := range bin[n.Op] {
				out(n, n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t, n.Op.String()+" -> "+t)
			}
			switch n.Op {
			case token.LAND, token.LOR, token.OR:
				out(n, n.Pos(), n.End(), text(n.X), "only "+text(n.X))
				out(n, n.Pos(), n.End(), text(n.Y), "only "+text(n.Y))
			case token.ADD, token.SUB:
				out(n, n.Pos(), n.End(), text(n.X), "only "+text(n.X))
			}
		case *ast.IfStmt:
			out(n, n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "never: "+text(n.Cond))
			out(n, n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "always: "+text(n.Cond))
		case *ast.ForStmt:
			if n.Cond != nil {
				out(n, n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "no loop: "+text(n.Cond))
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
					out(n, n.Pos(), n.End(), fmt.Sprint(v+1), n.Value+" -> +1")
					if v > 0 {
						out(n, n.Pos(), n.End(), fmt.Sprint(v-1), n.Value+" -> -1")
					}
				}
			}
			if n.Kind == token.CHAR {
				if v, _, _, err := strconv.UnquoteChar(n.Value[1:len(n.Value)-1], '\''); err == nil {
					out(n, n.Pos(), n.End(), strconv.QuoteRuneToASCII(v+1), n.Value+" -> +1")
					out(n, n.Pos(), n.End(), strconv.QuoteRuneToASCII(v-1), n.Value+" -> -1")
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				out(n, n.Pos(), n.End(), text(n.X), "drop ! of "+text(n.X))
			}
		case *ast.Ident:
			if n.Name == "true" {
				out(n, n.Pos(), n.End(), "false", "true -> false")
			}
			if n.Name == "false" {
				out(n, n.Pos(), n.End(), "true", "false -> true")
			}
		case *ast.BlockStmt:
			for _, s := range n.List {
				switch s := s.(type) {
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						out(s, s.Pos(), s.End(), "", "delete "+text(s))
					}
				case *ast.IncDecStmt, *ast.ExprStmt:
					out(s, s.Pos(), s.End(), "", "delete "+text(s))
				case *ast.BranchStmt:
					switch s.Tok {
					case token.BREAK:
						if s.Label == nil {
							out(s, s.Pos(), s.End(), "continue", "break -> continue")
						}
						out(s, s.Pos(), s.End(), "", "delete "+text(s))
					case token.CONTINUE:
						out(s, s.Pos(), s.End(), "break", "continue -> break")
						out(s, s.Pos(), s.End(), "", "delete "+text(s))
					}
				}
			}
		case *ast.CaseClause:
			for _, s := range n.Body {
				switch s := s.(type) {
				case *ast.AssignStmt, *ast.IncDecStmt, *ast.ExprStmt, *ast.BranchStmt:
					out(s, s.Pos(), s.End(), "", "delete "+text(s))
				}
			}
			if len(n.List) > 1 {
				for i, e := range n.List {
					a, b := e.Pos(), e.End()
					if i+1 < len(n.List) {
						b = n.List[i+1].Pos()
					} else {
						a = n.List[i-1].End()
					}
					out(e, a, b, "", "drop case "+text(e))
				}
			}
		}
		return true
	})
}
