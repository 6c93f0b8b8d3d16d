// instrument REPO OUT writes an overlay for go build under which every function
// and every loop iteration of the library adds one to a step counter. It
// inserts text at positions the parser reports, whatever the code is.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const pkg = "github.com/clipperhouse/uax29/v2/internal/verifsteps"

func main() {
	if err := run(os.Args[1], os.Args[2]); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func run(repo, out string) error {
	overlay := map[string]string{}
	put := func(name, content string) error {
		f := filepath.Join(out, fmt.Sprintf("f%d.go", len(overlay)))
		overlay[name] = f
		return os.WriteFile(f, []byte(content), 0o666)
	}
	if err := put(filepath.Join(repo, "internal/verifsteps/steps.go"), "package verifsteps\n\nvar N uint64\n"); err != nil {
		return err
	}
	sites := 0
	err := filepath.WalkDir(repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if path != repo {
				if strings.HasPrefix(d.Name(), ".") || d.Name() == "testdata" {
					return filepath.SkipDir
				}
				if _, err := os.Stat(filepath.Join(path, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			return err
		}
		var at []int
		add := func(b *ast.BlockStmt) {
			if b != nil {
				at = append(at, fset.Position(b.Lbrace).Offset+1)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				add(n.Body)
			case *ast.FuncLit:
				add(n.Body)
			case *ast.ForStmt:
				add(n.Body)
			case *ast.RangeStmt:
				add(n.Body)
			}
			return true
		})
		if len(at) == 0 {
			return nil
		}
		sites += len(at)
		sort.Ints(at)
		var b strings.Builder
		last := fset.Position(f.Name.End()).Offset
		b.Write(src[:last])
		b.WriteString("; import verifsteps \"" + pkg + "\"")
		for _, p := range at {
			b.Write(src[last:p])
			b.WriteString(" verifsteps.N++;")
			last = p
		}
		b.Write(src[last:])
		return put(path, b.String())
	})
	if err != nil {
		return err
	}
	j, _ := json.Marshal(map[string]any{"Replace": overlay})
	fmt.Println(sites)
	return os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o666)
}
