// yieldinst DIR OUT PKGDIR...: writes copies of the Go files of DIR/PKGDIR that call
// yield.Y before every statement, and OUT/overlay.json for go build -overlay.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	dir, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	site := 0
	for _, pkg := range os.Args[3:] {
		names, _ := filepath.Glob(filepath.Join(dir, pkg, "*.go"))
		sort.Strings(names)
		for _, name := range names {
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				fail(err)
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				fail(err)
			}
			at := map[int]string{}
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			list := func(ss []ast.Stmt) {
				for _, s := range ss {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					at[off(s.Pos())] = fmt.Sprintf("verifyield.Y(%d); ", site)
					site++
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					list(n.List)
				case *ast.CaseClause:
					list(n.Body)
				case *ast.CommClause:
					list(n.Body)
				}
				return true
			})
			// case clauses are the statements of a switch's block: nothing goes before them
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.CaseClause:
					delete(at, off(n.Pos()))
				case *ast.CommClause:
					delete(at, off(n.Pos()))
				}
				return true
			})
			if len(at) == 0 {
				continue
			}
			at[off(f.Name.End())] = `; import verifyield "stripverif/yield"`
			var b strings.Builder
			last := 0
			var offs []int
			for o := range at {
				offs = append(offs, o)
			}
			sort.Ints(offs)
			for _, o := range offs {
				b.Write(src[last:o])
				b.WriteString(at[o])
				last = o
			}
			b.Write(src[last:])
			to := filepath.Join(out, fmt.Sprintf("y%d_%s", len(replace), filepath.Base(name)))
			if err := os.WriteFile(to, []byte(b.String()), 0o644); err != nil {
				fail(err)
			}
			replace[name] = to
		}
	}
	js, _ := json.Marshal(map[string]any{"Replace": replace})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644); err != nil {
		fail(err)
	}
	fmt.Println("statements instrumented:", site)
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}
