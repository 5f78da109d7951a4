// instr ROOT OUTDIR FILE...: writes a copy of each Go file in which every
// statement is preceded by a call to runtime.SimYield, so that the simulated
// scheduler can switch goroutines between any two statements, and prints the
// JSON mapping from original to copy. Line numbers are preserved.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	root, out := os.Args[1], os.Args[2]
	mapping := map[string]string{}
	for _, file := range os.Args[3:] {
		src, err := os.ReadFile(file)
		check(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		check(err)

		offs := map[int]bool{}
		add := func(list []ast.Stmt) {
			for _, s := range list {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				}
				offs[fset.Position(s.Pos()).Offset] = true
			}
		}
		skip := map[ast.Node]bool{}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
				for _, c := range fd.Doc.List {
					// no calls may be added to such functions
					if strings.HasPrefix(c.Text, "//go:nosplit") {
						skip[fd] = true
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if skip[n] {
				return false
			}
			switch n := n.(type) {
			case *ast.ForStmt:
				if len(n.Body.List) == 0 {
					offs[fset.Position(n.Body.Rbrace).Offset] = true
				}
			case *ast.RangeStmt:
				if len(n.Body.List) == 0 {
					offs[fset.Position(n.Body.Rbrace).Offset] = true
				}
			case *ast.BlockStmt:
				add(n.List)
			case *ast.CaseClause:
				add(n.Body)
			case *ast.CommClause:
				add(n.Body)
			}
			return true
		})

		var list []int
		for o := range offs {
			list = append(list, o)
		}
		sort.Ints(list)

		text := src
		if len(list) > 0 {
			var b []byte
			pos := 0
			nameEnd := fset.Position(f.Name.End()).Offset
			b = append(b, text[:nameEnd]...)
			b = append(b, `; import simrt "runtime"`...)
			pos = nameEnd
			for _, o := range list {
				b = append(b, text[pos:o]...)
				b = append(b, "simrt.SimYield(); "...)
				pos = o
			}
			b = append(b, text[pos:]...)
			text = b
		}
		rel, err := filepath.Rel(root, file)
		check(err)
		dst := filepath.Join(out, rel)
		check(os.MkdirAll(filepath.Dir(dst), 0o755))
		check(os.WriteFile(dst, text, 0o644))
		mapping[file] = dst
	}
	check(json.NewEncoder(os.Stdout).Encode(mapping))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
