// instr writes an overlay in which every statement of the packages under check
// is preceded by a call of a scheduling point: instr REPO OUTDIR MODULE pkg...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	repo, out, module := os.Args[1], os.Args[2], os.Args[3]
	over := map[string]string{}
	put := func(at, text string) {
		f := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(at, repo+"/"), "/", "__"))
		die(os.WriteFile(f, []byte(text), 0o644))
		over[at] = f
	}
	id := 0
	var entries []string
	for _, pkg := range os.Args[4:] {
		files, err := filepath.Glob(filepath.Join(repo, pkg, "*.go"))
		die(err)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			die(err)
			fset := token.NewFileSet()
			tree, err := parser.ParseFile(fset, f, src, parser.SkipObjectResolution)
			if err != nil {
				continue // the compiler reports it
			}
			var at []int
			entry := map[int]bool{}
			mark := func(l []ast.Stmt) {
				for _, s := range l {
					if _, empty := s.(*ast.EmptyStmt); !empty {
						at = append(at, fset.Position(s.Pos()).Offset)
					}
				}
			}
			ast.Inspect(tree, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.FuncDecl:
					if x.Body != nil && len(x.Body.List) > 0 {
						entry[fset.Position(x.Body.List[0].Pos()).Offset] = true
					}
				case *ast.FuncLit:
					if len(x.Body.List) > 0 {
						entry[fset.Position(x.Body.List[0].Pos()).Offset] = true
					}
				case *ast.BlockStmt:
					if len(x.List) > 0 {
						switch x.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true // the body of a switch
						}
					}
					mark(x.List)
				case *ast.CaseClause:
					mark(x.Body)
				case *ast.CommClause:
					mark(x.Body)
				}
				return true
			})
			if len(at) == 0 {
				continue
			}
			sort.Ints(at)
			var b strings.Builder
			nameEnd := fset.Position(tree.Name.End()).Offset
			b.Write(src[:nameEnd])
			fmt.Fprintf(&b, "; import mcpoint %q", module+"/mcpoint")
			last := nameEnd
			for i, o := range at {
				if i > 0 && at[i-1] == o {
					continue
				}
				b.Write(src[last:o])
				fmt.Fprintf(&b, "mcpoint.P(%d); ", id)
				if entry[o] {
					entries = append(entries, fmt.Sprintf("%d: true", id))
				}
				id++
				last = o
			}
			b.Write(src[last:])
			put(f, b.String())
		}
	}
	put(filepath.Join(repo, "mcpoint", "point.go"), fmt.Sprintf(`// Package mcpoint is the scheduling hook of the instrumented build.
package mcpoint

// Points is the number of places.
const Points = %d

// Entry tells which places begin a function.
var Entry = [Points]bool{%s}

// H is called with the number of the place before every statement.
var H func(int)

// P is a scheduling point.
func P(id int) {
	if h := H; h != nil {
		h(id)
	}
}
`, id, strings.Join(entries, ", ")))
	b, err := json.Marshal(map[string]any{"Replace": over})
	die(err)
	die(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
