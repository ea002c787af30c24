//go:build ignore

// instr writes a build overlay in which every statement of the packages under
// <repo>/yaml is preceded by a yield point.
//
//	go run instr.go <repo> <dir>     writes <dir>/yields.json
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hook = `// Package verifyield is what the instrumented statements call.
package verifyield

// Hook is set once, before any instrumented code runs concurrently.
var Hook func(site int)

//go:norace
func Y(site int) {
	if h := Hook; h != nil {
		h(site)
	}
}
`

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func main() {
	repo, err := filepath.Abs(os.Args[1])
	check(err)
	dir, err := filepath.Abs(os.Args[2])
	check(err)
	replace := map[string]string{}
	out := filepath.Join(dir, "verifyield.go")
	check(os.WriteFile(out, []byte(hook), 0644))
	replace[filepath.Join(repo, "yaml", "verifyield", "verifyield.go")] = out
	var sites []string
	n := 0
	err = filepath.Walk(filepath.Join(repo, "yaml"), func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if b := fi.Name(); b == "testdata" || strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		set := token.NewFileSet()
		f, err := parser.ParseFile(set, path, src, parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" {
			return nil
		}
		var at []int
		entry := map[int]bool{}
		add := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); !ok {
					at = append(at, set.Position(s.Pos()).Offset)
				}
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch v := x.(type) {
			case *ast.FuncDecl:
				if v.Body != nil && len(v.Body.List) > 0 {
					entry[set.Position(v.Body.List[0].Pos()).Offset] = true
				}
			case *ast.FuncLit:
				if len(v.Body.List) > 0 {
					entry[set.Position(v.Body.List[0].Pos()).Offset] = true
				}
			case *ast.BlockStmt:
				// the body of a switch or select holds clauses
				for _, s := range v.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
					default:
						add([]ast.Stmt{s})
					}
				}
			case *ast.CaseClause:
				add(v.Body)
			case *ast.CommClause:
				add(v.Body)
			}
			return true
		})
		if len(at) == 0 {
			return nil
		}
		sort.Ints(at)
		var b strings.Builder
		prev := set.Position(f.Name.End()).Offset
		b.Write(src[:prev])
		b.WriteString(`; import verifyield "github.com/drone/drone-yaml/yaml/verifyield"`)
		for i, o := range at {
			if i > 0 && o == at[i-1] {
				continue
			}
			b.Write(src[prev:o])
			fmt.Fprintf(&b, "verifyield.Y(%d); ", len(sites))
			rel, _ := filepath.Rel(repo, path)
			what := ""
			if entry[o] {
				what = " entry"
			}
			sites = append(sites, fmt.Sprintf("%s:%d%s", rel, strings.Count(string(src[:o]), "\n")+1, what))
			prev = o
		}
		b.Write(src[prev:])
		out := filepath.Join(dir, fmt.Sprintf("y%d.go", n))
		n++
		replace[path] = out
		return os.WriteFile(out, []byte(b.String()), 0644)
	})
	check(err)
	js, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	check(os.WriteFile(filepath.Join(dir, "yields.json"), js, 0644))
	js, _ = json.Marshal(sites)
	check(os.WriteFile(filepath.Join(dir, "sites.json"), js, 0644))
}
