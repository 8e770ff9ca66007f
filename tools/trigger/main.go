// Command trigger lists rare-value changes of /repo (one JSON object per line)
// for tools/campaign.py: a use of an integer variable is given a neighbouring
// value when it holds one particular value, or a condition on such a variable
// comes out wrong for it. It is a development aid: no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"path/filepath"
	"strings"
)

type mut struct {
	ID    string `json:"id"`
	File  string `json:"file"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
	Kind  string `json:"kind"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Repl  string `json:"repl"`
	Old   string `json:"old"`
}

// domain guesses the interesting values of a variable by its name and type.
func domain(name string, b *types.Basic) (lo, hi int) {
	n := strings.ToLower(name)
	has := func(s string) bool { return strings.Contains(n, s) }
	switch {
	case has("track"):
		return 0, 34
	case has("sector"):
		return 0, 15
	case has("file") || n == "f":
		return 1, 0xFD
	case has("addr") || has("start") || has("location"):
		return 0x100, 0xFFFF
	case has("block"):
		return 0, 279
	}
	switch b.Kind() {
	case types.Byte:
		return 0, 255
	case types.Uint16:
		return 0, 65535
	}
	return 0, 300
}

func main() {
	per := 2
	enc := json.NewEncoder(os.Stdout)
	n := 0
	for _, dir := range os.Args[1:] {
		fset := token.NewFileSet()
		var files []*ast.File
		names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range names {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			p, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				panic(err)
			}
			files = append(files, p)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
		pkg, _ := conf.Check(dir, fset, files, info)
		for _, f := range files {
			fname := fset.Position(f.Pos()).Filename
			src, _ := os.ReadFile(fname)
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				skip := map[ast.Node]bool{}
				ast.Inspect(fd.Body, func(x ast.Node) bool {
					switch x := x.(type) {
					case *ast.AssignStmt:
						for _, l := range x.Lhs {
							skip[l] = true
						}
					case *ast.IncDecStmt:
						skip[x.X] = true
					case *ast.UnaryExpr:
						if x.Op == token.AND {
							skip[x.X] = true
						}
					case *ast.RangeStmt:
						if x.Key != nil {
							skip[x.Key] = true
						}
						if x.Value != nil {
							skip[x.Value] = true
						}
					case *ast.CallExpr:
						if s, ok := x.Fun.(*ast.SelectorExpr); ok && (strings.Contains(s.Sel.Name, "rrorf") || strings.Contains(s.Sel.Name, "rintf") || strings.HasSuffix(s.Sel.Name, "f")) {
							if id, ok := s.X.(*ast.Ident); ok && (id.Name == "fmt" || id.Name == "errors") {
								return false
							}
						}
					case *ast.KeyValueExpr:
						skip[x.Key] = true
					case *ast.SelectorExpr:
						skip[x.Sel] = true
					}
					e, ok := x.(ast.Expr)
					if !ok || skip[e] {
						return true
					}
					switch x.(type) {
					case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.CallExpr:
					default:
						return true
					}
					tv := info.Types[e]
					if tv.Value != nil || tv.IsType() || tv.Type == nil || !(tv.IsValue()) {
						return true
					}
					b, ok := tv.Type.Underlying().(*types.Basic)
					if !ok || b.Info()&types.IsInteger == 0 || b.Info()&types.IsUntyped != 0 {
						return true
					}
					ty := types.TypeString(tv.Type, func(p *types.Package) string {
						if p == pkg {
							return ""
						}
						return p.Name()
					})
					s, en := fset.Position(e.Pos()).Offset, fset.Position(e.End()).Offset
					old := string(src[s:en])
					if c, ok := x.(*ast.CallExpr); ok {
						if id, ok := c.Fun.(*ast.Ident); ok && info.Types[id].IsType() {
							return true // a conversion
						}
					}
					lo, hi := domain(old, b)
					for k := 0; k < per; k++ {
						h := fnv.New32a()
						fmt.Fprint(h, fname, s, k, old)
						v := lo + int(h.Sum32()>>4)%(hi-lo+1)
						if k == 1 {
							v = []int{lo, hi, lo + 1, hi - 1, (lo + hi) / 2}[int(h.Sum32()>>4)%5]
						}
						n++
						enc.Encode(mut{fmt.Sprintf("t%04d", n), fname, fset.Position(e.Pos()).Line, fd.Name.Name, "trigger", s, en,
							fmt.Sprintf("func(x %s) %s { if x == %d { return x ^ 1 }; return x }(%s)", ty, ty, v, old), old})
					}
					return true
				})
			}
		}
	}
}
