// Command mutate lists small source changes of /repo (one JSON object per
// line) for the mutation campaign of tools/campaign.py. It is a development
// aid: no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	ID    string `json:"id"`
	File  string `json:"file"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
	Kind  string `json:"kind"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Repl  string `json:"repl"`
	Old   string `json:"old"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	n := 0
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		emit := func(kind string, a, b token.Pos, repl string) {
			s, e := off(a), off(b)
			if string(src[s:e]) == repl {
				return
			}
			n++
			enc.Encode(mut{fmt.Sprintf("m%04d", n), file, fset.Position(a).Line, fn, kind, s, e, repl, string(src[s:e])})
		}
		text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
		swaps := map[token.Token][]string{
			token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
			token.AND: {"|"}, token.OR: {"&", "^"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.XOR: {"|"},
		}
		isErrf := func(x ast.Expr) bool {
			c, ok := x.(*ast.CallExpr)
			if !ok {
				return false
			}
			t := text(c.Fun)
			return t == "fmt.Errorf" || t == "errors.New" || (len(t) > 7 && t[:7] == "errors.")
		}
		var inErr int
		var visit func(x ast.Node)
		visit = func(x ast.Node) {
			if x == nil {
				return
			}
			switch x := x.(type) {
			case *ast.ImportSpec:
				return
			case *ast.Field:
				return
			case *ast.CallExpr:
				if isErrf(x) {
					return
				}
			case *ast.FuncDecl:
				fn = x.Name.Name
				if x.Body == nil {
					return
				}
				visit(x.Body)
				return
			case *ast.BinaryExpr:
				for _, r := range swaps[x.Op] {
					emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						emit("int+1", x.Pos(), x.End(), strconv.FormatInt(v+1, 10))
						if v > 0 {
							emit("int-1", x.Pos(), x.End(), strconv.FormatInt(v-1, 10))
						}
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 1 && fn != "Help" {
					emit("str", x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"Z"+x.Value[len(x.Value)-1:])
				}
				if x.Kind == token.CHAR {
					emit("char", x.Pos(), x.End(), "("+x.Value+"+1)")
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit("bool", x.Pos(), x.End(), "false")
				}
				if x.Name == "false" {
					emit("bool", x.Pos(), x.End(), "true")
				}
			case *ast.IfStmt:
				if x.Init == nil || true {
					c := text(x.Cond)
					emit("iffalse", x.Cond.Pos(), x.Cond.End(), "("+c+") && false")
					emit("iftrue", x.Cond.Pos(), x.Cond.End(), "("+c+") || true")
				}
			case *ast.ForStmt:
			case *ast.ExprStmt:
				emit("delstmt", x.Pos(), x.End(), "")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					del := "if false { " + text(x) + " }"
					emit("delstmt", x.Pos(), x.End(), del)
					if x.Tok == token.ADD_ASSIGN {
						emit("op", x.TokPos, x.TokPos+2, "-=")
					}
					if x.Tok == token.OR_ASSIGN {
						emit("op", x.TokPos, x.TokPos+2, "=")
					}
				}
			case *ast.IncDecStmt:
				emit("delstmt", x.Pos(), x.End(), "")
			case *ast.BranchStmt:
				if x.Tok == token.BREAK || x.Tok == token.CONTINUE {
					emit("delstmt", x.Pos(), x.End(), "")
					if x.Tok == token.CONTINUE {
						emit("branch", x.Pos(), x.End(), "break")
					} else {
						emit("branch", x.Pos(), x.End(), "continue")
					}
				}
			case *ast.ReturnStmt:
				if k := len(x.Results); k > 0 {
					l := x.Results[k-1]
					if isErrf(l) || text(l) == "err" {
						emit("noerr", l.Pos(), l.End(), "nil")
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit("slice", x.Low.Pos(), x.Low.End(), text(x.Low)+"+1")
				}
				if x.High != nil {
					emit("slice", x.High.Pos(), x.High.End(), text(x.High)+"-1")
				}
			case *ast.IndexExpr:
				emit("index", x.Index.Pos(), x.Index.End(), text(x.Index)+"+1")
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit("op", x.Pos(), x.Pos()+1, "")
				}
			case *ast.CaseClause:
				for i, e := range x.List {
					if len(x.List) > 1 {
						if i+1 < len(x.List) {
							emit("case", e.Pos(), x.List[i+1].Pos(), "")
						} else {
							emit("case", x.List[i-1].End(), e.End(), "")
						}
					}
				}
			}
			_ = inErr
			for _, c := range children(x) {
				visit(c)
			}
		}
		visit(f)
	}
}

func children(x ast.Node) (out []ast.Node) {
	first := true
	ast.Inspect(x, func(c ast.Node) bool {
		if first {
			first = false
			return true
		}
		if c != nil {
			out = append(out, c)
		}
		return false
	})
	return
}
