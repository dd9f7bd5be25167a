// Command mutate prints small mutations of a Go file, one JSON object per line: {"line", "what", "start", "end", "new"}, where
// the bytes [start, end) of the file are to be replaced by new.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type mutation struct {
	Line  int    `json:"line"`
	What  string `json:"what"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
}

func main() {
	path := os.Args[1]
	src, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, path, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	out := json.NewEncoder(os.Stdout)
	emit := func(n ast.Node, what string, start, end int, repl string) {
		_ = out.Encode(mutation{fset.Position(n.Pos()).Line, what, start, end, repl})
	}
	swaps := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
	}
	stmts := func(list []ast.Stmt) {
		for i, s := range list {
			start, end := off(s.Pos()), off(s.End())
			switch x := s.(type) {
			case *ast.AssignStmt:
				if x.Tok == token.DEFINE {
					break
				}
				emit(s, "delete "+string(src[start:end]), start, end, "")
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
				emit(s, "delete "+string(src[start:end]), start, end, "")
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE {
					emit(s, "delete continue", start, end, "")
				} else {
					emit(s, "delete "+string(src[start:end]), start, end, "")
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					emit(s, "delete return", start, end, "")
				}
			case *ast.IfStmt, *ast.RangeStmt, *ast.ForStmt:
				text := string(src[start:end])
				if len(text) > 60 {
					text = text[:60]
				}
				emit(s, "delete "+text, start, end, "")
			}
			// Swap with the next statement.
			if i+1 < len(list) {
				next := list[i+1]
				ns, ne := off(next.Pos()), off(next.End())
				if end-start < 120 && ne-ns < 120 {
					emit(s, "swap "+string(src[start:ne]), start, ne, string(src[ns:ne])+string(src[end:ns])+string(src[start:end]))
				}
			}
		}
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			return x.Tok != token.IMPORT
		case *ast.BinaryExpr:
			for _, s := range swaps[x.Op] {
				emit(n, fmt.Sprintf("%s -> %s", string(src[off(x.Pos()):off(x.End())]), s), off(x.OpPos), off(x.OpPos)+len(x.Op.String()), s)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit(n, "keep left of "+string(src[off(x.Pos()):off(x.End())]), off(x.X.End()), off(x.End()), "")
				emit(n, "keep right of "+string(src[off(x.Pos()):off(x.End())]), off(x.Pos()), off(x.Y.Pos()), "")
			}
		case *ast.IfStmt:
			c := string(src[off(x.Cond.Pos()):off(x.Cond.End())])
			emit(n, "negate if "+c, off(x.Cond.Pos()), off(x.Cond.End()), "!("+c+")")
			if x.Else != nil {
				emit(n, "drop else of "+c, off(x.Body.End()), off(x.Else.End()), "")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				emit(n, "drop ! of "+string(src[off(x.Pos()):off(x.End())]), off(x.Pos()), off(x.X.Pos()), "")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				emit(n, "int "+x.Value+" -> +1", off(x.Pos()), off(x.End()), "("+x.Value+"+1)")
			}
		case *ast.Ident:
			if x.Name == "true" {
				emit(n, "true -> false", off(x.Pos()), off(x.End()), "false")
			}
			if x.Name == "false" {
				emit(n, "false -> true", off(x.Pos()), off(x.End()), "true")
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			text := string(src[off(x.Pos()):off(x.Colon)])
			emit(n, "delete "+text, off(x.Pos()), off(x.End()), "")
			for i := range x.List {
				if len(x.List) > 1 {
					s, e := off(x.List[i].Pos()), off(x.List[i].End())
					if i+1 < len(x.List) {
						e = off(x.List[i+1].Pos())
					} else {
						s = off(x.List[i-1].End())
					}
					emit(x.List[i], "delete alternative "+string(src[s:e])+" of "+text, s, e, "")
				}
			}
		case *ast.KeyValueExpr:
			if _, ok := x.Key.(*ast.Ident); ok {
				e := off(x.End())
				for src[e] == ' ' {
					e++
				}
				if src[e] == ',' {
					e++
				}
				emit(n, "delete field "+string(src[off(x.Pos()):off(x.End())]), off(x.Pos()), e, "")
			}
		}
		return true
	})
}
