// mutate lists small changes of a Go file: mutate FILE prints one JSON object
// per line with the changed text.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

func main() {
	file := os.Args[1]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	emit := func(a, b token.Pos, repl, what string) {
		out := string(src[:off(a)]) + repl + string(src[off(b):])
		l := fset.Position(a).Line
		j, _ := json.Marshal(map[string]string{"file": file, "what": fmt.Sprintf("%d: %s: %q -> %q", l, what, string(src[off(a):off(b)]), repl), "text": out})
		fmt.Println(string(j))
	}
	swap := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
	}
	stmts := func(l []ast.Stmt) {
		for i, s := range l {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
				emit(s.Pos(), s.End(), "", "delete")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(s.Pos(), s.End(), "", "delete")
				}
			case *ast.IfStmt:
				if x.Else == nil {
					emit(s.Pos(), s.End(), "", "delete")
				}
			}
			// exchange neighbours
			if i+1 < len(l) {
				plain := func(s ast.Stmt) bool {
					switch s.(type) {
					case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt:
						return true
					}
					return false
				}
				if plain(s) && plain(l[i+1]) {
					n := l[i+1]
					emit(s.Pos(), n.End(), string(src[off(n.Pos()):off(n.End())])+"\n"+string(src[off(s.Pos()):off(s.End())]), "exchange")
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			// checks of invariants are not of interest
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && id.Name == "assert" {
					return false
				}
			}
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "debug" {
				return false
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.BinaryExpr:
			for _, s := range swap[x.Op] {
				emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "operator")
			}
		case *ast.IfStmt:
			emit(x.Cond.Pos(), x.Cond.End(), "!("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "negate")
		case *ast.BasicLit:
			if x.Kind == token.INT {
				emit(x.Pos(), x.End(), "("+x.Value+"+1)", "constant")
			}
		case *ast.Ident:
			switch x.Name {
			case "true":
				emit(x.Pos(), x.End(), "false", "flag")
			case "false":
				emit(x.Pos(), x.End(), "true", "flag")
			}
		case *ast.ReturnStmt:
			if k := len(x.Results); k > 0 {
				if id, ok := x.Results[k-1].(*ast.Ident); ok && len(id.Name) >= 3 && id.Name[:3] == "err" {
					emit(id.Pos(), id.End(), "nil", "result")
				}
			}
		case *ast.KeyValueExpr:
			emit(x.Pos(), x.End(), "", "element")
		}
		return true
	})
}
