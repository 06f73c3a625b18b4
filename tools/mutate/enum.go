//go:build ignore

// enum.go FILE...: lists mutations of Go files, one JSON object per line: file, offset, length, replacement, kind, line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Line int    `json:"line"`
	Old  string `json:"old"`
}

var swap = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(from, to token.Pos, repl, kind string) {
			o, e := off(from), off(to)
			enc.Encode(mut{filepath.Base(f), o, e - o, repl, kind, fs.Position(from).Line, string(src[o:e])})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		stmts := func(list []ast.Stmt) {
			for i, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt:
					emit(s.Pos(), s.End(), "", "drop")
				case *ast.DeferStmt:
					emit(s.Pos(), s.End(), "", "drop")
					emit(s.Pos(), s.End(), txt(s.Call), "undefer")
				case *ast.GoStmt:
					emit(s.Pos(), s.End(), txt(s.Call), "ungo")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						repl := ""
						for j, r := range s.Rhs {
							_ = j
							repl += "_ = " + txt(r) + "; "
						}
						emit(s.Pos(), s.End(), repl, "drop")
					}
				case *ast.IncDecStmt:
					emit(s.Pos(), s.End(), "", "drop")
					emit(s.TokPos, s.End(), map[token.Token]string{token.INC: "--", token.DEC: "++"}[s.Tok], "incdec")
				case *ast.BranchStmt:
					if s.Tok == token.BREAK && s.Label == nil {
						emit(s.Pos(), s.End(), "continue", "branch")
					} else if s.Tok == token.CONTINUE {
						emit(s.Pos(), s.End(), "break", "branch")
					}
				case *ast.ReturnStmt:
					if len(s.Results) == 0 && i == len(list)-1 {
						emit(s.Pos(), s.End(), "", "drop")
					}
				}
				if i+1 < len(list) { // two neighbours change places
					n := list[i+1]
					_, d1 := s.(*ast.DeclStmt)
					x, ok := s.(*ast.AssignStmt)
					if !d1 && !(ok && x.Tok == token.DEFINE) {
						if off(n.End())-off(s.Pos()) < 400 {
							emit(s.Pos(), n.End(), txt(n)+"\n"+txt(s), "swap")
						}
					}
				}
			}
		}
		ast.Inspect(a, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				for _, r := range swap[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, "op")
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), txt(n.X), "left")
					emit(n.Pos(), n.End(), txt(n.Y), "right")
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "("+txt(n.Cond)+") && false", "never")
				emit(n.Cond.Pos(), n.Cond.End(), "("+txt(n.Cond)+") || true", "always")
				if n.Else != nil {
					emit(n.Body.End(), n.Else.End(), "", "noelse")
				}
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "("+txt(n.Cond)+") && false", "never")
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					emit(n.Pos(), n.End(), fmt.Sprintf("(%s+1)", n.Value), "const")
					emit(n.Pos(), n.End(), fmt.Sprintf("(%s-1)", n.Value), "const")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.Pos(), n.End(), txt(n.X), "not")
				}
			case *ast.Ident:
				switch n.Name {
				case "true":
					emit(n.Pos(), n.End(), "false", "bool")
				case "false":
					emit(n.Pos(), n.End(), "true", "bool")
				}
			case *ast.KeyValueExpr:
				if id, ok := n.Key.(*ast.Ident); ok && id.Obj == nil {
					emit(n.Pos(), n.End(), "", "field")
				}
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.CommClause:
				stmts(n.Body)
			case *ast.ImportSpec:
				return false
			case *ast.FieldList:
				return false
			}
			return true
		})
	}
}
