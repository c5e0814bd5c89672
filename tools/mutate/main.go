// mutate lists small source mutations of Go files as JSON lines
// {file, lo, hi, repl, what}: replace the bytes [lo, hi) of file by repl.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Lo   int    `json:"lo"`
	Hi   int    `json:"hi"`
	Repl string `json:"repl"`
	What string `json:"what"`
	Line int    `json:"line"`
}

var swaps = map[token.Token][]token.Token{
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
	token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR},
	token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.REM: {token.QUO},
	token.AND: {token.OR, token.AND_NOT}, token.OR: {token.AND, token.XOR}, token.XOR: {token.OR, token.AND}, token.AND_NOT: {token.AND},
	token.SHL: {token.SHR}, token.SHR: {token.SHL},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, path := range os.Args[1:] {
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(lo, hi token.Pos, repl, what string) {
			enc.Encode(mut{path, off(lo), off(hi), repl, what, fs.Position(lo).Line})
		}
		fn := ""
		var visit func(n ast.Node) bool
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.BranchStmt:
					emit(s.Pos(), s.End(), "", fn+": drop "+text(s))
				case *ast.GoStmt:
					emit(s.Pos(), s.Call.Pos(), "", fn+": no go")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", fn+": drop "+text(s))
					}
					if len(s.Lhs) == 2 && len(s.Rhs) == 2 {
						emit(s.Rhs[0].Pos(), s.Rhs[1].End(), text(s.Rhs[1])+", "+text(s.Rhs[0]), fn+": swap values of "+text(s))
					}
				case *ast.IfStmt:
					if s.Init == nil {
						emit(s.Cond.Pos(), s.Cond.End(), "!("+text(s.Cond)+")", fn+": negate "+text(s.Cond))
						if s.Else == nil {
							emit(s.Pos(), s.End(), "", fn+": drop if "+text(s.Cond))
						} else {
							emit(s.Cond.Pos(), s.Cond.End(), "true || "+text(s.Cond), fn+": always "+text(s.Cond))
							emit(s.Cond.Pos(), s.Cond.End(), "false && ("+text(s.Cond)+")", fn+": never "+text(s.Cond))
						}
					} else {
						emit(s.Cond.Pos(), s.Cond.End(), "true || "+text(s.Cond), fn+": always "+text(s.Cond))
						emit(s.Cond.Pos(), s.Cond.End(), "false && ("+text(s.Cond)+")", fn+": never "+text(s.Cond))
					}
				}
			}
		}
		visit = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				fn = n.Name.Name
				if fn == "String" || fn == "Format" {
					return false
				}
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
				if n.List != nil && len(n.List) > 1 {
					for i, x := range n.List {
						if i == 0 {
							emit(x.Pos(), n.List[1].Pos(), "", fn+": drop case "+text(x))
						} else {
							emit(n.List[i-1].End(), x.End(), "", fn+": drop case "+text(x))
						}
					}
				}
			case *ast.BinaryExpr:
				for _, t := range swaps[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t.String(), fmt.Sprintf("%s: %s -> %s in %s", fn, n.Op, t, text(n)))
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.Y.Pos(), "", fn+": drop left of "+text(n))
					emit(n.X.End(), n.End(), "", fn+": drop right of "+text(n))
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT || n.Op == token.SUB || n.Op == token.XOR {
					emit(n.Pos(), n.X.Pos(), "", fn+": drop "+n.Op.String()+" of "+text(n))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), strconv.FormatInt(v+1, 10), fmt.Sprintf("%s: %s -> +1", fn, n.Value))
						if v > 0 {
							emit(n.Pos(), n.End(), strconv.FormatInt(v-1, 10), fmt.Sprintf("%s: %s -> -1", fn, n.Value))
						}
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit(n.Pos(), n.End(), "false", fn+": true -> false")
				} else if n.Name == "false" {
					emit(n.Pos(), n.End(), "true", fn+": false -> true")
				}
			case *ast.ReturnStmt:
				if len(n.Results) == 2 {
					emit(n.Results[0].Pos(), n.Results[1].End(), text(n.Results[1])+", "+text(n.Results[0]), fn+": swap results "+text(n))
				}
			case *ast.CallExpr:
				for i := 1; i < len(n.Args); i++ {
					emit(n.Args[i-1].Pos(), n.Args[i].End(), text(n.Args[i])+", "+text(n.Args[i-1]), fn+": swap args of "+text(n))
				}
				if s, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 1 {
					// a.f(b) -> b.f(a)
					emit(n.Pos(), n.End(), text(n.Args[0])+"."+s.Sel.Name+"("+text(s.X)+")", fn+": swap sides of "+text(n))
				}
			case *ast.IndexExpr:
				emit(n.Index.Pos(), n.Index.End(), text(n.Index)+" ^ 1", fn+": index^1 "+text(n))
			case *ast.RangeStmt:
				emit(n.Body.Lbrace+1, n.Body.Lbrace+1, "\nif true { break }\n", fn+": no loop "+text(n.X))
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			}
			return true
		}
		ast.Inspect(f, visit)
	}
}
