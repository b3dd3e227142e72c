//go:build ignore

// Lists small changes of Go files: go run main.go FILE... prints one JSON
// object per line with the file, the byte range and its replacement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File       string
	Line       int
	Start, End int
	Text, What string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		add := func(s, e token.Pos, text, what string) {
			enc.Encode(mutant{fn, fset.Position(s).Line, off(s), off(e), text, what})
		}
		swaps := map[token.Token][]string{
			token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"*"},
			token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
		}
		asg := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=", token.QUO_ASSIGN: "*="}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.FuncDecl:
				if x.Name.Name == "init" {
					return false
				}
			case *ast.BinaryExpr:
				for _, o := range swaps[x.Op] {
					add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, x.Op.String()+" -> "+o)
				}
				if x.Op == token.LSS || x.Op == token.LEQ || x.Op == token.GTR || x.Op == token.GEQ {
					if _, ok := x.Y.(*ast.BasicLit); !ok {
						add(x.Y.Pos(), x.Y.End(), text(x.Y)+"-1", "bound -1")
					}
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.Atoi(x.Value); err == nil {
						add(x.Pos(), x.End(), strconv.Itoa(v+1), "literal +1")
						if v > 0 {
							add(x.Pos(), x.End(), strconv.Itoa(v-1), "literal -1")
						}
					}
				case token.FLOAT:
					add(x.Pos(), x.End(), "("+x.Value+"*2+1e-3)", "literal changed")
					if x.Value != "0.0" && x.Value != "1.0" {
						add(x.Pos(), x.End(), "("+x.Value+"*0.5)", "literal halved")
					}
				}
			case *ast.IfStmt:
				add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
				add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always")
			case *ast.ExprStmt:
				if c, ok := x.X.(*ast.CallExpr); ok {
					if s, ok := c.Fun.(*ast.SelectorExpr); ok {
						if id, ok := s.X.(*ast.Ident); ok && (id.Name == "fmt" || id.Name == "log") {
							return false
						}
					}
				}
				add(x.Pos(), x.End(), "", "removed")
			case *ast.DeferStmt, *ast.SendStmt:
				add(n.Pos(), n.End(), "", "removed")
			case *ast.GoStmt:
				add(x.Pos(), x.Pos()+2, "", "not concurrent")
			case *ast.IncDecStmt:
				o := "--"
				if x.Tok == token.DEC {
					o = "++"
				}
				add(x.TokPos, x.TokPos+2, o, "other way")
			case *ast.AssignStmt:
				if o := asg[x.Tok]; o != "" {
					add(x.TokPos, x.TokPos+2, o, x.Tok.String()+" -> "+o)
					add(x.TokPos, x.TokPos+2, "=", "plain assignment")
				}
				if x.Tok != token.DEFINE {
					t := "_ = 0"
					for i, l := range x.Lhs {
						if id, ok := l.(*ast.Ident); ok && id.Name != "_" || !ok {
							t += "; _ = " + text(l)
						}
						_ = i
					}
					for _, r := range x.Rhs {
						if _, ok := r.(*ast.CallExpr); !ok {
							t += "; _ = " + text(r)
						}
					}
					add(x.Pos(), x.End(), t, "removed")
				}
			case *ast.BranchStmt:
				if x.Tok == token.BREAK && x.Label == nil {
					add(x.Pos(), x.End(), "continue", "break -> continue")
				} else if x.Tok == token.CONTINUE {
					add(x.Pos(), x.End(), "break", "continue -> break")
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
						add(r.Pos(), r.End(), "!"+id.Name, "other result")
					}
				}
			case *ast.CallExpr:
				// exchanged arguments
				if len(x.Args) == 2 && text(x.Args[0]) != text(x.Args[1]) {
					add(x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]), "arguments exchanged")
				}
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					for a, b := range map[string]string{"Lock": "RLock", "Min": "Max", "Max": "Min", "Abs": "Sqrt", "Floor": "Ceil", "Ceil": "Floor"} {
						if s.Sel.Name == a {
							add(s.Sel.Pos(), s.Sel.End(), b, a+" -> "+b)
						}
					}
				}
			case *ast.SliceExpr:
				if x.High != nil {
					add(x.High.Pos(), x.High.End(), text(x.High)+"-1", "slice end -1")
				}
			case *ast.IndexExpr:
				if _, ok := x.Index.(*ast.Ident); ok {
					add(x.Index.Pos(), x.Index.End(), "0*"+text(x.Index), "index 0")
				}
			}
			return true
		})
	}
	fmt.Fprint(os.Stderr, "")
}
