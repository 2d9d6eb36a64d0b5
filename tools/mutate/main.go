// mutate lists small changes of Go files as JSON lines: file, offset, length,
// replacement. The campaign that plants bugs mechanically starts from them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Old  string `json:"old"`
	Line int    `json:"line"`
	Kind string `json:"kind"`
}

var ops = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.AND: {"|"}, token.SHL: {">>"},
	token.REM: {"/"},
}

var names = map[string]string{"left": "right", "right": "left", "next": "prev", "prev": "next", "head": "tail", "tail": "head",
	"Front": "Back", "Back": "Front", "Left": "Right", "Right": "Left", "Less": "Equals", "PushFront": "PushBack",
	"PushBack": "PushFront", "i": "j", "j": "i", "a": "b", "b": "a", "Lock": "Unlock", "RLock": "Lock"}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		emit := func(kind string, from, to token.Pos, repl string) {
			a, b := fset.Position(from), fset.Position(to)
			enc.Encode(mutant{file, a.Offset, b.Offset - a.Offset, repl, string(src[a.Offset:b.Offset]), a.Line, kind})
		}
		text := func(n ast.Node) string {
			return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		}
		stmts := func(list []ast.Stmt) {
			for i, s := range list {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
					emit("drop", s.Pos(), s.End(), "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit("drop", s.Pos(), s.End(), "")
					}
				case *ast.IfStmt:
					if x.Else == nil {
						emit("dropif", s.Pos(), s.End(), "")
					} else {
						emit("dropelse", x.Body.End(), s.End(), "")
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK {
						emit("branch", s.Pos(), s.End(), "continue")
					} else if x.Tok == token.CONTINUE {
						emit("branch", s.Pos(), s.End(), "break")
					}
				}
				if i+1 < len(list) {
					t := list[i+1]
					_, r := t.(*ast.ReturnStmt)
					if _, d := s.(*ast.AssignStmt); d && !r {
						emit("swapstmt", s.Pos(), t.End(), text(t)+"\n"+text(s))
					} else if _, e := s.(*ast.ExprStmt); e && !r {
						emit("swapstmt", s.Pos(), t.End(), text(t)+"\n"+text(s))
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.BinaryExpr:
				for _, o := range ops[x.Op] {
					emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
				}
				switch x.Op {
				case token.LAND, token.LOR:
					emit("half", x.Pos(), x.End(), text(x.X))
					emit("half", x.Pos(), x.End(), text(x.Y))
				case token.ADD, token.SUB:
					emit("half", x.Pos(), x.End(), text(x.X))
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					emit("bound", x.Pos(), x.End(), text(x.X)+" "+x.Op.String()+" "+text(x.Y)+" + 1")
					emit("bound", x.Pos(), x.End(), text(x.X)+" "+x.Op.String()+" "+text(x.Y)+" - 1")
				}
			case *ast.IfStmt:
				emit("cond", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
				emit("cond", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
				emit("cond", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						emit("int", x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("int", x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				}
			case *ast.IncDecStmt:
				o := "--"
				if x.Tok == token.DEC {
					o = "++"
				}
				emit("incdec", x.TokPos, x.TokPos+2, o)
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit("not", x.Pos(), x.End(), text(x.X))
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit("bool", x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					emit("bool", x.Pos(), x.End(), "true")
				} else if m, ok := names[x.Name]; ok {
					emit("name", x.Pos(), x.End(), m)
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					emit("swapargs", x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]))
				}
				for _, a := range x.Args {
					if id, ok := a.(*ast.Ident); ok && id.Name != "nil" {
						emit("argp1", a.Pos(), a.End(), id.Name+"+1")
						emit("argp1", a.Pos(), a.End(), id.Name+"-1")
						emit("argnil", a.Pos(), a.End(), "nil")
					}
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "nil" {
						continue
					}
					emit("retnil", r.Pos(), r.End(), "nil")
				}
			case *ast.SliceExpr:
				if x.High != nil {
					emit("slice", x.High.Pos(), x.High.End(), text(x.High)+"-1")
					emit("slice", x.High.Pos(), x.High.End(), text(x.High)+"+1")
				}
				if x.Low != nil {
					emit("slice", x.Low.Pos(), x.Low.End(), text(x.Low)+"+1")
				}
			case *ast.IndexExpr:
				emit("index", x.Index.Pos(), x.Index.End(), text(x.Index)+"+1")
				emit("index", x.Index.Pos(), x.Index.End(), text(x.Index)+"-1")
			}
			return true
		})
	}
}
