// mutate FILE: writes the mutants of a Go file, one JSON object per line:
// {"line":..,"what":..,"off":..,"end":..,"new":..}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	Line     int    `json:"line"`
	Fn       string `json:"fn"`
	What     string `json:"what"`
	Off, End int
	New      string
}

var swaps = map[token.Token][]token.Token{
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.REM: {token.QUO},
	token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.OR: {token.AND}, token.XOR: {token.AND},
	token.AND_NOT: {token.AND},
	token.ADD_ASSIGN: {token.SUB_ASSIGN}, token.SUB_ASSIGN: {token.ADD_ASSIGN}, token.OR_ASSIGN: {token.AND_ASSIGN}, token.AND_ASSIGN: {token.OR_ASSIGN},
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		out := func(p, e token.Pos, s, what string) {
			a, b := fset.Position(p), fset.Position(e)
			enc.Encode(mut{a.Line, fd.Name.Name, what, a.Offset, b.Offset, s})
		}
		text := func(n ast.Node) string {
			return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				for _, t := range swaps[n.Op] {
					out(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t.String(), fmt.Sprintf("%s -> %s", n.Op, t))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						out(n.Pos(), n.End(), strconv.FormatInt(v+1, 10), n.Value+" +1")
						if v > 0 {
							out(n.Pos(), n.End(), strconv.FormatInt(v-1, 10), n.Value+" -1")
						}
					}
				}
			case *ast.IfStmt:
				out(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate if")
			case *ast.ForStmt:
				if n.Cond != nil {
					out(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "no loop")
				}
			case *ast.IncDecStmt:
				if n.Tok == token.INC {
					out(n.TokPos, n.TokPos+2, "--", "++ -> --")
				} else {
					out(n.TokPos, n.TokPos+2, "++", "-- -> ++")
				}
			case *ast.AssignStmt:
				for _, t := range swaps[n.Tok] {
					out(n.TokPos, n.TokPos+token.Pos(len(n.Tok.String())), t.String(), n.Tok.String()+" swap")
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					switch s := s.(type) {
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							out(s.Pos(), s.End(), "", "delete "+text(s))
						}
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
						out(s.Pos(), s.End(), "", "delete "+text(s))
					}
				}
			case *ast.BranchStmt:
				if n.Label == nil && n.Tok == token.BREAK {
					out(n.Pos(), n.End(), "continue", "break -> continue")
				}
				if n.Label == nil && n.Tok == token.CONTINUE {
					out(n.Pos(), n.End(), "break", "continue -> break")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok {
						switch id.Name {
						case "true":
							out(r.Pos(), r.End(), "false", "return false")
						case "false":
							out(r.Pos(), r.End(), "true", "return true")
						}
					}
				}
			}
			return true
		})
	}
}
