// mutate lists small changes to Go files: one JSON object per line with file,
// offsets and replacement. Development only.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File     string
	From, To int
	With     string
	What     string
	Line     int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		put := func(a, b token.Pos, with, what string) {
			enc.Encode(mut{file, off(a), off(b), with, what, fs.Position(a).Line})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swap := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+"}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				if w, ok := swap[x.Op]; ok {
					put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), w, x.Op.String()+" -> "+w)
				}
			case *ast.IfStmt:
				put(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate condition")
				put(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "never: "+text(x.Cond))
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						put(x.Pos(), x.End(), fmt.Sprint(v+1), fmt.Sprintf("%d -> %d", v, v+1))
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 2 {
					put(x.Pos(), x.End(), `"" + string(`+x.Value+`[:len(`+x.Value+`)-1])`, "shorten "+x.Value)
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.BranchStmt:
						put(s.Pos(), s.End(), "", "delete "+text(s))
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							put(s.Pos(), s.End(), "_ = 0", "delete "+text(s))
						}
					case *ast.ReturnStmt:
						for _, r := range y.Results {
							if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
								put(r.Pos(), r.End(), "nil", "return nil instead of err")
							}
						}
					}
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					switch s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.AssignStmt, *ast.BranchStmt:
						if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
							continue
						}
						put(s.Pos(), s.End(), "_ = 0", "delete "+text(s))
					}
				}
			}
			return true
		})
	}
}
