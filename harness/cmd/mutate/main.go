// Command mutate lists small changes to the source of a package, one per line
// of JSON. tools/mutate.py applies them one at a time to a copy of the
// repository and reports those that neither its tests nor the checks notice.
// It is a development aid, not part of any check.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"log"
	"os"
	"strconv"
	"strings"
)

type change struct {
	File, Func, Kind string
	Line, From, To   int
	New              string
}

func main() {
	log.SetFlags(0)
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			log.Fatal(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			log.Fatal(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			emit := func(kind string, from, to token.Pos, new string) {
				enc.Encode(change{name, fn.Name.Name, kind, fset.Position(from).Line, off(from), off(to), new})
			}
			cond := func(e ast.Expr) {
				emit("cond", e.Pos(), e.End(), "!("+text(e)+")")
				emit("true", e.Pos(), e.End(), "(true || "+text(e)+")")
				emit("false", e.Pos(), e.End(), "(false && "+text(e)+")")
			}
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.IfStmt:
					cond(n.Cond)
					if n.Else != nil {
						emit("else", n.Body.End(), n.Else.End(), "")
					}
				case *ast.ForStmt:
					if n.Cond != nil {
						emit("false", n.Cond.Pos(), n.Cond.End(), "(false && "+text(n.Cond)+")")
					}
				case *ast.BinaryExpr:
					swap := map[token.Token]string{token.LAND: "||", token.LOR: "&&", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==", token.ADD: "-", token.SUB: "+"}
					if s, ok := swap[n.Op]; ok {
						emit("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						emit("left", n.Pos(), n.End(), text(n.X))
						emit("right", n.Pos(), n.End(), text(n.Y))
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						v, _ := strconv.Atoi(n.Value)
						emit("int", n.Pos(), n.End(), strconv.Itoa(v+1))
						if v > 0 {
							emit("int", n.Pos(), n.End(), strconv.Itoa(v-1))
						}
					}
					if n.Kind == token.STRING && len(n.Value) > 2 {
						q := n.Value[:1]
						s := n.Value
						emit("string", n.Pos(), n.End(), s[:len(s)-1]+"X"+q)
						if !strings.Contains(s, `\`) {
							emit("string", n.Pos(), n.End(), q+q)
						}
					}
				case *ast.BranchStmt:
					if n.Tok == token.CONTINUE {
						emit("branch", n.Pos(), n.Pos()+8, "break")
					} else if n.Tok == token.BREAK {
						emit("branch", n.Pos(), n.Pos()+5, "continue")
					}
				case *ast.CaseClause:
					if len(n.List) > 1 {
						for i := range n.List {
							var keep []string
							for k, e := range n.List {
								if k != i {
									keep = append(keep, text(e))
								}
							}
							emit("case", n.List[0].Pos(), n.List[len(n.List)-1].End(), strings.Join(keep, ", "))
						}
					}
					if len(n.Body) > 0 {
						body := ""
						if as, ok := n.Body[0].(*ast.AssignStmt); ok && as.Tok == token.DEFINE {
							break
						}
						emit("empty", n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), body)
					}
				case *ast.SliceExpr:
					if n.High != nil {
						emit("slice", n.High.Pos(), n.High.End(), "("+text(n.High)+")-1")
					}
					if n.Low != nil {
						emit("slice", n.Low.Pos(), n.Low.End(), "("+text(n.Low)+")+1")
					}
				case *ast.BlockStmt:
					for _, s := range n.List {
						switch s := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
							emit("delete", s.Pos(), s.End(), "")
						case *ast.AssignStmt:
							if s.Tok != token.DEFINE {
								var b strings.Builder
								for _, e := range s.Rhs {
									fmt.Fprintf(&b, "_ = %s;", text(e))
								}
								emit("delete", s.Pos(), s.End(), b.String())
							}
						case *ast.BranchStmt:
							emit("delete", s.Pos(), s.End(), "")
						}
					}
				case *ast.CallExpr:
					if len(n.Args) == 2 && n.Ellipsis == 0 {
						emit("args", n.Lparen+1, n.Rparen, text(n.Args[1])+", "+text(n.Args[0]))
					}
					if id, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 1 && strings.HasPrefix(id.Sel.Name, "Trim") {
						emit("unwrap", n.Pos(), n.End(), text(n.Args[0]))
					}
				case *ast.ReturnStmt:
					for _, r := range n.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							emit("noerr", r.Pos(), r.End(), "nil")
						}
						if id, ok := r.(*ast.Ident); ok && id.Name == "true" {
							emit("bool", r.Pos(), r.End(), "false")
						}
						if id, ok := r.(*ast.Ident); ok && id.Name == "false" {
							emit("bool", r.Pos(), r.End(), "true")
						}
					}
				case *ast.CompositeLit:
					for _, e := range n.Elts {
						if kv, ok := e.(*ast.KeyValueExpr); ok && len(n.Elts) > 1 {
							end := off(kv.End())
							for end < len(src) && (src[end] == ',' || src[end] == ' ') {
								end++
							}
							emit("field", kv.Pos(), kv.Pos()+token.Pos(end-off(kv.Pos())), "")
						}
					}
				}
				return true
			})
		}
	}
}
