// Command refactor rewrites all packages of a copy of the repository without
// changing what they do: conditions turned round, loops over slices written
// with an index, results kept in variables, bodies moved to helper functions,
// declarations in another order. The checks must stay quiet on the result.
// It is a development aid (tools/refactor.sh), not part of any check.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	Standard                bool
	Module                  *struct{ Path string }
}

var count = map[string]int{}

func main() {
	log.SetFlags(0)
	if len(os.Args) < 3 || strings.HasPrefix(os.Args[1], "/repo") {
		log.Fatal("usage: refactor COPY kind,kind...")
	}
	repo := os.Args[1]
	on := map[string]bool{}
	for _, k := range strings.Split(os.Args[2], ",") {
		on[k] = true
	}
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module", "./...")
	cmd.Dir, cmd.Stderr = repo, os.Stderr
	data, err := cmd.Output()
	if err != nil {
		log.Fatal(err)
	}
	exports := map[string]string{}
	var pkgs []pkg
	for dec := json.NewDecoder(bytes.NewReader(data)); ; {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			log.Fatal(err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == "aqwari.net/xml" && !strings.Contains(p.ImportPath, "/examples") && !strings.Contains(p.ImportPath, "/gentests") {
			pkgs = append(pkgs, p)
		}
	}
	for _, p := range pkgs {
		for _, kind := range []string{"if", "range", "return", "helper", "order", "swap"} {
			if on[kind] {
				rewrite(p, exports, kind)
			}
		}
	}
	log.Print(count)
}

func rewrite(p pkg, exports map[string]string, kind string) {
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if f := exports[path]; f != "" {
			return os.Open(f)
		}
		return nil, fmt.Errorf("no export data for %s", path)
	})
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		src, err := os.ReadFile(filepath.Join(p.Dir, f))
		if err != nil {
			log.Fatal(err)
		}
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			log.Fatal(err)
		}
		files, srcs = append(files, af), append(srcs, src)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		log.Fatal(err)
	}
	for i, af := range files {
		out := edit(fset, af, srcs[i], info, kind)
		if out == nil {
			continue
		}
		res, err := format.Source(out)
		if err != nil {
			log.Fatalf("%s: %s: %v\n%s", p.GoFiles[i], kind, err, out)
		}
		if err := os.WriteFile(filepath.Join(p.Dir, p.GoFiles[i]), res, 0644); err != nil {
			log.Fatal(err)
		}
	}
}

type change struct {
	start, end int
	text       string
}

// edit makes all changes of a kind that do not overlap; of nested ones the
// innermost.
func edit(fset *token.FileSet, af *ast.File, src []byte, info *types.Info, kind string) []byte {
	tf := fset.File(af.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	text := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
	node := func(n ast.Node) string { return text(n.Pos(), n.End()) }
	var changes []change
	add := func(a, b token.Pos, s string) { changes = append(changes, change{off(a), off(b), s}) }
	labelled := map[ast.Stmt]bool{}
	elseif := map[ast.Stmt]bool{}
	n := 0
	var results []*ast.FieldList
	switch kind {
	case "order":
		// functions in reverse order, each with its comment
		var fs []string
		first, last := token.Pos(0), token.Pos(0)
		for k := len(af.Decls) - 1; k >= 0; k-- {
			d, ok := af.Decls[k].(*ast.FuncDecl)
			if !ok {
				continue
			}
			a := d.Pos()
			if d.Doc != nil {
				a = d.Doc.Pos()
			}
			fs = append(fs, text(a, d.End()))
			_ = first
			_ = last
		}
		if len(fs) < 2 {
			return nil
		}
		k := 0
		for _, d := range af.Decls {
			if d, ok := d.(*ast.FuncDecl); ok {
				a := d.Pos()
				if d.Doc != nil {
					a = d.Doc.Pos()
				}
				add(a, d.End(), fs[k])
				k++
			}
		}
		count[kind] += k
	case "helper":
		for _, d := range af.Decls {
			d, ok := d.(*ast.FuncDecl)
			if !ok || d.Body == nil || d.Name.Name == "main" || d.Name.Name == "init" || d.Name.Name == "_" || len(d.Body.List) < 2 {
				continue
			}
			var args []string
			ok = true
			for _, f := range d.Type.Params.List {
				for _, nm := range f.Names {
					if nm.Name == "_" {
						ok = false
					}
					a := nm.Name
					if _, v := f.Type.(*ast.Ellipsis); v {
						a += "..."
					}
					args = append(args, a)
				}
				if len(f.Names) == 0 {
					ok = false
				}
			}
			recv, call := "", "rf_"+d.Name.Name
			if d.Recv != nil {
				if len(d.Recv.List[0].Names) == 0 || d.Recv.List[0].Names[0].Name == "_" {
					ok = false
				} else {
					recv = node(d.Recv) + " "
					call = d.Recv.List[0].Names[0].Name + "." + call
				}
			}
			if !ok {
				continue
			}
			call += "(" + strings.Join(args, ", ") + ")"
			if d.Type.Results != nil {
				call = "return " + call
			}
			sig := text(d.Type.Params.Pos(), d.Body.Lbrace)
			body := node(d.Body)
			add(d.Body.Lbrace, d.Body.Rbrace+1, "{\n"+call+"\n}\n\nfunc "+recv+"rf_"+d.Name.Name+sig+body)
			count[kind]++
		}
	default:
		ast.Inspect(af, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.LabeledStmt:
				labelled[x.Stmt] = true
			case *ast.FuncDecl:
				results = nil
			case *ast.IfStmt:
				if e, ok := x.Else.(*ast.IfStmt); ok {
					elseif[e] = true
				}
				if kind != "if" {
					break
				}
				if e, ok := x.Else.(*ast.BlockStmt); ok {
					add(x.Cond.Pos(), x.Cond.End(), "!("+node(x.Cond)+")")
					add(x.Body.Pos(), x.Body.End(), node(e))
					add(e.Pos(), e.End(), node(x.Body))
					count[kind]++
					return false
				}
			case *ast.RangeStmt:
				if kind != "range" || labelled[x] || x.Tok != token.DEFINE {
					break
				}
				if _, ok := info.TypeOf(x.X).Underlying().(*types.Slice); !ok {
					break
				}
				simple := true
				names := map[string]bool{}
				for _, e := range []ast.Expr{x.Key, x.Value} {
					if id, ok := e.(*ast.Ident); ok {
						names[id.Name] = true
					}
				}
				ast.Inspect(x.Body, func(y ast.Node) bool {
					switch y := y.(type) {
					case *ast.FuncLit:
						simple = false
					case *ast.UnaryExpr:
						if id, ok := y.X.(*ast.Ident); ok && y.Op == token.AND && names[id.Name] {
							simple = false
						}
					case *ast.AssignStmt:
						if id, ok := x.Key.(*ast.Ident); ok {
							for _, l := range y.Lhs {
								if i, ok := l.(*ast.Ident); ok && i.Name == id.Name {
									simple = false
								}
							}
						}
					case *ast.RangeStmt:
						if y != x {
							simple = false // the innermost only
						}
					}
					return simple
				})
				if !simple {
					break
				}
				n++
				key, val := fmt.Sprintf("rfI%d", n), ""
				if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
					key = id.Name
				}
				if id, ok := x.Value.(*ast.Ident); ok && id.Name != "_" {
					val = id.Name
				}
				s := fmt.Sprintf("rfL%d", n)
				head := fmt.Sprintf("%s := %s\nfor %s := 0; %s < len(%s); %s++ {\n", s, node(x.X), key, key, s, key)
				if val != "" {
					head += fmt.Sprintf("%s := %s[%s]\n", val, s, key)
				}
				add(x.Pos(), x.Body.Lbrace+1, "{\n"+head)
				add(x.Body.Rbrace, x.Body.Rbrace+1, "}\n}")
				count[kind]++
			case *ast.ReturnStmt:
				if kind != "return" || len(x.Results) != 1 {
					break
				}
				tv := info.Types[x.Results[0]]
				switch x.Results[0].(type) {
				case *ast.CallExpr, *ast.BinaryExpr:
				default:
					return true
				}
				ast.Inspect(x.Results[0], func(y ast.Node) bool {
					if _, ok := y.(*ast.FuncLit); ok {
						tv.Value, tv.Type = nil, nil
					}
					return true
				})
				if tv.Type == nil || tv.Value != nil {
					break
				}
				if _, ok := tv.Type.(*types.Tuple); ok {
					break
				}
				if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
					break
				}
				n++
				add(x.Pos(), x.End(), fmt.Sprintf("{\nrfR%d := %s\nreturn rfR%d\n}", n, node(x.Results[0]), n))
				count[kind]++
			case *ast.BinaryExpr:
				// a == b as b == a
				if kind != "swap" || x.Op != token.EQL && x.Op != token.NEQ {
					break
				}
				if info.Types[x].Value != nil {
					break
				}
				pure := true
				ast.Inspect(x, func(y ast.Node) bool {
					switch y.(type) {
					case *ast.CallExpr, *ast.IndexExpr, *ast.TypeAssertExpr, *ast.CompositeLit, *ast.StarExpr:
						pure = false
					}
					return pure
				})
				if pure {
					add(x.Pos(), x.End(), node(x.Y)+" "+x.Op.String()+" "+node(x.X))
					count[kind]++
					return false
				}
			}
			return true
		})
	}
	_ = results
	if len(changes) == 0 {
		return nil
	}
	// in order of position; changes do not nest
	for a := range changes {
		for b := a; b > 0 && changes[b].start < changes[b-1].start; b-- {
			changes[b], changes[b-1] = changes[b-1], changes[b]
		}
	}
	var b bytes.Buffer
	last := 0
	for _, c := range changes {
		if c.start < last {
			log.Fatalf("overlap in %s at %d", tf.Name(), c.start)
		}
		b.Write(src[last:c.start])
		b.WriteString(c.text)
		last = c.end
	}
	b.Write(src[last:])
	return b.Bytes()
}
