// Command instrument writes a build overlay for the packages of the
// repository, in which every source of nondeterminism or every statement is
// routed through a hook that the explorer controls. It never touches the
// repository itself.
//
//	-mode maps    ranges over maps take their order from vhook.Order
//	-mode points  vhook.Point(site) before every statement
//	-mode both
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	Standard                bool
	Module                  *struct{ Path string }
}

type edit struct {
	start, end int
	text       string
	seq        int
}

func main() {
	log.SetFlags(0)
	mode := flag.String("mode", "maps", "")
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.Parse()
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		log.Fatal("go list: ", err)
	}
	exports := map[string]string{}
	var pkgs []pkg
	dec := json.NewDecoder(strings.NewReader(string(data)))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			log.Fatal(err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == "aqwari.net/xml" && !p.Standard {
			if strings.Contains(p.ImportPath, "/examples/") || strings.Contains(p.ImportPath, "/gentests") {
				continue
			}
			pkgs = append(pkgs, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if f := exports[path]; f != "" {
			return os.Open(f)
		}
		return nil, fmt.Errorf("no export data for %s", path)
	})
	replace := map[string]string{}
	os.MkdirAll(*out, 0755)
	sites, points := 0, 0
	for _, p := range pkgs {
		var files []*ast.File
		var srcs [][]byte
		for _, f := range p.GoFiles {
			src, err := os.ReadFile(filepath.Join(p.Dir, f))
			if err != nil {
				log.Fatal(err)
			}
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), src, parser.ParseComments)
			if err != nil {
				log.Fatal(err)
			}
			files = append(files, af)
			srcs = append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: imp, GoVersion: "go1.21"}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			log.Fatal(err)
		}
		for i, af := range files {
			tf := fset.File(af.Pos())
			var edits []edit
			add := func(s, e int, text string) { edits = append(edits, edit{s, e, text, len(edits)}) }
			off := func(p token.Pos) int { return tf.Offset(p) }
			text := func(n ast.Node) string { return string(srcs[i][off(n.Pos()):off(n.End())]) }
			type span struct{ start, end int }
			var headers []span
			if *mode != "points" {
				labels := map[ast.Stmt]*ast.LabeledStmt{}
				ast.Inspect(af, func(n ast.Node) bool {
					if l, ok := n.(*ast.LabeledStmt); ok {
						labels[l.Stmt] = l
					}
					r, ok := n.(*ast.RangeStmt)
					if !ok {
						return true
					}
					if _, ok := info.TypeOf(r.X).Underlying().(*types.Map); !ok {
						return true
					}
					sites++
					k, v := "_", "_"
					if r.Key != nil {
						k = text(r.Key)
					}
					if r.Value != nil {
						v = text(r.Value)
					}
					start, label := off(r.For), ""
					if l := labels[r]; l != nil {
						start, label = off(l.Pos()), l.Label.Name+": "
					}
					pos := fset.Position(r.For)
					var b strings.Builder
					fmt.Fprintf(&b, "{ vhI%d := vhook.Iter(%s, %q); ", sites, text(r.X), fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line))
					if r.Tok == token.DEFINE && (k != "_" || v != "_") {
						fmt.Fprintf(&b, "%s, %s := vhI%d.Zero(); ", k, v, sites)
					}
					fmt.Fprintf(&b, "%sfor _, vhE%d := range vhI%d.Entries { var vhok%d bool; %s, %s, vhok%d = vhE%d.Get(); if !vhok%d { continue }; ", label, sites, sites, sites, k, v, sites, sites, sites)
					add(start, off(r.Body.Lbrace)+1, b.String())
					headers = append(headers, span{start, off(r.Body.Lbrace) + 1})
					add(off(r.Body.Rbrace)+1, off(r.Body.Rbrace)+1, " }")
					return true
				})
			}
			if *mode != "maps" {
				var list func(l []ast.Stmt)
				list = func(l []ast.Stmt) {
					for _, s := range l {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
						default:
							at := off(s.Pos())
							for _, h := range headers {
								if h.start < at && at < h.end {
									at = -1
									break
								}
							}
							if at >= 0 {
								points++
								edits = append(edits, edit{at, at, fmt.Sprintf("vhook.Point(%d); ", points), -1})
							}
						}
					}
				}
				ast.Inspect(af, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.BlockStmt:
						list(n.List)
					case *ast.CaseClause:
						list(n.Body)
					}
					return true
				})
			}
			if len(edits) == 0 {
				continue
			}
			// the import goes right after the package clause
			at := off(af.Name.End())
			add(at, at, "; import \"aqwari.net/xml/internal/vhook\"")
			sort.SliceStable(edits, func(a, b int) bool {
				if edits[a].start != edits[b].start {
					return edits[a].start < edits[b].start
				}
				return edits[a].seq < edits[b].seq
			})
			var b strings.Builder
			b.WriteString("//go:build go1.21\n\n")
			last := 0
			for _, e := range edits {
				if e.start < last {
					log.Fatalf("%s: overlapping edits", p.GoFiles[i])
				}
				b.Write(srcs[i][last:e.start])
				b.WriteString(e.text)
				last = e.end
			}
			b.Write(srcs[i][last:])
			orig := filepath.Join(p.Dir, p.GoFiles[i])
			name := filepath.Join(*out, strings.ReplaceAll(strings.Trim(orig, "/"), "/", "_"))
			if err := os.WriteFile(name, []byte(b.String()), 0644); err != nil {
				log.Fatal(err)
			}
			replace[orig] = name
		}
	}
	hook := filepath.Join(*out, "vhook.go")
	if err := os.WriteFile(hook, []byte(vhookSrc), 0644); err != nil {
		log.Fatal(err)
	}
	replace[filepath.Join(*repo, "internal/vhook/vhook.go")] = hook
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0644); err != nil {
		log.Fatal(err)
	}
	if os.Getenv("VERBOSE") != "" {
		log.Printf("%d maps, %d points in %d files", sites, points, len(replace)-1)
	}
}

const vhookSrc = `//go:build go1.21

// Package vhook exists only in verification builds.
package vhook

import (
	"fmt"
	"sort"
)

// Order gives the order in which n map entries are visited; nil means sorted.
var Order func(site string, n int) []int

// Point is called before every instrumented statement.
//
//go:norace
func Point(site int) {
	if OnPoint != nil {
		OnPoint(site)
	}
}

// OnPoint is the scheduler's hook.
var OnPoint func(site int)

type Entry[K comparable, V any] struct {
	m map[K]V
	k K
}

func (e Entry[K, V]) Get() (K, V, bool) {
	v, ok := e.m[e.k]
	return e.k, v, ok
}

type Iterator[K comparable, V any] struct{ Entries []Entry[K, V] }

func (Iterator[K, V]) Zero() (k K, v V) { return }

func Iter[M ~map[K]V, K comparable, V any](m M, site string) Iterator[K, V] {
	type keyed struct {
		k K
		s string
	}
	keys := make([]keyed, 0, len(m))
	for k := range m {
		keys = append(keys, keyed{k, fmt.Sprintf("%v", k)})
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].s < keys[j].s })
	it := Iterator[K, V]{Entries: make([]Entry[K, V], 0, len(keys))}
	if Order != nil && len(keys) > 1 {
		if order := Order(site, len(keys)); order != nil {
			for _, i := range order {
				it.Entries = append(it.Entries, Entry[K, V]{m, keys[i].k})
			}
			return it
		}
	}
	for _, k := range keys {
		it.Entries = append(it.Entries, Entry[K, V]{m, k.k})
	}
	return it
}
`
