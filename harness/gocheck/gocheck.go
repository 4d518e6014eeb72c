// Package gocheck compiles generated Go source with the compiler's front end.
package gocheck

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
)

var (
	mu  sync.Mutex
	imp types.Importer
)

// stdOnly refuses everything outside the standard library.
type stdOnly struct {
	types.Importer
	done map[string]*types.Package
}

func (s stdOnly) Import(path string) (*types.Package, error) {
	if strings.Contains(strings.Split(path, "/")[0], ".") {
		return nil, fmt.Errorf("import of %s, which is not in the standard library", path)
	}
	if p := s.done[path]; p != nil {
		return p, nil
	}
	p, err := s.Importer.Import(path)
	if err == nil {
		s.done[path] = p
	}
	return p, err
}

// Prepare finds the compiled packages of the standard library that generated
// code uses, so that no process has to read their source.
func Prepare(scratch string, packages ...string) error {
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-f", "{{.ImportPath}} {{.Export}}"}, packages...)...)
	cmd.Dir = scratch
	out, err := cmd.Output()
	if err != nil {
		return err
	}
	return ioutil.WriteFile(filepath.Join(scratch, "exports"), out, 0644)
}

// compiled imports what was prepared, or else source.
func compiled() types.Importer {
	data, err := ioutil.ReadFile(filepath.Join(os.Getenv("MC_SCRATCH"), "exports"))
	if err != nil {
		return importer.ForCompiler(token.NewFileSet(), "source", nil)
	}
	files := map[string]string{}
	for _, l := range strings.Split(string(data), "\n") {
		if f := strings.Fields(l); len(f) == 2 {
			files[f[0]] = f[1]
		}
	}
	return importer.ForCompiler(token.NewFileSet(), "gc", func(path string) (io.ReadCloser, error) {
		f, ok := files[path]
		if !ok {
			return nil, fmt.Errorf("no package %s", path)
		}
		return os.Open(f)
	})
}

// Package is compiled source.
type Package struct {
	Src  string
	File *ast.File
	Pkg  *types.Package
	Fset *token.FileSet
}

// Check compiles a file that depends only on the standard library, and
// checks that it is formatted.
func Check(src []byte) (*Package, error) {
	mu.Lock()
	defer mu.Unlock()
	if imp == nil {
		imp = stdOnly{compiled(), map[string]*types.Package{}}
	}
	p := &Package{Src: string(src), Fset: token.NewFileSet()}
	f, err := parser.ParseFile(p.Fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	p.File = f
	conf := types.Config{Importer: imp}
	if p.Pkg, err = conf.Check("x", p.Fset, []*ast.File{f}, nil); err != nil {
		return p, err
	}
	out, err := format.Source(src)
	if err != nil {
		return p, err
	}
	if !bytes.Equal(out, src) {
		return p, fmt.Errorf("the source is not formatted as by gofmt")
	}
	return p, nil
}

// Types lists the declared types by name.
func (p *Package) Types() map[string]*types.Named {
	out := map[string]*types.Named{}
	for _, name := range p.Pkg.Scope().Names() {
		if tn, ok := p.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
			if n, ok := tn.Type().(*types.Named); ok {
				out[name] = n
			}
		}
	}
	return out
}

// Doc is the comment of a declared type.
func (p *Package) Doc(name string) string {
	for _, d := range p.File.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			if ts, ok := s.(*ast.TypeSpec); ok && ts.Name.Name == name {
				return g.Doc.Text() + ts.Doc.Text()
			}
		}
	}
	return ""
}

// Field is a struct field as encoding/xml sees it.
type Field struct {
	Go          string
	Type        types.Type
	Space       string
	Local       string
	Flags       map[string]bool
	Tag         string
	Exported    bool
	Description string
}

// Kind is element, attr, chardata, any or other.
func (f Field) Kind() string {
	for _, k := range []string{"attr", "chardata", "any", "innerxml", "comment", "cdata"} {
		if f.Flags[k] {
			return k
		}
	}
	return "element"
}

// Fields lists the fields of a struct.
func Fields(st *types.Struct) []Field {
	var out []Field
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		f := Field{Go: v.Name(), Type: v.Type(), Exported: v.Exported(), Flags: map[string]bool{}}
		f.Tag = reflect.StructTag(st.Tag(i)).Get("xml")
		parts := strings.Split(f.Tag, ",")
		for _, p := range parts[1:] {
			f.Flags[p] = true
		}
		f.Local = parts[0]
		if i := strings.LastIndex(parts[0], " "); i >= 0 {
			f.Space, f.Local = parts[0][:i], parts[0][i+1:]
		}
		f.Description = fmt.Sprintf("%s %s `%s`", f.Go, types.TypeString(f.Type, func(p *types.Package) string {
			if p.Path() == "x" {
				return ""
			}
			return p.Name()
		}), st.Tag(i))
		out = append(out, f)
	}
	return out
}
