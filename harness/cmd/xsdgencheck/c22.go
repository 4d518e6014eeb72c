package main

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"aqwari.net/xml/verif/mc"
	. "aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsdgen"
)

//go:embed server.go.txt
var serverSource []byte

// unit is a schema set whose generated package is part of the server.
type unit struct {
	Pkg     string
	Group   string
	Recipe  []recipe
	Options int
	Names   map[string]string // {namespace}local of a type: its Go name
	Broken  string
	Raw     string // the schema, if it does not come from a model

	sc  scen
	idx *Index
}

// recipe says how a part of the set is made: the choices of a builder.
type recipe struct {
	Builder string
	Choices []int
}

// parts are the builders of C22.
var parts = map[string]func(*mc.T) scen{
	"types": func(t *mc.T) scen {
		s := &Schema{NS: NSA}
		c := &Complex{Name: "T"}
		b := builtinNames[t.Free("builtin", len(builtinNames))]
		if b == "QName" {
			t.Skip() // known finding
		}
		how := makings[t.Free("making", len(makings))]
		typ := made(t, s, b, how)
		pos := positions[t.Free("position", len(positions))]
		if b == "unsignedByte" && (strings.HasPrefix(pos, "repeated") || pos == "top-level") && builtinRoot(s, typ) {
			t.Skip() // known finding
		}
		place(t, s, c, typ, pos, "x")
		if pos == "top-level" {
			if typ.Inline() {
				t.Skip()
			}
			c.Content = seq(&Particle{Kind: Leaf, Elem: &Elem{Ref: N(NSA, "x")}, Min: "0", Max: "2"})
		}
		s.Add(complexT(c))
		return scen{set: &Set{Schemas: []*Schema{s}}}
	},
	"pairs": func(t *mc.T) scen {
		s := &Schema{NS: NSA}
		c := &Complex{Name: "T"}
		bs := []string{"date", "hexBinary", "int"}
		ps := []string{"element", "repeated", "optional", "nillable", "default", "attribute", "required attribute", "text"}
		a := t.Free("first", len(bs)*len(ps))
		b := t.Free("second", len(bs)*len(ps))
		if b < a {
			t.Skip()
		}
		for i, k := range []int{a, b} {
			place(t, s, c, Ref(X(bs[k%3])), ps[k/3], string(rune('p'+i)))
		}
		s.Add(complexT(c))
		return scen{set: &Set{Schemas: []*Schema{s}}}
	},
	"wide": func(t *mc.T) scen {
		s := &Schema{NS: NSA}
		c := &Complex{Name: "T"}
		n := []int{4, 6, len(helped)}[t.Free("members", 3)]
		first, pos, how := t.Free("first", len(helped)), t.Free("position", 4), t.Free("making", 2)
		for i := 0; i < n; i++ {
			p := []string{"element", "attribute", "repeated"}[(i+pos)%3]
			if pos == 3 {
				p = "optional"
			}
			b := helped[(first+i)%len(helped)]
			if b == "QName" {
				b = "int" // a finding
			}
			place(t, s, c, made(t, s, b, makings[how*(i%2)]), p, fmt.Sprint("m", i))
		}
		s.Add(complexT(c))
		return scen{set: &Set{Schemas: []*Schema{s}}}
	},
	"fields": func(t *mc.T) scen {
		s := &Schema{NS: NSA}
		c := &Complex{Name: "T"}
		n := fieldNames[t.Free("name", len(fieldNames))]
		switch t.Free("kind", 4) {
		case 0:
			c.Content = seq(leaf(&Elem{Name: n, Type: Ref(X("int"))}), leaf(&Elem{Name: "other", Type: Ref(X("date"))}))
		case 1:
			c.Content = seq(leaf(&Elem{Name: n, Type: Ref(X("date"))}), leaf(&Elem{Name: "other", Type: Ref(X("date"))}))
		case 2:
			c.Attrs = []Attr{{Name: n, Type: Ref(X("int"))}}
			c.Content = seq(leaf(&Elem{Name: n, Type: Ref(X("date"))}))
		case 3:
			c.Attrs = []Attr{{Name: n, Type: Ref(X("date"))}}
			c.Content = seq(leaf(&Elem{Name: n, Type: Ref(X("int"))}))
		}
		s.Add(complexT(c))
		return scen{set: &Set{Schemas: []*Schema{s}}}
	},
	"content": func(t *mc.T) scen {
		g := NewGen(t)
		g.LeafTypes = []string{"int", "string", "simple", "complex", "inline simple", "inline complex", "none", "list", "self", "dateTime", "inline nested", "union"}
		i := 0
		c := &Complex{Name: "T"}
		c.Content = g.Shape(g.A, 2, 1, func(int) *Particle {
			i++
			return g.LeafParticle(g.A, string(rune('a'+i-1)))
		})
		for i := t.Free("attributes", 2); i > 0; i-- {
			c.Attrs = append(c.Attrs, g.AttrUse(g.A, string(rune('p'+i))))
		}
		g.A.Items = append([]Item{{Complex: c}}, g.A.Items...)
		if len(g.Set.QualAttrs) > 0 || g.Set.DupTypes() || sameAttrs(g.Set, c) {
			t.Skip()
		}
		return scen{set: g.Set}
	},
	"wildcards": func(t *mc.T) scen {
		s := &Schema{NS: NSA}
		any := func() *Particle { return &Particle{Kind: Any, Max: []string{"", "unbounded"}[t.Free("max", 2)]} }
		content := func(name string) *Particle {
			e := leaf(&Elem{Name: name, Type: Ref(X("date"))})
			switch t.Free("wildcards", 7) {
			case 0:
				return seq(e)
			case 1:
				return seq(e, any())
			case 2:
				return seq(any(), e)
			case 3:
				return seq(any(), e, any())
			case 4:
				return seq(&Particle{Kind: Choice, Kids: []*Particle{any(), e}})
			case 5:
				return seq(e, &Particle{Kind: Choice, Kids: []*Particle{any(), seq(any(), leaf(&Elem{Name: name + "2", Type: Ref(X("int"))}))}})
			}
			return &Particle{Kind: Choice, Max: "unbounded", Kids: []*Particle{e, any()}}
		}
		c := &Complex{Name: "T", Content: content("a")}
		s.Add(complexT(c))
		switch t.Free("derived", 3) {
		case 1:
			s.Add(complexT(&Complex{Name: "U", Derive: CExtends, Base: N(NSA, "T"), Content: content("b")}))
		case 2:
			s.Add(complexT(&Complex{Name: "U", Derive: CRestr, Base: N(NSA, "T"), Content: content("a")}))
		}
		return scen{set: &Set{Schemas: []*Schema{s}}}
	},
	"qualified": func(t *mc.T) scen {
		s := &Schema{NS: NSA}
		c := &Complex{Name: "T"}
		s.Add(complexT(c))
		for i, name := range []string{"p", "q"} {
			a := Attr{Name: name, Form: []string{"", "qualified", "unqualified"}[t.Free("form", 3)]}
			a.Type = Ref(X([]string{"int", "date", "NMTOKENS", "hexBinary"}[t.Free("type", 4)]))
			if t.FreeBool("required") {
				a.Use = "required"
			}
			if i == 1 && t.FreeBool("group") {
				s.Add(Item{AttrGroup: &AttrGroup{Name: fmt.Sprint("AG", a.Form, a.Type.Ref.Local, a.Use), Attrs: []Attr{a}}})
				a = Attr{Group: N(NSA, fmt.Sprint("AG", a.Form, a.Type.Ref.Local, a.Use))}
			}
			c.Attrs = append(c.Attrs, a)
		}
		return scen{set: &Set{Schemas: []*Schema{s}, QualAttrs: map[string]bool{NSA: true}}}
	},
	"derivation": derivations,
	"recursive":  recursions,
	"anonymous":  anonymous,
}

// builtinRoot: the type is not declared, so its items are those of a slice.
func builtinRoot(s *Schema, t Type) bool {
	m := &matcher{x: (&Set{Schemas: []*Schema{s}}).Index()}
	b, l, u := m.root(t)
	return b == "unsignedByte" && l == nil && u == nil
}

// library components are shared by the parts of one set.
var library = map[string]bool{"Code": true, "Num": true, "Nums": true, "Either": true, "Pair": true}

// rename gives the types of a set that are not in the library a suffix.
func rename(set *Set, suffix string, all bool) {
	done := map[interface{}]bool{}
	name := func(n *Name) {
		if n.Space == XS || n.Local == "" || !all && library[n.Local] || strings.HasSuffix(n.Local, suffix) {
			return
		}
		n.Local += suffix
	}
	var typ func(*Type)
	var content func(*Particle)
	var complex func(*Complex)
	var simple func(*Simple)
	var attrs func([]Attr)
	typ = func(t *Type) {
		name(&t.Ref)
		if t.C != nil {
			complex(t.C)
		}
		if t.S != nil {
			simple(t.S)
		}
	}
	attrs = func(l []Attr) {
		for i := range l {
			typ(&l[i].Type)
		}
	}
	content = func(p *Particle) {
		if p == nil || done[p] {
			return
		}
		done[p] = true
		if p.Elem != nil && !done[p.Elem] {
			done[p.Elem] = true
			typ(&p.Elem.Type)
		}
		for _, k := range p.Kids {
			content(k)
		}
	}
	complex = func(c *Complex) {
		if done[c] {
			return
		}
		done[c] = true
		if c.Name != "" {
			n := Name{Space: "x", Local: c.Name}
			name(&n)
			c.Name = n.Local
		}
		name(&c.Base)
		content(c.Content)
		attrs(c.Attrs)
	}
	simple = func(s *Simple) {
		if done[s] {
			return
		}
		done[s] = true
		if s.Name != "" {
			n := Name{Space: "x", Local: s.Name}
			name(&n)
			s.Name = n.Local
		}
		typ(&s.Base)
		for i := range s.Members {
			typ(&s.Members[i])
		}
	}
	for _, s := range set.Schemas {
		for _, it := range s.Items {
			switch {
			case it.Complex != nil:
				complex(it.Complex)
			case it.Simple != nil:
				simple(it.Simple)
			case it.Elem != nil:
				if !done[it.Elem] {
					done[it.Elem] = true
					typ(&it.Elem.Type)
				}
			case it.Attr != nil:
				typ(&it.Attr.Type)
			case it.Group != nil:
				content(it.Group.Content)
			case it.AttrGroup != nil:
				attrs(it.AttrGroup.Attrs)
			}
		}
	}
}

func itemName(it Item) string {
	switch {
	case it.Complex != nil:
		return "t:" + it.Complex.Name
	case it.Simple != nil:
		return "t:" + it.Simple.Name
	case it.Elem != nil:
		return "e:" + it.Elem.Name
	case it.Attr != nil:
		return "a:" + it.Attr.Name
	case it.Group != nil:
		return "g:" + it.Group.Name
	case it.AttrGroup != nil:
		return "ag:" + it.AttrGroup.Name
	}
	return ""
}

// build makes the schema set of a unit.
func (u *unit) build() error {
	forceOptions = u.Options
	defer func() { forceOptions = -1 }()
	u.sc = scen{}
	tmp := scen{}
	mcT := func(r recipe, f func(*mc.T)) error { return mc.Rerun(r.Choices, false, f) }
	all := &Set{}
	byNS := map[string]*Schema{}
	have := map[string]bool{}
	for k, r := range u.Recipe {
		var sc scen
		if err := mcT(r, func(t *mc.T) {
			sc = parts[r.Builder](t)
			withOptions(t, &tmp)
		}); err != nil {
			return fmt.Errorf("%v: %v", r, err)
		}
		rename(sc.set, fmt.Sprintf("K%d", k), r.Builder == "types" || r.Builder == "anonymous")
		for _, s := range sc.set.Schemas {
			if byNS[s.NS] == nil {
				byNS[s.NS] = &Schema{NS: s.NS}
				all.Schemas = append(all.Schemas, byNS[s.NS])
			}
			for _, it := range s.Items {
				// top-level elements of the types builder differ
				if it.Elem != nil && r.Builder == "types" {
					old := it.Elem.Name
					it.Elem.Name = fmt.Sprintf("%sK%d", old, k)
					for _, o := range s.Items {
						if o.Complex != nil && o.Complex.Content != nil {
							for _, p := range o.Complex.Content.Kids {
								if p.Elem != nil && p.Elem.Ref.Local == old {
									p.Elem.Ref.Local = it.Elem.Name
								}
							}
						}
					}
				}
				n := s.NS + " " + itemName(it)
				if have[n] {
					continue
				}
				have[n] = true
				byNS[s.NS].Add(it)
			}
		}
	}
	if u.Recipe[0].Builder == "qualified" {
		all.QualAttrs = map[string]bool{NSA: true}
		tmp.pres = &Pres{XS: "xs", NS: map[string]string{NSA: "a", NSB: "b"}, Foreign: true}
	}
	tmp.set = all
	if tmp.bare != "" {
		tmp.rename()
	}
	u.sc = tmp
	u.idx = all.Index()
	return nil
}

// units lists the packages of the server.
func units(thorough bool) ([]*unit, error) {
	var out []*unit
	add := func(group, builder string, bound, size, options int) error {
		forceOptions = options
		defer func() { forceOptions = -1 }()
		list, err := mc.Enumerate(bound, false, func(t *mc.T) {
			parts[builder](t)
			withOptions(t, &scen{})
		})
		if err != nil {
			return fmt.Errorf("%s: %v", group, err)
		}
		key := ""
		var u *unit
		for _, c := range list {
			k := ""
			if builder == "types" {
				k = fmt.Sprint(c[0]) // one package for each built-in type
			}
			if u == nil || len(u.Recipe) >= size || k != key {
				u = &unit{Pkg: fmt.Sprintf("u%d", len(out)), Group: group, Options: options}
				out = append(out, u)
				key = k
			}
			u.Recipe = append(u.Recipe, recipe{builder, c})
		}
		return nil
	}
	type plan struct {
		builder              string
		bound, size, options int
		thorough             bool
	}
	for _, p := range []plan{
		{"types", 0, 200, 0, false}, {"pairs", 0, 60, 1, false}, {"wide", 0, 60, 0, false}, {"fields", 0, 60, 0, false}, {"qualified", 0, 400, 0, false}, {"wildcards", 0, 100, 0, false},
		{"content", 1, 60, 1, false}, {"derivation", 1, 60, 0, false}, {"recursive", 3, 60, 1, false}, {"anonymous", 2, 20, 1, false},
		{"content", 1, 60, 4, false}, {"derivation", 1, 60, 5, false},
		{"types", 0, 200, 1, true}, {"fields", 0, 60, 2, true}, {"pairs", 0, 60, 3, true},
		{"content", 1, 60, 0, true}, {"derivation", 2, 60, 1, true}, {"anonymous", 2, 20, 2, true}, {"recursive", 4, 60, 0, true},
	} {
		if p.thorough && !thorough {
			continue
		}
		if err := add(p.builder, p.builder, p.bound, p.size, p.options); err != nil {
			return nil, err
		}
	}
	for _, u := range soapUnits() {
		u.Pkg = fmt.Sprintf("u%d", len(out))
		out = append(out, u)
	}
	return out, nil
}

var declared = regexp.MustCompile(`(?m)^type (\S+) `)

// write generates the package of a unit.
func (u *unit) write(root string) error {
	var docs [][]byte
	opts := u.sc.opts
	if u.Raw != "" {
		docs, opts = u.rawDocs(), xsdgen.DefaultOptions
		full = true
		defer func() { full = false }()
	} else {
		if err := u.build(); err != nil {
			return err
		}
		docs, opts = u.sc.docs(), u.sc.opts
	}
	src, code, _, err := sourceFile(docs, u.Pkg, opts...)
	if err != nil {
		u.Broken = "the generator refuses a valid schema: " + err.Error()
		return nil
	}
	decls := map[string]bool{}
	for _, m := range declared.FindAllSubmatch(src, -1) {
		decls[string(m[1])] = true
	}
	u.Names = map[string]string{}
	var reg []string
	seen := map[string]bool{}
	name := func(ns, n string) {
		id := code.NameOf(N(ns, n))
		if !decls[id] {
			return
		}
		u.Names["{"+ns+"}"+n] = id
		if !seen[id] {
			seen[id] = true
			reg = append(reg, fmt.Sprintf("\t%q: reflect.TypeOf((*%s)(nil)).Elem(),\n", id, id))
		}
	}
	if u.Raw != "" {
		for _, m := range rawTypes.FindAllSubmatch(docs[0], -1) {
			name(NSA, string(m[1]))
		}
	} else {
		for _, s := range u.sc.set.Schemas {
			for _, it := range s.Items {
				if n := itName(it); n != "" {
					name(s.NS, n)
				}
			}
		}
	}
	sort.Strings(reg)
	dir := filepath.Join(root, u.Pkg)
	if err := os.MkdirAll(dir, 0777); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dir, "gen.go"), src, 0666); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "registry.go"), []byte("package "+u.Pkg+"\n\nimport \"reflect\"\n\nvar VerifRegistry = map[string]reflect.Type{\n"+strings.Join(reg, "")+"}\n"), 0666)
}

// prepareC22 generates and builds the server.
func prepareC22(scratch string, thorough bool) (map[string]interface{}, error) {
	start := time.Now()
	root := filepath.Join(scratch, "roundtrip")
	if err := os.MkdirAll(root, 0777); err != nil {
		return nil, err
	}
	list, err := units(thorough)
	if err != nil {
		return nil, err
	}
	// forceOptions and the bundled schemas are process-wide: generate in turn
	for _, u := range list {
		if err := u.write(root); err != nil {
			return nil, err
		}
	}
	generated := time.Since(start)
	os.WriteFile(filepath.Join(root, "go.mod"), []byte("module roundtrip\n\ngo 1.15\n"), 0666)
	types := 0
	main := func() {
		var imp, reg strings.Builder
		types = 0
		for _, u := range list {
			if u.Broken == "" {
				fmt.Fprintf(&imp, "\t%q\n", "roundtrip/"+u.Pkg)
				fmt.Fprintf(&reg, "\t%q: %s.VerifRegistry,\n", u.Pkg, u.Pkg)
				types += len(u.Names)
			}
		}
		os.WriteFile(filepath.Join(root, "registry.go"), []byte("package main\n\nimport (\n\t\"reflect\"\n"+imp.String()+")\n\nvar registry = map[string]map[string]reflect.Type{\n"+reg.String()+"}\n"), 0666)
	}
	os.WriteFile(filepath.Join(root, "main.go"), serverSource, 0666)
	for try := 0; ; try++ {
		main()
		cmd := exec.Command("go", "build", "-trimpath", "-o", "server", ".")
		cmd.Dir = root
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOGC=200")
		out, err := cmd.CombinedOutput()
		if err == nil {
			break
		}
		bad := 0
		part := regexp.MustCompile(`(?m)^# roundtrip/(u\d+)$`)
		at := part.FindAllSubmatchIndex(out, -1)
		for i, m := range at {
			end := len(out)
			if i+1 < len(at) {
				end = at[i+1][0]
			}
			for _, u := range list {
				if u.Pkg == string(out[m[2]:m[3]]) && u.Broken == "" {
					u.Broken = "the generated package does not compile:\n" + string(out[m[0]:end])
					bad++
				}
			}
		}
		if bad == 0 || try > 20 {
			return nil, fmt.Errorf("go build: %v\n%s", err, out)
		}
	}
	data, err := json.Marshal(list)
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(root, "units.json"), data, 0666); err != nil {
		return nil, err
	}
	parts := 0
	for _, u := range list {
		parts += len(u.Recipe)
	}
	return map[string]interface{}{"packages_built": len(list), "schemas_in_packages": parts, "types_in_packages": types,
		"generate_s": generated.Seconds(), "build_s": (time.Since(start) - generated).Seconds()}, nil
}

// server is the process that holds the generated types.
type server struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	enc *json.Encoder
	dec *json.Decoder
	err *os.File
}

type answer struct {
	Err1, Err2, Err3 string
	V1, V2           [][2]string
	X                string
}

var (
	theServer *server
	theUnits  []*unit
	byGroup   map[string][]*unit
	setupOnce sync.Once
	setupErr  error
)

func setupC22() error {
	setupOnce.Do(func() {
		root := filepath.Join(os.Getenv("MC_SCRATCH"), "roundtrip")
		data, err := os.ReadFile(filepath.Join(root, "units.json"))
		if err == nil {
			err = json.Unmarshal(data, &theUnits)
		}
		byGroup = map[string][]*unit{}
		for _, u := range theUnits {
			byGroup[u.Group] = append(byGroup[u.Group], u)
		}
		setupErr = err
	})
	return setupErr
}

func startServer() (*server, error) {
	root := filepath.Join(os.Getenv("MC_SCRATCH"), "roundtrip")
	s := &server{}
	s.cmd = exec.Command(filepath.Join(root, "server"))
	s.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=1GiB")
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if s.err, err = os.CreateTemp(os.Getenv("MC_SCRATCH"), "server-*.err"); err != nil {
		return nil, err
	}
	s.cmd.Stderr = s.err
	s.enc = json.NewEncoder(s.in)
	s.dec = json.NewDecoder(bufio.NewReaderSize(out, 1<<16))
	return s, s.cmd.Start()
}

func (s *server) stop() string {
	s.cmd.Process.Kill()
	s.cmd.Wait()
	data, _ := os.ReadFile(s.err.Name())
	s.err.Close()
	os.Remove(s.err.Name())
	if len(data) > 3000 {
		data = data[:3000]
	}
	return string(data)
}

// ask sends a document to the server. The process may die of what the
// generated code does.
func ask(key, doc string) (a answer, died string) {
	if theServer == nil {
		var err error
		if theServer, err = startServer(); err != nil {
			panic(err)
		}
	}
	done := make(chan error, 1)
	s := theServer
	go func() {
		err := s.enc.Encode(map[string]string{"K": key, "D": doc})
		if err == nil {
			err = s.dec.Decode(&a)
		}
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			theServer = nil
			return a, "the process died: " + s.stop()
		}
	case <-time.After(3 * time.Minute):
		theServer = nil
		return a, "no answer for three minutes: " + s.stop()
	}
	return a, ""
}

// sourceFile is source with a package name of its own.
func sourceFile(docs [][]byte, pkg string, opts ...optionT) ([]byte, codeT, cfgT, error) {
	src, code, cfg, err := source(docs, opts...)
	if err != nil {
		return nil, nil, nil, err
	}
	return regexp.MustCompile(`(?m)^package \w+$`).ReplaceAll(src, []byte("package "+pkg)), code, cfg, nil
}

func roundTrip(group string) func(*mc.T) {
	return func(t *mc.T) {
		us := byGroup[group]
		u := us[t.Free("package", len(us))]
		if u.Broken != "" {
			t.FailKey(fmt.Sprint(u.Group, u.Recipe[0]), "%s", u.Broken)
		}
		if u.idx == nil {
			if err := u.build(); err != nil {
				panic(err)
			}
		}
		var names []string
		for n := range u.Names {
			names = append(names, n)
		}
		sort.Strings(names)
		key := names[t.Free("type", len(names))]
		i := strings.IndexByte(key, '}')
		n := N(key[1:i], key[i+1:])
		if c := u.idx.Complex[n]; c != nil && c.Abstract {
			t.Skip()
		}
		doc, want, order := document(t, u.idx, u.sc.ignore, n)
		t.Input(fmt.Sprintf("%s %s %s", u.Group, key, doc))
		t.Step()
		exchange(t, u, n, doc, want, order)
	}
}

func (u *unit) about(n Name) string {
	one := &Set{}
	suffix := regexp.MustCompile(`K\d+$`).FindString(n.Local)
	for _, s := range u.sc.set.Schemas {
		c := &Schema{NS: s.NS}
		for _, it := range s.Items {
			if m := regexp.MustCompile(`K\d+$`).FindString(itName(it)); m == suffix || m == "" && (it.Complex == nil && it.Simple == nil || library[itName(it)]) {
				c.Add(it)
			}
		}
		one.Schemas = append(one.Schemas, c)
	}
	return Text(one.Docs(&Pres{XS: "xs", NS: map[string]string{NSA: "a", NSB: "b"}, Indent: true}))
}

func exchange(t *mc.T, u *unit, n Name, doc string, want []expect, order map[string][][]Name) {
	id := u.Names["{"+n.Space+"}"+n.Local]
	a, died := ask(u.Pkg+"."+id, doc)
	fail := func(f string, v ...interface{}) {
		t.Fail("%s\ntype {%s}%s (Go: %s), options %d\ndocument: %s\nencoded again: %s\nvalues: %q\nvalues after decoding that: %q\n%s", fmt.Sprintf(f, v...), n.Space, n.Local, id, u.Options, doc, a.X, a.V1, a.V2, u.about(n))
	}
	if died != "" {
		fail("%s", died)
	}
	for i, e := range []string{a.Err1, a.Err2, a.Err3} {
		if e != "" {
			fail("%s: %s", []string{"a valid document cannot be decoded", "the decoded value cannot be encoded", "the encoded document cannot be decoded"}[i], e)
		}
	}
	judge(t, a, want, fail)
	t.Compared(len(order))
	if wrong := inOrder(order, a.X); wrong != "" {
		fail("%s", wrong)
	}
}

// gather puts together the items of a list whose Go type is []string, which
// look like repeated elements.
func gather(got [][2]string, want []expect) [][2]string {
	number := regexp.MustCompile(`\[\d+\]/#text$`)
	lists := map[string]int{}
	for _, e := range want {
		if e.list && listBuiltin(e.builtin) && !e.attr {
			lists[number.ReplaceAllString(e.path, "")]++
		}
	}
	var out [][2]string
	at := map[string]int{}
	for _, g := range got {
		p := number.ReplaceAllString(g[0], "")
		if lists[p] != 1 || p == g[0] {
			out = append(out, g)
			continue
		}
		if i, ok := at[p]; ok {
			out[i][1] += " " + g[1]
			continue
		}
		at[p] = len(out)
		out = append(out, [2]string{p + "[0]/#text", g[1]})
	}
	return out
}

// zeroForms are what the zero values of Go types look like.
var zeroForms = map[string]bool{"": true, "0": true, "false": true, "0001-01-01T00:00:00Z": true, "0001-01-01Z": true, "00:00:00Z": true,
	"0001Z": true, "0001-01Z": true, "--01Z": true, "--01-01Z": true, "---01Z": true}

// judge compares the values of a document with what the server found.
func judge(t *mc.T, a answer, want []expect, fail func(string, ...interface{})) {
	byPath := map[string]expect{}
	for _, e := range want {
		byPath[e.path] = e
	}
	lookup := func(p string) (expect, bool) {
		e, ok := byPath[p]
		if !ok {
			// an attribute without its namespace
			if i := strings.LastIndex(p, "/@"); i >= 0 && !strings.HasPrefix(p[i+2:], "{") {
				for q, e := range byPath {
					if e.attr && strings.HasPrefix(q, p[:i+2]+"{") && strings.HasSuffix(q, "}"+p[i+2:]) {
						return e, e.loose
					}
				}
			}
		}
		return e, ok
	}
	check := func(what string, got [][2]string, parse func(expect, string) (value, error), mayMiss bool) {
		seen := map[string]bool{}
		for _, g := range got {
			e, ok := lookup(g[0])
			if !ok {
				if !zeroForms[strings.TrimSpace(g[1])] {
					fail("%s has the value %q at %s, which the document does not have", what, g[1], g[0])
				}
				continue
			}
			if seen[e.path] {
				fail("%s has two values at %s", what, e.path)
			}
			seen[e.path] = true
			w, err := canonText(e, e.lex)
			if err != nil {
				fail("harness: %v", err)
			}
			v, err := parse(e, g[1])
			if err != nil {
				fail("%s: at %s: %v", what, g[0], err)
			}
			t.Compared(1)
			if v.text != w.text {
				fail("%s has the value %q at %s, not %q (xs:%s)", what, g[1], g[0], e.lex, e.builtin)
			}
		}
		for _, e := range want {
			if seen[e.path] {
				continue
			}
			w, _ := canonText(e, e.lex)
			if w.zero && mayMiss && e.omit {
				continue
			}
			if w.zero && !mayMiss && e.omit {
				// nothing to be seen of it in Go
				continue
			}
			fail("%s does not have the value %q at %s", what, e.lex, e.path)
		}
	}
	check("the decoded value", gather(a.V1, want), canonDump, false)
	fl, err := flat(a.X)
	if err != nil {
		fail("the encoded document is not well-formed: %v", err)
	}
	check("the encoded document", fl, canonText, true)
	if fmt.Sprint(a.V1) != fmt.Sprint(a.V2) {
		m := map[string]string{}
		for _, g := range a.V2 {
			m[g[0]] = g[1]
		}
		for _, g := range a.V1 {
			if _, known := lookup(g[0]); !known && zeroForms[g[1]] {
				continue // --01 is in the year 0
			}
			if x, ok := m[g[0]]; !ok || x != g[1] {
				fail("at %s there is %q after decoding again, not %q", g[0], x, g[1])
			}
		}
		if len(a.V1) != len(a.V2) {
			fail("decoding again gives other values")
		}
	}
	t.Outcome(fmt.Sprint(len(a.V1), len(want)))
}

func c22() mc.Property {
	p := mc.Property{ID: "C22", Quick: 150, Thorough: 700, Before: prepareC22,
		Assumptions: []string{
			"documents hold values that the Go types can represent; NaN and infinities, years outside of 2-9999 and 24:00:00 are left out",
			"zero values of optional elements and attributes and of omitted structs may appear or disappear; the order between elements of different names is checked where every name has one place, apart for fields that are replaced for encoding and for the others",
			"values are encoded by way of a pointer; of the elements that match a wildcard only the number and text is compared, not the name (they are encoded as Item or Items); mixed text is not compared",
		}}
	h := func(name, about string, weight float64, bounds [2]int) {
		p.Harnesses = append(p.Harnesses, mc.Harness{Name: name, About: about + "; each document is decoded with the compiled types, encoded and decoded again; oracle: values of the document, computed from the schema model and parsed by the rules of XML Schema", Weight: weight, Bounds: bounds,
			Setup: setupC22, Run: roundTrip(name)})
	}
	p.Harnesses = append(p.Harnesses, mc.Harness{Name: "findings", About: "inputs of the known findings", Weight: 0.1, Bounds: [2]int{0, 0}, Setup: setupC22, Run: checkFinding})
	h("types", "44 built-in types × 14 ways to make a type from it × 13 positions × 2-9 lexical forms, 6 ways to write the document, presence and repetition", 4, [2]int{1, 2})
	h("pairs", "two fields of 3 classes in 8 positions together in one type; values, presence, repetition", 1, [2]int{3, 4})
	h("wide", "types with 4, 6 and 14 members of different types that need helpers, in every rotation", 1, [2]int{1, 2})
	h("wildcards", "types with one, two and repeated wildcards in seven places, extended and restricted by such types", 1, [2]int{3, 4})
	h("fields", "60 field names as element and attribute, with and without conversions", 1, [2]int{3, 4})
	h("qualified", "two attributes of 4 types in a schema with attributeFormDefault, with and without form, in attribute groups", 1, [2]int{1, 3})
	h("content", "content models (compositors, occurrence, references, groups, in-line types, features, attributes) × choices of alternatives, repetitions, values", 2, [2]int{2, 3})
	h("derivation", "chains of derived types", 1, [2]int{1, 2})
	h("recursive", "recursive types", 1, [2]int{1, 2})
	h("anonymous", "in-line types", 1, [2]int{3, 4})
	p.Harnesses = append(p.Harnesses, mc.Harness{Name: "soap", About: "SOAP arrays of the built-in types, of restrictions and of lists of them; on their own and as elements, 0-3 items, values; oracle: as above", Weight: 1, Bounds: [2]int{2, 3}, Setup: setupC22, Run: soapTrip})
	return p
}
