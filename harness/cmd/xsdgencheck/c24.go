package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"aqwari.net/xml/verif/mapsched"
	"aqwari.net/xml/verif/mc"
	. "aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

// Property C24: options have exactly the effect that they document and can be
// undone.

// words are the names that a schema set uses.
type words struct {
	elems, attrs, types []string
	named               []Name
	namespaces          []string
	inline              int
}

func vocabulary(set *Set) words {
	var w words
	e, a, ty, ns := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	var typ func(Type)
	var content func(*Particle)
	attrs := func(l []Attr) {
		for _, x := range l {
			if x.Name != "" {
				a[x.Name] = true
			} else {
				a[x.Ref.Local] = true
			}
			typ(x.Type)
		}
	}
	typ = func(t Type) {
		if t.Inline() {
			w.inline++
		}
		switch {
		case t.C != nil:
			content(t.C.Content)
			attrs(t.C.Attrs)
		case t.S != nil:
			typ(t.S.Base)
			for _, m := range t.S.Members {
				typ(m)
			}
		}
	}
	content = func(p *Particle) {
		if p == nil {
			return
		}
		if p.Elem != nil {
			if p.Elem.Name != "" {
				e[p.Elem.Name] = true
			} else {
				e[p.Elem.Ref.Local] = true
			}
			typ(p.Elem.Type)
		}
		for _, k := range p.Kids {
			content(k)
		}
	}
	for _, s := range set.Schemas {
		ns[s.NS] = true
		for _, it := range s.Items {
			switch {
			case it.Complex != nil:
				ty[it.Complex.Name] = true
				w.named = append(w.named, N(s.NS, it.Complex.Name))
				content(it.Complex.Content)
				attrs(it.Complex.Attrs)
			case it.Simple != nil:
				ty[it.Simple.Name] = true
				w.named = append(w.named, N(s.NS, it.Simple.Name))
				typ(it.Simple.Base)
				for _, m := range it.Simple.Members {
					typ(m)
				}
			case it.Elem != nil:
				typ(it.Elem.Type)
				e[it.Elem.Name] = true
			case it.Attr != nil:
				typ(it.Attr.Type)
				a[it.Attr.Name] = true
			case it.Group != nil:
				content(it.Group.Content)
			case it.AttrGroup != nil:
				attrs(it.AttrGroup.Attrs)
			}
		}
	}
	w.elems, w.attrs, w.types, w.namespaces = sorted(e), sorted(a), sorted(ty), sorted(ns)
	return w
}

func sorted(m map[string]bool) []string {
	var out []string
	for k := range m {
		if k != "" {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// depends is the set of named types that the named types need, by the schema.
func depends(x *Index, roots []Name) map[Name]bool {
	seen := map[Name]bool{}
	var typ func(Type)
	var name func(Name)
	var content func(ns string, p *Particle)
	typ = func(t Type) {
		switch {
		case t.S != nil:
			typ(t.S.Base)
			for _, m := range t.S.Members {
				typ(m)
			}
		case t.C != nil:
			name(t.C.Base)
			content("", t.C.Content)
		default:
			name(t.Ref)
		}
	}
	content = func(ns string, p *Particle) {
		for _, e := range x.Elements(ns, p) {
			typ(e.Type)
		}
	}
	var complex func(ns string, c *Complex)
	complex = func(ns string, c *Complex) {
		name(c.Base)
		for _, e := range x.Elements(ns, c.Content) {
			if e.Type.C != nil {
				complex(ns, e.Type.C)
			}
			typ(e.Type)
		}
		for _, a := range x.Attributes(ns, c.Attrs) {
			typ(a.Type)
		}
	}
	name = func(n Name) {
		if seen[n] {
			return
		}
		seen[n] = true
		if s := x.Simple[n]; s != nil {
			typ(Type{S: s})
		}
		if c := x.Complex[n]; c != nil {
			complex(n.Space, c)
		}
	}
	for _, r := range roots {
		name(r)
	}
	return seen
}

// selected checks that the types are declared, with what they depend on, and
// no others.
func (m *matcher) selected(w words, chosen map[Name]bool) {
	decls := m.out.Types()
	var roots []Name
	for _, n := range w.named {
		if chosen[n] {
			roots = append(roots, n)
			m.declared(n, decls)
		}
	}
	deps := depends(m.x, roots)
	spare := w.inline
	for n := range deps {
		if !chosen[n] && n.Space != XS {
			spare++
		}
	}
	// Names that must not be there.
	not := map[string]Name{}
	for _, n := range w.named {
		if !deps[n] {
			not[titled(n.Local)] = n
		}
	}
	var left []string
	for name := range decls {
		if _, ok := m.model[name]; !ok && decls[name].Obj().Exported() {
			if n, ok := not[name]; ok && w.inline == 0 {
				m.fail("{%s}%s is declared (%s), though it was not asked for", n.Space, n.Local, name)
			}
			left = append(left, name)
		}
	}
	sort.Strings(left)
	if len(left) > spare {
		m.fail("%s: declared, though not asked for", strings.Join(left, ", "))
	}
	for name, what := range m.model {
		if n, ok := what.(Name); ok && !deps[n] {
			m.fail("harness: %s stands for {%s}%s, which nothing depends on", name, n.Space, n.Local)
		}
	}
	m.t.Outcome(fmt.Sprint(len(roots), len(deps) > len(roots), len(decls)))
}

// titled is the Go identifier for a name.
func titled(local string) string {
	local = strings.Map(func(r rune) rune {
		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
			return r
		}
		return -1
	}, strings.Title(local))
	if local == "" || local[0] != '_' && !unicode.IsLetter([]rune(local)[0]) {
		return "X" + local
	}
	return local
}

// rule is a substitution of names.
type rule struct{ from, to string }

var rules = []rule{{"", ""}, {"^", "Pre"}, {"$", "Post"}, {"^[A-Z]", ""}, {"[a-z]$", ""}, {"(.)(.*)", "${2}Q$1"}, {"^.*$", "Same"}, {"T", "-"}, {"[", "x"}}

func applyRules(l []rule, s string) string {
	for _, r := range l {
		if re, err := regexp.Compile(r.from); err == nil {
			s = re.ReplaceAllString(s, r.to)
		}
	}
	return s
}

// called tells whether an identifier is one for the name, given the others
// that compete with it: itself, or itself and a number.
func called(id, want string, rivals map[string]int) bool {
	if id == want {
		return true
	}
	if rivals[want] < 2 && rivals[strings.TrimRight(want, "0123456789")] < 2 {
		return false
	}
	return strings.HasPrefix(id, want)
}

// renamed checks the identifiers of a package whose names went through rules.
func (m *matcher) renamed(w words, l []rule) {
	rivals := map[string]int{}
	for _, n := range w.named {
		rivals[titled(applyRules(l, n.Local))]++
	}
	for id, what := range m.model {
		n, ok := what.(Name)
		if !ok {
			continue
		}
		m.t.Compared(1)
		want := titled(applyRules(l, n.Local))
		r := rivals
		if w.inline > 0 || !ast.IsExported(want) {
			r = map[string]int{want: 2} // other names are not known
		}
		if !called(id, want, r) {
			m.fail("{%s}%s is called %s, not %s", n.Space, n.Local, id, want)
		}
	}
	for id, named := range m.out.Types() {
		fields := map[string]int{}
		list := fieldsOf(named)
		for _, f := range list {
			if f.Kind() == "element" || f.Kind() == "attr" {
				fields[fieldNamed(l, f.Local)]++
			} else {
				fields[f.Go] += 2
			}
		}
		if !named.Obj().Exported() {
			continue
		}
		for _, f := range list {
			if f.Kind() != "element" && f.Kind() != "attr" {
				continue
			}
			m.t.Compared(1)
			if want := fieldNamed(l, f.Local); !called(f.Go, want, fields) {
				m.fail("the field of %s for %s %s is called %s, not %s", id, f.Kind(), f.Local, f.Go, want)
			}
		}
	}
}

func fieldNamed(l []rule, local string) string {
	id := titled(applyRules(l, local))
	if !ast.IsExported(id) {
		id = "X" + id
	}
	return id
}

// decl is a declared type with its methods, as text.
type decl struct {
	text    string
	fields  map[string]string // tag: name and type
	methods map[string]string
}

func declarations(src []byte) (map[string]decl, string, error) {
	set := token.NewFileSet()
	file, err := parser.ParseFile(set, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, "", err
	}
	show := func(n ast.Node) string {
		var b bytes.Buffer
		printer.Fprint(&b, set, n)
		return b.String()
	}
	out := map[string]decl{}
	get := func(n string) decl {
		d := out[n]
		if d.fields == nil {
			d.fields, d.methods = map[string]string{}, map[string]string{}
		}
		return d
	}
	for _, x := range file.Decls {
		switch x := x.(type) {
		case *ast.GenDecl:
			if x.Tok != token.TYPE {
				continue
			}
			for _, s := range x.Specs {
				ts := s.(*ast.TypeSpec)
				d := get(ts.Name.Name)
				d.text = show(x)
				if st, ok := ts.Type.(*ast.StructType); ok {
					for _, f := range st.Fields.List {
						tag := ""
						if f.Tag != nil {
							tag, _ = strconv.Unquote(f.Tag.Value)
						}
						name := ""
						if len(f.Names) > 0 {
							name = f.Names[0].Name
						}
						d.fields[tag] = name + " " + show(f.Type)
					}
				}
				out[ts.Name.Name] = d
			}
		case *ast.FuncDecl:
			recv := ""
			if x.Recv != nil {
				r := x.Recv.List[0].Type
				if s, ok := r.(*ast.StarExpr); ok {
					r = s.X
				}
				recv = show(r)
			}
			d := get(recv)
			d.methods[x.Name.Name] = show(x)
			out[recv] = d
		}
	}
	return out, file.Name.Name, nil
}

// fieldsRemain checks that the fields of the second source are those of the
// first one, without those that gone picks.
func fieldsRemain(t *mc.T, a, b []byte, inline bool, text string, gone func(tag string) bool) {
	da, _, err := declarations(a)
	if err != nil {
		t.Fail("%v\n%s", err, a)
	}
	db, _, err := declarations(b)
	if err != nil {
		t.Fail("%v\n%s", err, b)
	}
	for n, x := range db {
		y, ok := da[n]
		if !ok {
			if ast.IsExported(n) && !inline {
				t.Fail("%s is declared only with the option\n%s\n%s", n, text, b)
			}
			continue
		}
		if inline || len(x.fields) == 0 {
			continue
		}
		for tag, f := range x.fields {
			t.Compared(1)
			old, ok := y.fields[tag]
			if !ok || gone(tag) {
				t.Fail("%s has the field %s %q, which should not be there\n%s\n%s", n, f, tag, text, b)
			}
			if strings.TrimRight(f[:strings.Index(f, " ")], "0123456789") != strings.TrimRight(old[:strings.Index(old, " ")], "0123456789") && !strings.Contains(f, "Attr ") && !strings.Contains(old, "Attr ") {
				t.Fail("the field %q of %s is %s, not %s, with the option\n%s\n%s", tag, n, f, old, text, b)
			}
		}
		for tag := range y.fields {
			if _, ok := x.fields[tag]; !ok && !gone(tag) {
				t.Fail("%s has lost the field %q\n%s\n%s", n, tag, text, b)
			}
		}
	}
}

func tagLocal(tag string) (local string, attr, elem bool) {
	x := ""
	if strings.HasPrefix(tag, `xml:"`) {
		x = strings.TrimSuffix(tag[5:], `"`)
	}
	parts := strings.Split(x, ",")
	f := strings.Fields(parts[0])
	if len(f) > 0 {
		local = f[len(f)-1]
	}
	for _, p := range parts[1:] {
		if p == "attr" {
			attr = true
		}
	}
	return local, attr, local != "" && !attr
}

// subset draws one of the names, two of them, all, or one that is not there.
func subset(t *mc.T, l []string) []string {
	n := len(l)
	k := t.Free("names", n+3)
	switch {
	case k < n:
		return []string{l[k]}
	case k == n:
		return []string{"missing"}
	case k == n+1:
		return l
	}
	if n < 2 {
		t.Skip()
	}
	i := t.Free("first", n-1)
	j := i + 1 + t.Free("second", n-1-i)
	return []string{l[j], l[i]}
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

type recorder struct{ lines []string }

func (r *recorder) Printf(f string, v ...interface{}) {
	r.lines = append(r.lines, fmt.Sprintf(f, v...))
}

// effect draws an option for a scenario and checks what it does.
func effect(t *mc.T, sc scen) {
	docs := sc.docs()
	text := Text(docs)
	w := vocabulary(sc.set)
	mapsched.Sorted()
	base, _, _, err := source(docs, sc.opts...)
	if err != nil {
		t.Fail("the generator refuses a valid schema: %v\n%s", err, text)
	}
	with := func(name string, o ...xsdgen.Option) output {
		text = name + "\n" + text
		t.Input(text)
		return generate(t, text, docs, append(append([]xsdgen.Option{}, sc.opts...), o...)...)
	}
	match := func(out output) *matcher {
		m := newMatcher(t, out, sc.set, text, sc.ignore...)
		m.slices = sc.slices
		return m
	}
	same := func(name string, out string) {
		t.Compared(1)
		if out != string(base) {
			t.Fail("%s changes the source: %s\n%s\n%s", name, firstDiff(base, []byte(out)), text, out)
		}
	}
	switch kind := t.FreePick("option", "attributes", "elements", "only", "allow", "rename", "namespaces", "quiet", "process", "fields"); kind {
	case "attributes":
		names := subset(t, w.attrs)
		out := with(fmt.Sprintf("IgnoreAttributes(%q)", names), xsdgen.IgnoreAttributes(names...))
		m := match(out)
		m.loose = true
		m.skipA = map[string]bool{}
		for _, n := range names {
			m.skipA[n] = true
		}
		m.all(sc.only...)
		if len(sc.ignore) == 0 {
			fieldsRemain(t, base, []byte(out.Src), w.inline > 0, text, func(tag string) bool {
				l, a, _ := tagLocal(tag)
				return a && in(names, l)
			})
		}
	case "elements":
		names := subset(t, w.elems)
		out := with(fmt.Sprintf("IgnoreElements(%q)", names), xsdgen.IgnoreElements(names...))
		m := match(out)
		for _, n := range names {
			m.skipE[n] = true
		}
		m.loose = true
		m.all(sc.only...)
		fieldsRemain(t, base, []byte(out.Src), w.inline > 0, text, func(tag string) bool {
			l, _, e := tagLocal(tag)
			return e && in(names, l)
		})
		// A user who takes the elements away gets the same types.
		out2 := with("ProcessTypes", xsdgen.ProcessTypes(func(_ xsd.Schema, ty xsd.Type) xsd.Type {
			if c, ok := ty.(*xsd.ComplexType); ok {
				var keep []xsd.Element
				for _, e := range c.Elements {
					if !in(names, e.Name.Local) {
						keep = append(keep, e)
					}
				}
				c.Elements = keep
			}
			return ty
		}))
		if w.inline == 0 && len(sc.set.Schemas) == 1 && len(sc.only) == 0 && out2.Src != out.Src {
			t.Fail("IgnoreElements and ProcessTypes without the elements differ: %s\n%s\n%s", firstDiff([]byte(out2.Src), []byte(out.Src)), text, out.Src)
		}
	case "only", "allow":
		if len(w.types) == 0 {
			t.Skip()
		}
		chosen := map[Name]bool{}
		inScope := func(n Name) bool { return len(sc.only) == 0 || in(sc.only, n.Space) }
		var out output
		if kind == "only" {
			names := subset(t, w.types)
			var pats []string
			for _, n := range names {
				pats = append(pats, "^"+regexp.QuoteMeta(n)+"$")
			}
			for _, n := range w.named {
				if in(names, n.Local) && inScope(n) {
					chosen[n] = true
				}
			}
			out = with(fmt.Sprintf("OnlyTypes(%q)", pats), xsdgen.OnlyTypes(pats...))
		} else {
			var opts []xsdgen.Option
			n := w.named[t.Free("type", len(w.named))]
			pick := []Name{n}
			switch t.Free("more", 3) {
			case 1:
				pick = append(pick, w.named[t.Free("second", len(w.named))])
			case 2:
				pick = []Name{{Space: n.Space, Local: "missing"}, {Space: "urn:other", Local: n.Local}}
			}
			for _, n := range pick {
				opts = append(opts, xsdgen.AllowType(n))
				if inScope(n) {
					chosen[n] = true
				}
			}
			out = with(fmt.Sprintf("AllowType(%q)", pick), opts...)
		}
		match(out).selected(w, chosen)
	case "rename":
		l := []rule{rules[t.Free("rule", len(rules))]}
		if t.FreeBool("second rule") {
			l = append(l, rules[t.Free("rule 2", len(rules))])
		}
		var opts []xsdgen.Option
		for _, r := range l {
			opts = append(opts, xsdgen.Replace(r.from, r.to))
		}
		out := with(fmt.Sprintf("Replace %q", l), opts...)
		m := match(out)
		m.all(sc.only...)
		if sc.slices && len(sc.ignore) > 0 { // the default options
			l = append([]rule{{`[._ \s-]`, ""}}, l...)
		}
		m.renamed(w, l)
	case "namespaces":
		k := t.Free("namespace", len(w.namespaces)+3)
		switch {
		case k < len(w.namespaces):
			ns := w.namespaces[k]
			out := with("Namespaces("+ns+")", xsdgen.Namespaces(ns))
			match(out).all(ns)
		case k == len(w.namespaces):
			same("naming all namespaces", with("all namespaces", xsdgen.Namespaces(w.namespaces...)).Src)
		case k == len(w.namespaces)+1:
			same("naming a namespace twice", with("twice", xsdgen.Namespaces(append([]string{w.namespaces[0]}, w.namespaces...)...)).Src)
		default:
			list := append([]string{"urn:missing"}, w.namespaces...)
			if t.FreeBool("one document more") {
				docs = append(docs, docs[0])
			}
			if _, _, _, err := source(docs, append(append([]xsdgen.Option{}, sc.opts...), xsdgen.Namespaces(list...))...); err == nil {
				t.Fail("a namespace that no document has is not reported\n%s", text)
			} else if !strings.Contains(err.Error(), "urn:missing") {
				t.Fail("the namespace that is missing is not named: %v\n%s", err, text)
			}
		}
	case "quiet":
		rec := &recorder{}
		switch t.FreePick("quiet option", "log", "follow", "package", "clashing package", "nil") {
		case "log":
			same("logging", with("log", xsdgen.LogOutput(rec), xsdgen.LogLevel(t.Free("level", 6))).Src)
		case "follow":
			same("FollowImports", with("follow", xsdgen.FollowImports(true)).Src)
		case "package":
			out := with("package", xsdgen.PackageName("another"))
			_, was, _ := declarations(base)
			same("PackageName", strings.Replace(out.Src, "package another\n", "package "+was+"\n", 1))
		case "clashing package":
			out := with("package", xsdgen.PackageName("xml"), xsdgen.PackageName("time"))
			_, was, _ := declarations(base)
			same("PackageName", strings.Replace(out.Src, "package time\n", "package "+was+"\n", 1))
		case "nil":
			same("ProcessTypes without effect", with("ProcessTypes", xsdgen.ProcessTypes(func(_ xsd.Schema, ty xsd.Type) xsd.Type { return ty })).Src)
		}
	case "process":
		// The function sees every type of the documents once for every name
		// that it is known by, and what it returns counts.
		twice := t.FreeBool("another function")
		fresh := t.FreeBool("new types")
		seen := map[Name]int{}
		bad := ""
		out := with("ProcessTypes", xsdgen.ProcessTypes(func(s xsd.Schema, ty xsd.Type) xsd.Type {
			n := xsd.XMLName(ty)
			seen[n]++
			for _, other := range w.named {
				if s.FindType(other) == nil {
					bad = fmt.Sprint("the schema that ProcessTypes is given does not have ", other)
				}
			}
			if c, ok := ty.(*xsd.ComplexType); ok && c.Name.Local != "_self" {
				if fresh {
					d := *c
					c = &d
				}
				c.Doc = "processed"
				return c
			}
			return ty
		}), xsdgen.ProcessTypes(func(_ xsd.Schema, ty xsd.Type) xsd.Type {
			if c, ok := ty.(*xsd.ComplexType); ok && twice && c.Name.Local != "_self" {
				d := *c
				d.Doc += " again"
				return &d
			}
			return ty
		}))
		if bad != "" && len(sc.only) == 0 {
			t.Fail("%s\n%s", bad, text)
		}
		for _, n := range w.named {
			if len(sc.only) > 0 && !in(sc.only, n.Space) {
				continue
			}
			t.Compared(1)
			if seen[n] == 0 {
				t.Fail("ProcessTypes is not given %v\n%s", n, text)
			}
			if c := sc.set.Index().Complex[n]; c != nil {
				id := out.Code.NameOf(n)
				if d, ok := out.Types()[id]; ok && (!strings.Contains(out.Doc(d.Obj().Name()), "processed") || twice != strings.Contains(out.Doc(d.Obj().Name()), "processed again")) && titled(n.Local) == id {
					t.Fail("what ProcessTypes does with %v has no effect\n%s\n%s", n, text, out.Src)
				}
			}
		}
	case "fields":
		if w.inline == 0 {
			same("UseFieldNames", with("UseFieldNames", xsdgen.UseFieldNames()).Src)
			return
		}
		out := with("UseFieldNames", xsdgen.UseFieldNames())
		m := match(out)
		m.all(sc.only...)
		a, _, _ := declarations(base)
		b, _, _ := declarations([]byte(out.Src))
		t.Compared(1)
		if len(a) != len(b) {
			t.Fail("UseFieldNames changes the number of types: %d, not %d\n%s\n%s", len(b), len(a), text, out.Src)
		}
		for _, n := range w.named {
			if d, ok := a[titled(n.Local)]; ok {
				e, ok := b[titled(n.Local)]
				if !ok || len(d.fields) != len(e.fields) {
					t.Fail("UseFieldNames changes %v\n%s\n%s", n, text, out.Src)
				}
			}
		}
	}
}

// histories of options

// setting is one option together with the setting that it is about.
type setting struct {
	name  string
	class string
	adds  bool // to the previous value of the setting
	opt   func() xsdgen.Option
}

var playground = []string{
	head("urn:a") + `<xs:complexType name="Thing"><xs:sequence><xs:element name="item"><xs:complexType><xs:sequence><xs:element name="sub-item" type="xs:date"/></xs:sequence><xs:attribute name="id" type="xs:int"/></xs:complexType></xs:element><xs:element name="other" type="b:Other" maxOccurs="2"/></xs:sequence><xs:attribute name="id" type="xs:ID"/><xs:attribute name="ref" type="b:Code"/></xs:complexType>
<xs:complexType name="Alone"><xs:sequence><xs:element name="other" type="xs:int"/><xs:element name="x" type="xs:time"/></xs:sequence></xs:complexType>
<xs:complexType name="Ints"><xs:complexContent><xs:restriction base="soapenc:Array"><xs:attribute ref="soapenc:arrayType" wsdl:arrayType="xs:int[]"/></xs:restriction></xs:complexContent></xs:complexType>` + tail,
	head("urn:b") + `<xs:complexType name="Other"><xs:sequence><xs:element name="x" type="xs:string"/></xs:sequence><xs:attribute name="id" type="xs:ID"/></xs:complexType>
<xs:simpleType name="Code"><xs:restriction base="xs:string"><xs:enumeration value="k"/></xs:restriction></xs:simpleType>
<xs:complexType name="Spare"><xs:simpleContent><xs:extension base="b:Code"><xs:attribute name="ref" type="xs:string"/></xs:extension></xs:simpleContent></xs:complexType>` + tail,
	soapSchema}

var settings = []setting{
	{"IgnoreAttributes(id)", "attributes", false, func() xsdgen.Option { return xsdgen.IgnoreAttributes("id") }},
	{"IgnoreAttributes(ref, id)", "attributes", false, func() xsdgen.Option { return xsdgen.IgnoreAttributes("ref", "id") }},
	{"IgnoreElements(x)", "elements", false, func() xsdgen.Option { return xsdgen.IgnoreElements("x") }},
	{"IgnoreElements(other)", "elements", false, func() xsdgen.Option { return xsdgen.IgnoreElements("other") }},
	{"OnlyTypes(^A)", "only", false, func() xsdgen.Option { return xsdgen.OnlyTypes("^A") }},
	{"OnlyTypes(Thing|Spare)", "only", false, func() xsdgen.Option { return xsdgen.OnlyTypes("Thing", "Spare") }},
	{"AllowType(Thing)", "allow", true, func() xsdgen.Option { return xsdgen.AllowType(xml.Name{Space: "urn:a", Local: "Thing"}) }},
	{"AllowType(Alone)", "allow", true, func() xsdgen.Option { return xsdgen.AllowType(xml.Name{Space: "urn:a", Local: "Alone"}) }},
	{"Replace(^.)", "rename", true, func() xsdgen.Option { return xsdgen.Replace("^[a-zA-Z]", "") }},
	{"Replace(^)", "rename", true, func() xsdgen.Option { return xsdgen.Replace("^", "in") }},
	{"Namespaces(urn:a)", "namespaces", false, func() xsdgen.Option { return xsdgen.Namespaces("urn:a") }},
	{"Namespaces(urn:a, urn:b)", "namespaces", false, func() xsdgen.Option { return xsdgen.Namespaces("urn:b", "urn:a") }},
	{"PackageName(p)", "package", false, func() xsdgen.Option { return xsdgen.PackageName("p") }},
	{"PackageName(q)", "package", false, func() xsdgen.Option { return xsdgen.PackageName("q") }},
	{"UseFieldNames", "before", true, xsdgen.UseFieldNames},
	{"HandleSOAPArrayType", "before", true, xsdgen.HandleSOAPArrayType},
	{"ProcessTypes", "before", true, func() xsdgen.Option {
		return xsdgen.ProcessTypes(func(_ xsd.Schema, t xsd.Type) xsd.Type {
			if c, ok := t.(*xsd.ComplexType); ok {
				c.Doc += "+"
			}
			return t
		})
	}},
	{"ProcessTypes with new types", "before", true, func() xsdgen.Option { return copies("*") }},
	{"SOAPArrayAsSlice", "after", true, xsdgen.SOAPArrayAsSlice},
}

var freshOutputs = map[string][]byte{}

// model is the value of every setting: the options that made it.
type optionModel map[string][]int

func (m optionModel) key() string {
	var l []string
	for c, v := range m {
		if len(v) > 0 {
			l = append(l, fmt.Sprint(c, v))
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (m optionModel) source(t *mc.T) []byte {
	k := m.key()
	if b, ok := freshOutputs[k]; ok {
		return b
	}
	cfg := new(xsdgen.Config)
	for _, v := range m {
		for _, i := range v {
			cfg.Option(settings[i].opt())
		}
	}
	b, err := again(cfg, play())
	if err != nil {
		t.Fail("with %s: %v", k, err)
	}
	if len(freshOutputs) > 3000 {
		freshOutputs = map[string][]byte{}
	}
	freshOutputs[k] = b
	return b
}

func play() [][]byte { return fixed{docs: playground}.bytes() }

// inverse is what Option returned, and what it should do.
type inverse struct {
	opt   xsdgen.Option
	class string
	value []int
	text  string
}

func optionHistories(t *mc.T, max int) {
	mapsched.Sorted()
	cfg := new(xsdgen.Config)
	model := optionModel{}
	var held []inverse
	var trail []string
	n := 1 + t.Free("steps", max)
	for i := 0; i < n; i++ {
		t.Step()
		k := t.Free("operation", len(settings)+len(held))
		if k < len(settings) {
			s := settings[k]
			prev := model[s.class]
			inv := cfg.Option(s.opt())
			var next []int
			if s.adds {
				next = append(next, prev...)
			}
			model[s.class] = append(next, k)
			held = append(held, inverse{inv, s.class, prev, "undo " + s.name})
			trail = append(trail, s.name)
		} else {
			h := held[k-len(settings)]
			if h.opt == nil {
				t.Fail("%s: there is nothing to undo it with", h.text)
			}
			prev := model[h.class]
			inv := cfg.Option(h.opt)
			model[h.class] = h.value
			// An inverse is used once; what it returns takes its place.
			held[k-len(settings)] = inverse{inv, h.class, prev, "undo (" + h.text + ")"}
			trail = append(trail, h.text)
		}
	}
	text := strings.Join(trail, "; ")
	t.Input(text)
	want := model.source(t)
	got, err := again(cfg, play())
	if err != nil {
		t.Fail("after %s: %v", text, err)
	}
	t.Compared(1)
	t.State(model.key())
	if !bytes.Equal(want, got) {
		t.Fail("after %s the source is not that of a new Config with %s: %s\n%s", text, model.key(), firstDiff(want, got), got)
	}
}

// severalAtOnce gives a list of options to one call.
func severalAtOnce(t *mc.T) {
	mapsched.Sorted()
	n := 2
	if t.Thorough {
		n += t.Free("more", 2)
	}
	cfg := new(xsdgen.Config)
	var opts []xsdgen.Option
	var names []string
	steps := new(xsdgen.Config)
	var last xsdgen.Option
	for i := 0; i < n; i++ {
		k := t.Free("option", len(settings))
		opts = append(opts, settings[k].opt())
		names = append(names, settings[k].name)
		last = steps.Option(settings[k].opt())
	}
	inv := cfg.Option(opts...)
	t.Input(strings.Join(names, ", "))
	undo := t.FreeBool("undo the last")
	if undo {
		cfg.Option(inv)
		steps.Option(last)
	}
	t.Step()
	a, errA := again(cfg, play())
	b, errB := again(steps, play())
	t.Compared(1)
	t.State(string(a))
	if fmt.Sprint(errA) != fmt.Sprint(errB) || !bytes.Equal(a, b) {
		t.Fail("options %s together (undone: %v) do not do what they do one after the other: %s %v %v", strings.Join(names, ", "), undo, firstDiff(b, a), errA, errB)
	}
}

// arrayOptions checks what the two options about SOAP arrays do.
func arrayOptions(t *mc.T) {
	mapsched.Sorted()
	handle, slice := t.FreeBool("HandleSOAPArrayType"), t.FreeBool("SOAPArrayAsSlice")
	ignore := [][]string{nil, {"id"}, {"arrayType"}, {"id", "arrayType"}}[t.Free("ignored", 4)]
	first := t.FreeBool("slices first")
	item := builtinNames[t.Free("item", len(builtinNames))]
	var opts []xsdgen.Option
	if slice && first {
		opts = append(opts, xsdgen.SOAPArrayAsSlice())
	}
	if handle {
		opts = append(opts, xsdgen.HandleSOAPArrayType())
	}
	if slice && !first {
		opts = append(opts, xsdgen.SOAPArrayAsSlice())
	}
	if ignore != nil {
		opts = append(opts, xsdgen.IgnoreAttributes(ignore...))
	}
	doc := head("urn:a") + `<xs:complexType name="List"><xs:complexContent><xs:restriction base="soapenc:Array"><xs:attribute ref="soapenc:arrayType" wsdl:arrayType="xs:` + item + `[]"/></xs:restriction></xs:complexContent></xs:complexType>
<xs:complexType name="Plain"><xs:sequence><xs:element name="one" type="xs:int" maxOccurs="unbounded"/></xs:sequence></xs:complexType>` + tail
	docs := [][]byte{[]byte(doc), []byte(soapSchema)}
	text := fmt.Sprintf("handle %v, slice %v, ignore %q, slices first %v, %s", handle, slice, ignore, first, item)
	t.Input(text)
	opts = append(opts, xsdgen.Namespaces("urn:a"))
	out := generate(t, text, docs, opts...)
	t.State(out.Src)
	elem := "string"
	if handle {
		elem = builtinGo[item]
	}
	list, ok := out.Types()["List"]
	if !ok {
		t.Fail("%s: no type List\n%s", text, out.Src)
	}
	attrs := 0
	for _, a := range []string{"id", "arrayType"} {
		if !in(ignore, a) && !(a == "arrayType" && handle) {
			attrs++
		}
	}
	t.Compared(2)
	if slice && attrs == 0 {
		if got := goType(list.Underlying()); got != "[]"+elem {
			t.Fail("%s: List is declared as %s, not []%s\n%s", text, got, elem, out.Src)
		}
	} else {
		fields := fieldsOf(list)
		n := 0
		for _, f := range fields {
			if f.Kind() == "attr" {
				n++
			} else if got := goType(f.Type); f.Kind() != "any" || got != "[]"+elem {
				t.Fail("%s: List has the field %s, not items of type %s\n%s", text, f.Description, elem, out.Src)
			}
		}
		if n != attrs || len(fields) != attrs+1 {
			t.Fail("%s: List has %d attributes, not %d\n%s", text, n, attrs, out.Src)
		}
	}
	plain, ok := out.Types()["Plain"]
	if !ok || len(fieldsOf(plain)) != 1 || goType(fieldsOf(plain)[0].Type) != "[]int" {
		t.Fail("%s: Plain is not a struct with one field any more\n%s", text, out.Src)
	}
}

// someTypes is the builder "types" with the alternatives as deviations.
var someTypes = builder{Name: "types", About: "built-in types of every Go type × 14 ways to make a type from them × 13 positions, changed one (thorough: two) at a time",
	Build: func(t *mc.T) scen {
		s := &Schema{NS: NSA}
		c := &Complex{Name: "C"}
		b := t.Pick("builtin", "string", "int", "date", "hexBinary", "NMTOKENS", "QName", "boolean", "anyType", "double", "unsignedByte")
		typ := made(t, s, b, makings[t.Choose("making", len(makings))])
		place(t, s, c, typ, positions[t.Choose("position", len(positions))], "x")
		s.Add(complexT(c))
		sc := scen{set: &Set{Schemas: []*Schema{s}}}
		withOptions(t, &sc)
		return sc
	}}

func c24() mc.Property {
	p := mc.Property{ID: "C24", Quick: 100, Thorough: 860,
		Assumptions: []string{"OnlyTypes is about local names, and may keep base types whose members are merged into the types that were asked for", "in-line types are not counted when types are selected by their names"}}
	p.Harnesses = append(p.Harnesses,
		mc.Harness{Name: "histories", About: "all sequences of up to 3 (thorough: 4) steps, each of which applies one of 19 options or one of the options that undo an earlier step (or its undoing); oracle: the source is that of a new Config given the options in force", Bounds: [2]int{0, 0}, Weight: 2,
			Run: func(t *mc.T) {
				max := 3
				if t.Thorough {
					max = 4
				}
				optionHistories(t, max)
			}},
		mc.Harness{Name: "several at once", About: "all lists of 2 (thorough: or 3) of 19 options given to one call of Option, and the last one undone; oracle: the same options given one after the other", Bounds: [2]int{0, 0}, Weight: 1, Run: severalAtOnce},
		mc.Harness{Name: "arrays", About: "SOAP arrays of all 44 built-in types × HandleSOAPArrayType × SOAPArrayAsSlice in both orders × the attributes ignored", Bounds: [2]int{0, 0}, Weight: .5, Run: arrayOptions})
	for _, b := range builders() {
		b := b
		switch b.Name {
		case "builtin documents", "texts", "soap", "bundled", "names", "wide":
			continue
		case "types":
			b = someTypes
		}
		bounds := map[string][2]int{"types": {1, 2}, "pairs": {0, 0}, "content": {0, 1}, "derivation": {0, 1}, "recursive": {1, 2}, "anonymous": {1, 2}}[b.Name]
		p.Harnesses = append(p.Harnesses, mc.Harness{Name: "effects on " + b.Name, About: b.About + "; × IgnoreAttributes, IgnoreElements, OnlyTypes and AllowType with every name, every pair, all of them and a name that does not exist; Replace with 9 rules and their pairs; Namespaces; PackageName, logging and FollowImports; ProcessTypes; UseFieldNames; oracle: the reference model of the schema with the option, and the declarations without it", Weight: 1, Bounds: bounds, ThoroughOnly: b.Name == "pairs",
			Run: func(t *mc.T) {
				sc := b.Build(t)
				if sc.set == nil {
					t.Skip()
				}
				effect(t, sc)
			}})
	}
	return p
}
