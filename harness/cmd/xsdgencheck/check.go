package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"aqwari.net/xml/verif/gocheck"
	"aqwari.net/xml/verif/mc"
	. "aqwari.net/xml/verif/smodel"
)

// matcher compares the declarations of a package with a schema set.
type matcher struct {
	t      *mc.T
	out    output
	x      *Index
	text   string
	skipA  map[string]bool // attributes that the options leave out
	skipE  map[string]bool
	slices bool
	loose  bool                   // in-line types need not be reached
	model  map[string]interface{} // Go type name: what it was matched with
	busy   map[[2]interface{}]bool
	names  map[Name]string // Go names of declared types that have a declaration
}

func newMatcher(t *mc.T, out output, set *Set, text string, ignoredAttrs ...string) *matcher {
	m := &matcher{t: t, out: out, x: set.Index(), text: text, skipA: map[string]bool{}, skipE: map[string]bool{},
		model: map[string]interface{}{}, busy: map[[2]interface{}]bool{}, names: map[Name]string{}}
	for _, a := range ignoredAttrs {
		m.skipA[a] = true
	}
	return m
}

func (m *matcher) fail(f string, v ...interface{}) {
	m.t.Fail("%s\n%s\n%s", fmt.Sprintf(f, v...), m.text, m.out.Src)
}

// root resolves a simple type to what it is made of: a built-in, a list or
// a union.
func (m *matcher) root(t Type) (builtin string, list, union *Simple) {
	for i := 0; i < 50; i++ {
		s := t.S
		if s == nil {
			if t.Ref.Space == XS {
				return t.Ref.Local, nil, nil
			}
			if s = m.x.Simple[t.Ref]; s == nil {
				return "", nil, nil
			}
		}
		switch s.Kind {
		case "list":
			return "", s, nil
		case "union":
			return "", nil, s
		}
		t = s.Base
	}
	return "", nil, nil
}

func nontrivial(b string) bool {
	switch builtinGo[b] {
	case "time.Time", "[]byte", "[]string":
		return true
	}
	return false
}

// useful tells whether a simple type must have a declaration of its own.
func (m *matcher) useful(s *Simple) bool {
	for {
		f := m.x.Facets(s)
		if s.Kind == "list" || s.Kind == "union" {
			return true
		}
		b, l, u := m.root(s.Base)
		if l != nil || u != nil || nontrivial(b) {
			return true
		}
		return len(f.Enum) > 0 || f.Pattern != "" || f.MinLength != 0 || f.MaxLength != 0
	}
}

// claim records that a Go type was made for a model type.
func (m *matcher) claim(n *types.Named, what interface{}, where string) {
	name := n.Obj().Name()
	if prev, ok := m.model[name]; ok && prev != what {
		m.fail("the declaration of %s stands for two types (%s)", name, where)
	}
	m.model[name] = what
}

func strip(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func own(t types.Type) (*types.Named, bool) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "x" {
		return nil, false
	}
	return n, true
}

// typ compares a Go type with a model type.
func (m *matcher) typ(g types.Type, t Type, where string) {
	m.t.Compared(1)
	if t.None() {
		t = Ref(X("anyType"))
	}
	if !t.Inline() && t.Ref.Space == XS {
		if got := goType(g); got != builtinGo[t.Ref.Local] {
			m.fail("%s is declared as %s, not %s (xs:%s)", where, got, builtinGo[t.Ref.Local], t.Ref.Local)
		}
		return
	}
	s, c := t.S, t.C
	var key interface{} = t.Ref
	ns := t.Ref.Space
	if !t.Inline() {
		s, c = m.x.Simple[t.Ref], m.x.Complex[t.Ref]
	} else if s != nil {
		key = s
	} else {
		key = c
	}
	switch {
	case s != nil:
		m.simple(g, s, key, where)
	case c != nil:
		m.complex(g, c, ns, key, where)
	default:
		m.fail("harness: no type %v (%s)", t.Ref, where)
	}
}

func (m *matcher) simple(g types.Type, s *Simple, key interface{}, where string) {
	n, named := own(g)
	if m.useful(s) && !named {
		m.fail("%s is declared as %s, but its type adds something to the built-in", where, goType(g))
	}
	if named {
		m.claim(n, key, where)
		m.doc(n, s.Doc, where)
		f := m.x.Facets(s)
		for _, e := range f.Enum {
			if words := strings.Fields(e); len(words) == 1 && len(e) > 1 && isASCII(e) && s.Kind == "restriction" && !nontrivialOf(m, s) {
				if !strings.Contains(m.out.Doc(n.Obj().Name()), e) {
					m.fail("the comment of %s does not mention the value %q (%s)", n.Obj().Name(), e, where)
				}
			}
		}
	}
	under := g.Underlying()
	var b string
	var l, u *Simple
	switch s.Kind {
	case "list":
		l = s
	case "union":
		u = s
	default:
		b, l, u = m.root(s.Base)
	}
	switch {
	case l != nil:
		sl, ok := under.(*types.Slice)
		if !ok {
			m.fail("%s is a list but declared as %s", where, goType(under))
		}
		ib, il, iu := m.root(l.Base)
		switch {
		case il != nil:
			m.fail("harness: list of lists")
		case iu != nil:
			ib = "string"
		case ib == "QName" || ib == "NOTATION":
			ib = "string" // cannot be resolved without a context
		}
		if _, isNamed := own(sl.Elem()); isNamed {
			m.typ(sl.Elem(), l.Base, "item of "+where)
		} else if goType(sl.Elem()) != builtinGo[ib] {
			m.fail("the items of %s are declared as %s, not %s", where, goType(sl.Elem()), builtinGo[ib])
		}
	case u != nil:
		if goType(under) != "string" {
			m.fail("%s is a union but declared as %s", where, goType(under))
		}
	default:
		want := builtinGo[b]
		got := goType(under)
		if !named {
			got = goType(g)
		} else if want == "time.Time" {
			if got = "other"; strings.HasPrefix(goType(under), "struct{wall") {
				got = want
			}
		}
		if want == "xml.Name" && named && strings.HasPrefix(goType(under), "struct{Space string; Local string") {
			got = want
		}
		if strings.ReplaceAll(got, "uint8", "byte") != want {
			m.fail("%s is declared as %s, not %s (xs:%s)", where, got, want, b)
		}
	}
}

func nontrivialOf(m *matcher, s *Simple) bool {
	b, l, u := m.root(s.Base)
	return l != nil || u != nil || nontrivial(b)
}

func isASCII(s string) bool {
	for _, r := range s {
		if r < '!' || r > '~' || strings.ContainsRune("'`\"", r) {
			return false
		}
	}
	return true
}

func (m *matcher) doc(n *types.Named, doc []string, where string) {
	got := strings.Join(strings.Fields(m.out.Doc(n.Obj().Name())), " ")
	for _, d := range doc {
		for _, w := range strings.Fields(d) {
			if isASCII(w) && len(w) > 1 && !strings.Contains(got, w) {
				m.fail("the comment of %s does not have the word %q of the documentation (%s)", n.Obj().Name(), w, where)
			}
		}
	}
}

// simpleBase tells the simple type that the content of a type has, if any.
func (m *matcher) simpleBase(c *Complex) (t Type, ok bool) {
	for i := 0; i < 50; i++ {
		if c.Derive == Short || c.Base.Space == XS && c.Base.Local == "anyType" {
			return Type{}, false
		}
		if b := m.x.Complex[c.Base]; b != nil {
			c = b
			continue
		}
		return Ref(c.Base), true
	}
	return Type{}, false
}

// members is everything that a complex type declares or inherits.
type members struct {
	elems    []XElem
	optional map[Name]bool // may or may not be there: restricted away
	attrs    []XAttr
}

func (m *matcher) members(c *Complex, ns string) members {
	var r members
	r.optional = map[Name]bool{}
	own := m.x.Elements(ns, c.Content)
	mine := map[Name]bool{}
	wild := false
	for _, e := range own {
		if e.Wildcard {
			wild = true
		}
		mine[e.Name] = true
	}
	attrs := m.x.Attributes(ns, c.Attrs)
	myAttr := map[Name]bool{}
	for _, a := range attrs {
		myAttr[a.Name] = true
	}
	if b := m.x.Complex[c.Base]; c.Derive != Short && b != nil {
		in := m.members(b, c.Base.Space)
		for _, e := range in.elems {
			if (e.Wildcard && wild || mine[e.Name]) && c.Derive == CExtends {
				// both that of the base and its own
				for i := range own {
					if own[i].Name == e.Name && own[i].Wildcard == e.Wildcard {
						own[i].Plural = true
					}
				}
			}
			if e.Wildcard {
				if !wild {
					r.elems = append(r.elems, e)
				}
				continue
			}
			if !mine[e.Name] {
				r.elems = append(r.elems, e)
				if c.Derive == CRestr || in.optional[e.Name] {
					r.optional[e.Name] = true
				}
			}
		}
		for _, a := range in.attrs {
			if !myAttr[a.Name] {
				r.attrs = append(r.attrs, a)
			}
		}
	}
	r.elems = append(r.elems, own...)
	r.attrs = append(attrs, r.attrs...)
	var keepE []XElem
	for _, e := range r.elems {
		if !m.skipE[e.Name.Local] || e.Wildcard {
			keepE = append(keepE, e)
		}
	}
	var keepA []XAttr
	for _, a := range r.attrs {
		if !m.skipA[a.Name.Local] {
			keepA = append(keepA, a)
		}
	}
	r.elems, r.attrs = keepE, keepA
	return r
}

func (m *matcher) complex(g types.Type, c *Complex, ns string, key interface{}, where string) {
	if ns == "" {
		ns = m.nsOf(c)
	}
	mem := m.members(c, ns)
	sb, simple := m.simpleBase(c)
	if simple && m.directSimple(c) && len(mem.attrs) == 0 && !hasText(g) {
		// nothing but its simple content
		m.typ(g, sb, where)
		return
	}
	g = strip(g)
	n, ok := own(g)
	if !ok {
		m.fail("%s is declared as %s, not as a type of its own", where, goType(g))
	}
	m.claim(n, key, where)
	pair := [2]interface{}{n.Obj().Name(), key}
	if m.busy[pair] {
		return
	}
	m.busy[pair] = true
	m.doc(n, c.Doc, where)
	if m.slices && len(mem.elems) == 1 && len(mem.attrs) == 0 && mem.elems[0].Wildcard && mem.elems[0].Plural && !simple {
		if got := goType(n.Underlying()); got != "[]string" {
			m.fail("%s is declared as %s, not as a slice", where, got)
		}
		return
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		m.fail("%s is declared as %s, not a struct", where, goType(n.Underlying()))
	}
	fields := gocheck.Fields(st)
	used := map[int]bool{}
	take := func(what string, is func(f gocheck.Field) bool) (gocheck.Field, int) {
		found := -1
		for i, f := range fields {
			if !used[i] && is(f) {
				if found >= 0 {
					m.fail("%s has two fields for %s", n.Obj().Name(), what)
				}
				found = i
			}
		}
		if found < 0 {
			return gocheck.Field{}, -1
		}
		used[found] = true
		if !fields[found].Exported {
			m.fail("the field %s of %s is not exported", fields[found].Go, n.Obj().Name())
		}
		return fields[found], found
	}
	plural := func(f gocheck.Field, p bool, what string) types.Type {
		if !p {
			return f.Type
		}
		sl, ok := f.Type.(*types.Slice)
		if !ok {
			m.fail("%s of %s may repeat but is %s", what, n.Obj().Name(), f.Description)
		}
		return sl.Elem()
	}
	last := -1
	for _, e := range mem.elems {
		what := fmt.Sprintf("element {%s}%s", e.Name.Space, e.Name.Local)
		if e.Wildcard {
			what = "the wildcard"
		}
		f, i := take(what, func(f gocheck.Field) bool {
			if e.Wildcard {
				return f.Kind() == "any"
			}
			return f.Kind() == "element" && f.Local == e.Name.Local && f.Space == e.Name.Space
		})
		if i < 0 {
			if mem.optional[e.Name] && !e.Wildcard {
				continue
			}
			m.fail("%s has no field for %s", n.Obj().Name(), what)
		}
		if e.Wildcard {
			if got := goType(plural(f, e.Plural, what)); got != "string" {
				m.fail("the wildcard of %s is %s", n.Obj().Name(), f.Description)
			}
			continue
		}
		if i < last && c.Derive != CRestr {
			m.fail("the elements of %s are not in the order of declaration (%s)", n.Obj().Name(), f.Description)
		}
		last = i
		if f.Flags["omitempty"] != (e.Optional || e.Nillable) && !e.Plural { // C22 has the items of slices
			m.fail("%s of %s: optional %v, nillable %v, but the field is %s", what, n.Obj().Name(), e.Optional, e.Nillable, f.Description)
		}
		m.typ(plural(f, e.Plural, what), e.Type, what+" of "+n.Obj().Name())
	}
	for _, a := range mem.attrs {
		what := fmt.Sprintf("attribute {%s}%s", a.Name.Space, a.Name.Local)
		f, i := take(what, func(f gocheck.Field) bool {
			// (Of references to global attributes, see the findings of C22.)
			return f.Kind() == "attr" && f.Local == a.Name.Local && (f.Space == map[bool]string{true: a.Name.Space}[a.Qualified] || a.Global && f.Space == a.Name.Space)
		})
		if i < 0 {
			m.fail("%s has no field for %s", n.Obj().Name(), what)
		}
		if f.Flags["omitempty"] != a.Optional {
			m.fail("%s of %s: optional %v, but the field is %s", what, n.Obj().Name(), a.Optional, f.Description)
		}
		m.typ(f.Type, a.Type, what+" of "+n.Obj().Name())
	}
	f, i := take("the text", func(f gocheck.Field) bool { return f.Kind() == "chardata" })
	switch {
	case i < 0 && simple:
		m.fail("%s has simple content but no field for it", n.Obj().Name())
	case i >= 0 && simple:
		m.typ(f.Type, sb, "the text of "+n.Obj().Name())
	case i >= 0 && !m.x.Mixed(ns, c):
		m.fail("%s has a field for text", n.Obj().Name())
	}
	for i, f := range fields {
		if !used[i] {
			m.fail("%s has a field that the schema has no declaration for: %s", n.Obj().Name(), f.Description)
		}
	}
}

// hasText tells whether a Go type is a struct with a field for text.
func hasText(g types.Type) bool {
	st, ok := strip(g).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for _, f := range gocheck.Fields(st) {
		if f.Kind() == "chardata" {
			return true
		}
	}
	return false
}

// directSimple tells whether a chain of types without attributes leads to
// the simple type.
func (m *matcher) directSimple(c *Complex) bool {
	for i := 0; i < 50; i++ {
		b := m.x.Complex[c.Base]
		if b == nil {
			return true
		}
		if len(m.members(b, c.Base.Space).attrs) > 0 {
			return false
		}
		c = b
	}
	return true
}

// nsOf is the target namespace that an in-line type belongs to.
func (m *matcher) nsOf(c *Complex) string {
	for _, s := range m.x.Set.Schemas {
		for _, it := range s.Items {
			if it.Complex == c || itemHas(it, c) {
				return s.NS
			}
		}
	}
	return ""
}

func itemHas(it Item, c *Complex) bool {
	switch {
	case it.Complex != nil:
		return complexHas(it.Complex, c)
	case it.Elem != nil:
		return typeHas(it.Elem.Type, c)
	case it.Group != nil:
		return particleHas(it.Group.Content, c)
	}
	return false
}

func typeHas(t Type, c *Complex) bool { return t.C != nil && (t.C == c || complexHas(t.C, c)) }

func complexHas(o, c *Complex) bool { return particleHas(o.Content, c) }

func particleHas(p *Particle, c *Complex) bool {
	if p == nil {
		return false
	}
	if p.Elem != nil && typeHas(p.Elem.Type, c) {
		return true
	}
	for _, k := range p.Kids {
		if particleHas(k, c) {
			return true
		}
	}
	return false
}

// all checks every type of the namespaces (all of them, if none are given)
// and that nothing else is declared.
func (m *matcher) all(namespaces ...string) {
	want := func(ns string) bool {
		for _, n := range namespaces {
			if n == ns {
				return true
			}
		}
		return len(namespaces) == 0
	}
	decls := m.out.Types()
	for _, s := range m.x.Set.Schemas {
		if !want(s.NS) {
			continue
		}
		for _, it := range s.Items {
			switch {
			case it.Complex != nil:
				m.declared(N(s.NS, it.Complex.Name), decls)
			case it.Simple != nil:
				m.declared(N(s.NS, it.Simple.Name), decls)
			case it.Elem != nil && it.Elem.Type.C != nil:
				// the type of a top-level element: checked where it is used
			}
		}
	}
	spare := m.spare()
	if m.loose {
		spare += vocabulary(m.x.Set).inline
	}
	var left []string
	for name := range decls {
		if _, ok := m.model[name]; !ok && decls[name].Obj().Exported() {
			left = append(left, name)
		}
	}
	sort.Strings(left)
	if len(left) > spare {
		m.fail("%s: declared, but no type of the schema stands behind it", strings.Join(left, ", "))
	}
	m.t.Outcome(fmt.Sprint(len(decls), len(m.model)))
}

// spare is the number of in-line types that no other type is declared with:
// the items of lists and members of unions, which become strings, and what
// top-level elements and attributes and groups declare in line.
func (m *matcher) spare() int {
	n := 0
	var simple func(t Type, hidden bool)
	var content func(p *Particle, hidden bool)
	var typ func(t Type, hidden bool)
	attrs := func(l []Attr, hidden bool) {
		for _, a := range l {
			typ(a.Type, hidden)
		}
	}
	typ = func(t Type, hidden bool) {
		if t.Inline() && hidden {
			n++
		}
		simple(t, hidden)
		if t.C != nil {
			content(t.C.Content, hidden)
			attrs(t.C.Attrs, hidden)
		}
	}
	parts := func(s *Simple, hidden bool) {
		if s.Kind == "restriction" {
			// the base of a restriction is merged into it
			typ(s.Base, true)
			return
		}
		typ(s.Base, true)
		for _, u := range s.Members {
			typ(u, true)
		}
	}
	simple = func(t Type, hidden bool) {
		if t.S != nil {
			parts(t.S, hidden)
		}
	}
	content = func(p *Particle, hidden bool) {
		if p == nil {
			return
		}
		if p.Elem != nil {
			typ(p.Elem.Type, hidden)
		}
		for _, k := range p.Kids {
			content(k, hidden)
		}
	}
	for _, s := range m.x.Set.Schemas {
		for _, it := range s.Items {
			switch {
			case it.Complex != nil:
				content(it.Complex.Content, false)
				attrs(it.Complex.Attrs, false)
			case it.Simple != nil:
				parts(it.Simple, false)
			case it.Elem != nil:
				typ(it.Elem.Type, true)
			case it.Attr != nil:
				typ(it.Attr.Type, true)
			case it.Group != nil:
				content(it.Group.Content, true)
			case it.AttrGroup != nil:
				attrs(it.AttrGroup.Attrs, true)
			}
		}
	}
	return n
}

func (m *matcher) declared(n Name, decls map[string]*types.Named) {
	id := m.out.Code.NameOf(n)
	if d, ok := decls[id]; ok {
		m.typ(d, Ref(n), fmt.Sprintf("type {%s}%s", n.Space, n.Local))
		return
	}
	if s := m.x.Simple[n]; s != nil && !m.useful(s) {
		b, _, _ := m.root(Ref(n))
		if id == builtinGo[b] {
			return
		}
	}
	if c := m.x.Complex[n]; c != nil {
		sb, simple := m.simpleBase(c)
		if simple && m.directSimple(c) && len(m.members(c, n.Space).attrs) == 0 {
			b, _, _ := m.root(sb)
			if s := m.x.Simple[sb.Ref]; s != nil && m.useful(s) {
				if id == m.out.Code.NameOf(sb.Ref) {
					return
				}
			} else if id == builtinGo[b] {
				return
			}
		}
	}
	m.fail("there is no declaration for {%s}%s (its name is said to be %q)", n.Space, n.Local, id)
}

func fieldsOf(n *types.Named) []gocheck.Field {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return gocheck.Fields(st)
}
