package smodel

import (
	"encoding/xml"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"aqwari.net/xml/xsd"
)

// Index finds the components of a set by name.
type Index struct {
	Set       *Set
	Complex   map[Name]*Complex
	Simple    map[Name]*Simple
	Elem      map[Name]*Elem
	Attr      map[Name]*Attr
	Group     map[Name]*Group
	AttrGroup map[Name]*AttrGroup
	Builtin   map[Name]bool // built-in names, to describe bases
	// OwnNames puts every element in the namespace it is declared in.
	OwnNames bool
}

func (set *Set) Index() *Index {
	x := &Index{Set: set, Complex: map[Name]*Complex{}, Simple: map[Name]*Simple{}, Elem: map[Name]*Elem{},
		Attr: map[Name]*Attr{}, Group: map[Name]*Group{}, AttrGroup: map[Name]*AttrGroup{}}
	for _, s := range set.Schemas {
		for _, it := range s.Items {
			switch {
			case it.Complex != nil:
				x.Complex[N(s.NS, it.Complex.Name)] = it.Complex
			case it.Simple != nil:
				x.Simple[N(s.NS, it.Simple.Name)] = it.Simple
			case it.Elem != nil:
				x.Elem[N(s.NS, it.Elem.Name)] = it.Elem
			case it.Attr != nil:
				x.Attr[N(s.NS, it.Attr.Name)] = it.Attr
			case it.Group != nil:
				x.Group[N(s.NS, it.Group.Name)] = it.Group
			case it.AttrGroup != nil:
				x.AttrGroup[N(s.NS, it.AttrGroup.Name)] = it.AttrGroup
			}
		}
	}
	return x
}

// Declared reports whether a type of that name is declared at the top level.
func (x *Index) Declared(n Name) bool {
	return x.Complex[n] != nil || x.Simple[n] != nil
}

// XElem is an element as a faithful reader records it.
type XElem struct {
	Name               Name
	Type               Type
	TypeNS             string // target namespace of the definition, for in-line types
	Plural, Optional   bool
	Nillable, Abstract bool
	Default, Doc       string
	Wildcard           bool
}

// XAttr is an attribute as a faithful reader records it.
type XAttr struct {
	Name         Name
	Type         Type
	TypeNS       string
	Optional     bool
	Default, Doc string
	Qualified    bool // form="qualified"
	Global       bool // a reference to a top-level attribute
}

func isTrue(s string) bool { return s == "true" || s == "1" }

func joinDoc(d []string) string {
	var out []string
	for _, s := range d {
		out = append(out, strings.TrimSpace(s))
	}
	return strings.Join(out, "\n\n")
}

func occ(s string) (min0, many bool) {
	switch s {
	case "unbounded":
		return false, true
	case "":
		return false, false
	}
	n, _ := strconv.Atoi(s)
	return n == 0, n > 1
}

type occurrence struct {
	XElem
	path []choicePoint
}

type choicePoint struct {
	p   *Particle
	kid int
}

// Elements lists what the type declares itself, in declaration order, with
// the wildcard last and declarations of one name merged.
func (x *Index) Elements(tns string, p *Particle) []XElem {
	var occs []occurrence
	if p != nil {
		x.elements(tns, p, false, false, false, nil, &occs)
	}
	var out []XElem
	var wild []XElem
	var wildPaths [][]choicePoint
	pos := map[Name]int{}
	var paths [][][]choicePoint
	for _, o := range occs {
		if o.Wildcard {
			// One stands for all of them.
			if len(wild) == 0 {
				wild = append(wild, o.XElem)
			}
			wild[0].Plural = wild[0].Plural || o.Plural
			for _, q := range wildPaths {
				wild[0].Plural = wild[0].Plural || !exclusive(q, o.path)
			}
			wildPaths = append(wildPaths, o.path)
			continue
		}
		i, dup := pos[o.Name]
		if !dup {
			pos[o.Name] = len(out)
			out = append(out, o.XElem)
			paths = append(paths, [][]choicePoint{o.path})
			continue
		}
		a := &out[i]
		if a.Doc != "" {
			a.Doc += "\n"
		}
		a.Doc += o.Doc
		a.Abstract = a.Abstract && o.Abstract
		a.Plural = a.Plural || o.Plural
		for _, q := range paths[i] {
			a.Plural = a.Plural || !exclusive(q, o.path)
		}
		paths[i] = append(paths[i], o.path)
		a.Optional = a.Optional || o.Optional
		a.Nillable = a.Nillable || o.Nillable
		if a.Default != o.Default {
			a.Default = ""
		}
	}
	return append(out, wild...)
}

// exclusive reports whether two particles are in different alternatives of
// a choice.
func exclusive(a, b []choicePoint) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].p != b[i].p {
			return false
		}
		if a[i].kid != b[i].kid {
			return a[i].p.Kind == Choice
		}
	}
	return false
}

func (x *Index) elements(tns string, p *Particle, cross, optional, plural bool, path []choicePoint, out *[]occurrence) {
	min0, _ := occ(p.Min)
	_, many := occ(p.Max)
	if _, m := occ(p.Min); m {
		many = true
	}
	optional, plural = optional || min0, plural || many
	switch p.Kind {
	case Leaf:
		*out = append(*out, occurrence{x.element(tns, p.Elem, cross, optional, plural), path})
	case Any:
		*out = append(*out, occurrence{XElem{Wildcard: true, Plural: plural, Type: Ref(X("anyType"))}, path})
	case GRef:
		g := x.Group[p.Ref]
		if g == nil {
			panic("model: no group " + p.Ref.Local)
		}
		x.elements(p.Ref.Space, g.Content, cross || p.Ref.Space != tns, optional, plural, append(path[:len(path):len(path)], choicePoint{p, 0}), out)
	default:
		for i, k := range p.Kids {
			x.elements(tns, k, cross, optional || p.Kind == Choice, plural, append(path[:len(path):len(path)], choicePoint{p, i}), out)
		}
	}
}

// element describes a declaration or reference. An element that is declared
// with a named type of another namespace is recorded in the namespace of its
// type, unless it is seen from a third one (cross): that is a known finding,
// pinned by an example in the repository, and has a harness of its own.
func (x *Index) element(tns string, e *Elem, cross, optional, plural bool) XElem {
	decl, ns := e, tns
	if (e.Ref != Name{}) {
		cross = cross || e.Ref.Space != tns
		decl, ns = x.Elem[e.Ref], e.Ref.Space
		if decl == nil {
			panic("model: no element " + e.Ref.Local)
		}
	}
	r := XElem{Name: N(ns, decl.Name), Type: decl.Type, TypeNS: ns, Plural: plural, Optional: optional,
		Nillable: isTrue(decl.Nillable), Abstract: isTrue(decl.Abstract), Default: decl.Default, Doc: joinDoc(decl.Doc)}
	if r.Type.None() {
		r.Type = Ref(X("anyType"))
	}
	if t := r.Type.Ref; !x.OwnNames && !cross && !r.Type.Inline() && t.Space != XS {
		r.Name.Space = t.Space
	}
	if r.Default != "" {
		r.Optional = true
	}
	return r
}

// Attributes lists the attributes declared by a type itself.
func (x *Index) Attributes(tns string, attrs []Attr) []XAttr {
	var out []XAttr
	for _, a := range attrs {
		if (a.Group != Name{}) {
			g := x.AttrGroup[a.Group]
			if g == nil {
				panic("model: no attribute group " + a.Group.Local)
			}
			out = append(out, x.Attributes(a.Group.Space, g.Attrs)...)
			continue
		}
		decl, ns := &a, tns
		if (a.Ref != Name{}) {
			decl, ns = x.Attr[a.Ref], a.Ref.Space
			if decl == nil {
				panic("model: no attribute " + a.Ref.Local)
			}
		}
		r := XAttr{Name: N(ns, decl.Name), Type: decl.Type, TypeNS: ns, Optional: a.Use != "required", Default: decl.Default, Doc: joinDoc(decl.Doc),
			Qualified: a.Form == "qualified" || a.Form == "" && a.Ref == Name{} && x.Set.QualAttrs[tns], Global: a.Ref != Name{}}
		if a.Default != "" {
			r.Default = a.Default
		}
		if r.Type.None() {
			r.Type = Ref(X("anySimpleType"))
		}
		out = append(out, r)
	}
	return out
}

// Mixed tells whether character data is significant in a type.
func (x *Index) Mixed(tns string, c *Complex) bool { return x.mixed(c, 0) }

func (x *Index) mixed(c *Complex, depth int) bool {
	switch c.Derive {
	case SExtends, SRestr:
		return true
	case Short:
		return c.Mixed
	}
	m := c.Mixed
	if c.MixedContent != "" {
		m = isTrue(c.MixedContent)
	}
	if m || c.Derive == CRestr || depth > 100000 {
		return m
	}
	if c.Base == X("anyType") {
		return true
	}
	if b := x.Complex[c.Base]; b != nil {
		return x.mixed(b, depth+1)
	}
	return m
}

func (x *Index) BaseOf(c *Complex) Name {
	if c.Derive == Short {
		return X("anyType")
	}
	return c.Base
}

func (c *Complex) Extends() bool { return c.Derive == CExtends || c.Derive == SExtends }

// --- canonical descriptions

type edump struct {
	x     *Index
	stack []interface{}
}

func (d *edump) typ(ns string, t Type) string {
	var key interface{}
	switch {
	case t.C != nil:
		key = t.C
	case t.S != nil:
		key = t.S
	default:
		return qstr(t.Ref)
	}
	for i, k := range d.stack {
		if k == key {
			return fmt.Sprintf("^%d", i)
		}
	}
	d.stack = append(d.stack, key)
	defer func() { d.stack = d.stack[:len(d.stack)-1] }()
	if t.C != nil {
		return d.complex(ns, t.C)
	}
	return d.simple(ns, t.S)
}

func qstr(n Name) string {
	if n.Space == XS {
		return "xs:" + n.Local
	}
	return "{" + n.Space + "}" + n.Local
}

func elemText(name, typ string, plural, optional, nillable, abstract bool, def, doc string) string {
	return fmt.Sprintf("\n  element %s: %s%s%s%s%s default=%q doc=%q", name, typ, flag(plural, " plural"), flag(optional, " optional"), flag(nillable, " nillable"), flag(abstract, " abstract"), def, doc)
}

func attrText(name, typ string, plural, optional bool, def, doc string) string {
	return fmt.Sprintf("\n  attribute %s: %s%s%s default=%q doc=%q", name, typ, flag(plural, " plural"), flag(optional, " optional"), def, doc)
}

func wildText(plural bool) string { return "\n  any" + flag(plural, " plural") }

func flag(b bool, s string) string {
	if b {
		return s
	}
	return ""
}

func (d *edump) complex(ns string, c *Complex) string {
	s := fmt.Sprintf("complex{base=%s%s%s%s doc=%q", qstr(d.x.BaseOf(c)), flag(c.Extends(), " extends"), flag(c.Abstract, " abstract"), flag(d.x.Mixed(ns, c), " mixed"), joinDoc(c.Doc)+joinDoc(c.ContentDoc))
	for _, e := range d.x.Elements(ns, c.Content) {
		if e.Wildcard {
			s += wildText(e.Plural)
			continue
		}
		s += elemText(qstr(e.Name), d.typ(e.TypeNS, e.Type), e.Plural, e.Optional, e.Nillable, e.Abstract, e.Default, e.Doc)
	}
	for _, a := range d.x.Attributes(ns, c.Attrs) {
		s += attrText(qstr(a.Name), d.typ(a.TypeNS, a.Type), d.x.List(a.Type), a.Optional, a.Default, a.Doc)
	}
	return s + "}"
}

// List reports whether the values of a type are lists.
func (x *Index) List(t Type) bool {
	for i := 0; i < 100000; i++ {
		s := t.S
		if s == nil {
			s = x.Simple[t.Ref]
		}
		switch {
		case s == nil:
			return t.Ref == X("NMTOKENS") || t.Ref == X("IDREFS") || t.Ref == X("ENTITIES")
		case s.Kind != "restriction":
			return s.Kind == "list"
		}
		t = s.Base
	}
	return false
}

// XFacets are the facets as recorded.
type XFacets struct {
	Enum                         []string
	Pattern                      string
	Min, Max                     float64
	MinDate, MaxDate             time.Time
	Length, MinLength, MaxLength int
	TotalDigits, Precision       int
	Doc                          string
}

// RootBuiltin finds the built-in a simple type is derived from by restriction.
func (x *Index) RootBuiltin(t Type) string {
	for i := 0; i < 100000; i++ {
		s := t.S
		if s == nil {
			if t.Ref.Space == XS {
				return t.Ref.Local
			}
			s = x.Simple[t.Ref]
		}
		if s == nil || s.Kind != "restriction" {
			return ""
		}
		t = s.Base
	}
	return ""
}

func (x *Index) Facets(s *Simple) XFacets {
	var f XFacets
	f.Doc = joinDoc(s.RestrDoc)
	root := x.RootBuiltin(s.Base)
	bound := func(v string) (float64, time.Time) {
		v = strings.TrimSpace(v)
		switch root {
		case "date":
			for _, l := range []string{"2006-01-02", "2006-01-02Z07:00"} {
				if t, err := time.Parse(l, v); err == nil {
					return 0, t
				}
			}
		case "dateTime":
			for _, l := range []string{time.RFC3339, "2006-01-02T15:04:05"} {
				if t, err := time.Parse(l, v); err == nil {
					return 0, t
				}
			}
		case "time", "duration", "gYearMonth", "gMonth", "gMonthDay", "gDay":
			return 0, time.Time{}
		}
		n, _ := strconv.ParseFloat(v, 64)
		return n, time.Time{}
	}
	for _, a := range s.Facets {
		n, _ := strconv.Atoi(strings.TrimSpace(a.Value))
		switch a.Name {
		case "enumeration":
			f.Enum = append(f.Enum, a.Value)
		case "pattern":
			if f.Pattern != "" {
				f.Pattern += "|"
			}
			f.Pattern += a.Value
		case "minInclusive", "minExclusive":
			f.Min, f.MinDate = bound(a.Value)
		case "maxInclusive", "maxExclusive":
			f.Max, f.MaxDate = bound(a.Value)
		case "length":
			f.Length = n
		case "minLength":
			f.MinLength = n
		case "maxLength":
			f.MaxLength = n
		case "totalDigits":
			f.TotalDigits = n
		case "fractionDigits":
			f.Precision = n
		}
	}
	if f.Pattern != "" {
		if _, err := regexp.Compile(f.Pattern); err != nil {
			f.Pattern = ""
			f.Doc = "" // a remark about the pattern
		}
	}
	return f
}

func (f XFacets) String() string {
	t := func(t time.Time) string {
		if t.IsZero() {
			return "-"
		}
		return t.UTC().Format(time.RFC3339Nano)
	}
	return fmt.Sprintf("enum=%q pattern=%q min=%v max=%v minDate=%s maxDate=%s len=%d/%d/%d digits=%d/%d doc=%q",
		f.Enum, f.Pattern, f.Min, f.Max, t(f.MinDate), t(f.MaxDate), f.Length, f.MinLength, f.MaxLength, f.TotalDigits, f.Precision, f.Doc)
}

func (d *edump) simple(ns string, s *Simple) string {
	out := fmt.Sprintf("simple{doc=%q", joinDoc(s.Doc))
	switch s.Kind {
	case "restriction":
		out += " base=" + d.typ(ns, s.Base) + " " + d.x.Facets(s).String()
	case "list":
		out += " list of " + d.typ(ns, s.Base) + " " + XFacets{}.String()
	case "union":
		out += " union of"
		for _, m := range s.Members {
			if !m.Inline() {
				out += " " + d.typ(ns, m)
			}
		}
		for _, m := range s.Members {
			if m.Inline() {
				out += " " + d.typ(ns, m)
			}
		}
		out += " " + XFacets{}.String()
	}
	return out + "}"
}

// Expected describes, by name, every type and every top-level element that
// reading the set must record. Elements appear as "element {ns}name".
func (set *Set) Expected() map[string]string { return set.expected(false) }

// ExpectedOwnNames is Expected with every element in the namespace it is
// declared in, see Index.element.
func (set *Set) ExpectedOwnNames() map[string]string { return set.expected(true) }

func (set *Set) expected(ownNames bool) map[string]string {
	x := set.Index()
	x.OwnNames = ownNames
	out := map[string]string{}
	for _, s := range set.Schemas {
		for _, it := range s.Items {
			d := &edump{x: x}
			switch {
			case it.Complex != nil:
				d.stack = append(d.stack, it.Complex)
				out["type "+qstr(N(s.NS, it.Complex.Name))] = d.complex(s.NS, it.Complex)
			case it.Simple != nil:
				d.stack = append(d.stack, it.Simple)
				out["type "+qstr(N(s.NS, it.Simple.Name))] = d.simple(s.NS, it.Simple)
			case it.Elem != nil:
				e := x.element(s.NS, it.Elem, false, false, false)
				out["element "+qstr(e.Name)] = elemText(qstr(e.Name), d.typ(s.NS, e.Type), false, e.Optional, e.Nillable, e.Abstract, e.Default, e.Doc)
			}
		}
	}
	return out
}

// --- what was recorded

type odump struct {
	declared func(Name) bool
	stack    []xsd.Type
	anon     map[Name]xsd.Type
	problems []string
}

func (d *odump) problem(f string, v ...interface{}) {
	d.problems = append(d.problems, fmt.Sprintf(f, v...))
}

func (d *odump) typ(t xsd.Type) string {
	switch t.(type) {
	case nil:
		return "nil"
	case xsd.Builtin:
		return qstr(xsd.XMLName(t))
	case *xsd.ComplexType, *xsd.SimpleType:
	default:
		return fmt.Sprintf("unresolved %s", qstr(xsd.XMLName(t)))
	}
	n := xsd.XMLName(t)
	if d.declared(n) {
		return qstr(n)
	}
	for i, k := range d.stack {
		if k == t {
			return fmt.Sprintf("^%d", i)
		}
	}
	if prev, ok := d.anon[n]; ok && prev != t {
		d.problem("two types are named %s", qstr(n))
	}
	d.anon[n] = t
	if len(d.stack) > 60 {
		return "too deep"
	}
	d.stack = append(d.stack, t)
	defer func() { d.stack = d.stack[:len(d.stack)-1] }()
	invented := strings.HasPrefix(n.Local, "_anon")
	switch t := t.(type) {
	case *xsd.ComplexType:
		if invented && !t.Anonymous {
			d.problem("the in-line type %s is not recorded as anonymous", qstr(n))
		}
		return d.complex(t)
	case *xsd.SimpleType:
		if invented && !t.Anonymous {
			d.problem("the in-line type %s is not recorded as anonymous", qstr(n))
		}
		return d.simple(t)
	}
	panic("unreachable")
}

func (d *odump) elem(e xsd.Element) string {
	if e.Wildcard {
		return wildText(e.Plural)
	}
	return elemText(qstr(e.Name), d.typ(e.Type), e.Plural, e.Optional, e.Nillable, e.Abstract, e.Default, e.Doc)
}

func (d *odump) complex(t *xsd.ComplexType) string {
	s := fmt.Sprintf("complex{base=%s%s%s%s doc=%q", d.typ(t.Base), flag(t.Extends, " extends"), flag(t.Abstract, " abstract"), flag(t.Mixed, " mixed"), t.Doc)
	for _, e := range t.Elements {
		if !e.Wildcard {
			s += d.elem(e)
		}
	}
	for _, e := range t.Elements {
		if e.Wildcard {
			s += d.elem(e)
		}
	}
	for _, a := range t.Attributes {
		s += attrText(qstr(a.Name), d.typ(a.Type), a.Plural, a.Optional, a.Default, a.Doc)
	}
	return s + "}"
}

func (d *odump) simple(t *xsd.SimpleType) string {
	r := t.Restriction
	f := XFacets{Enum: r.Enum, Min: r.Min, Max: r.Max, MinDate: r.MinDate, MaxDate: r.MaxDate, Length: r.Length, MinLength: r.MinLength,
		MaxLength: r.MaxLength, TotalDigits: r.TotalDigits, Precision: r.Precision}
	if r.Pattern != nil {
		f.Pattern = r.Pattern.String()
	}
	if f.Doc = r.Doc; strings.Contains(f.Doc, "could not parse the regular expression") {
		f.Doc = ""
	}
	s := fmt.Sprintf("simple{doc=%q", t.Doc)
	switch {
	case t.List:
		s += " list of " + d.typ(t.Base)
	case len(t.Union) > 0:
		s += " union of"
		for _, m := range t.Union {
			s += " " + d.typ(m)
		}
		if t.Base != xsd.AnySimpleType {
			s += " with base " + d.typ(t.Base)
		}
	default:
		s += " base=" + d.typ(t.Base)
	}
	return s + " " + f.String() + "}"
}

// Observed describes what was recorded in the way Expected does, for the
// schemas of the given namespaces. Types whose name is not declared count as
// in-line types and appear where they are used. The second result lists what
// is wrong regardless of any expectation.
func Observed(schemas []xsd.Schema, declared func(Name) bool, namespaces ...string) (map[string]string, []string) {
	want := map[string]bool{}
	for _, ns := range namespaces {
		want[ns] = true
	}
	out := map[string]string{}
	d := &odump{declared: declared, anon: map[Name]xsd.Type{}}
	seen := map[*xsd.ComplexType]bool{}
	for _, s := range schemas {
		if !want[s.TargetNS] {
			continue
		}
		var names []Name
		for n := range s.Types {
			names = append(names, n)
		}
		sort.Slice(names, func(i, j int) bool { return names[i].Space+" "+names[i].Local < names[j].Space+" "+names[j].Local })
		for _, n := range names {
			t := s.Types[n]
			if n.Local == "_self" {
				self, ok := t.(*xsd.ComplexType)
				if !ok {
					d.problem("the document type is %T", t)
					continue
				}
				if seen[self] {
					continue // several schemas for one namespace
				}
				seen[self] = true
				for _, e := range self.Elements {
					k := "element " + qstr(e.Name)
					if _, dup := out[k]; dup {
						d.problem("top-level %s recorded twice", k)
					}
					out[k] = d.elem(e)
				}
				continue
			}
			if declared(n) {
				if got := xsd.XMLName(t); got != n {
					d.problem("type %s is recorded under the name %s", qstr(got), qstr(n))
				}
				k := "type " + qstr(n)
				d.stack = []xsd.Type{t}
				var text string
				switch t := t.(type) {
				case *xsd.ComplexType:
					text = d.complex(t)
					if t.Anonymous {
						d.problem("%s is recorded as anonymous", k)
					}
				case *xsd.SimpleType:
					text = d.simple(t)
					if t.Anonymous {
						d.problem("%s is recorded as anonymous", k)
					}
				default:
					text = d.typ(t)
				}
				d.stack = nil
				if prev, dup := out[k]; dup && prev != text {
					d.problem("%s recorded twice, differently", k)
				}
				out[k] = text
			}
		}
	}
	// Whatever else is recorded must be an in-line type in use, or the name of
	// an element leading to its type.
	for _, s := range schemas {
		if !want[s.TargetNS] {
			continue
		}
		for n, t := range s.Types {
			if n.Local == "_self" || declared(n) {
				continue
			}
			if n == xsd.XMLName(t) {
				if d.anon[n] == nil {
					d.problem("type %s is recorded but not declared", qstr(n))
				}
				continue
			}
			e, ok := out["element "+qstr(n)]
			if !ok { // see Index.element
				e, ok = out["element "+qstr(N(xsd.XMLName(t).Space, n.Local))]
			}
			if !ok {
				d.problem("the name %s leads to type %s", qstr(n), qstr(xsd.XMLName(t)))
			} else if !strings.Contains(e, ": "+d.typ(t)) {
				d.problem("the name of element %s leads to the type %s", qstr(n), d.typ(t))
			}
		}
	}
	sort.Strings(d.problems)
	return out, d.problems
}

// Compare reports the first difference between expectation and observation.
func Compare(want, got map[string]string) string {
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		w, ok := want[k]
		g, ok2 := got[k]
		switch {
		case !ok:
			return fmt.Sprintf("%s recorded, but not declared: %s", k, g)
		case !ok2:
			return fmt.Sprintf("%s not recorded", k)
		case w != g:
			return fmt.Sprintf("%s\n got: %s\nwant: %s", k, g, w)
		}
	}
	return ""
}

var _ = xml.Name{}
