package main

import (
	"fmt"
	"sort"
	"strings"

	"aqwari.net/xml/verif/mc"
	. "aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsdgen"
)

// scen is an input of the generator.
type scen struct {
	set    *Set
	opts   []xsdgen.Option
	pres   *Pres
	ignore []string // attributes that the options leave out
	slices bool     // structs with a single wildcard become slices
	only   []string // namespaces asked for
	raw    [][]byte // documents given as text
	full   bool     // with the bundled schemas
	check  func(*mc.T, output)
	bare   string // a namespace whose schema is to have no target namespace
}

// finish takes away the target namespace.
func (s *scen) finish(t *mc.T) {
	if s.bare == "" {
		return
	}
	if s.raw != nil || s.check != nil || s.only != nil {
		t.Skip()
	}
	if !s.rename() {
		t.Skip()
	}
}

func (s *scen) rename() bool {
	found := false
	var all []string
	for _, c := range s.set.Schemas {
		if c.NS == s.bare {
			found = true
			all = append(all, "")
		} else {
			all = append(all, c.NS)
		}
	}
	s.set.Rename(s.bare, "")
	s.opts = append(append([]xsdgen.Option{}, s.opts...), xsdgen.Namespaces(all...))
	return found
}

func (s scen) docs() [][]byte {
	p := s.pres
	if p == nil {
		p = &Pres{XS: "xs", NS: map[string]string{NSA: "a", NSB: "b"}}
	}
	return s.set.Docs(p)
}

var builtinNames = func() []string {
	var out []string
	for n := range builtinGo {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}()

func listBuiltin(b string) bool { return b == "ENTITIES" || b == "IDREFS" || b == "NMTOKENS" }

// forceOptions, if not negative, is the answer of withOptions.
var forceOptions = -1

// withOptions draws the options of a scenario.
func withOptions(t *mc.T, s *scen) {
	n := forceOptions
	if n < 0 {
		n = t.Choose("options", 6)
	}
	switch n {
	case 0:
		s.opts = xsdgen.DefaultOptions
		s.ignore = []string{"id", "href", "ref", "offset"}
		s.slices = true
	case 1:
		// also with attributes and annotations of other namespaces everywhere
		if s.pres == nil {
			s.pres = &Pres{XS: "xs", NS: map[string]string{NSA: "a", NSB: "b"}, Foreign: true}
		}
	case 2:
		s.opts = []xsdgen.Option{xsdgen.UseFieldNames()}
		if s.pres == nil {
			s.pres = &Pres{XS: "xs", NS: map[string]string{NSA: "a", NSB: "b"}, Shift: true}
		}
	case 3:
		s.opts = []xsdgen.Option{xsdgen.SOAPArrayAsSlice(), xsdgen.PackageName("other")}
		s.slices = true
	case 4:
		s.bare = NSA
	case 5:
		s.bare = NSB
	}
}

func oneSchema(items ...Item) *Set {
	return &Set{Schemas: []*Schema{{NS: NSA, Items: items}}}
}

func complexT(c *Complex) Item { return Item{Complex: c} }

// positions in which a built-in type (or a type made from it) can be used
var positions = []string{"element", "repeated", "optional", "nillable", "default", "repeated default", "attribute", "required attribute", "attribute default", "text", "text and attribute", "restricted text", "top-level"}

// makings are what a type can be made from a built-in.
var makings = []string{"itself", "restriction", "plain restriction", "list", "restricted list", "union", "second restriction", "inline list", "list of restrictions", "inline restriction", "documented restriction", "renamed", "list of unions", "restricted union"}

// made gives a type made from a built-in.
func made(t *mc.T, s *Schema, b, how string) Type {
	facet := []Facet{{"pattern", ".*"}}
	add := func(n string, x *Simple) Type {
		x.Name = n
		for _, it := range s.Items {
			if it.Simple != nil && it.Simple.Name == n {
				return Ref(N(s.NS, n))
			}
		}
		s.Add(Item{Simple: x})
		return Ref(N(s.NS, n))
	}
	restr := func(base Type, f []Facet) *Simple { return &Simple{Kind: "restriction", Base: base, Facets: f} }
	if how != "itself" && b == "anyType" {
		t.Skip()
	}
	if listBuiltin(b) && (how == "list" || how == "restricted list" || how == "inline list" || how == "list of restrictions") {
		t.Skip()
	}
	switch how {
	case "itself":
		return Ref(X(b))
	case "restriction":
		return add("R"+b, restr(Ref(X(b)), facet))
	case "plain restriction":
		return add("P"+b, restr(Ref(X(b)), nil))
	case "documented restriction":
		x := restr(Ref(X(b)), facet)
		x.Doc = []string{"words about it", "and more"}
		return add("D"+b, x)
	case "second restriction":
		return add("S"+b, restr(add("R"+b, restr(Ref(X(b)), facet)), []Facet{{"maxLength", "9"}}))
	case "renamed":
		return add("N"+b, restr(add("P"+b, restr(Ref(X(b)), nil)), nil))
	case "list":
		return add("L"+b, &Simple{Kind: "list", Base: Ref(X(b)), Doc: []string{"listing"}})
	case "list of restrictions":
		return add("Q"+b, &Simple{Kind: "list", Base: add("R"+b, restr(Ref(X(b)), facet))})
	case "list of unions":
		return add("M"+b, &Simple{Kind: "list", Base: add("U"+b, &Simple{Kind: "union", Members: []Type{Ref(X(b)), Ref(X("token"))}})})
	case "restricted list":
		return add("K"+b, restr(add("L"+b, &Simple{Kind: "list", Base: Ref(X(b))}), []Facet{{"maxLength", "3"}}))
	case "union":
		return add("U"+b, &Simple{Kind: "union", Members: []Type{Ref(X(b)), Ref(X("token"))}})
	case "restricted union":
		return add("V"+b, restr(add("U"+b, &Simple{Kind: "union", Members: []Type{Ref(X(b)), Ref(X("token"))}}), []Facet{{"enumeration", "x1"}}))
	case "inline list":
		return SType(&Simple{Kind: "list", Base: Ref(X(b))})
	case "inline restriction":
		return SType(restr(Ref(X(b)), facet))
	}
	panic(how)
}

// place uses a type in a position of the complex type c of schema s.
func place(t *mc.T, s *Schema, c *Complex, typ Type, pos, name string) {
	e := &Elem{Name: name, Type: typ}
	p := leaf(e)
	a := Attr{Name: name, Type: typ}
	content := func() {
		if c.Derive != Short {
			t.Skip()
		}
		if c.Content == nil {
			c.Content = seq()
		}
		c.Content.Kids = append(c.Content.Kids, p)
	}
	text := func() {
		if c.Derive != Short || c.Content != nil {
			t.Skip()
		}
		if typ.Inline() || typ.Ref.Space == XS && typ.Ref.Local == "anyType" {
			t.Skip()
		}
		c.Derive, c.Base = SExtends, typ.Ref
	}
	isAny := typ.Ref == X("anyType")
	switch pos {
	case "element":
		content()
	case "repeated":
		p.Max = "unbounded"
		content()
	case "optional":
		p.Min = "0"
		content()
	case "nillable":
		e.Nillable = "true"
		content()
	case "default":
		e.Default = "7"
		content()
	case "repeated default":
		e.Default = "7"
		p.Min, p.Max = "0", "4"
		content()
	case "attribute", "required attribute", "attribute default":
		if isAny {
			t.Skip()
		}
		if pos == "required attribute" {
			a.Use = "required"
		}
		if pos == "attribute default" {
			a.Default = "7"
		}
		c.Attrs = append(c.Attrs, a)
	case "text":
		text()
	case "text and attribute":
		text()
		c.Attrs = append(c.Attrs, Attr{Name: "unit" + name, Type: Ref(X("string"))})
	case "restricted text":
		text()
		base := &Complex{Name: "Base" + name, Derive: SExtends, Base: c.Base, Attrs: []Attr{{Name: "unit", Type: Ref(X("string"))}}}
		s.Add(complexT(base))
		c.Derive, c.Base = SRestr, N(s.NS, base.Name)
		c.Facets = []Facet{{"pattern", ".+"}}
	case "top-level":
		s.Add(Item{Elem: e})
	}
}

type builder struct {
	Name   string
	About  string
	Bounds [2]int
	Weight float64
	Build  func(*mc.T) scen
}

// builders describe the inputs that C20 and C21 share.
func builders() []builder {
	return []builder{
		{Name: "types", Bounds: [2]int{1, 1}, Weight: 3,
			About: "every built-in type × 14 ways to make a type from it (restrictions with and without facets, lists, unions, restrictions of those, in-line and documented ones) × 13 positions (element, repeated, optional, nillable, defaults, attributes, text with and without attributes, restricted text, top-level element)",
			Build: func(t *mc.T) scen {
				s := &Schema{NS: NSA}
				c := &Complex{Name: "C"}
				b := builtinNames[t.Free("builtin", len(builtinNames))]
				typ := made(t, s, b, makings[t.Free("making", len(makings))])
				place(t, s, c, typ, positions[t.Free("position", len(positions))], "x")
				s.Add(complexT(c))
				sc := scen{set: &Set{Schemas: []*Schema{s}}}
				withOptions(t, &sc)
				return sc
			}},
		{Name: "pairs", Bounds: [2]int{1, 3}, Weight: 2,
			About: "two or three uses of types made from built-in types of every class together in one or two complex types, so that generated methods and helpers meet",
			Build: func(t *mc.T) scen {
				s := &Schema{NS: NSA}
				c := &Complex{Name: "C"}
				d := &Complex{Name: "D"}
				bs := []string{"date", "hexBinary", "int", "dateTime", "string", "boolean", "base64Binary"}
				n := 2 + t.Choose("uses", 2)
				for i := 0; i < n; i++ {
					b := bs[0]
					how := makings[0]
					pos := positions[0]
					if i < 2 {
						b = bs[t.Free("builtin", len(bs))]
						how = makings[[]int{0, 1, 3, 10}[t.Choose("making", 4)]]
						pos = positions[t.Free("position", 9)]
					} else {
						b = bs[t.Choose("builtin", len(bs))]
						pos = positions[t.Choose("position", 9)]
					}
					into := c
					if t.Bool("second type") {
						into = d
					}
					place(t, s, into, made(t, s, b, how), pos, string(rune('p'+i)))
				}
				s.Add(complexT(c))
				if d.Content != nil || len(d.Attrs) > 0 {
					s.Add(complexT(d))
				}
				sc := scen{set: &Set{Schemas: []*Schema{s}}}
				withOptions(t, &sc)
				return sc
			}},
		{Name: "wide", Bounds: [2]int{1, 2}, Weight: .5,
			About: "complex types with up to 14 members of different built-in types that need helpers, in every rotation, as elements, attributes, repeated elements, elements with defaults and in turns; in one type or dealt to two; 4 option sets",
			Build: wide},
		{Name: "content", Bounds: [2]int{2, 3}, Weight: 3,
			About: "a complex type whose content model is a tree of compositors (depth 2, up to 2 children each) with 11 particle forms, 7 occurrence ranges, 12 element types in two namespaces, 6 features, and 0-2 attributes in 8 forms; 4 option sets",
			Build: func(t *mc.T) scen {
				g := NewGen(t)
				i := 0
				c := &Complex{Name: "T"}
				c.Content = g.Shape(g.A, 2, 1, func(int) *Particle {
					i++
					return g.LeafParticle(g.A, string(rune('a'+i-1)))
				})
				for i := t.Free("attributes", 3); i > 0; i-- {
					c.Attrs = append(c.Attrs, g.AttrUse(g.A, string(rune('p'+i))))
				}
				g.A.Items = append([]Item{{Complex: c}}, g.A.Items...)
				if g.Set.DupTypes() || sameAttrs(g.Set, c) {
					t.Skip()
				}
				sc := scen{set: g.Set}
				withOptions(t, &sc)
				return sc
			}},
		{Name: "derivation", Bounds: [2]int{2, 3}, Weight: 2,
			About: "chains of 2-4 complex types by extension and restriction with complex and simple content, with elements and attributes that repeat names of the base, wildcards, mixed and abstract flags, across two namespaces; and 2 types derived from one base",
			Build: derivations},
		{Name: "recursive", Bounds: [2]int{3, 4}, Weight: 1,
			About: "all graphs of 1-3 complex types whose edges are required, optional, repeated or derived; the deviations are the edges",
			Build: recursions},
		{Name: "names", Bounds: [2]int{1, 3}, Weight: 3,
			About: "types, elements and attributes with every pair of names from lists of 60 field names and 40 type names that are unusual, collide with each other after conversion, or equal identifiers that the generator uses; types of one name in several namespaces; 4 option sets",
			Build: names},
		{Name: "crowds", Bounds: [2]int{0, 1}, Weight: 2,
			About: "2 to 100 elements, attributes or types whose names are alike once they are Go names, in three ways; 2 to 130 members, types, members of a choice, and extensions of extensions; in ascending or descending order; 4 option sets",
			Build: crowds},
		{Name: "texts", Bounds: [2]int{0, 2}, Weight: 2,
			About: "documentation, default values, enumerated values, patterns and namespaces made of all sequences of 1-2 (thorough 3) of 26 snippets of quotes, back-quotes, back-slashes, line breaks, comment markers, directives, format verbs and non-ASCII characters",
			Build: texts},
		{Name: "anonymous", Bounds: [2]int{4, 6}, Weight: 2,
			About: "in-line simple and complex types nested up to 3 deep in elements and attributes that share their names with each other and with named types; with and without UseFieldNames",
			Build: anonymous},
		{Name: "soap", Bounds: [2]int{1, 2}, Weight: 1,
			About: "SOAP arrays of every built-in type and of types made from them, restricted and extended again, with 5 option sets",
			Build: soapArrays},
		{Name: "builtin documents", Bounds: [2]int{1, 1}, Weight: .5,
			About: "schemas that refer to the attributes and types of the bundled schemas (xml, xlink, soap encoding)",
			Build: bundled},
	}
}

var helped = func() []string {
	var l []string
	for _, b := range builtinNames {
		if nontrivial(b) || builtinGo[b] == "xml.Name" {
			l = append(l, b)
		}
	}
	return l
}()

// wide gives types with many members that need helper types and functions.
func wide(t *mc.T) scen {
	s := &Schema{NS: NSA}
	cs := []*Complex{{Name: "C"}, {Name: "D"}}
	n := 3 + t.Free("members", len(helped)-2)
	first := t.Free("first", len(helped))
	pos := []string{"element", "attribute", "repeated", "default", "turns"}[t.Free("position", 5)]
	deal := t.Choose("types", 3)
	how := []string{"itself", "restriction", "list", "turns"}[t.Choose("making", 4)]
	for i := 0; i < n; i++ {
		b := helped[(first+i)%len(helped)]
		p, h := pos, how
		if p == "turns" {
			p = []string{"element", "attribute", "repeated"}[i%3]
		}
		if p == "default" && builtinGo[b] != "time.Time" {
			p = "element"
		}
		if h == "turns" {
			h = []string{"itself", "restriction"}[i%2]
		}
		if h == "list" && listBuiltin(b) {
			h = "itself"
		}
		c := cs[0]
		if deal == 1 && i%2 == 1 || deal == 2 && i >= n/2 {
			c = cs[1]
		}
		place(t, s, c, made(t, s, b, h), p, fmt.Sprint("m", i))
	}
	s.Add(complexT(cs[0]))
	if deal > 0 {
		s.Add(complexT(cs[1]))
	}
	sc := scen{set: &Set{Schemas: []*Schema{s}}}
	withOptions(t, &sc)
	return sc
}

// sameAttrs tells whether two attributes of a type have the same local name.
// That is a known finding of C22, and invalid if both are local.
func sameAttrs(set *Set, c *Complex) bool {
	seen := map[string]bool{}
	for _, a := range set.Index().Attributes(NSA, c.Attrs) {
		if seen[a.Name.Local] {
			return true
		}
		seen[a.Name.Local] = true
	}
	return false
}

func derivations(t *mc.T) scen {
	g := NewGen(t)
	n := 2 + t.Free("types", 2)
	fork := t.Bool("fork")
	var all []*Complex
	for i := 0; i < n; i++ {
		c := &Complex{Name: fmt.Sprintf("T%d", i)}
		simple := false
		s := g.A
		if i == 0 {
			switch t.Free("root", 6) {
			case 1:
				c.Derive, c.Base = CExtends, X("anyType")
			case 2:
				c.Derive, c.Base = SExtends, X("int")
				simple = true
			case 3:
				c.Derive, c.Base = SExtends, g.Need(g.A, "Code")
				simple = true
			case 4:
				c.Derive, c.Base = CExtends, g.Need(g.B, "Pair")
			case 5:
				c.Derive, c.Base = SExtends, X("date")
				simple = true
			}
		} else {
			prev := all[i-1]
			if fork && i == 2 {
				prev = all[0]
			}
			simple = prev.Derive == SExtends || prev.Derive == SRestr
			c.Base = N(NSA, prev.Name)
			ext := t.Free("how", 2) == 0
			switch {
			case simple && ext:
				c.Derive = SExtends
			case simple:
				c.Derive = SRestr
				c.Facets = []Facet{{"pattern", ".*"}}
			case ext:
				c.Derive = CExtends
			default:
				c.Derive = CRestr
			}
		}
		c.Abstract = t.Bool("abstract")
		if !simple {
			c.Mixed = t.Bool("mixed")
		}
		if t.Bool("documented") {
			c.Doc = []string{"about " + c.Name}
		}
		kid := fmt.Sprintf("e%d", i)
		attr := fmt.Sprintf("p%d", i)
		same := t.Bool("same names")
		if same && i > 0 {
			kid, attr = "e0", "p0"
			if c.Derive == CExtends || c.Derive == SExtends {
				// an extension may not declare the base's attribute again
				attr = fmt.Sprintf("p%d", i)
			}
		}
		if !simple {
			switch t.Choose("content", 4) {
			case 0:
				c.Content = seq(leaf(&Elem{Name: kid, Type: Ref(X("int"))}))
			case 1:
			case 2:
				c.Content = seq(leaf(&Elem{Name: kid, Type: Ref(X("date"))}), &Particle{Kind: Any, Min: "0", Max: "unbounded"})
			case 3:
				c.Content = seq(leaf(&Elem{Name: kid, Type: Ref(g.Need(g.A, "Pair"))}), leaf(&Elem{Name: "last", Type: Ref(X("int"))}))
				c.Content.Kids[0].Max = "unbounded"
			}
		}
		switch t.Choose("attribute", 4) {
		case 0:
			c.Attrs = []Attr{{Name: attr, Type: Ref(X("string"))}}
		case 1:
		case 2:
			c.Attrs = []Attr{{Name: attr, Type: Ref(X("string")), Use: "required"}}
		case 3:
			c.Attrs = []Attr{{Name: attr, Type: Ref(X("hexBinary"))}, {Name: "href", Type: Ref(X("string"))}}
		}
		all = append(all, c)
		s.Add(complexT(c))
	}
	// elements of one name with different types are invalid in one type
	x := g.Set.Index()
	for _, c := range all {
		types := map[string]Name{}
		attrs := map[string]Attr{}
		for b, k := c, c; b != nil; b = x.Complex[b.Base] {
			if b.Content != nil {
				for _, p := range b.Content.Kids {
					if p.Elem == nil {
						continue
					}
					if prev, ok := types[p.Elem.Name]; ok && prev != p.Elem.Type.Ref {
						t.Skip()
					}
					types[p.Elem.Name] = p.Elem.Type.Ref
				}
			}
			for _, a := range b.Attrs {
				if prev, ok := attrs[a.Name]; ok && (prev.Type.Ref != a.Type.Ref || k.Derive != CRestr && k.Derive != SRestr) {
					t.Skip()
				}
				if _, ok := attrs[a.Name]; !ok {
					attrs[a.Name] = a
				}
			}
		}
	}
	if t.Bool("reverse") {
		for i, j := 0, len(g.A.Items)-1; i < j; i, j = i+1, j-1 {
			g.A.Items[i], g.A.Items[j] = g.A.Items[j], g.A.Items[i]
		}
	}
	sc := scen{set: g.Set}
	withOptions(t, &sc)
	return sc
}

func recursions(t *mc.T) scen {
	s := &Schema{NS: NSA}
	n := 1 + t.Free("types", 3)
	base := make([]int, n)
	for i := 0; i < n; i++ {
		c := &Complex{Name: fmt.Sprintf("R%d", i), Attrs: []Attr{{Name: "a", Type: Ref(X("int"))}}, Content: seq()}
		base[i] = -1
		for j := 0; j < n; j++ {
			p := leaf(&Elem{Name: fmt.Sprintf("to%d%d", i, j), Type: Ref(N(NSA, fmt.Sprintf("R%d", j)))})
			kinds := 4
			if j < i && base[i] < 0 {
				kinds = 5
			}
			switch t.Choose("edge", kinds) {
			case 0:
				continue
			case 1:
				p.Min = "0"
			case 2:
			case 3:
				p.Max = "unbounded"
			case 4:
				base[i] = j
				c.Derive, c.Base = CExtends, N(NSA, fmt.Sprintf("R%d", j))
				c.Attrs = nil
				continue
			}
			c.Content.Kids = append(c.Content.Kids, p)
		}
		if len(c.Content.Kids) == 0 {
			c.Content = nil
		}
		s.Add(complexT(c))
	}
	if t.Bool("date") {
		c := s.Items[0].Complex
		if c.Content == nil {
			c.Content = seq()
		}
		c.Content.Kids = append(c.Content.Kids, leaf(&Elem{Name: "on", Type: Ref(X("date"))}))
	}
	sc := scen{set: &Set{Schemas: []*Schema{s}}}
	withOptions(t, &sc)
	return sc
}

var fieldNames = []string{"a", "A", "a.b", "a-b", "a_b", "aB", "ab", "Ab", "_a", "_", "_1", "a1", "A1", "a0", "A0", "type", "func", "Type", "string", "int", "error", "T", "t", "T0", "d", "e", "start", "overlay", "layout", "Value", "value", "value0", "Item", "item", "Items", "items", "XMLName", "xMLName", "MarshalXML", "marshalXML", "UnmarshalXML", "UnmarshalText", "attr", "any", "chardata", "omitempty", "aAttr", "AAttr", "é", "É", "数", "ß", "ʼn", "א", "a·b", "x\u0301", "xsdDate", "bytes", "Code", "C"}

var typeNames = []string{"C", "c", "a.b", "a-b", "a_b", "ab", "aB", "_a", "_", "_1", "type", "func", "string", "int", "error", "T", "t", "T0", "C0", "Value", "Item", "Items", "xsdDate", "XsdDate", "xsdHexBinary", "_unmarshalTime", "_marshalTime", "time", "bytes", "xml", "Decoder", "D", "d", "e", "é", "É", "数", "ß", "א", "_anon1", "a·b", "Client", "Layout", "Overlay"}

func names(t *mc.T) scen {
	s := &Schema{NS: NSA}
	o := &Schema{NS: NSB}
	c := &Complex{Name: "C"}
	kinds := []string{"element", "attribute", "date", "default", "repeated"}
	put := func(name, kind string) {
		e := &Elem{Name: name, Type: Ref(X("string"))}
		p := leaf(e)
		switch kind {
		case "attribute":
			for _, a := range c.Attrs {
				if a.Name == name {
					t.Skip()
				}
			}
			c.Attrs = append(c.Attrs, Attr{Name: name, Type: Ref(X("date"))})
			return
		case "date":
			e.Type = Ref(X("date"))
		case "default":
			e.Default = "x"
		case "repeated":
			e.Type = Ref(X("date"))
			p.Max = "3"
		}
		if c.Content == nil {
			c.Content = seq()
		}
		for _, k := range c.Content.Kids {
			if k.Elem != nil && k.Elem.Name == name {
				t.Skip()
			}
		}
		c.Content.Kids = append(c.Content.Kids, p)
	}
	switch t.Free("what", 5) {
	case 0: // two fields
		put(fieldNames[t.Free("name", len(fieldNames))], t.Pick("kind", kinds...))
		put(fieldNames[t.Free("name", len(fieldNames))], t.Pick("kind", kinds...))
		if t.Bool("third") {
			put(fieldNames[t.Choose("name", len(fieldNames))], t.Pick("kind", kinds...))
		}
	case 1: // a field next to text or a wildcard
		name := fieldNames[t.Free("name", len(fieldNames))]
		kind := t.Pick("kind", kinds...)
		switch t.Free("with", 5) {
		case 0:
			put(name, kind)
			c.Content.Kids = append(c.Content.Kids, &Particle{Kind: Any, Max: t.Pick("max", "", "unbounded")})
			if kind == "attribute" {
				t.Skip()
			}
		case 1:
			if kind == "attribute" {
				t.Skip()
			}
			put(name, kind)
			c.Content.Kids = append([]*Particle{{Kind: Any, Max: t.Pick("max", "", "unbounded")}}, c.Content.Kids...)
			if t.Bool("another wildcard") {
				c.Content.Kids = append(c.Content.Kids, &Particle{Kind: Any, Min: t.Pick("min", "", "0")})
				if t.Bool("as alternatives") {
					c.Content.Kids = []*Particle{{Kind: Choice, Kids: c.Content.Kids}}
				}
			}
		case 2:
			put(name, "attribute")
			c.Derive, c.Base = SExtends, X("string")
		case 3:
			put(name, "attribute")
			c.Derive, c.Base = SExtends, X("date")
		case 4:
			put(name, "attribute")
			s.Add(Item{Simple: &Simple{Name: typeNames[t.Free("type", len(typeNames))], Kind: "restriction", Base: Ref(X("string")), Facets: []Facet{{"enumeration", "v"}}}})
			c.Derive, c.Base = SExtends, N(NSA, s.Items[0].Simple.Name)
			if c.Base.Local == c.Name {
				t.Skip()
			}
		}
	case 2: // two types
		n1 := typeNames[t.Free("type", len(typeNames))]
		n2 := typeNames[t.Free("type", len(typeNames))]
		other := t.Bool("other namespace")
		mk := func(name string, ns *Schema) {
			if name == "_self" {
				t.Skip()
			}
			for _, it := range ns.Items {
				if itName(it) == name {
					t.Skip()
				}
			}
			switch t.Choose("form", 4) {
			case 0:
				ns.Add(complexT(&Complex{Name: name, Content: seq(leaf(&Elem{Name: "on", Type: Ref(X("date"))}), leaf(&Elem{Name: "in", Type: Ref(X("string")), Default: "x"}))}))
			case 1:
				ns.Add(Item{Simple: &Simple{Name: name, Kind: "restriction", Base: Ref(X("date")), Facets: []Facet{{"pattern", ".*"}}}})
			case 2:
				ns.Add(Item{Simple: &Simple{Name: name, Kind: "list", Base: Ref(X("int"))}})
			case 3:
				ns.Add(Item{Simple: &Simple{Name: name, Kind: "restriction", Base: Ref(X("string")), Facets: []Facet{{"enumeration", "v"}}}})
			}
		}
		mk(n1, s)
		ns := s
		if other {
			ns = o
		}
		mk(n2, ns)
		// both are used by a third type
		c.Name = "User"
		c.Content = seq(leaf(&Elem{Name: "one", Type: Ref(N(NSA, n1))}))
		c.Attrs = []Attr{}
		if other {
			o.Add(complexT(&Complex{Name: "OtherUser", Content: seq(leaf(&Elem{Name: "two", Type: Ref(N(NSB, n2))}))}))
		} else {
			c.Content.Kids = append(c.Content.Kids, leaf(&Elem{Name: "two", Type: Ref(N(NSA, n2)), Default: t.Pick("default", "", "d")}))
		}
	case 3: // a field and its type
		n := typeNames[t.Free("type", len(typeNames))]
		if n == "_self" || n == c.Name {
			t.Skip()
		}
		f := fieldNames[t.Free("name", len(fieldNames))]
		form := t.Free("form", 3)
		e := &Elem{Name: f, Type: Ref(N(NSA, n))}
		switch form {
		case 0:
			s.Add(Item{Simple: &Simple{Name: n, Kind: "restriction", Base: Ref(X("string")), Facets: []Facet{{"enumeration", "v"}}}})
			e.Default = t.Pick("default", "", "v")
		case 1:
			s.Add(Item{Simple: &Simple{Name: n, Kind: "list", Base: Ref(X("int"))}})
			e.Default = t.Pick("default", "", "v")
		case 2:
			s.Add(complexT(&Complex{Name: n, Content: seq(leaf(&Elem{Name: "in", Type: Ref(X("date"))}))}))
		}
		c.Content = seq(leaf(e), leaf(&Elem{Name: "on", Type: Ref(X("date"))}))
		if f == "on" {
			t.Skip()
		}
	case 4: // a struct with methods
		c.Name = typeNames[t.Free("type", len(typeNames))]
		put(fieldNames[t.Free("name", len(fieldNames))], []string{"date", "repeated", "default", "attribute"}[t.Free("kind", 4)])
	}
	if c.Name == "_self" {
		t.Skip()
	}
	s.Add(complexT(c))
	set := &Set{Schemas: []*Schema{s}}
	if len(o.Items) > 0 {
		set.Schemas = append(set.Schemas, o)
	}
	sc := scen{set: set}
	withOptions(t, &sc)
	return sc
}

func itName(it Item) string {
	switch {
	case it.Complex != nil:
		return it.Complex.Name
	case it.Simple != nil:
		return it.Simple.Name
	}
	return ""
}

func anonymous(t *mc.T) scen {
	s := &Schema{NS: NSA}
	nm := []string{"x", "y", "X"}
	depth := 0
	var inline func() Type
	fields := func(c *Complex) {
		n := 1 + t.Choose("elements", 2)
		c.Content = seq()
		used := map[string]bool{}
		for i := 0; i < n; i++ {
			name := nm[(t.Choose("name", 3)+i)%3]
			if used[name] {
				t.Skip()
			}
			used[name] = true
			p := leaf(&Elem{Name: name, Type: inline()})
			if t.Bool("repeated") {
				p.Max = "unbounded"
			}
			c.Content.Kids = append(c.Content.Kids, p)
		}
		if t.Bool("attribute") {
			c.Attrs = []Attr{{Name: t.Pick("name", nm...), Type: SType(InlineSimple())}}
		}
	}
	inline = func() Type {
		switch t.Choose("type", 5) {
		case 1:
			return SType(InlineSimple())
		case 2:
			return Ref(X("string"))
		case 3:
			return SType(&Simple{Kind: "list", Base: SType(InlineSimple())})
		case 4:
			return Ref(N(NSA, "C"))
		}
		c := &Complex{}
		depth++
		if depth < 3 && t.Bool("nest") {
			fields(c)
		} else {
			c.Content = seq(leaf(&Elem{Name: fmt.Sprintf("v%d", depth), Type: Ref(X("int"))}))
			depth++
		}
		return CType(c)
	}
	c := &Complex{Name: "C"}
	fields(c)
	d := &Complex{Name: t.Pick("second type", "D", "x", "X", "y", "Y")}
	fields(d)
	s.Add(complexT(c), complexT(d))
	if t.Bool("named simple") {
		s.Add(Item{Simple: &Simple{Name: t.Pick("name", "Z", "x", "y", "X"), Kind: "restriction", Base: Ref(X("string")), Facets: []Facet{{"enumeration", "v"}}}})
		if s.Items[2].Simple.Name == d.Name {
			t.Skip()
		}
	}
	sc := scen{set: &Set{Schemas: []*Schema{s}}}
	withOptions(t, &sc)
	return sc
}

var snippets = []string{"a", `"`, "`", `\`, "\n", "*/", "//", "'", "é", "\u2028", "\ufeff", "%d", "{{", ",", " ", "\t", "<", "&", "\r", "]]>", "$", "\U0001F600", "\u0085", "go:build x", "+build x", "line x:1"}

// texts puts unusual text wherever a schema has text that ends up in the
// generated source.
func texts(t *mc.T) scen {
	most := 2
	if t.Thorough {
		most = 3
	}
	text := func(without string) string {
		s := ""
		for n := 1 + t.Free("length", most); n > 0; n-- {
			p := snippets[t.Free("snippet", len(snippets))]
			for _, r := range p {
				if strings.ContainsRune(without, r) {
					t.Skip()
				}
			}
			s += p
		}
		return s
	}
	s := &Schema{NS: NSA}
	c := &Complex{Name: "C", Content: seq()}
	st := &Simple{Name: "S", Kind: "restriction", Base: Ref(X("string"))}
	var attr []Attr
	e := &Elem{Name: "e", Type: Ref(N(NSA, "S"))}
	c.Content.Kids = append(c.Content.Kids, leaf(e))
	if t.Bool("methods") {
		c.Content.Kids = append(c.Content.Kids, leaf(&Elem{Name: "on", Type: Ref(X("date"))}))
	}
	pres := &Pres{XS: "xs", NS: map[string]string{}}
	switch t.Free("place", 9) {
	case 0:
		c.Doc = []string{text("")}
	case 1:
		st.Doc = []string{text("")}
	case 2:
		e.Doc = []string{text("")}
	case 3:
		attr = []Attr{{Name: "p", Type: Ref(X("string")), Doc: []string{text("")}}}
	case 4:
		e.Default = text("")
		e.Type = Ref(X(t.Pick("type", "string", "token", "anyURI", "QName")))
	case 5:
		attr = []Attr{{Name: "p", Type: Ref(X("string")), Default: text("")}}
	case 6:
		st.Facets = []Facet{{"enumeration", text("")}, {"enumeration", "second"}}
	case 7:
		st.Facets = []Facet{{"pattern", text("")}}
	case 8:
		s.NS = "urn:" + text(", \n\r\t\u2028\u0085") // not part of a URI, or of a struct tag
		pres.NS[s.NS] = "a"
		e.Type.Ref.Space = s.NS
	}
	c.Attrs = attr
	s.Add(complexT(c), Item{Simple: st})
	sc := scen{set: &Set{Schemas: []*Schema{s}}, pres: pres}
	withOptions(t, &sc)
	return sc
}

// crowds has many of everything.
func crowds(t *mc.T) scen {
	s := &Schema{NS: NSA}
	c := &Complex{Name: "C"}
	alike := t.FreeBool("alike")
	n := []int{2, 3, 9, 10, 11, 12, 17, 33, 65, 100, 130}[t.Free("size", 11)]
	way := 0
	if alike {
		way = t.Free("way", 3)
	}
	backwards := t.FreeBool("backwards")
	name := func(i int) string {
		if backwards {
			i = n - 1 - i
		}
		switch {
		case !alike:
			return fmt.Sprintf("n%d", i)
		case way == 0: // x x. x.. x...
			return "x" + strings.Repeat(".", i)
		case way == 1: // x X x- X- x--
			return []string{"x", "X"}[i%2] + strings.Repeat("-", i/2)
		default: // names that were made unique already: x x- x0 x-0 x1 x-1
			if i < 2 {
				return []string{"x", "x-"}[i]
			}
			return []string{"x", "x-"}[i%2] + fmt.Sprint(i/2-1)
		}
	}
	kinds := []Elem{{Type: Ref(X("string"))}, {Type: Ref(X("date"))}, {Type: Ref(X("int")), Default: "7"}}
	what := t.Free("what", 6)
	k := kinds[t.Free("kind", 3)]
	c.Content = seq()
	switch what {
	case 0, 1, 2, 3:
		for i := 0; i < n; i++ {
			if what == 1 || what == 2 && i%2 == 1 {
				c.Attrs = append(c.Attrs, Attr{Name: name(i), Type: k.Type, Default: k.Default})
				continue
			}
			e := k
			e.Name = name(i)
			p := leaf(&e)
			if what == 3 && i%3 == 0 {
				p.Max = "unbounded"
			}
			c.Content.Kids = append(c.Content.Kids, p)
		}
		if what == 3 {
			c.Content = seq(&Particle{Kind: Choice, Kids: c.Content.Kids})
		}
	case 4: // types
		for i := 0; i < n; i++ {
			e := k
			e.Name = "e"
			s.Add(complexT(&Complex{Name: name(i), Content: seq(leaf(&e))}))
			c.Content.Kids = append(c.Content.Kids, leaf(&Elem{Name: fmt.Sprintf("m%d", i), Type: Ref(N(NSA, name(i)))}))
		}
	case 5: // extensions of extensions
		for i := 0; i < n; i++ {
			e := k
			e.Name = fmt.Sprintf("e%d", i)
			d := &Complex{Name: name(i), Content: seq(leaf(&e))}
			if i > 0 {
				d.Derive, d.Base = CExtends, N(NSA, name(i-1))
			}
			s.Add(complexT(d))
		}
		c.Content.Kids = append(c.Content.Kids, leaf(&Elem{Name: "m", Type: Ref(N(NSA, name(n-1)))}))
	}
	s.Items = append([]Item{complexT(c)}, s.Items...)
	sc := scen{set: &Set{Schemas: []*Schema{s}}}
	withOptions(t, &sc)
	return sc
}
