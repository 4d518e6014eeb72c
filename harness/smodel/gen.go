package smodel

import (
	"fmt"

	"aqwari.net/xml/verif/mc"
)

// Gen builds schema sets from the explorer's choices. Components that a
// choice refers to are added as they are needed.
type Gen struct {
	T    *mc.T
	Set  *Set
	A, B *Schema // two namespaces; B is used only when something needs it
	have map[string]bool
	next int
	// what may be generated
	Cross     bool // references into another namespace
	NoInline  bool
	Occurs    [][2]string
	LeafTypes []string
}

const (
	NSA = "urn:a"
	NSB = "urn:b"
)

func NewGen(t *mc.T) *Gen {
	g := &Gen{T: t, Set: &Set{}, A: &Schema{NS: NSA}, B: &Schema{NS: NSB}, have: map[string]bool{}, Cross: true}
	g.Set.Schemas = []*Schema{g.A}
	g.Occurs = [][2]string{{"", ""}, {"0", ""}, {"0", "unbounded"}, {"1", "unbounded"}, {"0", "3"}, {"2", "2"}, {"1", "1"}}
	g.LeafTypes = []string{"int", "string", "simple", "complex", "inline simple", "inline complex", "none", "other simple", "other complex", "list", "self", "dateTime"}
	return g
}

// B returns the second schema, adding it to the set.
func (g *Gen) Other() *Schema {
	if len(g.Set.Schemas) == 1 {
		g.Set.Schemas = append(g.Set.Schemas, g.B)
	}
	return g.B
}

func (g *Gen) add(s *Schema, key string, f func() Item) {
	key = s.NS + " " + key
	if !g.have[key] {
		g.have[key] = true
		it := f()
		s.Items = append(s.Items, it)
	}
}

// Need adds a named component of the library to a schema.
func (g *Gen) Need(s *Schema, name string) Name {
	if s == g.B {
		g.Other()
	}
	g.add(s, name, func() Item {
		switch name {
		case "Code":
			return Item{Simple: &Simple{Name: name, Kind: "restriction", Base: Ref(X("string")), Facets: []Facet{{"enumeration", "x"}, {"enumeration", "y"}}}}
		case "Num":
			return Item{Simple: &Simple{Name: name, Kind: "restriction", Base: Ref(X("int")), Facets: []Facet{{"minInclusive", "1"}}}}
		case "Nums":
			return Item{Simple: &Simple{Name: name, Kind: "list", Base: Ref(X("int"))}}
		case "FewNums": // derived from a list
			g.Need(s, "Nums")
			return Item{Simple: &Simple{Name: name, Kind: "restriction", Base: Ref(N(s.NS, "Nums")), Facets: []Facet{{"maxLength", "3"}}}}
		case "Either":
			return Item{Simple: &Simple{Name: name, Kind: "union", Members: []Type{Ref(X("int")), Ref(X("string"))}}}
		case "Pair":
			return Item{Complex: &Complex{Name: name, Content: &Particle{Kind: Seq, Kids: []*Particle{
				{Kind: Leaf, Elem: &Elem{Name: "l", Type: Ref(X("int"))}},
				{Kind: Leaf, Elem: &Elem{Name: "r", Type: Ref(X("string"))}, Min: "0"}}}}}
		case "gInt":
			return Item{Elem: &Elem{Name: name, Type: Ref(X("int"))}}
		case "gPair":
			g.Need(s, "Pair")
			return Item{Elem: &Elem{Name: name, Type: Ref(N(s.NS, "Pair")), Nillable: "true", Doc: []string{"global"}}}
		case "gInline":
			return Item{Elem: &Elem{Name: name, Type: CType(&Complex{Content: &Particle{Kind: Seq, Kids: []*Particle{
				{Kind: Leaf, Elem: &Elem{Name: "in", Type: Ref(X("string"))}}}}})}}
		case "gDef":
			return Item{Elem: &Elem{Name: name, Type: Ref(X("string")), Default: "dv"}}
		case "ga":
			return Item{Attr: &Attr{Name: name, Type: Ref(X("token"))}}
		case "gaDef":
			g.Need(s, "Code")
			return Item{Attr: &Attr{Name: name, Type: Ref(N(s.NS, "Code")), Default: "y", Doc: []string{"attr doc"}}}
		case "AG":
			return Item{AttrGroup: &AttrGroup{Name: name, Attrs: []Attr{{Name: "ag1", Type: Ref(X("int"))}, {Name: "ag2", Type: Ref(X("string")), Use: "required"}}}}
		case "AGN": // nested, with a reference
			g.Need(s, "AG")
			g.Need(s, "ga")
			return Item{AttrGroup: &AttrGroup{Name: name, Attrs: []Attr{{Ref: N(s.NS, "ga")}, {Group: N(s.NS, "AG")}, {Name: "ag3", Type: Ref(X("boolean"))}}}}
		case "G":
			return Item{Group: &Group{Name: name, Content: &Particle{Kind: Seq, Kids: []*Particle{
				{Kind: Leaf, Elem: &Elem{Name: "g1", Type: Ref(X("int"))}},
				{Kind: Leaf, Elem: &Elem{Name: "g2", Type: Ref(X("string"))}, Min: "0"}}}}}
		case "GC":
			return Item{Group: &Group{Name: name, Content: &Particle{Kind: Choice, Kids: []*Particle{
				{Kind: Leaf, Elem: &Elem{Name: "c1", Type: Ref(X("int"))}},
				{Kind: Leaf, Elem: &Elem{Name: "c2", Type: Ref(X("string"))}}}}}}
		case "GN": // nested, with references
			g.Need(s, "G")
			g.Need(s, "gPair")
			return Item{Group: &Group{Name: name, Content: &Particle{Kind: Seq, Kids: []*Particle{
				{Kind: Leaf, Elem: &Elem{Ref: N(s.NS, "gPair")}, Max: "unbounded"},
				{Kind: GRef, Ref: N(s.NS, "G"), Min: "0"},
				{Kind: Leaf, Elem: &Elem{Name: "gn", Type: Ref(X("boolean"))}}}}}}
		case "GI": // an in-line type in a group
			return Item{Group: &Group{Name: name, Content: &Particle{Kind: Seq, Kids: []*Particle{
				{Kind: Leaf, Elem: &Elem{Name: "gi", Type: CType(&Complex{Attrs: []Attr{{Name: "q", Type: Ref(X("int"))}}})}}}}}}
		}
		panic("no component " + name)
	})
	return N(s.NS, name)
}

// InlineSimple and InlineComplex make fresh in-line definitions.
func InlineSimple() *Simple {
	return &Simple{Kind: "restriction", Base: Ref(X("string")), Facets: []Facet{{"enumeration", "on"}, {"enumeration", "off"}}}
}

func (g *Gen) InlineComplex() *Complex {
	g.next++
	return &Complex{Content: &Particle{Kind: Seq, Kids: []*Particle{
		{Kind: Leaf, Elem: &Elem{Name: fmt.Sprintf("in%d", g.next), Type: Ref(X("int"))}}}}}
}

// TypeOf makes the type a word stands for, seen from schema s.
func (g *Gen) TypeOf(s *Schema, word string) Type {
	o := g.B
	if s == g.B {
		o = g.A
	}
	switch word {
	case "none":
		return Type{}
	case "simple":
		return Ref(g.Need(s, "Code"))
	case "complex":
		return Ref(g.Need(s, "Pair"))
	case "few nums":
		return Ref(g.Need(s, "FewNums"))
	case "list":
		return Ref(g.Need(s, "Nums"))
	case "union":
		return Ref(g.Need(s, "Either"))
	case "other simple":
		return Ref(g.Need(o, "Num"))
	case "other complex":
		return Ref(g.Need(o, "Pair"))
	case "inline simple":
		return SType(InlineSimple())
	case "inline complex":
		return CType(g.InlineComplex())
	case "inline list":
		return SType(&Simple{Kind: "list", Base: SType(InlineSimple())})
	case "self":
		return Ref(N(NSA, "T"))
	case "inline nested":
		c := g.InlineComplex()
		c.Content.Kids = append(c.Content.Kids, &Particle{Kind: Leaf, Elem: &Elem{Name: "deep", Type: CType(g.InlineComplex())}},
			&Particle{Kind: Leaf, Elem: &Elem{Name: "flat", Type: SType(InlineSimple())}})
		return CType(c)
	}
	return Ref(X(word))
}

// Shape draws a content model: a tree of compositors with leaves.
func (g *Gen) Shape(s *Schema, maxKids, depth int, leaf func(i int) *Particle) *Particle {
	n := 0
	var node func(depth int, top bool) *Particle
	node = func(depth int, top bool) *Particle {
		kind := Seq
		if top {
			kind = []string{Seq, Choice, All}[g.T.Choose("compositor", 3)]
		} else {
			kind = []string{Seq, Choice}[g.T.Choose("compositor", 2)]
		}
		p := &Particle{Kind: kind}
		occ := g.Occurs
		if kind == All {
			occ = [][2]string{{"", ""}, {"0", ""}}
		}
		o := occ[g.T.Choose("compositor occurs", len(occ))]
		p.Min, p.Max = o[0], o[1]
		kids := 1 + g.T.Free("kids", maxKids)
		for i := 0; i < kids; i++ {
			if depth > 0 && kind != All && g.T.Bool("nest") {
				p.Kids = append(p.Kids, node(depth-1, false))
				continue
			}
			n++
			k := leaf(n)
			if kind == All {
				if k.Kind != Leaf {
					g.T.Skip()
				}
				if k.Max != "" && k.Max != "1" {
					g.T.Skip()
				}
			}
			p.Kids = append(p.Kids, k)
		}
		return p
	}
	return node(depth, true)
}

// LeafParticle draws a particle that is not a compositor.
func (g *Gen) LeafParticle(s *Schema, name string) *Particle {
	t := g.T
	p := &Particle{Kind: Leaf}
	o := g.Occurs[t.Choose("occurs", len(g.Occurs))]
	p.Min, p.Max = o[0], o[1]
	o2 := g.B
	if s == g.B {
		o2 = g.A
	}
	switch t.Choose("particle", 11) {
	case 0:
	case 1:
		p.Elem = &Elem{Ref: g.Need(s, "gInt")}
		return p
	case 2:
		p.Elem = &Elem{Ref: g.Need(s, "gPair")}
		return p
	case 3:
		p.Elem = &Elem{Ref: g.Need(s, "gInline")}
		return p
	case 4:
		p.Elem = &Elem{Ref: g.Need(o2, "gPair")}
		return p
	case 5:
		p.Elem = &Elem{Ref: g.Need(o2, "gInt")}
		return p
	case 6:
		p.Kind, p.Ref = GRef, g.Need(s, "G")
		return p
	case 7:
		p.Kind, p.Ref = GRef, g.Need(s, "GN")
		return p
	case 8:
		p.Kind, p.Ref = GRef, g.Need(o2, "GN")
		return p
	case 9:
		p.Kind, p.Ref = GRef, g.Need(s, "GC")
		return p
	case 10:
		p.Kind = Any
		return p
	}
	e := &Elem{Name: name}
	e.Type = g.TypeOf(s, g.LeafTypes[t.Choose("type", len(g.LeafTypes))])
	switch t.Choose("feature", 7) {
	case 1:
		e.Nillable = "true"
	case 2:
		if e.Type.Ref.Space == XS {
			e.Default = "5"
		} else {
			t.Skip()
		}
	case 3:
		e.Doc = []string{"the " + name}
	case 4:
		e.Doc = []string{"one <b> & two", "  second\n"}
	case 5:
		e.Nillable = "false"
	case 6:
		e.Name = "a" // may repeat an earlier name
	}
	p.Elem = e
	return p
}

// AttrUse draws an attribute use.
func (g *Gen) AttrUse(s *Schema, name string) Attr {
	t := g.T
	o := g.B
	if s == g.B {
		o = g.A
	}
	switch t.Choose("attribute", 8) {
	case 1:
		return Attr{Ref: g.Need(s, "ga"), Use: t.Pick("use", "", "required")}
	case 2:
		return Attr{Ref: g.Need(o, "ga")}
	case 3:
		return Attr{Ref: g.Need(s, "gaDef")}
	case 4:
		return Attr{Group: g.Need(s, "AG")}
	case 5:
		return Attr{Group: g.Need(s, "AGN")}
	case 6:
		return Attr{Group: g.Need(o, "AGN")}
	case 7:
		return Attr{Ref: g.Need(s, "gaDef"), Default: "x"}
	}
	a := Attr{Name: name}
	a.Type = g.TypeOf(s, t.Pick("attribute type", "string", "int", "simple", "list", "union", "inline simple", "inline list", "other simple", "none", "date", "NMTOKENS", "few nums"))
	switch t.Choose("attribute feature", 8) {
	case 1:
		a.Use = "required"
	case 2:
		a.Use = "optional"
	case 3:
		a.Doc = []string{"attribute " + name}
	case 5:
		a.Form = "qualified"
	case 6:
		g.Set.QualAttrs = map[string]bool{s.NS: true}
	case 7:
		g.Set.QualAttrs = map[string]bool{s.NS: true}
		a.Form = "unqualified"
	case 4:
		if a.Type.Ref == X("string") {
			a.Default = "d & e"
		} else if a.Type.Ref == X("int") {
			a.Default = "7"
		} else {
			t.Skip()
		}
	}
	return a
}

// DupTypes reports whether one type uses a name twice with different types,
// which the schema language forbids.
func (set *Set) DupTypes() bool {
	x := set.Index()
	var bad bool
	var visit func(ns string, c *Complex)
	seenC := map[*Complex]bool{}
	visit = func(ns string, c *Complex) {
		if seenC[c] {
			return
		}
		seenC[c] = true
		var occs []occurrence
		if c.Content != nil {
			x.elements(ns, c.Content, false, false, false, nil, &occs)
		}
		seen := map[Name]Type{}
		wild := 0
		for _, o := range occs {
			if o.Wildcard {
				if wild++; wild > 1 {
					bad = true
				}
				continue
			}
			if prev, ok := seen[o.Name]; ok {
				if prev != o.Type || o.Type.Inline() {
					bad = true
				}
			}
			seen[o.Name] = o.Type
			if o.Type.C != nil {
				visit(o.TypeNS, o.Type.C)
			}
		}
		an := map[Name]bool{}
		for _, a := range x.Attributes(ns, c.Attrs) {
			if an[a.Name] {
				bad = true
			}
			an[a.Name] = true
		}
	}
	for _, s := range set.Schemas {
		for _, it := range s.Items {
			if it.Complex != nil {
				visit(s.NS, it.Complex)
			}
			if it.Elem != nil && it.Elem.Type.C != nil {
				visit(s.NS, it.Elem.Type.C)
			}
		}
	}
	return bad
}

// PresGen draws a presentation. Every choice away from the plain one is a
// deviation.
func PresGen(t *mc.T, set *Set) *Pres {
	p := &Pres{XS: "xs", NS: map[string]string{}}
	bare := false // names without a namespace must stay writable
	set.Refs(func(n Name) { bare = bare || n.Space == "" })
	switch t.Choose("prefixes", 6) {
	case 0:
		p.NS[NSA], p.NS[NSB] = "a", "b"
	case 1: // default namespace for the schema language
		if bare {
			t.Skip()
		}
		p.XS = ""
		p.NS[NSA], p.NS[NSB] = "a", "b"
	case 2: // default namespace for the target
		if bare {
			t.Skip()
		}
		p.NS[NSA], p.NS[NSB] = "", "b"
	case 3:
		if bare {
			t.Skip()
		}
		p.NS[NSA], p.NS[NSB] = "a", ""
	case 4:
		p.XS = "xsd"
		p.NS[NSA], p.NS[NSB] = "xs", "a"
	case 5:
		p.XS = "_x.1-y"
		p.NS[NSA], p.NS[NSB] = "tns", "ns0"
	}
	switch t.Choose("layout", 14) {
	case 1:
		p.Indent = true
	case 2:
		p.Comments = true
	case 3:
		p.Single = true
	case 4:
		p.Pad = true
	case 5:
		p.Digits = true
	case 6:
		p.Defaults = true
	case 7:
		p.Explicit = true
	case 8:
		p.Foreign = true
	case 9:
		p.Wrap = true
	case 10:
		p.Encoding = "ISO-8859-1"
	case 11:
		p.Imports = true
	case 12:
		p.Defaults, p.Digits = true, true
	case 13:
		p.Together = true
	}
	switch t.Choose("declarations", 4) {
	case 1:
		if p.Wrap {
			t.Skip()
		}
		p.Local = true
	case 2:
		p.Inner = true
	case 3:
		p.Shift = true
	}
	n := len(set.Schemas[0].Items)
	if n > 1 && t.Bool("reorder") {
		p.Order = t.Perm("order", n)
	}
	if k := t.Choose("split", n); k > 0 {
		p.Split, p.SplitNS = k, set.Schemas[0].NS
	}
	docs := len(set.Schemas)
	if p.Split > 0 {
		docs++
	}
	if docs > 1 {
		p.DocOrder = t.Perm("documents", docs)
	}
	return p
}

// Refs calls f for every name that the set refers to.
func (set *Set) Refs(f func(Name)) {
	var typ func(Type)
	var attrs func([]Attr)
	var particle func(*Particle)
	var complex func(*Complex)
	var simple func(*Simple)
	ref := func(n Name) {
		if (n != Name{}) {
			f(n)
		}
	}
	typ = func(t Type) {
		ref(t.Ref)
		if t.C != nil {
			complex(t.C)
		}
		if t.S != nil {
			simple(t.S)
		}
	}
	attrs = func(l []Attr) {
		for _, a := range l {
			ref(a.Ref)
			ref(a.Group)
			typ(a.Type)
		}
	}
	particle = func(p *Particle) {
		if p == nil {
			return
		}
		ref(p.Ref)
		if p.Elem != nil {
			ref(p.Elem.Ref)
			typ(p.Elem.Type)
		}
		for _, k := range p.Kids {
			particle(k)
		}
	}
	complex = func(c *Complex) {
		ref(c.Base)
		particle(c.Content)
		attrs(c.Attrs)
	}
	simple = func(s *Simple) {
		typ(s.Base)
		for _, m := range s.Members {
			typ(m)
		}
	}
	for _, s := range set.Schemas {
		for _, it := range s.Items {
			switch {
			case it.Complex != nil:
				complex(it.Complex)
			case it.Simple != nil:
				simple(it.Simple)
			case it.Elem != nil:
				typ(it.Elem.Type)
			case it.Attr != nil:
				typ(it.Attr.Type)
			case it.Group != nil:
				particle(it.Group.Content)
			case it.AttrGroup != nil:
				attrs(it.AttrGroup.Attrs)
			}
		}
	}
}
