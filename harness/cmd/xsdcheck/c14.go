package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"aqwari.net/xml/verif/mapsched"
	"aqwari.net/xml/verif/mc"
	. "aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsd"
)

// library makes the n'th schema set of a fixed collection.
func library(t *mc.T, n int) *Set {
	g := NewGen(t)
	seq := func(kids ...*Particle) *Particle { return &Particle{Kind: Seq, Kids: kids} }
	switch n {
	case 0: // references and groups, within and across namespaces
		g.A.Add(Item{Complex: &Complex{Name: "T", Content: seq(
			leafOf(&Elem{Ref: g.Need(g.A, "gPair")}), leafOf(&Elem{Ref: g.Need(g.B, "gInt")}), &Particle{Kind: GRef, Ref: g.Need(g.A, "GN"), Min: "0"}),
			Attrs: []Attr{{Group: g.Need(g.A, "AGN")}, {Ref: g.Need(g.A, "gaDef")}}}})
	case 1: // in-line types everywhere
		g.A.Add(Item{Elem: &Elem{Name: "e1", Type: g.TypeOf(g.A, "inline nested"), Doc: []string{"a < b", "c"}}},
			Item{Elem: &Elem{Name: "e2", Type: g.TypeOf(g.A, "inline list")}},
			Item{Simple: &Simple{Name: "U", Kind: "union", Members: []Type{Ref(X("int")), SType(InlineSimple()), Ref(g.Need(g.A, "Code")), SType(InlineSimple())}}},
			Item{Complex: &Complex{Name: "T", Abstract: true, Mixed: true, Content: &Particle{Kind: Choice, Max: "unbounded", Kids: []*Particle{
				leafOf(&Elem{Name: "x", Type: SType(InlineSimple()), Nillable: "true"}), leafOf(&Elem{Name: "y"})}},
				Attrs: []Attr{{Name: "p", Type: SType(InlineSimple()), Use: "required"}, {Name: "q"}}}})
	case 2: // derivation across namespaces, recursion
		g.Other()
		g.A.Add(Item{Complex: &Complex{Name: "T", Derive: CExtends, Base: g.Need(g.B, "Pair"), Content: seq(leafOf(&Elem{Name: "x", Type: Ref(N(NSA, "T"))})), Attrs: []Attr{{Name: "p", Type: Ref(g.Need(g.B, "Num"))}}}},
			Item{Complex: &Complex{Name: "V", Derive: SExtends, Base: g.Need(g.B, "Num"), Attrs: []Attr{{Name: "p", Type: Ref(X("date")), Default: "2001-01-01"}}}},
			Item{Complex: &Complex{Name: "W", Derive: SRestr, Base: N(NSA, "V"), Facets: []Facet{{"maxInclusive", "5"}}}},
			Item{Complex: &Complex{Name: "R", Derive: CRestr, Base: N(NSA, "T"), Content: seq(leafOf(&Elem{Name: "x", Type: Ref(N(NSA, "R"))}))}})
		g.B.Add(Item{Complex: &Complex{Name: "Back", Content: seq(leafOf(&Elem{Ref: g.Need(g.A, "gPair")}))}})
	case 3: // simple types
		g.A.Add(Item{Simple: &Simple{Name: "S", Kind: "restriction", Base: Ref(g.Need(g.B, "Num")), Facets: []Facet{{"maxInclusive", "7"}, {"pattern", "[0-9]"}}, Doc: []string{"digits é"}}},
			Item{Simple: &Simple{Name: "L", Kind: "list", Base: Ref(N(NSA, "S"))}},
			Item{Simple: &Simple{Name: "R", Kind: "restriction", Base: Ref(N(NSA, "L")), Facets: []Facet{{"maxLength", "2"}}}},
			Item{Simple: &Simple{Name: "U", Kind: "union", Members: []Type{Ref(N(NSA, "L")), Ref(X("token")), Ref(g.Need(g.B, "Code"))}}},
			Item{Elem: &Elem{Name: "s", Type: Ref(N(NSA, "U")), Default: "5"}})
	case 4: // no namespace
		g.A.NS = ""
		g.A.Add(Item{Complex: &Complex{Name: "T", Content: seq(leafOf(&Elem{Name: "x", Type: Ref(N("", "S"))}), leafOf(&Elem{Name: "y", Type: CType(g.InlineComplex())}), leafOf(&Elem{Ref: N("", "e")}))}},
			Item{Simple: &Simple{Name: "S", Kind: "restriction", Base: Ref(X("string")), Facets: []Facet{{"length", "2"}}}},
			Item{Elem: &Elem{Name: "e", Type: Ref(X("int"))}})
	case 5: // no namespace, nothing but in-line types
		g.A.NS = ""
		g.A.Add(Item{Elem: &Elem{Name: "e", Type: g.TypeOf(g.A, "inline nested")}},
			Item{Elem: &Elem{Name: "f", Type: SType(&Simple{Kind: "union", Members: []Type{Ref(X("int")), SType(InlineSimple()), SType(InlineSimple())}})}},
			Item{Simple: &Simple{Name: "L", Kind: "list", Base: SType(InlineSimple())}})
	case 6: // names that occur in several kinds and places
		g.A.Add(Item{Complex: &Complex{Name: "x", Content: seq(leafOf(&Elem{Name: "x", Type: Ref(X("int"))}), leafOf(&Elem{Name: "y", Type: CType(g.InlineComplex())}))}},
			Item{Elem: &Elem{Name: "x", Type: Ref(N(NSA, "y"))}},
			Item{Elem: &Elem{Name: "y", Type: SType(InlineSimple())}},
			Item{Simple: &Simple{Name: "y", Kind: "restriction", Base: Ref(X("string"))}},
			Item{Attr: &Attr{Name: "x", Type: Ref(X("boolean"))}},
			Item{Complex: &Complex{Name: "z", Content: seq(leafOf(&Elem{Ref: N(NSA, "x")}), &Particle{Kind: GRef, Ref: N(NSA, "x")}), Attrs: []Attr{{Ref: N(NSA, "x")}}}},
			Item{Group: &Group{Name: "x", Content: seq(leafOf(&Elem{Name: "gx", Type: Ref(X("string"))}))}})
	case 7: // types without a name in two namespaces, which refer to each other
		in := func(base, facet, v string) Type {
			return SType(&Simple{Kind: "restriction", Base: Ref(X(base)), Facets: []Facet{{facet, v}}})
		}
		g.A.Add(Item{Simple: &Simple{Name: "L", Kind: "list", Base: in("int", "maxInclusive", "1")}},
			Item{Simple: &Simple{Name: "M", Kind: "list", Base: in("date", "minInclusive", "2001-01-01")}},
			Item{Complex: &Complex{Name: "T", Content: seq(leafOf(&Elem{Name: "L", Type: in("string", "length", "3")}))}},
			Item{Simple: &Simple{Name: "U", Kind: "union", Members: []Type{in("token", "maxLength", "4"), Ref(g.Need(g.B, "Code")), Ref(N(NSB, "L"))}}})
		g.B.Add(Item{Simple: &Simple{Name: "L", Kind: "list", Base: in("decimal", "totalDigits", "5")}},
			Item{Simple: &Simple{Name: "M", Kind: "union", Members: []Type{Ref(N(NSA, "M")), in("string", "pattern", "[a-f]")}}})
	}
	return g.Set
}

const librarySize = 8

// Dump describes everything recorded, for comparing two parses.
func dump(schemas []xsd.Schema, declared func(Name) bool, ns ...string) string {
	got, problems := Observed(schemas, declared, ns...)
	var l []string
	for k, v := range got {
		l = append(l, k+" = "+v)
	}
	sort.Strings(l)
	return strings.Join(append(l, problems...), "\n")
}

// inlined replaces references to groups and attribute groups by what they
// stand for.
func inlined(set *Set) *Set {
	x := set.Index()
	var particle func(*Particle) *Particle
	var complex func(*Complex) *Complex
	particle = func(p *Particle) *Particle {
		if p == nil {
			return nil
		}
		q := *p
		q.Kids = nil
		if p.Kind == GRef {
			g := particle(x.Group[p.Ref].Content)
			return &Particle{Kind: Seq, Min: p.Min, Max: p.Max, Kids: []*Particle{g}}
		}
		if p.Elem != nil && p.Elem.Type.C != nil {
			e := *p.Elem
			e.Type.C = complex(e.Type.C)
			q.Elem = &e
		}
		for _, k := range p.Kids {
			q.Kids = append(q.Kids, particle(k))
		}
		return &q
	}
	var attrs func(l []Attr) []Attr
	attrs = func(l []Attr) (out []Attr) {
		for _, a := range l {
			if (a.Group != Name{}) {
				out = append(out, attrs(x.AttrGroup[a.Group].Attrs)...)
			} else {
				out = append(out, a)
			}
		}
		return out
	}
	complex = func(c *Complex) *Complex {
		d := *c
		d.Content = particle(c.Content)
		d.Attrs = attrs(c.Attrs)
		return &d
	}
	out := &Set{}
	for _, s := range set.Schemas {
		n := &Schema{NS: s.NS}
		for _, it := range s.Items {
			switch {
			case it.Complex != nil:
				it.Complex = complex(it.Complex)
			case it.Elem != nil && it.Elem.Type.C != nil:
				e := *it.Elem
				e.Type.C = complex(e.Type.C)
				it.Elem = &e
			case it.Group != nil || it.AttrGroup != nil:
				continue
			}
			n.Items = append(n.Items, it)
		}
		out.Schemas = append(out.Schemas, n)
	}
	return out
}

func c14() mc.Property {
	generated := func(t *mc.T, cross bool) *Set {
		g := NewGen(t)
		c := &Complex{Name: "T", Content: &Particle{Kind: []string{Seq, Choice}[t.Choose("compositor", 2)]}}
		for i := 0; i < 2; i++ {
			c.Content.Kids = append(c.Content.Kids, g.LeafParticle(g.A, string(rune('a'+i))))
		}
		c.Attrs = []Attr{g.AttrUse(g.A, "p")}
		g.A.Items = append([]Item{{Complex: c}, {Elem: &Elem{Name: "root", Type: Ref(N(NSA, "T"))}}}, g.A.Items...)
		if g.Set.DupTypes() {
			t.Skip()
		}
		return g.Set
	}
	return mc.Property{
		ID: "C14", Quick: 40, Thorough: 880,
		Assumptions: []string{"presentations are the ones listed; where declarations of a name are only legal in one document they stay there"},
		Harnesses: []mc.Harness{
			{Name: "findings", Bounds: [2]int{0, 0}, Weight: 0.1,
				About: "what is known to be wrong: attributes of another namespace that have the name of one that the declaration does not have, or that comes later",
				Run: func(t *mc.T) {
					const foreign = ` xmlns:f="urn:f"`
					k := [][2]string{
						{"name before name", `<xs:complexType f:name="x" name="T"><xs:sequence/></xs:complexType>`},
						{"type before type", `<xs:complexType name="T"><xs:sequence><xs:element name="e" f:type="x" type="xs:int"/></xs:sequence></xs:complexType>`},
						{"base before base", `<xs:simpleType name="T"><xs:restriction f:base="x" base="xs:int"/></xs:simpleType>`},
						{"value before value", `<xs:simpleType name="T"><xs:restriction base="xs:string"><xs:enumeration f:value="x" value="y"/></xs:restriction></xs:simpleType>`},
						{"ref", `<xs:complexType name="T"><xs:sequence><xs:element name="e" type="xs:int" f:ref="x"/></xs:sequence></xs:complexType>`},
						{"minOccurs", `<xs:complexType name="T"><xs:sequence><xs:element name="e" type="xs:int" f:minOccurs="0"/></xs:sequence></xs:complexType>`},
						{"maxOccurs", `<xs:complexType name="T"><xs:sequence><xs:element name="e" type="xs:int" f:maxOccurs="2"/></xs:sequence></xs:complexType>`},
						{"default of an element", `<xs:complexType name="T"><xs:sequence><xs:element name="e" type="xs:int" f:default="2"/></xs:sequence></xs:complexType>`},
						{"nillable", `<xs:complexType name="T"><xs:sequence><xs:element name="e" type="xs:int" f:nillable="true"/></xs:sequence></xs:complexType>`},
						{"default of an attribute", `<xs:complexType name="T"><xs:attribute name="e" type="xs:int" f:default="2"/></xs:complexType>`},
						{"use", `<xs:complexType name="T"><xs:attribute name="e" type="xs:int" f:use="required"/></xs:complexType>`},
						{"abstract", `<xs:complexType name="T" f:abstract="true"><xs:sequence/></xs:complexType>`},
						{"mixed", `<xs:complexType name="T" f:mixed="true"><xs:sequence/></xs:complexType>`},
					}[t.Free("attribute", 13)]
					doc := func(s string) [][]byte {
						return [][]byte{[]byte(`<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"` + foreign + ` targetNamespace="urn:a">` + s + `</xs:schema>`)}
					}
					without := regexp.MustCompile(` f:\w+="\w+"`).ReplaceAllString(k[1], "")
					want, err := parse(t, doc(without))
					if err != nil {
						t.Fail("Parse refuses a valid schema: %v\n%s", err, without)
					}
					got, err := parse(t, doc(k[1]))
					if err != nil {
						t.FailKey("foreign "+k[0], "an attribute of another namespace makes Parse fail: %v\n%s", err, k[1])
					}
					strip := func(s []xsd.Schema) string {
						for _, s := range s {
							for _, t := range s.Types {
								if c, ok := t.(*xsd.ComplexType); ok {
									for i := range c.Elements {
										c.Elements[i].Attr = nil
									}
									for i := range c.Attributes {
										c.Attributes[i].Attr = nil
									}
								}
							}
						}
						return dump(s, func(n Name) bool { return n.Local == "T" }, NSA)
					}
					t.Compared(1)
					if a, b := strip(want), strip(got); a != b {
						t.FailKey("foreign "+k[0], "an attribute of another namespace changes the types\n%s\nwant\n%s\ngot\n%s", k[1], a, b)
					}
				}},
			{Name: "library", Bounds: [2]int{3, 4}, Weight: 3,
				About: "8 schema sets covering every kind of component, written in every combination of presentation features: 6 prefix assignments, 14 layouts (white space, comments, quoting, boolean spelling, explicit defaults, long forms, foreign attributes and appinfo, wrapping document, all schemas in one document, encoding, import elements), 3 places of namespace declarations, all orders of components, all splits into two documents, all orders of documents; oracle: the types the abstract schema declares",
				Run: func(t *mc.T) {
					set := library(t, t.Free("set", librarySize))
					p := PresGen(t, set)
					checkSet(t, set, p)
				}},
			{Name: "generated", Bounds: [2]int{2, 3}, Weight: 3,
				About: "schemas with two particles and an attribute of every form, times every presentation",
				Run: func(t *mc.T) {
					set := generated(t, true)
					checkSet(t, set, PresGen(t, set))
				}},
			{Name: "inlining", Bounds: [2]int{2, 3}, Weight: 1,
				About: "schemas using model groups and attribute groups against the same schemas with the groups written out in place",
				Run: func(t *mc.T) {
					g := NewGen(t)
					g.B.Items = nil
					c := &Complex{Name: "T"}
					c.Content = g.Shape(g.A, 2, 1, func(i int) *Particle {
						p := &Particle{Kind: GRef}
						o := g.Occurs[t.Choose("occurs", len(g.Occurs))]
						p.Min, p.Max = o[0], o[1]
						p.Ref = g.Need(g.A, t.FreePick("group", "G", "GC", "GN", "GI"))
						return p
					})
					c.Attrs = []Attr{{Group: g.Need(g.A, t.FreePick("attributes", "AG", "AGN"))}}
					g.A.Items = append([]Item{{Complex: c}}, g.A.Items...)
					if c.Content.Kind == All || g.Set.DupTypes() {
						t.Skip()
					}
					a, b := g.Set.Docs(nil), inlined(g.Set).Docs(nil)
					t.Input(Text(a))
					sa, err := parse(t, a)
					if err != nil {
						t.Fail("Parse refuses a valid schema: %v\n%s", err, Text(a))
					}
					sb, err := parse(t, b)
					if err != nil {
						t.Fail("Parse refuses a valid schema: %v\n%s", err, Text(b))
					}
					d := g.Set.Index().Declared
					da, db := dump(sa, d, NSA), dump(sb, d, NSA)
					t.Outcome(da)
					if da != db {
						t.Fail("with groups:\n%s\nwritten out:\n%s\n%s\n%s", da, db, Text(a), Text(b))
					}
				}},
			{Name: "repeat", Bounds: [2]int{3, 4}, Weight: 1,
				About: "the library sets, parsed under every choice of map iteration order at up to 6 (thorough 10) ranges, and parsed again; oracle: same dump as with sorted order",
				Run: func(t *mc.T) {
					set := library(t, t.Free("set", librarySize))
					p := &Pres{XS: "xs", NS: map[string]string{NSA: "a", NSB: "b"}}
					if t.FreeBool("split") {
						p.Split, p.SplitNS = 1, set.Schemas[0].NS
					}
					docs := set.Docs(p)
					ns := namespaces(set)
					mapsched.Sorted()
					first, err := parse(t, docs)
					if err != nil {
						t.Fail("Parse refuses a valid schema: %v\n%s", err, Text(docs))
					}
					d := set.Index().Declared
					want := dump(first, d, ns...)
					max := 6
					if t.Thorough {
						max = 10
					}
					mapsched.Chosen(t, max)
					defer mapsched.Sorted()
					second, err := parse(t, docs)
					if err != nil {
						t.Fail("Parse refuses on the second run: %v\n%s", err, Text(docs))
					}
					mapsched.Sorted()
					if got := dump(second, d, ns...); got != want {
						t.Fail("with a different iteration order:\n%s\nwas:\n%s\n%s", got, want, Text(docs))
					}
					if len(first) != len(second) {
						t.Fail("%d schemas, then %d", len(first), len(second))
					}
					for i := range first {
						if first[i].TargetNS != second[i].TargetNS || len(first[i].Types) != len(second[i].Types) {
							t.Fail("schema %d differs between runs", i)
						}
						for n, ty := range first[i].Types {
							o, ok := second[i].Types[n]
							if !ok || xsd.XMLName(o) != xsd.XMLName(ty) {
								t.Fail("schema %d: type %v differs between runs", i, n)
							}
						}
					}
					t.Input(fmt.Sprint(Text(docs)))
					t.Outcome(want)
				}},
			{Name: "bundled", Bounds: [2]int{1, 2}, Weight: 1,
				About: "the library sets in every single presentation feature, with the bundled standard schemas present",
				Run: func(t *mc.T) {
					full = true
					defer func() { full = false }()
					set := library(t, t.Free("set", librarySize))
					checkSet(t, set, PresGen(t, set))
				}},
		},
	}
}
