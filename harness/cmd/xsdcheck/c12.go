package main

import (
	"aqwari.net/xml/xsd"
	"fmt"

	"aqwari.net/xml/verif/mapsched"
	"aqwari.net/xml/verif/mc"
	. "aqwari.net/xml/verif/smodel"
)

func leafOf(e *Elem) *Particle { return &Particle{Kind: Leaf, Elem: e} }

func c12() mc.Property {
	root := func(g *Gen, c *Complex) {
		// T first, then whatever it needs, then an element of that type
		g.A.Items = append([]Item{{Complex: c}}, g.A.Items...)
		g.A.Add(Item{Elem: &Elem{Name: "root", Type: Ref(N(NSA, "T"))}})
	}
	return mc.Property{
		ID: "C12", Quick: 60, Thorough: 880,
		Assumptions: []string{"the position of a wildcard among the elements is not part of the property", "schemas in which one type uses an element name with different types, or two attributes of one name, are invalid and skipped"},
		Harnesses: []mc.Harness{
			sizesHarness(),
			{Name: "findings", Bounds: [2]int{0, 0}, Weight: 0.1,
				About: "what is known to be wrong: an element with a type of another namespace",
				Run: func(t *mc.T) {
					where := t.FreePick("declared", "in a type", "at the top level")
					docs := [][]byte{[]byte(`<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:b"><xs:simpleType name="t"><xs:restriction base="xs:string"/></xs:simpleType></xs:schema>`)}
					el := `<xs:element name="e" type="b:t"/>`
					if where == "in a type" {
						el = `<xs:complexType name="c"><xs:sequence>` + el + `</xs:sequence></xs:complexType>`
					}
					docs = append(docs, []byte(`<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:b="urn:b" targetNamespace="urn:a" elementFormDefault="qualified">`+el+`</xs:schema>`))
					schemas, err := parse(t, docs)
					if err != nil {
						t.Fail("Parse: %v", err)
					}
					for _, s := range schemas {
						for _, ty := range s.Types {
							c, ok := ty.(*xsd.ComplexType)
							if !ok {
								continue
							}
							for _, el := range c.Elements {
								t.Compared(1)
								if el.Name.Local == "e" && el.Name.Space != "urn:a" {
									t.FailKey("element of another namespace's type, declared "+where, "an element e that urn:a declares, with a type of urn:b, is recorded as {%s}e", el.Name.Space)
								}
							}
						}
					}
				}},
			{Name: "content", Bounds: [2]int{2, 3}, Weight: 3,
				About: "a complex type whose content model is a tree of compositors (sequence, choice, all; depth 3, up to 2 children each) with 11 particle forms, 7 occurrence ranges on compositors and particles, 12 element types, 6 element features; oracle: the declaration list of the reference model",
				Run: func(t *mc.T) {
					g := NewGen(t)
					depth := 2
					i := 0
					c := &Complex{Name: "T"}
					c.Content = g.Shape(g.A, 2, depth, func(int) *Particle {
						i++
						return g.LeafParticle(g.A, string(rune('a'+i-1)))
					})
					root(g, c)
					if g.Set.DupTypes() {
						t.Skip()
					}
					checkSet(t, g.Set, nil)
				}},
			{Name: "choices", Bounds: [2]int{4, 6}, Weight: 2,
				About: "content models built only from nested sequences and choices over two element names and wildcards, so that they repeat within and across alternatives",
				Run: func(t *mc.T) {
					g := NewGen(t)
					g.Occurs = [][2]string{{"", ""}, {"0", "unbounded"}}
					c := &Complex{Name: "T"}
					c.Content = g.Shape(g.A, 3, 2, func(int) *Particle {
						e := &Elem{Name: t.Pick("name", "a", "b", "any"), Type: Ref(X("int"))}
						p := leafOf(e)
						if e.Name == "any" {
							p = &Particle{Kind: Any}
						}
						if t.Bool("twice") {
							p.Max = "2"
						}
						return p
					})
					root(g, c)
					checkSet(t, g.Set, nil)
				}},
			{Name: "attributes", Bounds: [2]int{3, 4}, Weight: 2,
				About: "1-3 attributes on a plain, extended or restricted type with complex or simple content: 8 forms of use, 10 types, 5 features",
				Run: func(t *mc.T) {
					g := NewGen(t)
					c := &Complex{Name: "T"}
					switch t.Free("derivation", 5) {
					case 1:
						c.Derive, c.Base = SExtends, X("string")
					case 2:
						c.Derive, c.Base = CExtends, g.Need(g.A, "Pair")
					case 3:
						c.Derive, c.Base = CRestr, X("anyType")
					case 4:
						c.Derive, c.Base = SExtends, g.Need(g.A, "Code")
					}
					n := 1 + t.Free("attributes", 3)
					for i := 0; i < n; i++ {
						c.Attrs = append(c.Attrs, g.AttrUse(g.A, string(rune('p'+i))))
					}
					c.AnyAttr = t.Bool("anyAttribute")
					root(g, c)
					if g.Set.DupTypes() {
						t.Skip()
					}
					checkSet(t, g.Set, nil)
				}},
			{Name: "derivation", Bounds: [2]int{4, 5}, Weight: 2,
				About: "chains of up to 3 complex types in any order of definition, each by extension or restriction, complex or simple content, mixed and abstract flags, bases in either namespace",
				Run: func(t *mc.T) {
					g := NewGen(t)
					n := 1 + t.Free("types", 3)
					var items []Item
					for i := 0; i < n; i++ {
						c := &Complex{Name: fmt.Sprintf("T%d", i)}
						simple := false
						if i == 0 {
							switch t.Free("root", 6) {
							case 0:
								c.Derive = Short
							case 1:
								c.Derive, c.Base = CExtends, X("anyType")
							case 2:
								c.Derive, c.Base = SExtends, X("int")
								simple = true
							case 3:
								c.Derive, c.Base = SExtends, g.Need(g.A, "Code")
								simple = true
							case 4:
								c.Derive, c.Base = CExtends, g.Need(g.B, "Pair")
							case 5:
								c.Derive, c.Base = CRestr, X("anyType")
							}
						} else {
							prev := items[i-1].Complex
							simple = prev.Derive == SExtends || prev.Derive == SRestr
							c.Base = N(NSA, prev.Name)
							ext := t.Free("how", 2) == 0
							switch {
							case simple && ext:
								c.Derive = SExtends
							case simple:
								c.Derive = SRestr
								c.Facets = []Facet{{"maxLength", "3"}}
							case ext:
								c.Derive = CExtends
							default:
								c.Derive = CRestr
							}
						}
						c.Abstract = t.Bool("abstract")
						c.Mixed = t.Bool("mixed")
						if c.Derive == CExtends || c.Derive == CRestr {
							c.MixedContent = t.Pick("content mixed", "", "true", "false")
						}
						switch t.Choose("documented", 3) {
						case 1:
							c.Doc = []string{"about " + c.Name}
						case 2:
							if c.Derive == Short {
								t.Skip()
							}
							c.ContentDoc = []string{"about " + c.Name, "second"}
						}
						if !simple && !t.Bool("empty") {
							c.Content = &Particle{Kind: Seq, Kids: []*Particle{leafOf(&Elem{Name: fmt.Sprintf("e%d", i), Type: Ref(X("int"))})}}
						}
						if !t.Bool("no attribute") {
							c.Attrs = []Attr{{Name: fmt.Sprintf("p%d", i), Type: Ref(X("string"))}}
						}
						items = append(items, Item{Complex: c})
					}
					items = append(items, g.A.Items...)
					g.A.Items = nil
					for _, i := range t.Perm("order", len(items)) {
						g.A.Items = append(g.A.Items, items[i])
					}
					checkSet(t, g.Set, nil)
				}},
			{Name: "long chains", Bounds: [2]int{1, 3}, Weight: 2,
				About: "chains of 3 to 7 (thorough 9) complex types, alternating between two namespaces or not, with the mixed flag at the root, at one other type or nowhere, extending or restricting, named and written down in ascending, descending or interleaved order, under 14 orders of map iteration",
				Run: func(t *mc.T) {
					g := NewGen(t)
					max := 7
					if t.Thorough {
						max = 9
					}
					n := 3 + t.Free("length", max-2)
					naming := t.Free("names", 3)
					mixed := t.Free("mixed at", n+1) - 1
					two := t.FreeBool("two namespaces")
					name := func(i int) Name {
						j := i
						switch naming {
						case 1:
							j = n - 1 - i
						case 2:
							j = i * 5 % 11
						}
						ns := NSA
						if two && i%2 == 1 {
							ns = NSB
						}
						return N(ns, fmt.Sprintf("T%d", j))
					}
					var items []Item
					for i := 0; i < n; i++ {
						c := &Complex{Name: name(i).Local}
						if i == 0 {
							switch t.Choose("root", 4) {
							case 1:
								c.Derive, c.Base = SExtends, X("string")
							case 2:
								c.Derive, c.Base = CExtends, X("anyType")
							case 3:
								c.Derive, c.Base = CRestr, X("anyType")
							}
						} else {
							simple := items[0].Complex.Derive == SExtends
							c.Base = name(i - 1)
							ext := !t.Bool("restricts")
							switch {
							case simple && ext:
								c.Derive = SExtends
							case simple:
								c.Derive = SRestr
								c.Facets = []Facet{{"maxLength", "3"}}
							case ext:
								c.Derive = CExtends
							default:
								c.Derive = CRestr
							}
						}
						if i == mixed {
							if items != nil && items[0].Complex.Derive == SExtends {
								t.Skip()
							}
							if c.Derive != Short && t.Bool("on the content") {
								c.MixedContent = "true"
							} else {
								c.Mixed = true
							}
						}
						if !t.Bool("attribute") {
							c.Attrs = []Attr{{Name: fmt.Sprintf("p%d", i), Type: Ref(X("string"))}}
						}
						if c.Derive != SExtends && c.Derive != SRestr && t.Bool("element") {
							c.Content = &Particle{Kind: Seq, Kids: []*Particle{leafOf(&Elem{Name: fmt.Sprintf("e%d", i), Type: Ref(X("int"))})}}
						}
						items = append(items, Item{Complex: c})
					}
					order := t.Choose("order", 3)
					for k := range items {
						i := k
						switch order {
						case 1:
							i = n - 1 - k
						case 2:
							i = k / 2
							if k%2 == 1 {
								i = n - 1 - k/2
							}
						}
						if two && i%2 == 1 {
							g.Other().Items = append(g.Other().Items, items[i])
						} else {
							g.A.Items = append(g.A.Items, items[i])
						}
					}
					mapsched.Fixed(t.Free("rotate", 7), t.FreeBool("backwards"))
					defer mapsched.Sorted()
					checkSet(t, g.Set, nil)
				}},
			{Name: "toplevel", Bounds: [2]int{3, 4}, Weight: 2,
				About: "1-5 top-level elements, each with a type of one of 9 kinds (half of them in-line, nested up to 3 deep) and each feature; names may coincide with type names",
				Run: func(t *mc.T) {
					g := NewGen(t)
					n := 1 + t.Free("elements", 5)
					for i := 0; i < n; i++ {
						e := &Elem{Name: fmt.Sprintf("e%d", i)}
						e.Type = g.TypeOf(g.A, t.Pick("type", "inline complex", "inline simple", "int", "complex", "none", "other complex", "inline nested", "inline list", "list"))
						switch t.Choose("feature", 6) {
						case 1:
							e.Doc = []string{"doc"}
						case 2:
							e.Nillable = "true"
						case 3:
							e.Abstract = "true"
						case 4:
							if e.Type.Ref != X("int") {
								t.Skip()
							}
							e.Default = "5"
						case 5:
							e.Name = []string{"Pair", "in1", "deep", "Code"}[t.Free("name", 4)]
						}
						for _, it := range g.A.Items {
							if it.Elem != nil && it.Elem.Name == e.Name {
								t.Skip()
							}
						}
						g.A.Add(Item{Elem: e})
					}
					checkSet(t, g.Set, nil)
				}},
			{Name: "inline", Bounds: [2]int{4, 6}, Weight: 1,
				About: "in-line types nested in in-line types, attributes, lists, unions and restrictions, in types, elements and groups",
				Run: func(t *mc.T) {
					g := NewGen(t)
					var deep func(level int) Type
					deep = func(level int) Type {
						k := t.Choose("inline", 6)
						if level == 0 && k > 1 {
							t.Skip()
						}
						switch k {
						case 0:
							return Ref(X("int"))
						case 1:
							return SType(InlineSimple())
						case 2:
							c := &Complex{Content: &Particle{Kind: Seq}}
							for i := 0; i < 1+t.Choose("kids", 3); i++ {
								c.Content.Kids = append(c.Content.Kids, leafOf(&Elem{Name: string(rune('x' + i)), Type: deep(level - 1)}))
							}
							if t.Bool("attribute") {
								c.Attrs = []Attr{{Name: "q", Type: SType(InlineSimple())}}
							}
							return CType(c)
						case 3:
							b := deep(level - 1)
							if b.C != nil {
								t.Skip()
							}
							return SType(&Simple{Kind: "list", Base: b})
						case 4:
							s := &Simple{Kind: "union"}
							for i := 0; i < 2+t.Choose("members", 2); i++ {
								m := deep(level - 1)
								if m.C != nil {
									t.Skip()
								}
								s.Members = append(s.Members, m)
							}
							return SType(s)
						default:
							b := deep(level - 1)
							if b.C != nil {
								t.Skip()
							}
							return SType(&Simple{Kind: "restriction", Base: b, Facets: []Facet{{"pattern", "[a-z]+"}}})
						}
					}
					for i := 0; i < 2; i++ {
						ty := deep(2)
						switch t.Choose("where", 4) {
						case 0:
							g.A.Add(Item{Elem: &Elem{Name: fmt.Sprintf("e%d", i), Type: ty}})
						case 1:
							g.A.Add(Item{Complex: &Complex{Name: fmt.Sprintf("T%d", i), Content: &Particle{Kind: Seq, Kids: []*Particle{leafOf(&Elem{Name: "x", Type: ty})}}}})
						case 2:
							g.A.Add(Item{Group: &Group{Name: fmt.Sprintf("G%d", i), Content: &Particle{Kind: Seq, Kids: []*Particle{leafOf(&Elem{Name: "x", Type: ty})}}}},
								Item{Complex: &Complex{Name: fmt.Sprintf("T%d", i), Content: &Particle{Kind: Seq, Kids: []*Particle{{Kind: GRef, Ref: N(NSA, fmt.Sprintf("G%d", i))}}}}})
						case 3:
							if ty.C != nil {
								t.Skip()
							}
							g.A.Add(Item{Attr: &Attr{Name: fmt.Sprintf("a%d", i), Type: ty}},
								Item{Complex: &Complex{Name: fmt.Sprintf("T%d", i), Attrs: []Attr{{Ref: N(NSA, fmt.Sprintf("a%d", i))}}}})
						}
					}
					checkSet(t, g.Set, nil)
				}},
		},
	}
}
