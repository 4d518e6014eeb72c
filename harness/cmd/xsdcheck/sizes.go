package main

import (
	"fmt"

	"aqwari.net/xml/verif/mc"
	. "aqwari.net/xml/verif/smodel"
)

// Schemas of many components, long chains and large numbers.
func sizesHarness() mc.Harness {
	return mc.Harness{Name: "sizes", Bounds: [2]int{0, 0}, Weight: 2,
		About: "occurrence counts up to the largest machine integer on elements, wildcards, groups and compositors; types with up to 300 elements, attributes, nested compositors; chains of up to 300 types, groups or attribute groups; up to 40 schemas",
		Run: func(t *mc.T) {
			g := NewGen(t)
			ns := []int{9, 17, 33, 65, 130, 300}
			if t.Thorough {
				ns = append(ns, 8, 10, 16, 32, 64, 128, 256, 257, 600, 900)
			}
			el := func(i int) *Elem { return &Elem{Name: fmt.Sprintf("e%d", i), Type: Ref(X("int"))} }
			c := &Complex{Name: "T"}
			kind := t.Free("kind", 10)
			n := 0
			if kind > 0 {
				n = ns[t.Free("size", len(ns))]
			}
			names := n
			if kind == 1 || kind == 2 || kind == 9 {
				names = []int{n, n/2 + 1, 3}[t.Free("names", 3)]
			}
			switch kind {
			case 0: // occurrence counts
				v := []string{"2", "10", "127", "128", "255", "256", "257", "32767", "32768", "65535", "65536", "65537", "100000", "131072", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807"}[t.Free("count", 20)]
				p := leafOf(el(0))
				switch t.Free("where", 5) {
				case 1:
					p = &Particle{Kind: Any}
				case 2:
					p = &Particle{Kind: Seq, Kids: []*Particle{leafOf(el(0)), leafOf(el(1))}}
				case 3:
					p = &Particle{Kind: Choice, Kids: []*Particle{leafOf(el(0)), leafOf(el(1))}}
				case 4:
					p = &Particle{Kind: GRef, Ref: g.Need(g.A, "G")}
				}
				switch t.Free("which", 3) {
				case 0:
					p.Max = v
				case 1:
					p.Min, p.Max = v, "unbounded"
				case 2:
					p.Min, p.Max = "0", v
				}
				c.Content = &Particle{Kind: Seq, Kids: []*Particle{p, leafOf(el(9))}}
			case 1, 2: // many elements, some of one name
				c.Content = &Particle{Kind: []string{Seq, Choice}[kind-1]}
				for i := 0; i < n; i++ {
					c.Content.Kids = append(c.Content.Kids, leafOf(el(i%names)))
				}
			case 3: // many attributes
				for i := 0; i < n; i++ {
					c.Attrs = append(c.Attrs, Attr{Name: fmt.Sprintf("a%d", i), Type: Ref(X("int")), Default: []string{"", fmt.Sprint(i)}[i%2]})
				}
			case 4: // nested compositors
				p := leafOf(el(0))
				for i := 1; i <= n; i++ {
					p = &Particle{Kind: []string{Seq, Choice}[i%2], Kids: []*Particle{leafOf(el(i)), p}}
					if i == n/2 {
						p.Max = "unbounded"
					}
				}
				c.Content = &Particle{Kind: Seq, Kids: []*Particle{p}}
			case 5: // a chain of types
				mixed := []int{0, 1, n / 2, -1}[t.Free("mixed at", 4)]
				last := t.FreeBool("base last")
				for i := 0; i < n; i++ {
					d := &Complex{Name: fmt.Sprintf("C%d", i), Mixed: i == mixed}
					if i > 0 {
						d.Derive, d.Base = CExtends, N(NSA, fmt.Sprintf("C%d", i-1))
					}
					if i%7 == 0 {
						d.Content = &Particle{Kind: Seq, Kids: []*Particle{leafOf(el(i))}}
					}
					if last {
						g.A.Items = append([]Item{{Complex: d}}, g.A.Items...)
					} else {
						g.A.Add(Item{Complex: d})
					}
				}
				c.Derive, c.Base = CExtends, N(NSA, fmt.Sprintf("C%d", n-1))
			case 6: // a chain of groups
				for i := 0; i < n; i++ {
					p := &Particle{Kind: Seq, Kids: []*Particle{leafOf(el(i))}}
					if i > 0 {
						p.Kids = append(p.Kids, &Particle{Kind: GRef, Ref: N(NSA, fmt.Sprintf("G%d", i-1))})
					}
					g.A.Add(Item{Group: &Group{Name: fmt.Sprintf("G%d", i), Content: p}})
				}
				c.Content = &Particle{Kind: Seq, Kids: []*Particle{{Kind: GRef, Ref: N(NSA, fmt.Sprintf("G%d", n-1)), Max: "3"}}}
			case 7: // a chain of attribute groups
				for i := 0; i < n; i++ {
					as := []Attr{{Name: fmt.Sprintf("a%d", i), Type: Ref(X("int"))}}
					if i > 0 {
						as = append(as, Attr{Group: N(NSA, fmt.Sprintf("AG%d", i-1))})
					}
					g.A.Add(Item{AttrGroup: &AttrGroup{Name: fmt.Sprintf("AG%d", i), Attrs: as}})
				}
				c.Attrs = []Attr{{Group: N(NSA, fmt.Sprintf("AG%d", n-1))}}
			case 8: // many schemas
				if n > 40 {
					t.Skip()
				}
				for i := 0; i < n; i++ {
					s := &Schema{NS: fmt.Sprintf("urn:n%d", i)}
					d := &Complex{Name: "C", Content: &Particle{Kind: Seq, Kids: []*Particle{leafOf(el(i))}}}
					if i > 0 {
						d.Derive, d.Base = CExtends, N(fmt.Sprintf("urn:n%d", i-1), "C")
					}
					s.Add(Item{Complex: d})
					g.Set.Schemas = append(g.Set.Schemas, s)
				}
				c.Derive, c.Base = CExtends, N(fmt.Sprintf("urn:n%d", n-1), "C")
			case 9: // many top-level elements and types
				for i := 0; i < n; i++ {
					g.A.Add(Item{Elem: &Elem{Name: fmt.Sprintf("e%d", i), Type: Ref(N(NSA, fmt.Sprintf("S%d", i%names)))}})
				}
				for i := 0; i < names; i++ {
					g.A.Add(Item{Simple: &Simple{Name: fmt.Sprintf("S%d", i), Kind: "restriction", Base: Ref(X("string")), Facets: []Facet{{"enumeration", fmt.Sprint("v", i)}}}})
				}
			}
			g.A.Items = append([]Item{{Complex: c}}, g.A.Items...)
			checkSet(t, g.Set, nil)
		}}
}

// Restrictions with many or large values.
func largeFacets() mc.Harness {
	return mc.Harness{Name: "sizes", Bounds: [2]int{0, 0}, Weight: 1,
		About: "bounds that need the precision of a double, large lengths, up to 300 enumerated values, unions of up to 130 members and chains of up to 130 restrictions",
		Run: func(t *mc.T) {
			g := NewGen(t)
			ns := []int{9, 17, 33, 65, 130}
			s := &Simple{Name: "T", Kind: "restriction", Base: Ref(X("decimal"))}
			switch t.Free("kind", 5) {
			case 0:
				v := []string{"16777217", "123456789", "-2147483648", "2147483647", "4294967296", "9007199254740993", "-9223372036854775808", "18446744073709551615", "0.1", "-0.001", "3.141592653589793", "1000000000000.01", "0.000000000000001", "123456789012345678901234567890"}[t.Free("value", 14)]
				s.Base = Ref(X([]string{"decimal", "integer", "double", "long"}[t.Free("base", 4)]))
				s.Facets = []Facet{{[]string{"minInclusive", "maxInclusive", "minExclusive", "maxExclusive"}[t.Free("facet", 4)], v}}
			case 1:
				v := []string{"127", "128", "255", "256", "32768", "65535", "65536", "100000", "2147483647", "2147483648", "4294967296", "9223372036854775807"}[t.Free("value", 12)]
				s.Base = Ref(X("string"))
				s.Facets = []Facet{{[]string{"length", "minLength", "maxLength", "totalDigits", "fractionDigits"}[t.Free("facet", 5)], v}}
			case 2:
				n := append(ns, 300)[t.Free("size", 6)]
				s.Base = Ref(X("string"))
				names := []int{n, n/2 + 1, 2}[t.Free("different", 3)]
				for i := 0; i < n; i++ {
					s.Facets = append(s.Facets, Facet{"enumeration", fmt.Sprint("v", (n-i)%names)})
				}
			case 3:
				n := ns[t.Free("size", 5)]
				s = &Simple{Name: "T", Kind: "union"}
				for i := 0; i < n; i++ {
					m := fmt.Sprintf("M%d", i)
					s.Members = append(s.Members, Ref(N(NSA, m)))
					g.A.Add(Item{Simple: &Simple{Name: m, Kind: "restriction", Base: Ref(X("int"))}})
				}
			case 4:
				n := ns[t.Free("size", 5)]
				last := t.FreeBool("base last")
				root := []string{"date", "int", "string"}[t.Free("root", 3)]
				var items []Item
				for i := 0; i < n; i++ {
					d := &Simple{Name: fmt.Sprintf("M%d", i), Kind: "restriction", Base: Ref(X(root))}
					if i > 0 {
						d.Base = Ref(N(NSA, fmt.Sprintf("M%d", i-1)))
					} else {
						s.Facets = map[string][]Facet{"date": {{"minInclusive", "2001-02-03"}}, "int": {{"maxInclusive", "7"}}, "string": {{"maxLength", "7"}}}[root]
					}
					if last {
						items = append([]Item{{Simple: d}}, items...)
					} else {
						items = append(items, Item{Simple: d})
					}
				}
				g.A.Items = items
				s.Base = Ref(N(NSA, fmt.Sprintf("M%d", n-1)))
			}
			g.A.Items = append([]Item{{Simple: s}}, g.A.Items...)
			checkSet(t, g.Set, nil)
		}}
}
