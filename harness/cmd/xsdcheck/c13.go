package main

import (
	"fmt"

	"aqwari.net/xml/verif/mc"
	. "aqwari.net/xml/verif/smodel"
)

var facetValues = map[string][]string{
	"enumeration":    {"a", "", "b c", "x&y <z>", "\"q'", "é", "a", " a", "a ", "b  c", "  "},
	"pattern":        {"[a-z]+", `\d{3}`, `a|b`, `\p{IsBasicLatin}`, `\i\c*`, "(", `[0-9]{2}-"x"`},
	"minInclusive":   {"1", "-5", "0", "3.25", "1e3", "+7"},
	"maxInclusive":   {"9", "-1", "0", "99.5", "INF"},
	"minExclusive":   {"1", "-5"},
	"maxExclusive":   {"9", "100000"},
	"length":         {"3", "0", "007"},
	"minLength":      {"1", "12"},
	"maxLength":      {"4", " 8 "},
	"totalDigits":    {"5"},
	"fractionDigits": {"2", "0"},
	"whiteSpace":     {"collapse"},
}

var facetNames = []string{"enumeration", "pattern", "minInclusive", "maxInclusive", "minExclusive", "maxExclusive", "length", "minLength", "maxLength", "totalDigits", "fractionDigits", "whiteSpace"}

func c13() mc.Property {
	bases := []string{"string", "decimal", "simple", "other simple", "int", "double", "token", "inline simple", "date", "dateTime", "Day", "Stamp", "time", "duration", "gYear"}
	base := func(g *Gen, word string) Type {
		switch word {
		case "Day", "Stamp":
			b := map[string]string{"Day": "date", "Stamp": "dateTime"}[word]
			g.A.Add(Item{Simple: &Simple{Name: word, Kind: "restriction", Base: Ref(X(b))}})
			return Ref(N(NSA, word))
		}
		return g.TypeOf(g.A, word)
	}
	dateValues := map[string][]string{
		"date": {"2001-02-03", "1999-12-31", "2001-02-03Z", "2001-02-03+02:00"}, "Day": {"2001-02-03", "2001-02-03Z"},
		"dateTime": {"2001-02-03T04:05:06Z", "2001-02-03T04:05:06", "2001-02-03T04:05:06.5-05:00"}, "Stamp": {"2001-02-03T04:05:06Z", "2001-02-03T04:05:06"},
		"time": {"10:00:00"}, "duration": {"P1D"}, "gYear": {"2001"},
	}
	return mc.Property{
		ID: "C13", Quick: 40, Thorough: 600,
		Assumptions: []string{"inclusive and exclusive bounds are recorded alike, and a bound of zero like an absent one, as the documented fields allow no distinction", "patterns outside RE2 are recorded as absent"},
		Harnesses: []mc.Harness{
			{Name: "findings", Bounds: [2]int{0, 0}, Weight: 0.1,
				About: "what is known to be wrong: bounds on types derived from those whose values are neither dates nor numbers",
				Run: func(t *mc.T) {
					b := [][2]string{{"duration", "P1D"}, {"time", "10:00:00"}, {"gMonthDay", "--02-03"}, {"gMonth", "--02"}, {"gDay", "---03"}, {"gYearMonth", "2001-02"}}[t.Free("base", 6)]
					facet := t.FreePick("facet", "minInclusive", "maxExclusive")
					_, err := parse(t, [][]byte{[]byte(`<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:a="urn:a" targetNamespace="urn:a"><xs:simpleType name="t"><xs:restriction base="xs:` + b[0] + `"/></xs:simpleType><xs:simpleType name="u"><xs:restriction base="a:t"><xs:` + facet + ` value="` + b[1] + `"/></xs:restriction></xs:simpleType></xs:schema>`)})
					if err != nil {
						t.FailKey("bound on a type derived from "+b[0], "a type derived from one derived from %s cannot have the %s %s: %v", b[0], facet, b[1], err)
					}
				}},
			largeFacets(),
			{Name: "facets", Bounds: [2]int{5, 7}, Weight: 2,
				About: "restrictions of 15 kinds of base with up to 3 facets in any order, values of every kind; oracle: the facet values as declared",
				Run: func(t *mc.T) {
					g := NewGen(t)
					s := &Simple{Name: "T", Kind: "restriction"}
					word := bases[t.Free("base", len(bases))]
					s.Base = base(g, word)
					n := t.Free("facets", 3)
					if t.Thorough {
						n += t.Choose("one more", 2)
					}
					seen := map[string]bool{}
					for i := 0; i < n; i++ {
						name := facetNames[t.Free("facet", len(facetNames))]
						vals := facetValues[name]
						if dv := dateValues[word]; dv != nil {
							switch name {
							case "minInclusive", "maxInclusive", "minExclusive", "maxExclusive":
								vals = dv
							case "totalDigits", "fractionDigits", "length", "minLength", "maxLength":
								t.Skip()
							}
						}
						key := name
						switch name {
						case "minExclusive":
							key = "minInclusive"
						case "maxExclusive":
							key = "maxInclusive"
						case "enumeration", "pattern":
							key = fmt.Sprint(i)
						}
						if seen[key] {
							t.Skip()
						}
						seen[key] = true
						v := vals[t.Choose("value", len(vals))]
						s.Facets = append(s.Facets, Facet{name, v})
					}
					if t.Bool("documented") {
						s.RestrDoc = []string{"from 1 to 2", "more"}
					}
					g.A.Items = append([]Item{{Simple: s}}, g.A.Items...)
					checkSet(t, g.Set, nil)
				}},
			{Name: "shapes", Bounds: [2]int{4, 6}, Weight: 2,
				About: "restrictions, lists and unions over built-in, named, other-namespace and in-line types, nested three deep, with documentation",
				Run: func(t *mc.T) {
					g := NewGen(t)
					var mk func(name string, level int) *Simple
					var ref func(level int) Type
					ref = func(level int) Type {
						k := t.Choose("ref", 8)
						switch k {
						case 0:
							return Ref(X("int"))
						case 1:
							return Ref(X("string"))
						case 2:
							return g.TypeOf(g.A, "simple")
						case 3:
							return g.TypeOf(g.A, "other simple")
						case 4:
							return g.TypeOf(g.A, "list")
						case 5:
							return g.TypeOf(g.A, "union")
						case 6:
							return Ref(X("NMTOKENS"))
						}
						if level == 0 {
							t.Skip()
						}
						return SType(mk("", level-1))
					}
					mk = func(name string, level int) *Simple {
						s := &Simple{Name: name}
						switch t.Free("kind", 3) {
						case 0:
							s.Kind, s.Base = "restriction", ref(level)
							if t.Bool("facet") {
								s.Facets = []Facet{{"enumeration", "1"}, {"enumeration", "2"}}
							}
						case 1:
							s.Kind, s.Base = "list", ref(level)
						case 2:
							s.Kind = "union"
							n := 1 + t.Free("members", 3)
							for i := 0; i < n; i++ {
								s.Members = append(s.Members, ref(level))
							}
						}
						if t.Bool("documented") {
							s.Doc = []string{"text & more"}
						}
						return s
					}
					s := mk("T", 2)
					g.A.Items = append([]Item{{Simple: s}}, g.A.Items...)
					if t.Bool("used") {
						g.A.Add(Item{Elem: &Elem{Name: "e", Type: Ref(N(NSA, "T"))}})
					}
					checkSet(t, g.Set, nil)
				}},
			{Name: "malformed", Bounds: [2]int{1, 1}, Weight: 1,
				About: "every numeric or date facet with every malformed value, on every kind of base, alone or after a good facet: Parse must report an error",
				Run: func(t *mc.T) {
					g := NewGen(t)
					word := []string{"string", "int", "decimal", "date", "dateTime", "simple", "inline simple", "Day"}[t.Free("base", 8)]
					s := &Simple{Name: "T", Kind: "restriction", Base: base(g, word)}
					name := facetNames[2+t.Free("facet", 9)]
					bad := map[string][]string{"length": {"x", "", "-1", "1.5", "unbounded", "1 2", "0x3"}}
					vals := bad["length"]
					if name[:3] == "min" || name[:3] == "max" {
						if name != "minLength" && name != "maxLength" {
							vals = []string{"x", "", "1 2", "2001-13-45", "--"}
						}
					}
					v := vals[t.Free("value", len(vals))]
					if t.FreeBool("after a good one") {
						s.Facets = append(s.Facets, Facet{"enumeration", "a"})
					}
					s.Facets = append(s.Facets, Facet{name, v})
					if t.FreeBool("before a good one") {
						s.Facets = append(s.Facets, Facet{"enumeration", "b"})
					}
					g.A.Items = append([]Item{{Simple: s}}, g.A.Items...)
					docs := g.Set.Docs(nil)
					t.Input(Text(docs))
					_, err := parse(t, docs)
					t.Outcome(fmt.Sprint(err))
					if err == nil {
						t.Fail("facet %s=%q on %s is accepted\n%s", name, v, word, Text(docs))
					}
				}},
		},
	}
}
