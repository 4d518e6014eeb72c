package main

import (
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/mc"
	"aqwari.net/xml/verif/xmodel"
	"aqwari.net/xml/xmltree"
)

var scopeDecls = [][]decl{
	nil,
	{{"p", "urn:1"}}, {{"p", "urn:2"}}, {{"q", "urn:1"}}, {{"", "urn:1"}}, {{"", "urn:2"}}, {{"", ""}},
	{{"p", "urn:1"}, {"q", "urn:2"}}, {{"p", "urn:2"}, {"q", "urn:1"}}, {{"q", "urn:1"}, {"p", "urn:1"}},
	{{"p", "urn:1"}, {"", "urn:1"}}, {{"", "urn:2"}, {"p", "urn:1"}, {"q", "urn:2"}}, {{"p", "q"}}, {{"q", "p"}, {"", "p"}},
}

var scopeQNames = []string{"x", "p:x", "q:x", "r:x", "xml:lang", "xmlns:p", "p:x:y", "p:", ":x", "", "urn:x", "xmlns", "xml", "P:x"}

// scopedTree builds a tree of the shape with declarations chosen per node.
func scopedTree(t *mc.T, shape []int, free bool) *xmodel.Node {
	nodes := make([]*xmodel.Node, len(shape))
	for i, p := range shape {
		var k int
		if free {
			k = t.Free(fmt.Sprintf("decls%d", i), len(scopeDecls))
		} else {
			k = t.Choose(fmt.Sprintf("decls%d", i), len(scopeDecls))
		}
		nodes[i] = &xmodel.Node{Local: fmt.Sprintf("e%d", i), Decls: scopeDecls[k]}
		if p >= 0 {
			nodes[p].Items = append(nodes[p].Items, xmodel.Item{El: nodes[i]})
		}
	}
	return nodes[0].Link(nil)
}

func elements(el *xmltree.Element) []*xmltree.Element {
	out := []*xmltree.Element{el}
	for i := range el.Children {
		out = append(out, elements(&el.Children[i])...)
	}
	return out
}

type scopeModel struct {
	lookup func(prefix string) (string, bool)
}

func (m scopeModel) resolve(qname string) (xml.Name, bool) {
	prefix, local := "", qname
	if i := strings.IndexByte(qname, ':'); i >= 0 {
		prefix, local = qname[:i], qname[i+1:]
	}
	if uri, ok := m.lookup(prefix); ok {
		return xml.Name{Space: uri, Local: local}, true
	}
	return xml.Name{Space: prefix, Local: local}, false
}

func checkScope(t *mc.T, where string, sc *xmltree.Scope, m scopeModel) {
	for _, q := range scopeQNames {
		t.Compared(1)
		want, ok := m.resolve(q)
		got, gok := sc.ResolveNS(q)
		if got != want || gok != ok {
			t.Fail("%s: ResolveNS(%q) = %v, %v; want %v, %v", where, q, got, gok, want, ok)
		}
		if g := sc.Resolve(q); g != want {
			t.Fail("%s: Resolve(%q) = %v, want %v", where, q, g, want)
		}
		for _, def := range []string{"", "urn:1", "urn:def"} {
			w := want
			if def != "" && !strings.Contains(q, ":") {
				w = xml.Name{Space: def, Local: q}
			}
			if g := sc.ResolveDefault(q, def); g != w {
				t.Fail("%s: ResolveDefault(%q, %q) = %v, want %v", where, q, def, g, w)
			}
		}
	}
}

func c02() mc.Property {
	return mc.Property{
		ID: "C02", Quick: 25, Thorough: 900,
		Assumptions: []string{"three prefixes and the reserved ones, two to four namespace names, nesting depth up to 3 (thorough: 4)"},
		Harnesses: []mc.Harness{
			bigScope(false),
			{Name: "scoping", Bounds: [2]int{3, 4}, Weight: 3,
				About: "all shapes up to 4 (thorough 5) elements with namespace declarations per element; every qualified name of a 14-name alphabet resolved at every element, in both orders of asking; oracle: innermost declaration in the model",
				Run: func(t *mc.T) {
					max := 4
					if t.Thorough {
						max = 5
					}
					var shapes [][]int
					for n := 1; n <= max; n++ {
						shapes = append(shapes, xmodel.Shapes(n)...)
					}
					n := scopedTree(t, shapes[t.Free("shape", len(shapes))], false)
					doc := n.Doc()
					t.Input(doc)
					els, nodes := elements(mustParse(t, doc)), n.All()
					for round := 0; round < 2; round++ {
						for i := range els {
							k := i
							if round == 1 {
								k = len(els) - 1 - i
							}
							t.Step()
							checkScope(t, fmt.Sprintf("element %d of %s", k, doc), &els[k].Scope, scopeModel{nodes[k].Lookup})
						}
					}
				}},
			{Name: "chain", Bounds: [2]int{0, 0}, Weight: 2,
				About: "every assignment of 14 declaration sets to a chain of 3 nested elements (thorough 4), completely",
				Run: func(t *mc.T) {
					shape := []int{-1, 0, 1}
					if t.Thorough {
						shape = []int{-1, 0, 1, 2}
					}
					n := scopedTree(t, shape, true)
					doc := n.Doc()
					t.Input(doc)
					els, nodes := elements(mustParse(t, doc)), n.All()
					for i := range els {
						checkScope(t, fmt.Sprintf("element %d of %s", i, doc), &els[i].Scope, scopeModel{nodes[i].Lookup})
					}
				}},
			{Name: "forks", Bounds: [2]int{0, 0}, Weight: 2,
				About: "chains of 1 to 5 (thorough 8) nested elements with 0 to 3 declarations each (distinct prefixes, so that the length of the inherited list takes every value up to 15) ending in 2 to 3 siblings that declare 0 to 3 prefixes of their own, with a grandchild below each; every prefix of the document is resolved at every element, and again in reverse",
				Run: func(t *mc.T) {
					max := 5
					if t.Thorough {
						max = 8
					}
					k, uri := 0, 0
					add := func(n *xmodel.Node, want int) {
						for i := 0; i < want; i++ {
							n.Decls = append(n.Decls, decl{fmt.Sprint("n", k), fmt.Sprint("urn:", uri)})
							k++
							uri++
						}
					}
					depth := 1 + t.Free("depth", max)
					root := &xmodel.Node{Local: "e"}
					cur := root
					for d := 0; d < depth; d++ {
						if d > 0 {
							c := &xmodel.Node{Local: "e"}
							cur.Items = append(cur.Items, xmodel.Item{El: c})
							cur = c
						}
						if d < 4 {
							add(cur, t.Free(fmt.Sprint("decls", d), 4))
						} else {
							add(cur, 1)
						}
					}
					sib := 2 + t.Free("siblings", 2)
					own := k
					for i := 0; i < sib; i++ {
						c := &xmodel.Node{Local: fmt.Sprint("s", i)}
						if t.Free("same prefixes", 2) == 1 {
							k = own
						}
						n := 1
						if i < 2 {
							n = t.Free(fmt.Sprint("own", i), 4)
						}
						add(c, n)
						g := &xmodel.Node{Local: "g"}
						add(g, i%2)
						c.Items = append(c.Items, xmodel.Item{El: g})
						cur.Items = append(cur.Items, xmodel.Item{El: c})
					}
					root.Link(nil)
					doc := root.Doc()
					t.Input(doc)
					prefixes := map[string]bool{}
					for _, n := range root.All() {
						for _, d := range n.Decls {
							prefixes[d.Prefix] = true
						}
					}
					els, nodes := elements(mustParse(t, doc)), root.All()
					for round := 0; round < 2; round++ {
						for i := range els {
							j := i
							if round == 1 {
								j = len(els) - 1 - i
							}
							for p := range prefixes {
								want, ok := scopeModel{nodes[j].Lookup}.resolve(p + ":x")
								t.Compared(1)
								got, gok := els[j].ResolveNS(p + ":x")
								if got != want || gok != ok {
									t.Fail("element %d of %s: ResolveNS(%q) = %v, %v; want %v, %v", j, doc, p+":x", got, gok, want, ok)
								}
							}
						}
					}
				}},
			{Name: "join", Bounds: [2]int{0, 1}, Weight: 4,
				About: "all sequences of up to 3 (thorough 4) JoinScope calls over the scopes of a document and the results of earlier joins (free), documents deviating in declarations (four base documents); after every call all scopes made so far must still resolve as the model says",
				Run: func(t *mc.T) {
					d := [][][]decl{
						{nil, {{"p", "urn:1"}, {"q", "urn:2"}}, {{"", "urn:1"}}, {{"p", "urn:2"}}},
						{{{"p", "urn:1"}}, {{"", "urn:2"}}, {{"p", "urn:2"}, {"q", "urn:2"}}, {{"q", "urn:1"}}},
						{{{"p", "urn:1"}, {"q", "urn:2"}}, nil, {{"p", "urn:2"}}, {{"", "urn:1"}}},
						{nil, {{"p", "urn:1"}}, {{"p", "urn:2"}}, {{"q", "urn:1"}}},
					}[t.Free("base", 4)]
					base := &xmodel.Node{Local: "a", Decls: d[0]}
					for i := 1; i < 4; i++ {
						base.Items = append(base.Items, xmodel.Item{El: &xmodel.Node{Local: fmt.Sprint("b", i), Decls: d[i]}})
					}
					for i, e := range base.All() {
						if k := t.Choose(fmt.Sprint("decls", i), len(scopeDecls)+1); k > 0 {
							e.Decls = scopeDecls[k-1]
						}
					}
					base.Link(nil)
					doc := base.Doc()
					els, nodes := elements(mustParse(t, doc)), base.All()
					var scopes []*xmltree.Scope
					var models []scopeModel
					for i := range els {
						scopes = append(scopes, &els[i].Scope)
						models = append(models, scopeModel{nodes[i].Lookup})
					}
					ops := 3
					if t.Thorough {
						ops = 4
					}
					desc := doc
					for o := 0; o < ops; o++ {
						k := t.Free(fmt.Sprint("outer", o), len(scopes)+1)
						if k == 0 {
							break
						}
						i, j := k-1, t.Free(fmt.Sprint("inner", o), len(scopes))
						desc += fmt.Sprintf(" join(%d,%d)", i, j)
						outer, inner := models[i], models[j]
						scopes = append(scopes, scopes[i].JoinScope(scopes[j]))
						models = append(models, scopeModel{func(p string) (string, bool) {
							if u, ok := inner.lookup(p); ok {
								return u, true
							}
							return outer.lookup(p)
						}})
						t.Step()
						t.State(desc)
						for s := range scopes {
							checkScope(t, fmt.Sprintf("scope %d after %s", s, desc), scopes[s], models[s])
						}
					}
					t.Input(desc)
				}},
		},
	}
}

func c03() mc.Property {
	names := []xml.Name{}
	for _, sp := range []string{"", "urn:1", "urn:2", "urn:3", "p", "q", "http://www.w3.org/XML/1998/namespace", "http://www.w3.org/2000/xmlns/"} {
		names = append(names, xml.Name{Space: sp, Local: "x"})
	}
	checkPrefix := func(t *mc.T, where string, n *xmodel.Node, sc *xmltree.Scope, name xml.Name) {
		t.Compared(1)
		q := sc.Prefix(name)
		vis := n.Visible()
		def, hasDef := n.Lookup("")
		switch {
		case name.Space == "":
			if q != name.Local {
				t.Fail("%s: Prefix(%v) = %q, want the local name", where, name, q)
			}
		case strings.HasPrefix(name.Space, "http://www.w3.org/"):
			if got, ok := sc.ResolveNS(q); got != name || !ok || !strings.HasPrefix(q, "xml") {
				t.Fail("%s: Prefix(%v) = %q, which resolves to %v", where, name, q, got)
			}
		case len(vis[name.Space]) > 0:
			if got, ok := n.Resolve(q); got != name || !ok {
				t.Fail("%s: Prefix(%v) = %q, which denotes %v (bound: %v) in that scope", where, name, q, got, ok)
			}
			if got, ok := sc.ResolveNS(q); got != name || !ok {
				t.Fail("%s: Prefix(%v) = %q, which resolves to %v", where, name, q, got)
			}
			if hasDef && def == name.Space && q != name.Local {
				t.Fail("%s: Prefix(%v) = %q, but the name is in the default namespace", where, name, q)
			}
		default:
			if q != name.Local {
				t.Fail("%s: Prefix(%v) = %q, want the unqualified name for a namespace that is not in scope", where, name, q)
			}
		}
	}
	return mc.Property{
		ID: "C03", Quick: 20, Thorough: 900,
		Assumptions: []string{"three prefixes, up to five namespace names, nesting depth up to 3 (thorough: 4)"},
		Harnesses: []mc.Harness{
			bigScope(true),
			{Name: "chain", Bounds: [2]int{0, 0}, Weight: 2,
				About: "every assignment of 14 declaration sets to a chain of 3 nested elements (thorough 4); all names of an 8-namespace alphabet at every element; oracle: model scoping (visible namespaces, default namespace, absent namespaces)",
				Run: func(t *mc.T) {
					shape := []int{-1, 0, 1}
					if t.Thorough {
						shape = []int{-1, 0, 1, 2}
					}
					n := scopedTree(t, shape, true)
					doc := n.Doc()
					t.Input(doc)
					els, nodes := elements(mustParse(t, doc)), n.All()
					for i := range els {
						for _, nm := range names {
							checkPrefix(t, fmt.Sprintf("element %d of %s", i, doc), nodes[i], &els[i].Scope, nm)
						}
					}
				}},
			{Name: "join", Bounds: [2]int{0, 0}, Weight: 1,
				About: "names prefixed in scopes made by joining the scopes of two elements of different documents, every pair of declaration chains of length 2",
				Run: func(t *mc.T) {
					a, b := scopedTree(t, []int{-1, 0}, true), scopedTree(t, []int{-1, 0}, true)
					// the model of the joined scope is the chain b below a
					da, db := a.Doc(), b.Doc()
					ea, eb := elements(mustParse(t, da)), elements(mustParse(t, db))
					t.Input(da + " + " + db)
					b.Link(a.All()[1])
					sc := ea[1].Scope.JoinScope(&eb[1].Scope)
					for _, nm := range names {
						checkPrefix(t, "joined scope of "+da+" and "+db, b.All()[1], sc, nm)
					}
				}},
			{Name: "tree", Bounds: [2]int{2, 4}, Weight: 1,
				About: "shapes up to 4 elements, all names at all elements, asked in document order and again in reverse",
				Run: func(t *mc.T) {
					var shapes [][]int
					for n := 1; n <= 4; n++ {
						shapes = append(shapes, xmodel.Shapes(n)...)
					}
					n := scopedTree(t, shapes[t.Free("shape", len(shapes))], false)
					doc := n.Doc()
					t.Input(doc)
					els, nodes := elements(mustParse(t, doc)), n.All()
					for round := 0; round < 2; round++ {
						for i := range els {
							k := i
							if round == 1 {
								k = len(els) - 1 - i
							}
							for _, nm := range names {
								checkPrefix(t, fmt.Sprintf("element %d of %s", k, doc), nodes[k], &els[k].Scope, nm)
							}
						}
					}
				}},
		},
	}
}
