package main

import (
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"unicode"

	"aqwari.net/xml/verif/mc"
	"aqwari.net/xml/verif/xmodel"
	"aqwari.net/xml/xmltree"
)

func c05() mc.Property {
	opts := func(max int) xmodel.Options {
		return xmodel.Options{MaxNodes: max, Shapes: true,
			Names: []string{"a", "b", "p:a", "p:b"},
			Decls: [][]decl{{{"p", "urn:u1"}}, {{"p", "urn:u2"}}, {{"p", "urn:u1"}, {"", "urn:u2"}}, {{"p", "urn:u1"}, {"", "urn:u1"}}},
			Attrs: [][]attr{nil, {{Local: "x", Raw: "0", Value: "0"}}, {{Prefix: "p", Local: "x", Raw: "1", Value: "1"}, {Local: "x", Raw: "2", Value: "2"}},
				{{Local: "a", Raw: "3", Value: "3"}, {Prefix: "p", Local: "x", Raw: "4", Value: "4"}}, {{Prefix: "xml", Local: "lang", Raw: "5", Value: "5"}, {Local: "lang", Raw: "6", Value: "6"}}}}
	}
	spaces := []string{"", "urn:u1", "urn:u2", "urn:none"}
	locals := []string{"a", "b", "none"}
	attrSpaces := []string{"", "urn:u1", "urn:none", "urn:u2", "p", "http://www.w3.org/XML/1998/namespace"}
	attrLocals := []string{"x", "a", "none", "lang", "p:x"}
	ident := func(t *mc.T, what string, got, want []*xmltree.Element) {
		t.Compared(1)
		if len(got) != len(want) {
			t.Fail("%s: %d elements, want %d", what, len(got), len(want))
		}
		for i := range want {
			if got[i] != want[i] {
				t.Fail("%s: result %d is <%s> (own node of the tree: %v), want the node <%s>", what, i, got[i].Name.Local, got[i] == want[i], want[i].Name.Local)
			}
		}
	}
	searches := func(t *mc.T, doc string, root *xmltree.Element) {
		snap := xmodel.Snapshot(root, "p:x", "x")
		for i, from := range elements(root) {
			all := elements(from)[1:]
			ident(t, fmt.Sprintf("Flatten of element %d of %s", i, doc), from.Flatten(), all)
			for _, sp := range spaces {
				for _, lo := range locals {
					var want []*xmltree.Element
					for _, e := range all {
						if e.Name.Local == lo && (sp == "" || e.Name.Space == sp) {
							want = append(want, e)
						}
					}
					ident(t, fmt.Sprintf("Search(%q, %q) from element %d of %s", sp, lo, i, doc), from.Search(sp, lo), want)
					t.Outcome(fmt.Sprint(len(all), len(want)))
				}
			}
			var calls, want []*xmltree.Element
			k := 0
			got := from.SearchFunc(func(e *xmltree.Element) bool {
				calls = append(calls, e)
				k++
				return k%2 == 1
			})
			for j, e := range all {
				if j%2 == 0 {
					want = append(want, e)
				}
			}
			ident(t, fmt.Sprintf("SearchFunc of element %d of %s (every other)", i, doc), got, want)
			ident(t, fmt.Sprintf("calls made by SearchFunc of element %d of %s", i, doc), calls, all)
		}
		if xmodel.Snapshot(root, "p:x", "x") != snap {
			t.Fail("searching changed the tree %s", doc)
		}
	}
	return mc.Property{
		ID: "C05", Quick: 25, Thorough: 900,
		Assumptions: []string{"two element names, three namespaces, two attribute names; trees up to 4 elements (thorough 5)"},
		Harnesses: []mc.Harness{
			bigSearch(),
			{Name: "search", Bounds: [2]int{3, 4}, Weight: 1,
				About: "all shapes up to 4 (thorough 5) elements with deviating names, declarations and attributes; every search of a 4x3 alphabet, Flatten, and SearchFunc with recorded call order, from every element; oracle: own walk of the tree, node identity",
				Run: func(t *mc.T) {
					max := 4
					if t.Thorough {
						max = 5
					}
					n := xmodel.Gen(t, opts(max))
					if n == nil {
						t.Skip()
					}
					doc := n.Doc()
					t.Input(doc)
					root := mustParse(t, doc)
					searches(t, doc, root)
				}},
			{Name: "built", Bounds: [2]int{0, 0}, Weight: 1,
				About: "trees that differ from what a parser returns: elements made by hand without Content or positions, Content cleared or replaced, and children appended, moved, duplicated, nested or removed by up to 2 (thorough 3) edits of every pair of elements; the same searches",
				Run: func(t *mc.T) {
					var root *xmltree.Element
					var desc string
					if t.FreeBool("made by hand") {
						el := func(sp, l string, kids ...xmltree.Element) xmltree.Element {
							var e xmltree.Element
							e.Name = xml.Name{Space: sp, Local: l}
							e.Children = kids
							return e
						}
						r := []xmltree.Element{
							el("", "a", el("", "b", el("", "a", el("", "b"))), el("urn:u1", "a")),
							el("urn:u1", "a", el("urn:u1", "a", el("urn:u1", "a", el("", "b"))), el("", "b", el("urn:u2", "a"))),
							el("", "b"),
						}[t.Free("tree", 3)]
						root, desc = &r, "hand-made "+r.Name.Local
					} else {
						desc = t.FreePick("doc", `<a><b><a><b/></a></b><a/></a>`, `<a>t<b/>t<a>t</a></a>`, `<p:a xmlns:p="urn:u1"><p:a><p:a/><b/></p:a><b><p:b/></b></p:a>`, `<a><a><a><a/></a></a></a>`, `<b/>`)
						root = mustParse(t, desc)
					}
					ops := 2
					if t.Thorough {
						ops = 3
					}
					for o := 0; o < ops; o++ {
						els := elements(root)
						op := t.Free(fmt.Sprint("op", o), 8)
						if op == 0 {
							break
						}
						i := t.Free(fmt.Sprint("at", o), len(els))
						j := t.Free(fmt.Sprint("of", o), len(els))
						desc += fmt.Sprintf("; op %d at %d of %d", op, i, j)
						e := els[i]
						switch op {
						case 1: // content cleared
							if j > 0 {
								t.Skip()
							}
							e.Content = nil
						case 2: // content replaced by text
							if j > 0 {
								t.Skip()
							}
							e.Content = []byte("text")
						case 3: // a copy of another subtree appended
							c := deepCopy(els[j])
							e.Children = append(append([]xmltree.Element{}, e.Children...), c)
						case 4: // an element without content appended
							var c xmltree.Element
							c.Name = els[j].Name
							e.Children = append(append([]xmltree.Element{}, e.Children...), c)
						case 5: // children removed
							if j > 0 {
								t.Skip()
							}
							e.Children = nil
						case 6: // children reversed
							if j > 0 {
								t.Skip()
							}
							for a, b := 0, len(e.Children)-1; a < b; a, b = a+1, b-1 {
								e.Children[a], e.Children[b] = e.Children[b], e.Children[a]
							}
						case 7: // renamed
							e.Name = els[j].Name
						}
						t.Step()
						t.State(desc)
					}
					t.Input(desc)
					searches(t, desc, root)
				}},
			{Name: "attributes", Bounds: [2]int{4, 6}, Weight: 3,
				About: "all sequences of up to 3 (thorough 4) attribute writes through search results on trees with colliding attributes; after each write every attribute of every element read under every name; oracle: list model of attributes",
				Run: func(t *mc.T) {
					n := xmodel.Gen(t, opts(2))
					if n == nil {
						t.Skip()
					}
					doc := n.Doc()
					root := mustParse(t, doc)
					model := map[*xmltree.Element][]xml.Attr{}
					names := map[*xmltree.Element]xml.Name{}
					for _, e := range elements(root) {
						model[e] = append([]xml.Attr{}, e.StartElement.Attr...)
						names[e] = e.Name
					}
					ops := 3
					if t.Thorough {
						ops = 4
					}
					desc := doc
					for o := 0; o < ops; o++ {
						sp := attrSpaces[t.Choose(fmt.Sprint("space", o), len(attrSpaces))]
						lo := attrLocals[t.Choose(fmt.Sprint("local", o), len(attrLocals))]
						v := t.Pick(fmt.Sprint("value", o), fmt.Sprint("v", o), "")
						els := append([]*xmltree.Element{root}, root.Flatten()...)
						el := els[t.Choose(fmt.Sprint("target", o), len(els))]
						desc += fmt.Sprintf("; set {%s}%s=%q on <%s>", sp, lo, v, el.Name.Local)
						el.SetAttr(sp, lo, v)
						t.Step()
						done := false
						for i, a := range model[el] {
							if a.Name.Local == lo && (sp == "" || a.Name.Space == sp) {
								model[el][i].Value = v
								done = true
								break
							}
						}
						if !done {
							model[el] = append(model[el], xml.Attr{Name: xml.Name{Space: sp, Local: lo}, Value: v})
						}
						t.State(desc)
						if got := el.Attr(sp, lo); got != v {
							t.Fail("%s: reading it back gives %q", desc, got)
						}
						for _, e := range elements(root) {
							if fmt.Sprint(e.StartElement.Attr) != fmt.Sprint(model[e]) {
								t.Fail("%s: <%s> has attributes %v, want %v", desc, e.Name.Local, e.StartElement.Attr, model[e])
							}
							if e.Name != names[e] {
								t.Fail("%s: name changed to %v", desc, e.Name)
							}
							for _, sp := range attrSpaces {
								for _, lo := range attrLocals {
									t.Compared(1)
									want := ""
									for _, a := range model[e] {
										if a.Name.Local == lo && (sp == "" || a.Name.Space == sp) {
											want = a.Value
											break
										}
									}
									if got := e.Attr(sp, lo); got != want {
										t.Fail("%s: Attr(%q, %q) of <%s> is %q, want %q", desc, sp, lo, e.Name.Local, got, want)
									}
								}
							}
						}
					}
					t.Input(desc)
				}},
			{Name: "copies", Bounds: [2]int{0, 0}, Weight: 1,
				About: "elements with 0 to 5 attributes, copied up to 3 times as values into the children of the root, and every sequence of up to 3 (thorough 4) attribute writes to any of them; oracle: a list of attributes for each",
				Run: func(t *mc.T) {
					na := t.Free("attributes", 6)
					doc := "<r><c"
					for j := 0; j < na; j++ {
						doc += fmt.Sprintf(" a%d='%d'", j, j)
					}
					doc += "><d/></c></r>"
					root := mustParse(t, doc)
					n := 2 + t.Free("copies", 3)
					before := t.FreeBool("one attribute set before")
					if before {
						root.Children[0].SetAttr("", "b", "0")
					}
					for len(root.Children) < n {
						root.Children = append(root.Children, root.Children[0])
					}
					model := make([][]xml.Attr, n)
					for i := range model {
						model[i] = append([]xml.Attr{}, root.Children[i].StartElement.Attr...)
					}
					desc := fmt.Sprintf("%s, %d of <c>, one attribute set before: %v", doc, n, before)
					ops := 3
					if t.Thorough {
						ops = 4
					}
					for o := 0; o < ops; o++ {
						at := t.Free("at", n+1)
						if at == n {
							break
						}
						name := t.FreePick("name", "a0", "a3", "new", "other")
						v := fmt.Sprint("v", o)
						t.Step()
						root.Children[at].SetAttr("", name, v)
						done := false
						for i, a := range model[at] {
							if a.Name.Local == name {
								model[at][i].Value = v
								done = true
							}
						}
						if !done {
							model[at] = append(model[at], xml.Attr{Name: xml.Name{Local: name}, Value: v})
						}
						desc += fmt.Sprintf("; set %s of number %d", name, at)
						t.State(desc)
						for i := range model {
							t.Compared(1)
							if fmt.Sprint(root.Children[i].StartElement.Attr) != fmt.Sprint(model[i]) {
								t.Fail("%s: number %d has the attributes %v, want %v", desc, i, root.Children[i].StartElement.Attr, model[i])
							}
						}
					}
					t.Input(desc)
				}},
			{Name: "siblings", Bounds: [2]int{0, 0}, Weight: 1,
				About: "copies of an element's value taken before an attribute is appended must not see or cause changes in siblings: appending to every element of trees with shared attribute lists",
				Run: func(t *mc.T) {
					k := t.Free("kids", 5)
					na := t.Free("attrs", 4)
					doc := "<r>"
					for i := 0; i <= k; i++ {
						doc += "<c"
						for j := 0; j < na; j++ {
							doc += fmt.Sprintf(" a%d='%d.%d'", j, i, j)
						}
						doc += "/>"
					}
					doc += "</r>"
					root := mustParse(t, doc)
					t.Input(doc)
					for i := range root.Children {
						root.Children[i].SetAttr("", "new", fmt.Sprint(i))
						for j := range root.Children {
							want := ""
							if j <= i {
								want = fmt.Sprint(j)
							}
							if got := root.Children[j].Attr("", "new"); got != want {
								t.Fail("%s: after writing to child %d, child %d reads %q", doc, i, j, got)
							}
							for x := 0; x < na; x++ {
								if got := root.Children[j].Attr("", fmt.Sprint("a", x)); got != fmt.Sprintf("%d.%d", j, x) {
									t.Fail("%s: after writing to child %d, attribute a%d of child %d reads %q", doc, i, x, j, got)
								}
							}
						}
					}
				}},
		},
	}
}

// ---- C06 ----

// canon is the model of equality: two trees are equal exactly if their
// canonical forms are.
func canon(n *xmodel.Node) string {
	var attrs []string
	for _, a := range n.Attrs {
		attrs = append(attrs, fmt.Sprintf("{%q %q}=%q", a.Space, a.Local, a.Value))
	}
	sort.Strings(attrs)
	var kids []string
	for _, k := range n.Kids() {
		kids = append(kids, canon(k))
	}
	sort.Strings(kids)
	content := ""
	if len(kids) == 0 {
		content = strings.TrimFunc(n.Content, unicode.IsSpace)
	}
	return fmt.Sprintf("(%q %q %s %q %s)", n.Space, n.Local, strings.Join(attrs, " "), content, strings.Join(kids, ""))
}

type variant struct {
	doc, canon string
}

// universe lists the trees compared pairwise: small trees over an alphabet
// of look-alike names, each in several presentations.
func universe(thorough bool) []variant {
	seen := map[string]bool{}
	var out []variant
	add := func(n *xmodel.Node) {
		n.Link(nil)
		if !n.Valid() {
			return
		}
		d := n.Doc()
		if seen[d] {
			return
		}
		seen[d] = true
		out = append(out, variant{d, canon(n)})
	}
	decls := []decl{{"p", "u"}, {"q", "ua"}, {"r", "u"}}
	mk := func(q string, attrs []attr, items ...xmodel.Item) *xmodel.Node {
		n := &xmodel.Node{Local: q, Attrs: append([]attr{}, attrs...), Items: items}
		if i := strings.IndexByte(q, ':'); i >= 0 {
			n.Prefix, n.Local = q[:i], q[i+1:]
		}
		return n
	}
	at := func(p, l, v string) attr { return attr{Prefix: p, Local: l, Raw: v, Value: v} }
	attrSets := [][]attr{nil, {at("", "x", "1")}, {at("", "x", "2")}, {at("", "y", "1")}, {at("p", "x", "1")}, {at("r", "x", "1")},
		{at("", "x", "1"), at("", "y", "1")}, {at("", "y", "1"), at("", "x", "1")}, {at("p", "x", "1"), at("", "x", "1")}, {at("", "x", "")}, {at("p", "xmlns", "1")}}
	texts := []string{"", "t", " t\n", "u", " ", "t u", "tu", "t  u", "t\nu"}
	item := func(n *xmodel.Node) xmodel.Item { return xmodel.Item{El: n} }
	raw := func(s string) xmodel.Item { return xmodel.Item{Raw: s} }
	// leaves
	for _, q := range []string{"a", "p:ab", "q:b", "r:ab", "p:a", "b"} {
		for _, as := range attrSets {
			for _, tx := range texts {
				n := mk(q, as, raw(tx))
				n.Decls = decls
				add(n)
			}
		}
	}
	// one level of children
	leafs := []func() *xmodel.Node{
		func() *xmodel.Node { return mk("b", nil, raw("1")) },
		func() *xmodel.Node { return mk("b", nil, raw("2")) },
		func() *xmodel.Node { return mk("b", []attr{at("", "x", "1")}, raw("1")) },
		func() *xmodel.Node { return mk("p:ab", nil) },
		func() *xmodel.Node { return mk("q:b", nil) },
		func() *xmodel.Node { return mk("r:ab", nil) },
		func() *xmodel.Node { return mk("b", nil, raw(" 1 ")) },
		func() *xmodel.Node { return mk("b", nil, item(mk("b", nil, raw("1")))) },
		func() *xmodel.Node {
			return mk("b", nil, item(mk("b", nil, raw("1"))), item(mk("b", nil, raw("2"))))
		},
		func() *xmodel.Node {
			return mk("b", nil, item(mk("b", nil, raw("2"))), item(mk("b", nil, raw("1"))))
		},
	}
	for i := range leafs {
		n := mk("a", nil, item(leafs[i]()))
		n.Decls = decls
		add(n)
		for j := range leafs {
			n := mk("a", nil, item(leafs[i]()), item(leafs[j]()))
			n.Decls = decls
			add(n)
			n = mk("a", nil, raw("\n "), item(leafs[i]()), raw("\n "), item(leafs[j]()), raw("\n"))
			n.Decls = decls
			add(n)
			if thorough || i < 3 && j < 3 {
				for k := range leafs {
					n := mk("a", nil, item(leafs[i]()), item(leafs[j]()), item(leafs[k]()))
					n.Decls = decls
					add(n)
				}
			}
		}
	}
	// many like-named children, to go past insertion sort
	for _, order := range [][]int{{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}, {13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0}, {7, 0, 8, 1, 9, 2, 10, 3, 11, 4, 12, 5, 13, 6}, {7, 0, 8, 1, 9, 2, 10, 3, 11, 4, 12, 5, 13, 13}} {
		n := mk("a", nil)
		for _, k := range order {
			n.Items = append(n.Items, item(mk([]string{"b", "c"}[k%2], nil, raw(fmt.Sprint(k)))))
		}
		add(n)
	}
	return out
}

func c06() mc.Property {
	var uni [2][]variant
	get := func(thorough bool) []variant {
		i := 0
		if thorough {
			i = 1
		}
		if uni[i] == nil {
			uni[i] = universe(thorough)
		}
		return uni[i]
	}
	return mc.Property{
		ID: "C06", Quick: 30, Thorough: 600,
		Assumptions: []string{"trees of up to 14 elements and depth 3 over look-alike names; text between child elements is not part of the comparison"},
		Harnesses: []mc.Harness{
			bigEqual(),
			{Name: "pairs", Bounds: [2]int{0, 0}, Weight: 3,
				About: "all ordered pairs of a universe of small trees in several presentations; oracle: equality of canonical forms computed by the model (an equivalence, so reflexivity, symmetry and transitivity follow), and neither operand changes",
				Run: func(t *mc.T) {
					u := get(t.Thorough)
					i := t.Free("first", len(u))
					a := mustParse(t, u[i].doc)
					snapA := xmodel.Snapshot(a, "p:x")
					t.Input(u[i].doc)
					eq := 0
					for j := range u {
						b := mustParse(t, u[j].doc)
						snapB := xmodel.Snapshot(b, "p:x")
						want := u[i].canon == u[j].canon
						t.Compared(1)
						for k := 0; k < 2; k++ {
							if got := xmltree.Equal(a, b); got != want {
								t.FailKey(u[i].doc+" "+u[j].doc, "Equal is %v, want %v (call %d)\n%s\n%s", got, want, k+1, u[i].doc, u[j].doc)
							}
						}
						if xmodel.Snapshot(a, "p:x") != snapA || xmodel.Snapshot(b, "p:x") != snapB {
							t.FailKey(u[i].doc+" "+u[j].doc, "Equal changed an operand\n%s\n%s", u[i].doc, u[j].doc)
						}
						if want {
							eq++
						}
					}
					if !xmltree.Equal(a, a) {
						t.Fail("a tree is not equal to itself: %s", u[i].doc)
					}
					t.Outcome(fmt.Sprint(eq))
				}},
			{Name: "mutants", Bounds: [2]int{3, 4}, Weight: 2,
				About: "generated documents against themselves re-presented (prefixes renamed, children reversed, white space added: must be equal) and against every single-point change of name, namespace, attribute, value, child count or leaf content (must differ), in both argument orders",
				Run: func(t *mc.T) {
					mkDoc := func() *xmodel.Node {
						return xmodel.Gen(t, xmodel.Options{MaxNodes: 4, Shapes: true, NoMixed: true,
							Names: []string{"p:a", "b", "q:b"}, Decls: [][]decl{{{"p", "urn:1"}, {"q", "urn:2"}}},
							Attrs: [][]attr{nil, {{Local: "x", Raw: "1", Value: "1"}}, {{Prefix: "q", Local: "x", Raw: "2", Value: "2"}, {Local: "y", Raw: "1", Value: "1"}}},
							Raw:   []string{"t", "1", "t 1"}})
					}
					n := mkDoc()
					doc := n.Doc()
					a := mustParse(t, doc)
					t.Input(doc)
					same := func(what, other string) {
						t.Compared(2)
						b := mustParse(t, other)
						if !xmltree.Equal(a, b) || !xmltree.Equal(b, a) {
							t.FailKey(doc+" "+other, "%s: trees are reported different\n%s\n%s", what, doc, other)
						}
					}
					diff := func(what, other string) {
						t.Compared(2)
						b := mustParse(t, other)
						if xmltree.Equal(a, b) || xmltree.Equal(b, a) {
							t.FailKey(doc+" "+other, "%s: trees are reported equal\n%s\n%s", what, doc, other)
						}
					}
					same("identical", doc)
					// declarations that were added like attributes
					for _, name := range []xml.Name{{Space: "xmlns", Local: "zz"}, {Local: "xmlns"}} {
						for _, last := range []bool{false, true} {
							b := mustParse(t, doc)
							el := b
							for last && len(el.Children) > 0 {
								el = &el.Children[len(el.Children)-1]
							}
							el.StartElement.Attr = append([]xml.Attr{{Name: name, Value: "urn:zz"}}, el.StartElement.Attr...)
							t.Compared(2)
							if !xmltree.Equal(a, b) || !xmltree.Equal(b, a) {
								t.Fail("trees that differ in the declaration %s of an unused prefix are reported different\n%s", name.Local, doc)
							}
						}
					}
					base := canon(n)
					// presentation changes
					ren := strings.NewReplacer("p:", "zz:", ":p=", ":zz=", "q:", "p:", ":q=", ":p=").Replace(doc)
					same("prefixes renamed", ren)
					for _, e := range n.All() {
						for i, j := 0, len(e.Items)-1; i < j; i, j = i+1, j-1 {
							e.Items[i], e.Items[j] = e.Items[j], e.Items[i]
						}
					}
					same("children reversed", n.Doc())
					for _, e := range n.All() {
						if len(e.Kids()) > 0 || len(e.Items) > 0 {
							e.Items = append([]xmodel.Item{{Raw: "\n\t"}}, append(e.Items, xmodel.Item{Raw: "  "})...)
						}
					}
					same("white space added", n.Doc())
					// meaning changes, one at a time
					for _, e := range n.All() {
						change := func(what string, do, undo func()) {
							do()
							d := n.Doc()
							if canon(n) != base {
								diff(what, d)
							}
							undo()
						}
						p, l, at, it := e.Prefix, e.Local, e.Attrs, e.Items
						change("local name changed", func() { e.Local = l + "z" }, func() { e.Local = l })
						change("namespace changed", func() {
							if p == "p" {
								e.Prefix = "q"
							} else {
								e.Prefix = "p"
							}
						}, func() { e.Prefix = p })
						change("attribute added", func() { e.Attrs = append(append([]attr{}, at...), attr{Local: "new", Raw: "", Value: ""}) }, func() { e.Attrs = at })
						for k := range at {
							change("attribute removed", func() { e.Attrs = append(append([]attr{}, at[:k]...), at[k+1:]...) }, func() { e.Attrs = at })
							change("attribute value changed", func() {
								e.Attrs = append([]attr{}, at...)
								e.Attrs[k].Raw += "z"
								e.Attrs[k].Value += "z"
							}, func() { e.Attrs = at })
							change("attribute name changed", func() {
								e.Attrs = append([]attr{}, at...)
								e.Attrs[k].Local += "z"
							}, func() { e.Attrs = at })
						}
						change("content added", func() { e.Items = append(append([]xmodel.Item{}, it...), xmodel.Item{Raw: "more"}) }, func() { e.Items = it })
						for k := range it {
							if strings.Contains(it[k].Raw, " ") && strings.TrimSpace(it[k].Raw) != "" {
								change("inner white space changed", func() {
									e.Items = append([]xmodel.Item{}, it...)
									e.Items[k].Raw = strings.ReplaceAll(it[k].Raw, " ", "")
								}, func() { e.Items = it })
								change("inner white space doubled", func() {
									e.Items = append([]xmodel.Item{}, it...)
									e.Items[k].Raw = strings.ReplaceAll(it[k].Raw, " ", "  ")
								}, func() { e.Items = it })
							}
						}
						change("child added", func() { e.Items = append(append([]xmodel.Item{}, it...), xmodel.Item{El: &xmodel.Node{Local: "b"}}) }, func() { e.Items = it })
						for k := range it {
							change("item removed", func() { e.Items = append(append([]xmodel.Item{}, it[:k]...), it[k+1:]...) }, func() { e.Items = it })
						}
					}
				}},
			{Name: "deep", Bounds: [2]int{0, 0}, Weight: 0.5,
				About: "chains up to the parse limit, equal and differing at the bottom",
				Run: func(t *mc.T) {
					d := []int{1, 10, 999, 1000, 1001, 1002, 2000, 2900}[t.Free("depth", 8)]
					mk := func(s string) *xmltree.Element {
						return mustParse(t, strings.Repeat("<a>", d)+s+strings.Repeat("</a>", d))
					}
					t.Input(fmt.Sprint("depth ", d))
					if !xmltree.Equal(mk("x"), mk("x")) {
						t.Fail("equal trees of depth %d are reported different", d)
					}
					if xmltree.Equal(mk("x"), mk("y")) {
						t.Fail("different trees of depth %d are reported equal", d)
					}
				}},
		},
	}
}

// ---- C07 ----

var errWriter = errors.New("injected write error")

// faultWriter fails at call number failCall (1-based) or when more than
// limit bytes would have been accepted.
type faultWriter struct {
	failCall   int
	limit      int
	persistent bool
	short      bool // accept half and report it without an error
	calls      int
	got        []byte
	failed     bool
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	fail := w.failCall > 0 && (w.calls == w.failCall || w.persistent && w.calls > w.failCall)
	n := 0
	if w.limit >= 0 && len(w.got)+len(p) > w.limit {
		if !w.failed || w.persistent {
			fail = true
			n = w.limit - len(w.got)
			if n < 0 {
				n = 0
			}
		}
	}
	if !fail {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	if len(p) == 0 {
		// nothing to lose
		return 0, nil
	}
	w.failed = true
	if w.short {
		if n == 0 {
			n = len(p) / 2
		}
		w.got = append(w.got, p[:n]...)
		return n, nil
	}
	w.got = append(w.got, p[:n]...)
	return n, errWriter
}

// Writers with more methods than they need.
type stringWriter struct{ *faultWriter }

func (w stringWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

type richWriter struct{ stringWriter }

func (w richWriter) WriteByte(c byte) error {
	_, err := w.Write([]byte{c})
	return err
}

func (w richWriter) WriteRune(r rune) (int, error) { return w.Write([]byte(string(r))) }

func (w richWriter) WriteAt(p []byte, off int64) (int, error) {
	return 0, errors.New("WriteAt is not for this")
}

func (w richWriter) ReadFrom(r io.Reader) (total int64, err error) {
	buf := make([]byte, 7)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			m, err := w.Write(buf[:n])
			total += int64(m)
			if err == nil && m < n {
				err = io.ErrShortWrite
			}
			if err != nil {
				return total, err
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func c07() mc.Property {
	trees := func(t *mc.T) (*xmltree.Element, string) {
		if k := t.Free("cyclic", 3); k > 0 {
			root := mustParse(t, `<a xmlns:p="urn:p"><b p:x="1">t</b><c/></a>`)
			if k == 1 {
				root.Children[0].Children = root.Children
			} else {
				root.Children[1].Children = root.Children[:1]
				root.Children[0].Children = root.Children[1:]
			}
			return root, fmt.Sprint("cyclic tree ", k)
		}
		n := xmodel.Gen(t, xmodel.Options{MaxNodes: 3, Shapes: true, Names: []string{"a", "p:b"}, Decls: [][]decl{{{"p", "urn:p"}}, {{"", "urn:d"}}, nil},
			Attrs: docAttrs[:4], Raw: []string{"text", "<!-- c -->"}})
		if n == nil {
			t.Skip()
		}
		doc := n.Doc()
		return mustParse(t, doc), doc
	}
	var run func(t *mc.T, desc string, el *xmltree.Element, want []byte, w *faultWriter)
	runOn := func(t *mc.T, desc string, el *xmltree.Element, want []byte, w *faultWriter, dst io.Writer) {
		t.Compared(1)
		t.Step()
		err := xmltree.Encode(dst, el)
		if w.failed && err == nil {
			t.FailKey(desc, "%s: the writer failed but Encode returned no error", desc)
		}
		if w.failed && !w.short && !errors.Is(err, errWriter) && !strings.Contains(err.Error(), errWriter.Error()) {
			t.FailKey(desc, "%s: Encode returned %v instead of the writer's error", desc, err)
		}
		if err == nil && string(w.got) != string(want) {
			t.FailKey(desc, "%s: no error, but the writer got %q, want %q", desc, w.got, want)
		}
		if !w.failed && err != nil {
			t.FailKey(desc, "%s: the writer did not fail but Encode returned %v", desc, err)
		}
		t.Outcome(fmt.Sprint(err == nil, w.failed, len(w.got)))
	}
	run = func(t *mc.T, desc string, el *xmltree.Element, want []byte, w *faultWriter) {
		runOn(t, desc, el, want, w, w)
	}
	return mc.Property{
		ID: "C07", Quick: 25, Thorough: 600,
		Assumptions: []string{"writers either accept data, return an error, or accept fewer bytes than given"},
		Harnesses: []mc.Harness{
			{Name: "writers", Bounds: [2]int{1, 2}, Weight: 1,
				About: "the same for writers that also have WriteString, or WriteString, WriteByte, WriteRune, WriteAt and ReadFrom: a failure at every single write call and at every number of bytes accepted",
				Run: func(t *mc.T) {
					el, doc := trees(t)
					want := xmltree.Marshal(el)
					t.Input(doc)
					kind := t.Free("kind of writer", 2)
					dst := func(w *faultWriter) io.Writer {
						if kind == 0 {
							return stringWriter{w}
						}
						return richWriter{stringWriter{w}}
					}
					clean := &faultWriter{limit: -1}
					runOn(t, fmt.Sprint(doc, " (kind ", kind, ", no fault)"), el, want, clean, dst(clean))
					for m := 0; m < 4; m++ {
						for k := 1; k <= clean.calls; k++ {
							w := &faultWriter{failCall: k, limit: -1, persistent: m&1 != 0, short: m&2 != 0}
							desc := fmt.Sprintf("%s, kind %d, write %d of %d fails (persistent %v, short %v)", doc, kind, k, clean.calls, w.persistent, w.short)
							t.State(desc)
							runOn(t, desc, el, want, w, dst(w))
						}
						for b := 0; b < len(want); b++ {
							w := &faultWriter{limit: b, persistent: m&1 != 0, short: m&2 != 0}
							desc := fmt.Sprintf("%s, kind %d, full after %d bytes (persistent %v, short %v)", doc, kind, b, w.persistent, w.short)
							runOn(t, desc, el, want, w, dst(w))
						}
					}
				}},
			{Name: "calls", Bounds: [2]int{2, 3}, Weight: 2,
				About: "every tree of up to 3 elements with deviations, and cyclic trees; a failure injected at every single write call, one-off or persistent, as error or as short write; oracle: error iff a write failed, and complete output otherwise",
				Run: func(t *mc.T) {
					el, doc := trees(t)
					var clean faultWriter
					clean.limit = -1
					want := xmltree.Marshal(el)
					run(t, doc+" (no fault)", el, want, &clean)
					t.Input(doc)
					for k := 1; k <= clean.calls; k++ {
						for m := 0; m < 4; m++ {
							w := &faultWriter{failCall: k, limit: -1, persistent: m&1 != 0, short: m&2 != 0}
							desc := fmt.Sprintf("%s, write %d of %d fails (persistent %v, short %v)", doc, k, clean.calls, w.persistent, w.short)
							t.State(desc)
							run(t, desc, el, want, w)
						}
					}
				}},
			{Name: "bytes", Bounds: [2]int{2, 3}, Weight: 2,
				About: "the same trees; the writer fails when it has accepted b bytes, for every b below the length of the output",
				Run: func(t *mc.T) {
					el, doc := trees(t)
					want := xmltree.Marshal(el)
					t.Input(doc)
					for b := 0; b < len(want); b++ {
						for m := 0; m < 4; m++ {
							w := &faultWriter{limit: b, persistent: m&1 != 0, short: m&2 != 0}
							desc := fmt.Sprintf("%s, writer full after %d bytes (persistent %v, short %v)", doc, b, w.persistent, w.short)
							run(t, desc, el, want, w)
						}
					}
					run(t, doc+", writer just large enough", el, want, &faultWriter{limit: len(want), persistent: true})
				}},
			{Name: "large", Bounds: [2]int{0, 0}, Weight: 0.5,
				About: "leaf contents, attribute values and names of 500 bytes to 128 KiB around the sizes of usual buffers, first, last or only in the tree; a failure injected at every write call and at byte counts around those sizes",
				Run: func(t *mc.T) {
					size := []int{500, 511, 512, 513, 1024, 4095, 4096, 4097, 8192, 32768, 65535, 65536, 65537, 131072}[t.Free("size", 14)]
					long := strings.Repeat("y", size)
					k := t.Free("where", 6)
					doc := []string{"<a>" + long + "</a>", "<a><b>" + long + "</b><c/></a>", "<a><b/><c>" + long + "</c></a>", "<a x='" + long + "'/>", "<a><" + long + "/></a>", "<a>" + strings.Repeat("<b>y</b>", size/128) + "</a>"}[k]
					el := mustParse(t, doc)
					desc := fmt.Sprintf("size %d, place %d", size, k)
					t.Input(desc)
					var clean faultWriter
					clean.limit = -1
					want := xmltree.Marshal(el)
					run(t, desc+" (no fault)", el, want, &clean)
					for c := 1; c <= clean.calls; c++ {
						if c > 40 && c < clean.calls-40 && !t.Thorough {
							continue
						}
						for m := 0; m < 4; m++ {
							w := &faultWriter{failCall: c, limit: -1, persistent: m&1 != 0, short: m&2 != 0}
							run(t, fmt.Sprintf("%s, write %d of %d fails (persistent %v, short %v)", desc, c, clean.calls, w.persistent, w.short), el, want, w)
						}
					}
					for _, b := range []int{0, 1, 100, 511, 512, 513, 4095, 4096, 4097, size, len(want) / 2, len(want) - 5, len(want) - 1} {
						if b >= len(want) || b < 0 {
							continue
						}
						for m := 0; m < 4; m++ {
							w := &faultWriter{limit: b, persistent: m&1 != 0, short: m&2 != 0}
							run(t, fmt.Sprintf("%s, writer full after %d bytes (persistent %v, short %v)", desc, b, w.persistent, w.short), el, want, w)
						}
					}
				}},
			{Name: "pipe", Bounds: [2]int{1, 2}, Weight: 0.5,
				About: "the destination is a pipe closed by its reader after every number of bytes",
				Run: func(t *mc.T) {
					el, doc := trees(t)
					want := xmltree.Marshal(el)
					t.Input("pipe " + doc)
					for b := 0; b <= len(want); b += 3 {
						r, w := io.Pipe()
						done := make(chan []byte)
						go func() {
							buf := make([]byte, b)
							n, _ := io.ReadFull(r, buf)
							r.Close()
							done <- buf[:n]
						}()
						err := xmltree.Encode(w, el)
						w.Close()
						got := <-done
						t.Compared(1)
						if err == nil && len(got) < len(want) {
							t.Fail("%s: reader gone after %d bytes, but Encode returned no error", doc, b)
						}
					}
				}},
		},
	}
}
