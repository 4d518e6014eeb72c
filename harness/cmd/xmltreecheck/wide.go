package main

import (
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/mc"
	"aqwari.net/xml/xmltree"
)

// Large documents. A tree of many elements is described by the parent
// of every element; the model knows each element's name, attribute and
// the offsets of its content.

type bigNode struct {
	space, local string
	kids         []*bigNode
	from, to     int // content
	idx          int
}

type bigDoc struct {
	doc  string
	root *bigNode
	all  []*bigNode // document order
	desc string
}

var bigShapes = []string{"flat", "nine deep, then flat", "combs of 20", "binary", "flat with declarations", "pairs"}

// bigTree picks a shape and a size.
func bigTree(t *mc.T) *bigDoc {
	sizes := []int{10, 33, 100, 129, 257, 1000, 1025, 5000, 10001, 33000}
	if t.Thorough {
		sizes = append(sizes, 2, 3, 15, 17, 31, 63, 65, 127, 255, 511, 513, 2049, 4097, 8193, 16385, 66000, 132000)
	}
	n := sizes[t.Free("size", len(sizes))]
	shape := t.Free("shape", len(bigShapes))
	named := t.FreeBool("namespaces")
	d := &bigDoc{desc: fmt.Sprintf("%d elements, %s, namespaces %v", n, bigShapes[shape], named)}
	parent := func(i int) int {
		switch bigShapes[shape] {
		case "nine deep, then flat":
			if i < 10 {
				return i - 1
			}
			return 9
		case "combs of 20":
			if i%20 == 1 {
				return 0
			}
			return i - 1
		case "binary":
			return (i - 1) / 2
		case "pairs":
			if i%2 == 1 {
				return 0
			}
			return i - 1
		}
		return 0
	}
	nodes := make([]*bigNode, n)
	for i := range nodes {
		nodes[i] = &bigNode{local: fmt.Sprintf("e%d", i%5)}
		if named {
			nodes[i].space = []string{"urn:d", "urn:p", "urn:q"}[i%3]
		}
		if i > 0 {
			p := nodes[parent(i)]
			p.kids = append(p.kids, nodes[i])
		}
	}
	var b strings.Builder
	var write func(x *bigNode)
	write = func(x *bigNode) {
		x.idx = len(d.all)
		d.all = append(d.all, x)
		tag := x.local
		switch x.space {
		case "urn:p":
			tag = "p:" + tag
		case "urn:q":
			tag = "q:" + tag
		}
		b.WriteString("<" + tag)
		if x.idx == 0 && named {
			b.WriteString(` xmlns="urn:d" xmlns:p="urn:p" xmlns:q="urn:q"`)
		} else if bigShapes[shape] == "flat with declarations" && x.idx%3 == 0 {
			fmt.Fprintf(&b, ` xmlns:z="urn:z%d"`, x.idx%7)
		}
		fmt.Fprintf(&b, ` k="%d">`, x.idx)
		x.from = b.Len()
		if len(x.kids) == 0 {
			fmt.Fprintf(&b, "t%d", x.idx)
		}
		for _, k := range x.kids {
			write(k)
		}
		x.to = b.Len()
		b.WriteString("</" + tag + ">")
	}
	write(nodes[0])
	d.root, d.doc = nodes[0], b.String()
	t.Input(d.desc)
	return d
}

// check compares a tree with the model.
func (d *bigDoc) check(t *mc.T, what, doc string, root *xmltree.Element, content bool) []*xmltree.Element {
	i := 0
	var els []*xmltree.Element
	var walk func(e *xmltree.Element)
	walk = func(e *xmltree.Element) {
		if i >= len(d.all) {
			t.Fail("%s: %s: more than %d elements", d.desc, what, len(d.all))
		}
		m := d.all[i]
		i++
		els = append(els, e)
		if e.Name.Space != m.space || e.Name.Local != m.local || len(e.Children) != len(m.kids) || e.Attr("", "k") != fmt.Sprint(m.idx) {
			t.Fail("%s: %s: element %d is %v with %d children and k=%q, want {%s %s} with %d children", d.desc, what, m.idx, e.Name, len(e.Children), e.Attr("", "k"), m.space, m.local, len(m.kids))
		}
		if content && string(e.Content) != d.doc[m.from:m.to] {
			t.Fail("%s: %s: element %d has the wrong content (%d bytes, want %d)", d.desc, what, m.idx, len(e.Content), m.to-m.from)
		}
		if len(m.kids) == 0 && string(e.Content) != fmt.Sprint("t", m.idx) {
			t.Fail("%s: %s: element %d has content %q", d.desc, what, m.idx, string(e.Content))
		}
		for j := range e.Children {
			walk(&e.Children[j])
		}
	}
	walk(root)
	if i != len(d.all) {
		t.Fail("%s: %s: %d elements, want %d", d.desc, what, i, len(d.all))
	}
	t.Outcome(fmt.Sprint(i))
	return els
}

func bigParse() mc.Harness {
	return mc.Harness{Name: "wide", Bounds: [2]int{0, 0}, Weight: 1,
		About: "documents of 10 to 33000 (thorough: 132000) elements in six shapes, with and without namespaces: every element, its name, attribute, children and content; and one element with that many attributes or that much text",
		Run: func(t *mc.T) {
			switch t.Free("kind", 3) {
			case 0:
				d := bigTree(t)
				d.check(t, "Parse", d.doc, mustParse(t, d.doc), true)
			case 1:
				n := []int{10, 100, 1000, 5000}[t.Free("size", 4)]
				var b strings.Builder
				b.WriteString(`<a xmlns:p="urn:p"`)
				for i := 0; i < n; i++ {
					fmt.Fprintf(&b, ` %sx%d="v%d"`, []string{"", "p:"}[i%2], i, i)
				}
				b.WriteString("/>")
				t.Input(fmt.Sprintf("%d attributes", n))
				e := mustParse(t, b.String())
				if len(e.StartElement.Attr) != n {
					t.Fail("%d attributes, want %d", len(e.StartElement.Attr), n)
				}
				for i := 0; i < n; i++ {
					if got := e.Attr([]string{"", "urn:p"}[i%2], fmt.Sprint("x", i)); got != fmt.Sprint("v", i) {
						t.Fail("%d attributes: attribute %d is %q", n, i, got)
					}
				}
			case 2:
				n := []int{10, 4095, 4096, 4097, 65535, 65537, 1 << 20, 1<<22 + 1}[t.Free("size", 8)]
				pre := []string{"", "<x/>", "<!-- c -->"}[t.Free("pre", 3)]
				in := pre + strings.Repeat("0123456789abcdef", n/16) + strings.Repeat("z", n%16)
				t.Input(fmt.Sprintf("%d bytes of text", n))
				e := mustParse(t, "<a><b>"+in+"</b><c>x</c></a>")
				if len(e.Children) != 2 || string(e.Children[0].Content) != in || string(e.Children[1].Content) != "x" {
					t.Fail("%d bytes of text after %q: wrong content", n, pre)
				}
			}
		}}
}

func bigMarshal() mc.Harness {
	return mc.Harness{Name: "wide", Bounds: [2]int{0, 0}, Weight: 1,
		About: "trees of 10 to 33000 (thorough: 132000) elements in six shapes, with and without namespaces, unmodified or with a text changed: the serialised document has every element again; serialising with MarshalIndent as well",
		Run: func(t *mc.T) {
			d := bigTree(t)
			root := mustParse(t, d.doc)
			if t.FreeBool("indent") {
				out := xmltree.MarshalIndent(root, "", " ")
				again, err := xmltree.Parse(out)
				if err != nil {
					t.Fail("%s: MarshalIndent gave a document that does not parse: %v", d.desc, err)
				}
				d.check(t, "MarshalIndent", string(out), again, false)
				return
			}
			out := xmltree.Marshal(root)
			again, err := xmltree.Parse(out)
			if err != nil {
				t.Fail("%s: Marshal gave a document that does not parse: %v", d.desc, err)
			}
			d.check(t, "Marshal", string(out), again, false)
			for _, k := range []int{0, len(root.Children) / 2, len(root.Children) - 1} {
				e := &root.Children[k]
				m := d.root.kids[k]
				one, err := xmltree.Parse(xmltree.Marshal(e))
				if err != nil {
					t.Fail("%s: Marshal of child %d gave a document that does not parse: %v", d.desc, k, err)
				}
				if got, want := len(elements(one)), m.size(); got != want {
					t.Fail("%s: Marshal of child %d has %d elements, want %d", d.desc, k, got, want)
				}
			}
		}}
}

func (m *bigNode) size() int {
	n := 1
	for _, k := range m.kids {
		n += k.size()
	}
	return n
}

func bigSearch() mc.Harness {
	return mc.Harness{Name: "wide", Bounds: [2]int{0, 0}, Weight: 1,
		About: "trees of 10 to 33000 (thorough: 132000) elements in six shapes: Flatten, Search of every name and SearchFunc from the root, by node identity against an own walk",
		Run: func(t *mc.T) {
			d := bigTree(t)
			root := mustParse(t, d.doc)
			all := elements(root)[1:]
			same := func(what string, got, want []*xmltree.Element) {
				if len(got) != len(want) {
					t.Fail("%s: %s: %d elements, want %d", d.desc, what, len(got), len(want))
				}
				for i := range got {
					if got[i] != want[i] {
						t.Fail("%s: %s: result %d is another element", d.desc, what, i)
					}
				}
				t.Outcome(fmt.Sprint(len(got)))
			}
			same("Flatten", root.Flatten(), all)
			for _, sp := range []string{"", "urn:d", "urn:p", "urn:none"} {
				for _, lo := range []string{"e0", "e1", "e4", "none"} {
					var want []*xmltree.Element
					for _, e := range all {
						if e.Name.Local == lo && (sp == "" || e.Name.Space == sp) {
							want = append(want, e)
						}
					}
					same(fmt.Sprintf("Search(%q, %q)", sp, lo), root.Search(sp, lo), want)
				}
			}
			var calls []*xmltree.Element
			same("SearchFunc", root.SearchFunc(func(e *xmltree.Element) bool { calls = append(calls, e); return true }), all)
			same("calls of SearchFunc", calls, all)
		}}
}

// bigEqual compares large trees with reordered, changed and shortened ones.
func bigEqual() mc.Harness {
	return mc.Harness{Name: "wide", Bounds: [2]int{0, 0}, Weight: 1,
		About: "an element with 2 to 1500 children of few or many different names against the same with its children rotated, reversed or interleaved (equal) and with one value, name, attribute or child changed at the first, middle and last place (different)",
		Run: func(t *mc.T) {
			sizes := []int{2, 3, 9, 10, 16, 17, 33, 65, 130, 257, 1500}
			n := sizes[t.Free("size", len(sizes))]
			names := []int{1, 2, 7, n}[t.Free("names", 4)]
			if names > n {
				t.Skip()
			}
			repeat := t.FreeBool("repeated values")
			type kid struct{ name, attr, text string }
			kids := make([]kid, n)
			for i := range kids {
				v := i
				if repeat {
					v = i % 3
				}
				kids[i] = kid{fmt.Sprint("e", i%names), fmt.Sprint("a", v), fmt.Sprint("t", v)}
			}
			doc := func(ks []kid) string {
				var b strings.Builder
				b.WriteString("<r>")
				for _, k := range ks {
					fmt.Fprintf(&b, `<%s k="%s"><i>%s</i></%s>`, k.name, k.attr, k.text, k.name)
				}
				b.WriteString("</r>")
				return b.String()
			}
			desc := fmt.Sprintf("%d children of %d names, repeated values %v", n, names, repeat)
			t.Input(desc)
			perm := make([]int, n)
			switch order := t.Free("order", 5); order {
			case 0, 1, 2:
				for i := range perm {
					perm[i] = []int{i, n - 1 - i, (i + n/2) % n}[order]
				}
			case 3: // evens, then odds
				j := 0
				for s := 0; s < 2; s++ {
					for i := s; i < n; i += 2 {
						perm[j] = i
						j++
					}
				}
			case 4: // the first and the last change places
				for i := range perm {
					perm[i] = i
				}
				perm[0], perm[n-1] = n-1, 0
			}
			other := make([]kid, n)
			for i, p := range perm {
				other[i] = kids[p]
			}
			a := mustParse(t, doc(kids))
			b := mustParse(t, doc(other))
			t.Compared(2)
			if !xmltree.Equal(a, b) || !xmltree.Equal(b, a) {
				t.Fail("%s: trees that differ in the order of children are reported different", desc)
			}
			for _, at := range []int{0, n / 2, n - 1} {
				for what := 0; what < 4; what++ {
					ch := append([]kid{}, other...)
					switch what {
					case 0:
						ch[at].name = "zz"
					case 1:
						ch[at].attr += "x"
					case 2:
						ch[at].text += "x"
					case 3:
						ch = append(ch[:at], ch[at+1:]...)
					}
					b := mustParse(t, doc(ch))
					t.Compared(2)
					if xmltree.Equal(a, b) || xmltree.Equal(b, a) {
						t.Fail("%s: change %d of child %d goes unnoticed", desc, what, at)
					}
				}
			}
			t.Outcome(desc)
		}}
}

// bigScope resolves names in scopes with many declarations.
func bigScope(c03 bool) mc.Harness {
	return mc.Harness{Name: "many", Bounds: [2]int{0, 0}, Weight: 1,
		About: "2 to 1000 (thorough: 2500) prefixes declared on one element, one per element of a chain, or ten per element; all distinct namespaces or each namespace under several prefixes, redeclared or not: every prefix and every namespace at the innermost element",
		Run: func(t *mc.T) {
			sizes := []int{2, 3, 8, 9, 16, 17, 31, 33, 64, 65, 127, 129, 255, 257, 1000}
			if t.Thorough {
				sizes = append(sizes, 500, 513, 1500, 2500)
			}
			n := sizes[t.Free("size", len(sizes))]
			per := []int{n, 1, 10}[t.Free("per element", 3)]
			nspaces := []int{n, 3}[t.Free("namespaces", 2)]
			again := t.FreeBool("redeclared")
			desc := fmt.Sprintf("%d prefixes, %d per element, %d namespaces, redeclared %v", n, per, nspaces, again)
			t.Input(desc)
			var open, shut strings.Builder
			bound := make(map[string]string)
			for i := 0; i < n; {
				open.WriteString("<e")
				for j := 0; j < per && i < n; j++ {
					fmt.Fprintf(&open, ` xmlns:p%d="urn:%d"`, i, i%nspaces)
					bound[fmt.Sprint("p", i)] = fmt.Sprint("urn:", i%nspaces)
					i++
				}
				open.WriteString(">")
				shut.WriteString("</e>")
			}
			if again {
				open.WriteString("<e")
				for i := 0; i < n; i += 2 {
					fmt.Fprintf(&open, ` xmlns:p%d="urn:other%d"`, i, i%5)
					bound[fmt.Sprint("p", i)] = fmt.Sprint("urn:other", i%5)
				}
				open.WriteString(">")
				shut.WriteString("</e>")
			}
			el := mustParse(t, open.String()+shut.String())
			for len(el.Children) > 0 {
				el = &el.Children[0]
			}
			visible := make(map[string]bool)
			for p, uri := range bound {
				visible[uri] = true
				if c03 {
					continue
				}
				got, ok := el.ResolveNS(p + ":x")
				if want := (xml.Name{Space: uri, Local: "x"}); got != want || !ok {
					t.Fail("%s: ResolveNS(%s:x) = %v, %v, want %v", desc, p, got, ok, want)
				}
				if got := el.Resolve(p + ":x"); got != (xml.Name{Space: uri, Local: "x"}) {
					t.Fail("%s: Resolve(%s:x) = %v, want {%s x}", desc, p, got, uri)
				}
			}
			if got, ok := el.ResolveNS(fmt.Sprintf("p%d:x", n)); ok {
				t.Fail("%s: the unbound prefix p%d resolves to %v", desc, n, got)
			}
			t.Outcome(fmt.Sprint(len(visible)))
			if !c03 {
				return
			}
			var spaces []string
			for i := 0; i < nspaces; i++ {
				spaces = append(spaces, fmt.Sprint("urn:", i))
			}
			for i := 0; i < 5; i++ {
				spaces = append(spaces, fmt.Sprint("urn:other", i))
			}
			for _, uri := range spaces {
				q := el.Prefix(xml.Name{Space: uri, Local: "x"})
				got, ok := el.ResolveNS(q)
				if visible[uri] && (!ok || got != (xml.Name{Space: uri, Local: "x"})) {
					t.Fail("%s: Prefix({%s x}) = %q, which resolves to %v (bound: %v)", desc, uri, q, got, ok)
				}
				if !visible[uri] && q != "x" {
					t.Fail("%s: Prefix({%s x}) = %q, want the unqualified name for a namespace that is not in scope", desc, uri, q)
				}
			}
		}}
}
