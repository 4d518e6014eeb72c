package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"strings"

	"aqwari.net/xml/verif/mc"
	"aqwari.net/xml/verif/xmodel"
	"aqwari.net/xml/xmltree"
)

// expect is what must survive serialisation.
type expect struct {
	Name    xml.Name
	Attrs   []xml.Attr
	Content string // leaves only
	Resolve map[string]xml.Name
	Kids    []*expect
}

var livePrefixes = []string{"p:x", "q:x", "r:x", "ns0:x", "x"}

func capture(el *xmltree.Element, defaultLost bool) *expect {
	e := &expect{Name: el.Name, Attrs: append([]xml.Attr{}, el.StartElement.Attr...), Resolve: map[string]xml.Name{}}
	// An element in no namespace cannot be written where a default
	// namespace is declared; only then may the default change.
	if el.Name.Space == "" && el.Resolve("x").Space != "" {
		defaultLost = true
	}
	for _, q := range livePrefixes {
		n, ok := el.ResolveNS(q)
		if q == "x" {
			if defaultLost {
				continue
			}
			e.Resolve[q] = n
		} else if ok {
			e.Resolve[q] = n
		}
	}
	if len(el.Children) == 0 {
		e.Content = string(el.Content)
	}
	for i := range el.Children {
		e.Kids = append(e.Kids, capture(&el.Children[i], false))
	}
	return e
}

func (e *expect) diff(el *xmltree.Element) string {
	at := "<" + e.Name.Local + ">"
	if el.Name != e.Name {
		return fmt.Sprintf("%s came back with name %v, want %v", at, el.Name, e.Name)
	}
	if len(el.StartElement.Attr) != len(e.Attrs) {
		return fmt.Sprintf("%s came back with attributes %v, want %v", at, el.StartElement.Attr, e.Attrs)
	}
	for i := range e.Attrs {
		if e.Attrs[i] != el.StartElement.Attr[i] {
			return fmt.Sprintf("%s came back with attribute %v, want %v", at, el.StartElement.Attr[i], e.Attrs[i])
		}
	}
	for q, want := range e.Resolve {
		if got := el.Resolve(q); got != want {
			return fmt.Sprintf("in %s the name %q now denotes %v, before %v", at, q, got, want)
		}
	}
	if len(el.Children) != len(e.Kids) {
		return fmt.Sprintf("%s came back with %d children, want %d", at, len(el.Children), len(e.Kids))
	}
	if len(e.Kids) == 0 && string(el.Content) != e.Content {
		return fmt.Sprintf("%s came back with content %q, want %q", at, el.Content, e.Content)
	}
	for i := range e.Kids {
		if d := e.Kids[i].diff(&el.Children[i]); d != "" {
			return at + d
		}
	}
	return ""
}

// lines counts the lines of the indented form and checks each.
func (e *expect) lines(prefix, indent string, depth int, out *[]string) {
	ind := prefix + strings.Repeat(indent, depth)
	*out = append(*out, ind+"<")
	if len(e.Kids) > 0 {
		for _, k := range e.Kids {
			k.lines(prefix, indent, depth+1, out)
		}
		*out = append(*out, ind+"</")
	}
}

func (e *expect) multiline() bool {
	if strings.ContainsAny(e.Content, "\n\r") {
		return true
	}
	for _, k := range e.Kids {
		if k.multiline() {
			return true
		}
	}
	return false
}

func wholeDocument(doc []byte) error {
	d := xml.NewDecoder(bytes.NewReader(doc))
	depth, roots := 0, 0
	for {
		tok, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
		switch tok := tok.(type) {
		case xml.StartElement:
			if depth == 0 {
				roots++
			}
			depth++
			seen := map[xml.Name]bool{}
			for _, a := range tok.Attr {
				if seen[a.Name] {
					return fmt.Errorf("attribute %v appears twice", a.Name)
				}
				seen[a.Name] = true
				if a.Name.Local == "" {
					return fmt.Errorf("attribute without a name")
				}
				if a.Name.Space == "xmlns" && a.Value == "" {
					return fmt.Errorf("prefix %s is undeclared", a.Name.Local)
				}
			}
		case xml.EndElement:
			depth--
		case xml.CharData:
			if depth == 0 && strings.TrimSpace(string(tok)) != "" {
				return fmt.Errorf("text outside the root element")
			}
		}
	}
	if depth != 0 || roots != 1 {
		return fmt.Errorf("%d root elements, depth %d at the end", roots, depth)
	}
	// and once more with matching of tags
	d = xml.NewDecoder(bytes.NewReader(doc))
	for {
		if _, err := d.Token(); err == io.EOF {
			return nil
		} else if err != nil {
			return err
		}
	}
}

type gnode struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Kids    []gnode    `xml:",any"`
	Inner   string     `xml:",innerxml"`
}

func (e *expect) diffNode(g *gnode) string {
	if g.XMLName != e.Name {
		return fmt.Sprintf("name %v, want %v", g.XMLName, e.Name)
	}
	var attrs []xml.Attr
	for _, a := range g.Attrs {
		if a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
			continue
		}
		attrs = append(attrs, a)
	}
	if fmt.Sprint(attrs) != fmt.Sprint(e.Attrs) && len(attrs)+len(e.Attrs) > 0 {
		return fmt.Sprintf("<%s> attributes %v, want %v", e.Name.Local, attrs, e.Attrs)
	}
	if len(g.Kids) != len(e.Kids) {
		return fmt.Sprintf("<%s> %d children, want %d", e.Name.Local, len(g.Kids), len(e.Kids))
	}
	if len(e.Kids) == 0 && g.Inner != e.Content {
		return fmt.Sprintf("<%s> content %q, want %q", e.Name.Local, g.Inner, e.Content)
	}
	for i := range e.Kids {
		if d := e.Kids[i].diffNode(&g.Kids[i]); d != "" {
			return d
		}
	}
	return ""
}

func checkMarshal(t *mc.T, what string, el *xmltree.Element) {
	want := capture(el, false)
	before := xmodel.Snapshot(el, livePrefixes...)
	check := func(form string, out []byte) {
		t.Compared(1)
		if err := wholeDocument(out); err != nil {
			t.Fail("%s: %s gave an ill-formed document: %v\n%s", what, form, err, out)
		}
		back, err := xmltree.Parse(out)
		if err != nil {
			t.Fail("%s: %s output does not parse: %v\n%s", what, form, err, out)
		}
		if d := want.diff(back); d != "" {
			t.Fail("%s: after %s: %s\n%s", what, form, d, out)
		}
	}
	out := xmltree.Marshal(el)
	check("Marshal", out)
	var buf bytes.Buffer
	if err := xmltree.Encode(&buf, el); err != nil || !bytes.Equal(buf.Bytes(), out) {
		t.Fail("%s: Encode (error %v) wrote %q, Marshal %q", what, err, buf.Bytes(), out)
	}
	if s := el.String(); s != string(out) {
		t.Fail("%s: String %q, Marshal %q", what, s, out)
	}
	for _, pi := range [][2]string{{"", "  "}, {"\t", " "}, {"  ", ""}, {"", "\t"}} {
		ind := xmltree.MarshalIndent(el, pi[0], pi[1])
		check(fmt.Sprintf("MarshalIndent(%q, %q)", pi[0], pi[1]), ind)
		if want.multiline() {
			continue
		}
		var skel []string
		want.lines(pi[0], pi[1], 0, &skel)
		lines := strings.Split(strings.TrimSuffix(string(ind), "\n"), "\n")
		if len(lines) != len(skel) {
			t.Fail("%s: MarshalIndent(%q, %q) gave %d lines, want %d\n%s", what, pi[0], pi[1], len(lines), len(skel), ind)
		}
		for i := range lines {
			if !strings.HasPrefix(lines[i], skel[i]) {
				t.Fail("%s: MarshalIndent(%q, %q) line %d is %q, want prefix %q\n%s", what, pi[0], pi[1], i+1, lines[i], skel[i], ind)
			}
		}
	}
	var g gnode
	if err := xmltree.Unmarshal(el, &g); err != nil {
		t.Fail("%s: Unmarshal: %v\n%s", what, err, out)
	}
	if d := want.diffNode(&g); d != "" {
		t.Fail("%s: Unmarshal: %s\n%s", what, d, out)
	}
	if after := xmodel.Snapshot(el, livePrefixes...); after != before {
		t.Fail("%s: serialising changed the tree\nbefore %s\nafter  %s", what, before, after)
	}
	t.Outcome(string(out))
}

func deepCopy(el *xmltree.Element) xmltree.Element {
	c := *el
	c.StartElement.Attr = append([]xml.Attr{}, el.StartElement.Attr...)
	c.Children = nil
	for i := range el.Children {
		c.Children = append(c.Children, deepCopy(&el.Children[i]))
	}
	return c
}

const foreignDoc = `<f xmlns="urn:2" xmlns:p="urn:f" xmlns:r="urn:1"><r:g p:k="p:v"><h>t</h></r:g><n xmlns=""/></f>`

func foreign(k int) xmltree.Element {
	f, err := xmltree.Parse([]byte(foreignDoc))
	if err != nil {
		panic(err)
	}
	return deepCopy(elements(f)[k])
}

// edit applies one edit to the tree and describes it.
func edit(t *mc.T, root *xmltree.Element, n int) string {
	els := elements(root)
	l := func(s string) string { return fmt.Sprint(s, n) }
	i := t.Choose(l("target"), len(els))
	el := els[i]
	newChild := func() (xmltree.Element, string) {
		switch k := t.Choose(l("child"), 8); k {
		case 0:
			return foreign(1), "foreign <r:g>"
		case 1:
			return foreign(0), "foreign <f>"
		case 2:
			return foreign(3), "foreign <n>"
		case 3:
			return xmltree.Element{StartElement: xml.StartElement{Name: xml.Name{Space: "urn:new", Local: "z"}}}, "new {urn:new z}"
		case 4:
			return xmltree.Element{StartElement: xml.StartElement{Name: xml.Name{Local: "z"}}, Content: []byte("v")}, "new {z}"
		case 5:
			return xmltree.Element{StartElement: xml.StartElement{Name: xml.Name{Space: "urn:u1", Local: "z"}}, Scope: el.Scope}, "new {urn:u1 z} in scope"
		case 6:
			j := t.Choose(l("copy"), len(els))
			return deepCopy(els[j]), fmt.Sprintf("copy of element %d", j)
		default:
			return xmltree.Element{StartElement: xml.StartElement{Name: xml.Name{Local: "z"}}, Scope: el.Scope}, "new {z} in scope"
		}
	}
	switch op := t.Choose(l("edit"), 8); op {
	case 0, 1:
		sp := t.Pick(l("attrspace"), "", "urn:u1", "urn:new", "urn:u2")
		loc := t.Pick(l("attrname"), "x", "k")
		v := t.Pick(l("value"), "v", `<&>"'`, " a\n\tb\r ", "é€", "", "p:v")
		if op == 1 {
			el.SetAttr("http://www.w3.org/XML/1998/namespace", "space", v)
			return fmt.Sprintf("set xml:space=%q on %d", v, i)
		}
		el.SetAttr(sp, loc, v)
		return fmt.Sprintf("set {%s}%s=%q on %d", sp, loc, v, i)
	case 2:
		c, d := newChild()
		el.Children = append(el.Children, c)
		return fmt.Sprintf("append %s to %d", d, i)
	case 3:
		if len(el.Children) == 0 {
			t.Skip()
		}
		k := t.Choose(l("which"), len(el.Children))
		el.Children = append(append([]xmltree.Element{}, el.Children[:k]...), el.Children[k+1:]...)
		if len(el.Children) == 0 {
			el.Children, el.Content = nil, nil
		}
		return fmt.Sprintf("remove child %d of %d", k, i)
	case 4:
		if len(el.Children) == 0 {
			t.Skip()
		}
		k := t.Choose(l("which"), len(el.Children))
		c, d := newChild()
		el.Children[k] = c
		return fmt.Sprintf("replace child %d of %d by %s", k, i, d)
	case 5:
		nm := []xml.Name{{Space: "urn:u1", Local: "ren"}, {Space: "urn:u2", Local: "ren"}, {Local: "ren"}, {Space: "urn:new", Local: "ren"}}[t.Choose(l("rename"), 4)]
		el.Name = nm
		return fmt.Sprintf("rename %d to %v", i, nm)
	case 6:
		if len(el.Children) > 0 {
			t.Skip()
		}
		el.Content = []byte(t.Pick(l("text"), "new &lt;text&gt;", "", "<![CDATA[<]]>", " "))
		return fmt.Sprintf("content of %d := %q", i, el.Content)
	default:
		// move a child to the root's end
		if len(el.Children) == 0 || el == root {
			t.Skip()
		}
		k := t.Choose(l("which"), len(el.Children))
		c := deepCopy(&el.Children[k])
		el.Children = append(append([]xmltree.Element{}, el.Children[:k]...), el.Children[k+1:]...)
		if len(el.Children) == 0 {
			el.Children, el.Content = nil, nil
		}
		root.Children = append(root.Children, c)
		return fmt.Sprintf("move child %d of %d to the root", k, i)
	}
}

func c04() mc.Property {
	opts := func(max int) xmodel.Options {
		return xmodel.Options{MaxNodes: max, Shapes: true, Names: []string{"a", "p:a", "q:b"}, Decls: docDecls, Attrs: docAttrs,
			Raw: []string{"text", " ", "a &lt;b&gt; &amp;", "<![CDATA[<a>&]]>", "<!-- c -->", "two\nlines"}}
	}
	return mc.Property{
		ID: "C04", Quick: 40, Thorough: 1200,
		Assumptions: []string{
			"text interleaved with child elements is not part of the guarantee and not compared",
			"an element whose last child is removed has its content cleared by the caller",
			"attribute values hold only characters that XML 1.0 can represent",
		},
		Harnesses: []mc.Harness{
			{Name: "subtree", Bounds: [2]int{3, 4}, Weight: 2,
				About: "documents of up to 3 (thorough 4) elements with deviations in names, declarations, attributes, content; every element serialised on its own in five forms; oracle: deep capture of the live element against the reparsed output",
				Run: func(t *mc.T) {
					max := 3
					if t.Thorough {
						max = 4
					}
					n := xmodel.Gen(t, opts(max))
					if n == nil {
						t.Skip()
					}
					doc := n.Doc()
					els := elements(mustParse(t, doc))
					k := t.Free("element", len(els))
					t.Input(fmt.Sprintf("element %d of %s", k, doc))
					checkMarshal(t, fmt.Sprintf("element %d of %s", k, doc), els[k])
				}},
			{Name: "scopes", Bounds: [2]int{0, 0}, Weight: 1,
				About: "every assignment of 14 declaration sets to nested chains of 3, names and attributes of the innermost element in every namespace in scope; each element serialised on its own",
				Run: func(t *mc.T) {
					n := scopedTree(t, []int{-1, 0, 1}, true)
					last := n.All()[2]
					nm := t.Free("name", 4)
					last.Prefix = []string{"", "p", "q", ""}[nm]
					if nm > 0 && nm < 3 {
						last.Attrs = []attr{{Prefix: last.Prefix, Local: "k", Raw: "p:v", Value: "p:v"}}
					}
					n.Link(nil)
					if !n.Valid() {
						t.Skip()
					}
					doc := n.Doc()
					for i, el := range elements(mustParse(t, doc)) {
						checkMarshal(t, fmt.Sprintf("element %d of %s", i, doc), el)
					}
					t.Input(doc)
				}},
			{Name: "edits", Bounds: [2]int{3, 5}, Weight: 5,
				About: "one or two edits (set attribute, append, remove, replace, rename, content, move; children from the tree, from a foreign document or built by hand) on documents with deviations; each of the root and its children serialised",
				Run: func(t *mc.T) {
					base := t.Free("base", 4)
					var doc string
					switch base {
					case 0:
						n := xmodel.Gen(t, opts(3))
						if n == nil {
							t.Skip()
						}
						doc = n.Doc()
					case 1:
						doc = `<a xmlns="urn:u1" xmlns:p="urn:u2"><b p:x="1"><c/></b><p:d xmlns:p="urn:u1"><p:e/></p:d></a>`
					case 2:
						doc = `<p:a xmlns:p="urn:u1"><p:b xmlns="urn:u2" k="p:v"><c xmlns="">t</c></p:b><d/></p:a>`
					case 3:
						doc = `<a><b xmlns="urn:u1" xmlns:p="urn:u1" p:x="&lt;"><p:c xmlns:p="urn:u2" xmlns:q="urn:u1"><q:d/></p:c></b></a>`
					}
					root := mustParse(t, doc)
					desc := doc
					n := 1 + t.Choose("edits", 2)
					for i := 0; i < n; i++ {
						desc += "; " + edit(t, root, i)
						t.Step()
					}
					t.Input(desc)
					checkMarshal(t, desc, root)
					for i := range root.Children {
						checkMarshal(t, fmt.Sprintf("child %d after %s", i, desc), &root.Children[i])
					}
				}},
			{Name: "reparse", Bounds: [2]int{2, 3}, Weight: 1,
				About: "serialise, parse, edit, serialise again: histories chaining two round trips",
				Run: func(t *mc.T) {
					doc := t.FreePick("base",
						`<a xmlns="urn:u1" xmlns:p="urn:u2"><b p:x="1"><c/></b><p:d xmlns:p="urn:u1"><p:e/></p:d></a>`,
						`<p:a xmlns:p="urn:u1"><p:b xmlns="urn:u2" k="p:v"><c xmlns="">t</c></p:b><d/></p:a>`,
						`<a><b xmlns="urn:u1"><c k="1">x</c></b></a>`)
					root := mustParse(t, doc)
					desc := doc
					for i := 0; i < 2; i++ {
						desc += "; " + edit(t, root, i)
						checkMarshal(t, desc, root)
						root = mustParse(t, string(xmltree.Marshal(root)))
						t.Step()
					}
					t.Input(desc)
				}},
			bigMarshal(),
			{Name: "deep", Bounds: [2]int{0, 0}, Weight: 0.5,
				About: "nesting up to the parse limit survives serialisation",
				Run: func(t *mc.T) {
					d := []int{1, 100, 1000, 2000, 2900}[t.Free("depth", 5)]
					doc := strings.Repeat("<a>", d) + "x" + strings.Repeat("</a>", d)
					t.Input(fmt.Sprint("depth ", d))
					root := mustParse(t, doc)
					if out := xmltree.Marshal(root); string(out) != doc {
						t.Fail("nesting of %d: Marshal gave %d bytes, want the original %d", d, len(out), len(doc))
					}
				}},
		},
	}
}
