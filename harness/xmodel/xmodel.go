// Package xmodel is a reference model of XML documents: documents are
// built from choices, rendered by code that shares nothing with the library
// under test, and every fact the library should report is known from the
// construction.
package xmodel

import (
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/mc"
	"aqwari.net/xml/xmltree"
)

// Decl is a namespace declaration; Prefix "" is the default namespace.
type Decl struct{ Prefix, URI string }

// Attr is an attribute as written and as it should be reported.
type Attr struct {
	Prefix, Local, Raw, Value string
	Space                     string
	Quote                     byte
}

// Item is either a child element or raw markup.
type Item struct {
	El  *Node
	Raw string
}

// Node is an element of the model.
type Node struct {
	Prefix, Local string
	Decls         []Decl
	Attrs         []Attr
	DeclsLast     bool
	Items         []Item
	SelfClose     bool
	EndSpace      bool

	Parent     *Node
	Space      string
	Begin, End int // offsets of the content in the rendered document
	Content    string
}

// Lookup is the model of namespace scoping.
func (n *Node) Lookup(prefix string) (string, bool) {
	switch prefix {
	case "xml":
		return "http://www.w3.org/XML/1998/namespace", true
	case "xmlns":
		return "http://www.w3.org/2000/xmlns/", true
	}
	for e := n; e != nil; e = e.Parent {
		for _, d := range e.Decls {
			if d.Prefix == prefix {
				return d.URI, true
			}
		}
	}
	return "", false
}

// Resolve is the model of qualified name resolution.
func (n *Node) Resolve(qname string) (xml.Name, bool) {
	prefix, local := "", qname
	if i := strings.IndexByte(qname, ':'); i >= 0 {
		prefix, local = qname[:i], qname[i+1:]
	}
	uri, ok := n.Lookup(prefix)
	if !ok {
		return xml.Name{Space: prefix, Local: local}, false
	}
	return xml.Name{Space: uri, Local: local}, true
}

// Visible returns the namespace names bound by an unshadowed declaration,
// without the reserved ones.
func (n *Node) Visible() map[string][]string {
	out := map[string][]string{}
	seen := map[string]bool{}
	for e := n; e != nil; e = e.Parent {
		for _, d := range e.Decls {
			if !seen[d.Prefix] {
				seen[d.Prefix] = true
				out[d.URI] = append(out[d.URI], d.Prefix)
			}
		}
	}
	return out
}

// Kids returns the child elements.
func (n *Node) Kids() []*Node {
	var out []*Node
	for _, it := range n.Items {
		if it.El != nil {
			out = append(out, it.El)
		}
	}
	return out
}

// All lists n and its descendants in document order.
func (n *Node) All() []*Node {
	out := []*Node{n}
	for _, k := range n.Kids() {
		out = append(out, k.All()...)
	}
	return out
}

// Valid reports whether every prefix in use is declared.
func (n *Node) Valid() bool {
	for _, e := range n.All() {
		if e.Prefix != "" {
			if _, ok := e.Lookup(e.Prefix); !ok {
				return false
			}
		}
		seen := map[xml.Name]bool{}
		for _, a := range e.Attrs {
			nm := xml.Name{Local: a.Local}
			if a.Prefix != "" {
				u, ok := e.Lookup(a.Prefix)
				if !ok {
					return false
				}
				nm.Space = u
			}
			if seen[nm] {
				return false
			}
			seen[nm] = true
		}
	}
	return true
}

// Link sets parents and namespaces after construction.
func (n *Node) Link(parent *Node) *Node {
	n.Parent = parent
	u, _ := n.Lookup(n.Prefix)
	n.Space = u
	for i := range n.Attrs {
		n.Attrs[i].Space = ""
		if p := n.Attrs[i].Prefix; p != "" {
			n.Attrs[i].Space, _ = n.Lookup(p)
		}
	}
	for _, k := range n.Kids() {
		k.Link(n)
	}
	return n
}

func qname(prefix, local string) string {
	if prefix == "" {
		return local
	}
	return prefix + ":" + local
}

// Render writes the document and records where content lies.
func (n *Node) Render(b *strings.Builder) {
	b.WriteString("<" + qname(n.Prefix, n.Local))
	decls := func() {
		for _, d := range n.Decls {
			if d.Prefix == "" {
				fmt.Fprintf(b, " xmlns=%q", d.URI)
			} else {
				fmt.Fprintf(b, " xmlns:%s=%q", d.Prefix, d.URI)
			}
		}
	}
	if !n.DeclsLast {
		decls()
	}
	for _, a := range n.Attrs {
		q := a.Quote
		if q == 0 {
			q = '"'
		}
		fmt.Fprintf(b, " %s=%c%s%c", qname(a.Prefix, a.Local), q, a.Raw, q)
	}
	if n.DeclsLast {
		decls()
	}
	if n.SelfClose && len(n.Items) == 0 {
		b.WriteString("/>")
		n.Begin, n.End = b.Len(), b.Len()
		n.Content = ""
		return
	}
	b.WriteString(">")
	n.Begin = b.Len()
	for _, it := range n.Items {
		if it.El != nil {
			it.El.Render(b)
		} else {
			b.WriteString(it.Raw)
		}
	}
	n.End = b.Len()
	n.Content = b.String()[n.Begin:n.End]
	b.WriteString("</" + qname(n.Prefix, n.Local))
	if n.EndSpace {
		b.WriteString(" ")
	}
	b.WriteString(">")
}

// Doc renders n as a document.
func (n *Node) Doc() string {
	var b strings.Builder
	n.Link(n.Parent)
	n.Render(&b)
	return b.String()
}

// Diff compares a parsed element with the model and describes the first
// difference.
func Diff(n *Node, el *xmltree.Element, content bool) string {
	at := "<" + qname(n.Prefix, n.Local) + ">"
	if el.Name != (xml.Name{Space: n.Space, Local: n.Local}) {
		return fmt.Sprintf("%s has name %v, want {%s %s}", at, el.Name, n.Space, n.Local)
	}
	if len(el.StartElement.Attr) != len(n.Attrs) {
		return fmt.Sprintf("%s has attributes %v, want %v", at, el.StartElement.Attr, n.Attrs)
	}
	for i, a := range n.Attrs {
		g := el.StartElement.Attr[i]
		if g.Name != (xml.Name{Space: a.Space, Local: a.Local}) || g.Value != a.Value {
			return fmt.Sprintf("%s attribute %d is %v, want {%s %s}=%q", at, i, g, a.Space, a.Local, a.Value)
		}
	}
	if content && string(el.Content) != n.Content {
		return fmt.Sprintf("%s has content %q, want %q", at, trunc(string(el.Content)), trunc(n.Content))
	}
	kids := n.Kids()
	if len(el.Children) != len(kids) {
		return fmt.Sprintf("%s has %d children, want %d", at, len(el.Children), len(kids))
	}
	for i, k := range kids {
		if d := Diff(k, &el.Children[i], content); d != "" {
			return at + d
		}
	}
	return ""
}

func trunc(s string) string {
	if len(s) > 300 {
		return s[:140] + " ... " + s[len(s)-140:]
	}
	return s
}

// Snapshot is a deep textual copy of everything a user can observe of a tree.
func Snapshot(el *xmltree.Element, qnames ...string) string {
	var b strings.Builder
	var walk func(e *xmltree.Element)
	walk = func(e *xmltree.Element) {
		fmt.Fprintf(&b, "(%q %q", e.Name.Space, e.Name.Local)
		for _, a := range e.StartElement.Attr {
			fmt.Fprintf(&b, " [%q %q %q]", a.Name.Space, a.Name.Local, a.Value)
		}
		fmt.Fprintf(&b, " {%q}", e.Content)
		for _, q := range qnames {
			n, ok := e.ResolveNS(q)
			fmt.Fprintf(&b, " %q%v", n.Space, ok)
		}
		for i := range e.Children {
			walk(&e.Children[i])
		}
		b.WriteString(")")
	}
	walk(el)
	return b.String()
}

// Shapes lists all ordered tree shapes with exactly n nodes, as the parent
// index of every node in document order.
func Shapes(n int) [][]int {
	var out [][]int
	var rec func(parents []int)
	rec = func(parents []int) {
		if len(parents) == n {
			out = append(out, append([]int{}, parents...))
			return
		}
		// the next node hangs off the previous node or one of its ancestors
		p := len(parents) - 1
		for p >= 0 {
			rec(append(append([]int{}, parents...), p))
			p = parents[p]
		}
	}
	rec([]int{-1})
	return out
}

// Options bound the generator.
type Options struct {
	MaxNodes int
	Names    []string // element names, prefix:local
	Decls    [][]Decl
	Attrs    [][]Attr
	Raw      []string // raw markup placed between elements or as leaf content
	Free     bool     // every choice is free
	NoMixed  bool     // raw markup only in leaves
	Shapes   bool     // shape is a free choice
}

// Gen builds a document from choices. It returns nil if the choices do not
// give a namespace-well-formed document.
func Gen(t *mc.T, o Options) *Node {
	ch := t.Choose
	if o.Free {
		ch = t.Free
	}
	var shapes [][]int
	for n := 1; n <= o.MaxNodes; n++ {
		shapes = append(shapes, Shapes(n)...)
	}
	var shape []int
	if o.Shapes {
		shape = shapes[t.Free("shape", len(shapes))]
	} else {
		shape = shapes[ch("shape", len(shapes))]
	}
	nodes := make([]*Node, len(shape))
	leaf := make([]bool, len(shape))
	for i := range leaf {
		leaf[i] = true
	}
	for _, p := range shape {
		if p >= 0 {
			leaf[p] = false
		}
	}
	raw := func(n *Node, what string) {
		if len(o.Raw) == 0 {
			return
		}
		if k := ch(what, len(o.Raw)+1); k > 0 {
			n.Items = append(n.Items, Item{Raw: o.Raw[k-1]})
		}
	}
	for i, p := range shape {
		n := &Node{}
		nodes[i] = n
		if len(o.Decls) > 0 {
			n.Decls = o.Decls[ch(fmt.Sprintf("decls%d", i), len(o.Decls))]
		}
		q := o.Names[ch(fmt.Sprintf("name%d", i), len(o.Names))]
		n.Local = q
		if j := strings.IndexByte(q, ':'); j >= 0 {
			n.Prefix, n.Local = q[:j], q[j+1:]
		}
		if len(o.Attrs) > 0 {
			n.Attrs = append([]Attr{}, o.Attrs[ch(fmt.Sprintf("attrs%d", i), len(o.Attrs))]...)
		}
		if p >= 0 {
			nodes[p].Items = append(nodes[p].Items, Item{El: n})
			if !o.NoMixed {
				raw(nodes[p], fmt.Sprintf("after%d", i))
			}
		}
		if leaf[i] || !o.NoMixed {
			raw(n, fmt.Sprintf("content%d", i))
		}
		if len(n.Items) == 0 && leaf[i] {
			n.SelfClose = true
		}
	}
	root := nodes[0]
	root.Link(nil)
	if !root.Valid() {
		return nil
	}
	return root
}
