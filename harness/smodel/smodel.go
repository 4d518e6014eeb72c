// Package smodel is a reference model of XML Schema documents: abstract
// schemas, their rendering as XML in many presentations, and the types that
// a faithful reader of such a schema must record.
package smodel

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"strings"
)

// XS is the XML Schema namespace.
const XS = "http://www.w3.org/2001/XMLSchema"

type Name = xml.Name

func N(space, local string) Name { return Name{Space: space, Local: local} }
func X(local string) Name        { return Name{Space: XS, Local: local} }

// A Set is a collection of schemas that refer to each other.
type Set struct {
	Schemas   []*Schema
	QualAttrs map[string]bool // namespaces with attributeFormDefault="qualified"
}

// Schema holds the top-level components of one namespace.
type Schema struct {
	NS    string
	Items []Item
}

// Item is a top-level component; exactly one field is set.
type Item struct {
	Complex   *Complex
	Simple    *Simple
	Elem      *Elem
	Attr      *Attr
	Group     *Group
	AttrGroup *AttrGroup
}

// Rename gives a namespace another name.
func (set *Set) Rename(from, to string) {
	done := map[interface{}]bool{}
	name := func(n *Name) {
		if n.Space == from && n.Local != "" {
			n.Space = to
		}
	}
	var typ func(*Type)
	var content func(*Particle)
	attrs := func(l []Attr) {
		for i := range l {
			name(&l[i].Ref)
			name(&l[i].Group)
			typ(&l[i].Type)
		}
	}
	complex := func(c *Complex) {
		if c == nil || done[c] {
			return
		}
		done[c] = true
		name(&c.Base)
		content(c.Content)
		attrs(c.Attrs)
	}
	simple := func(s *Simple) {
		if s == nil || done[s] {
			return
		}
		done[s] = true
		typ(&s.Base)
		for i := range s.Members {
			typ(&s.Members[i])
		}
	}
	typ = func(t *Type) {
		name(&t.Ref)
		complex(t.C)
		simple(t.S)
	}
	elem := func(e *Elem) {
		if e == nil || done[e] {
			return
		}
		done[e] = true
		name(&e.Ref)
		typ(&e.Type)
	}
	content = func(p *Particle) {
		if p == nil || done[p] {
			return
		}
		done[p] = true
		elem(p.Elem)
		name(&p.Ref)
		for _, k := range p.Kids {
			content(k)
		}
	}
	for _, s := range set.Schemas {
		if s.NS == from {
			s.NS = to
		}
		for _, it := range s.Items {
			complex(it.Complex)
			simple(it.Simple)
			elem(it.Elem)
			if a := it.Attr; a != nil && !done[a] {
				done[a] = true
				typ(&a.Type)
			}
			if g := it.Group; g != nil {
				content(g.Content)
			}
			if g := it.AttrGroup; g != nil && !done[g] {
				done[g] = true
				attrs(g.Attrs)
			}
		}
	}
	if set.QualAttrs[from] {
		delete(set.QualAttrs, from)
		set.QualAttrs[to] = true
	}
}

// Type is a reference to a named type or an in-line definition. The zero
// Type means that no type is given.
type Type struct {
	Ref Name
	C   *Complex
	S   *Simple
}

func Ref(n Name) Type               { return Type{Ref: n} }
func (t Type) None() bool           { return t.Ref == Name{} && t.C == nil && t.S == nil }
func (t Type) Inline() bool         { return t.C != nil || t.S != nil }
func CType(c *Complex) Type         { return Type{C: c} }
func SType(s *Simple) Type          { return Type{S: s} }
func (s *Schema) Add(items ...Item) { s.Items = append(s.Items, items...) }

// How a complex type is defined.
const (
	Short    = ""      // the short form of a restriction of anyType
	CExtends = "cext"  // complexContent, extension
	CRestr   = "crest" // complexContent, restriction
	SExtends = "sext"  // simpleContent, extension
	SRestr   = "srest" // simpleContent, restriction
)

type Complex struct {
	Name         string
	Doc          []string
	Abstract     bool
	Mixed        bool
	MixedContent string   // mixed= on complexContent
	ContentDoc   []string // documentation of the complexContent or simpleContent
	Derive       string
	Base         Name
	Content      *Particle
	Attrs        []Attr
	AnyAttr      bool
	Facets       []Facet
}

// Particle kinds.
const (
	Seq    = "sequence"
	Choice = "choice"
	All    = "all"
	Leaf   = "element"
	Any    = "any"
	GRef   = "group"
)

type Particle struct {
	Kind     string
	Min, Max string // as written; "" is absent
	Kids     []*Particle
	Elem     *Elem
	Ref      Name // group reference
}

type Elem struct {
	Name     string
	Ref      Name
	Type     Type
	Default  string
	Nillable string
	Abstract string
	Doc      []string
}

type Attr struct {
	Name    string
	Ref     Name
	Group   Name // reference to an attribute group
	Type    Type
	Default string
	Use     string
	Form    string
	Doc     []string
}

type Group struct {
	Name    string
	Content *Particle
}

type AttrGroup struct {
	Name  string
	Attrs []Attr
}

type Facet struct{ Name, Value string }

type Simple struct {
	Name     string
	Doc      []string
	Kind     string // restriction, list, union
	Base     Type   // also the item type of a list
	Members  []Type
	Facets   []Facet
	RestrDoc []string // documentation of the restriction
}

// Pres is a way of writing a schema down.
type Pres struct {
	XS       string            // prefix of the schema namespace, "" for the default namespace
	NS       map[string]string // prefixes of other namespaces; default is a generated one
	Local    bool              // declare namespaces on each component, not on the root
	Inner    bool              // declare namespaces on every element that uses one
	Shift    bool              // every element gives the prefixes other meanings
	Explicit bool              // spell out the short form of complex types
	Indent   bool
	Comments bool
	Digits   bool // 1 and 0 for true and false
	Single   bool // single quotes
	Pad      bool // white space around attribute values that collapse
	Defaults bool // spell out attribute defaults such as minOccurs="1"
	Wrap     bool // put the schema inside another document
	Together bool // put all schemas inside one document
	Encoding string
	Split    int     // first Split items in one document, others in another; 0: do not split
	SplitNS  string  // namespace to split; "" with Split>0 splits each
	Order    []int   // order of the items (per schema, where the length fits)
	DocOrder []int   // order of the documents
	Foreign  bool    // foreign attributes and an appinfo annotation everywhere
	Imports  bool    // write import and include elements
	Ann      bool    // unused
	_        [0]byte // keep comparable use of literals keyed
}

type writer struct {
	b     strings.Builder
	p     *Pres
	tns   string
	depth int
	auto  map[string]string
	pool  []string // namespaces that exchange their prefixes
	rot   int
}

func (w *writer) prefix(ns string) string {
	if w.p.Shift {
		for i, n := range w.pool {
			if n == ns {
				ns = w.pool[(i+w.rot)%len(w.pool)]
				break
			}
		}
	}
	switch ns {
	case XS:
		return w.p.XS
	case "":
		return ""
	case "http://www.w3.org/XML/1998/namespace":
		return "xml"
	}
	if p, ok := w.p.NS[ns]; ok {
		return p
	}
	if w.auto == nil {
		w.auto = map[string]string{}
	}
	p, ok := w.auto[ns]
	if !ok {
		p = fmt.Sprintf("n%d", len(w.auto)+1)
		w.auto[ns] = p
	}
	return p
}

func (w *writer) q(n Name) string {
	if p := w.prefix(n.Space); p != "" {
		return p + ":" + n.Local
	}
	return n.Local
}

// Esc escapes text for use in an attribute value or in content.
func Esc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&#34;", "'", "&#39;", "\n", "&#xA;", "\r", "&#xD;", "\t", "&#x9;").Replace(s)
}

func escText(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\r", "&#xD;").Replace(s)
}

var collapsing = map[string]bool{"type": true, "base": true, "ref": true, "name": true, "itemType": true, "memberTypes": true,
	"minOccurs": true, "maxOccurs": true, "use": true, "nillable": true, "abstract": true, "mixed": true}

func (w *writer) nl() {
	if w.p.Indent {
		w.b.WriteString("\n" + strings.Repeat("  ", w.depth))
	}
}

// silent are the components that have no documentation of their own; an
// annotation of them means nothing.
var silent = map[string]bool{"extension": true, "sequence": true, "choice": true, "all": true, "any": true, "group": true, "attributeGroup": true,
	"anyAttribute": true, "list": true, "union": true, "import": true, "include": true, "pattern": true, "enumeration": true, "length": true,
	"minLength": true, "maxLength": true, "minInclusive": true, "maxInclusive": true, "minExclusive": true, "maxExclusive": true,
	"totalDigits": true, "fractionDigits": true, "whiteSpace": true}

// el writes an element of the schema namespace. attrs are name, value pairs;
// absent ones have the value "\x00".
func (w *writer) el(name string, attrs []string, uses []string, kids func()) {
	w.nl()
	if w.p.Comments {
		w.b.WriteString("<!-- <" + name + "> -->")
	}
	qn := w.q(X(name))
	w.b.WriteString("<" + qn)
	quote := `"`
	if w.p.Single {
		quote = "'"
	}
	if w.p.Shift {
		for _, ns := range w.pool {
			w.decl(ns, quote)
		}
	}
	if w.p.Inner {
		seen := map[string]bool{}
		for _, ns := range append([]string{XS, w.tns}, uses...) {
			if ns == "" || ns == "http://www.w3.org/XML/1998/namespace" || seen[ns] {
				continue
			}
			seen[ns] = true
			w.decl(ns, quote)
		}
	}
	for i := 0; i+1 < len(attrs); i += 2 {
		if attrs[i+1] == "\x00" {
			continue
		}
		v := Esc(attrs[i+1])
		if w.p.Pad && collapsing[attrs[i]] {
			v = " " + v + "\n"
		}
		w.b.WriteString(" " + attrs[i] + "=" + quote + v + quote)
	}
	if w.p.Foreign {
		// Attributes of another namespace, some with the names of those that
		// are there. (Before them, or without them, see the findings of C14.)
		for i := 0; i+1 < len(attrs); i += 2 {
			if attrs[i+1] != "\x00" && !strings.Contains(attrs[i], ":") && attrs[i] != "xmlns" && attrs[i] != "ref" {
				w.b.WriteString(" f:" + attrs[i] + "='ghost'")
			}
		}
		form := " f:form='qualified'"
		for i := 0; i+1 < len(attrs); i += 2 {
			if attrs[i] == "form" && attrs[i+1] != "\x00" {
				form = ""
			}
		}
		w.b.WriteString(form + " id='i" + fmt.Sprint(w.b.Len()) + "' f:extra='x' xmlns:f='urn:foreign'")
	}
	if kids == nil && w.p.Foreign && silent[name] {
		kids = func() {}
	}
	if kids == nil {
		w.b.WriteString("/>")
		return
	}
	w.b.WriteString(">")
	w.depth++
	w.rot++
	if w.p.Foreign && silent[name] {
		w.doc(nil)
	}
	kids()
	w.depth--
	w.rot--
	w.nl()
	w.b.WriteString("</" + qn + ">")
}

func (w *writer) decl(ns, quote string) {
	p := w.prefix(ns)
	if p == "" {
		w.b.WriteString(" xmlns=" + quote + Esc(ns) + quote)
	} else {
		w.b.WriteString(" xmlns:" + p + "=" + quote + Esc(ns) + quote)
	}
}

const none = "\x00"

func opt(s string) string {
	if s == "" {
		return none
	}
	return s
}

func (w *writer) boolean(b bool) string {
	switch {
	case b && w.p.Digits:
		return "1"
	case b:
		return "true"
	case w.p.Defaults && w.p.Digits:
		return "0"
	case w.p.Defaults:
		return "false"
	}
	return none
}

func (w *writer) boolText(s string) string {
	switch {
	case s == "true" && w.p.Digits:
		return "1"
	case s == "false" && w.p.Digits:
		return "0"
	case s == "" && w.p.Defaults:
		return "false"
	}
	return opt(s)
}

// Declarations that are not part of the schema, as they are within an
// annotation.
const ghost = `<g:complexType xmlns:g="` + XS + `" name="ghost"><g:sequence><g:element name="ghost" type="g:int"/>` +
	`<g:element ref="ghost"/><g:any/></g:sequence><g:attribute name="ghost"/></g:complexType>` +
	`<g:enumeration xmlns:g="` + XS + `" value="ghost"/>`

func (w *writer) doc(doc []string) {
	if len(doc) == 0 && !w.p.Foreign {
		return
	}
	w.el("annotation", nil, nil, func() {
		if w.p.Foreign {
			w.el("appinfo", []string{"source", "urn:x"}, nil, func() { w.b.WriteString("<tool xmlns='urn:foreign'>hint</tool>" + ghost) })
		}
		for _, d := range doc {
			w.el("documentation", nil, nil, func() {
				w.b.WriteString(escText(d))
				if w.p.Foreign {
					w.b.WriteString(ghost)
				}
			})
		}
		if w.p.Foreign {
			w.el("appinfo", nil, nil, nil)
		}
	})
}

func (w *writer) ref(n Name) string {
	if (n == Name{}) {
		return none
	}
	return w.q(n)
}

func (w *writer) inline(t Type) {
	if t.C != nil {
		w.complex(t.C)
	}
	if t.S != nil {
		w.simple(t.S)
	}
}

func (w *writer) complex(c *Complex) {
	w.el("complexType", []string{"name", opt(c.Name), "abstract", w.boolean(c.Abstract), "mixed", w.boolean(c.Mixed)}, nil, func() {
		w.doc(c.Doc)
		body := func() {
			for _, f := range c.Facets {
				w.el(f.Name, []string{"value", f.Value}, nil, nil)
			}
			if c.Content != nil {
				w.particle(c.Content)
			}
			w.attrs(c.Attrs)
			if c.AnyAttr {
				w.el("anyAttribute", nil, nil, nil)
			}
		}
		derive, base := c.Derive, c.Base
		if derive == Short {
			if !w.p.Explicit {
				body()
				return
			}
			derive, base = CRestr, X("anyType")
		}
		outer, inner := "complexContent", "restriction"
		if derive == SExtends || derive == SRestr {
			outer = "simpleContent"
		}
		if derive == SExtends || derive == CExtends {
			inner = "extension"
		}
		var attrs []string
		if outer == "complexContent" {
			attrs = []string{"mixed", w.boolText2(c.MixedContent)}
		}
		w.el(outer, attrs, nil, func() {
			w.doc(c.ContentDoc)
			w.el(inner, []string{"base", w.ref(base)}, []string{base.Space}, func() {
				if w.p.Foreign && inner == "restriction" {
					w.doc(nil)
				}
				body()
			})
		})
	})
}

func (w *writer) boolText2(s string) string {
	if s == "" {
		return none
	}
	return w.boolText(s)
}

func (w *writer) occurs(p *Particle) []string {
	min, max := opt(p.Min), opt(p.Max)
	if w.p.Defaults {
		if p.Min == "" {
			min = "1"
		}
		if p.Max == "" {
			max = "1"
		}
	}
	return []string{"minOccurs", min, "maxOccurs", max}
}

func (w *writer) particle(p *Particle) {
	switch p.Kind {
	case Leaf:
		w.elem(p.Elem, w.occurs(p))
	case Any:
		w.el("any", append(w.occurs(p), "processContents", "lax"), nil, nil)
	case GRef:
		w.el("group", append([]string{"ref", w.ref(p.Ref)}, w.occurs(p)...), []string{p.Ref.Space}, nil)
	default:
		w.el(p.Kind, w.occurs(p), nil, func() {
			for _, k := range p.Kids {
				w.particle(k)
			}
		})
	}
}

func (w *writer) elem(e *Elem, occurs []string) {
	nillable, abstract := w.boolText(e.Nillable), w.boolText(e.Abstract)
	if (e.Ref != Name{}) {
		// only a declaration can carry these
		nillable, abstract = none, none
	} else if occurs != nil {
		abstract = none
	}
	attrs := append([]string{"name", opt(e.Name), "ref", w.ref(e.Ref), "type", w.ref(e.Type.Ref),
		"default", opt(e.Default), "nillable", nillable, "abstract", abstract}, occurs...)
	var kids func()
	if len(e.Doc) > 0 || e.Type.Inline() || w.p.Foreign {
		kids = func() { w.doc(e.Doc); w.inline(e.Type) }
	}
	w.el("element", attrs, []string{e.Ref.Space, e.Type.Ref.Space}, kids)
}

func (w *writer) attrs(attrs []Attr) {
	for _, a := range attrs {
		if (a.Group != Name{}) {
			w.el("attributeGroup", []string{"ref", w.ref(a.Group)}, []string{a.Group.Space}, nil)
			continue
		}
		w.attr(a)
	}
}

func (w *writer) attr(a Attr) {
	var kids func()
	if len(a.Doc) > 0 || a.Type.Inline() || w.p.Foreign {
		kids = func() { w.doc(a.Doc); w.inline(a.Type) }
	}
	w.el("attribute", []string{"name", opt(a.Name), "ref", w.ref(a.Ref), "type", w.ref(a.Type.Ref), "default", opt(a.Default), "use", opt(a.Use), "form", opt(a.Form)},
		[]string{a.Ref.Space, a.Type.Ref.Space}, kids)
}

func (w *writer) simple(s *Simple) {
	w.el("simpleType", []string{"name", opt(s.Name)}, nil, func() {
		w.doc(s.Doc)
		switch s.Kind {
		case "restriction":
			var kids func()
			if s.Base.Inline() || len(s.Facets) > 0 || len(s.RestrDoc) > 0 || w.p.Foreign {
				kids = func() {
					w.doc(s.RestrDoc)
					w.inline(s.Base)
					for _, f := range s.Facets {
						w.el(f.Name, []string{"value", f.Value}, nil, nil)
					}
				}
			}
			w.el("restriction", []string{"base", w.ref(s.Base.Ref)}, []string{s.Base.Ref.Space}, kids)
		case "list":
			var kids func()
			if s.Base.Inline() {
				kids = func() { w.inline(s.Base) }
			}
			w.el("list", []string{"itemType", w.ref(s.Base.Ref)}, []string{s.Base.Ref.Space}, kids)
		case "union":
			var names, uses []string
			var inl []Type
			for _, m := range s.Members {
				if m.Inline() {
					inl = append(inl, m)
				} else {
					names = append(names, w.q(m.Ref))
					uses = append(uses, m.Ref.Space)
				}
			}
			var kids func()
			if len(inl) > 0 {
				kids = func() {
					for _, m := range inl {
						w.inline(m)
					}
				}
			}
			w.el("union", []string{"memberTypes", opt(strings.Join(names, " "))}, uses, kids)
		}
	})
}

func (w *writer) item(it Item) {
	switch {
	case it.Complex != nil:
		w.complex(it.Complex)
	case it.Simple != nil:
		w.simple(it.Simple)
	case it.Elem != nil:
		w.elem(it.Elem, nil)
	case it.Attr != nil:
		w.attr(*it.Attr)
	case it.Group != nil:
		w.el("group", []string{"name", it.Group.Name}, nil, func() { w.particle(it.Group.Content) })
	case it.AttrGroup != nil:
		w.el("attributeGroup", []string{"name", it.AttrGroup.Name}, nil, func() { w.attrs(it.AttrGroup.Attrs) })
	}
}

// Docs renders the set.
func (set *Set) Docs(p *Pres) [][]byte {
	if p == nil {
		p = &Pres{XS: "xs"}
	}
	var docs [][]byte
	for _, s := range set.Schemas {
		items := s.Items
		if len(p.Order) == len(items) {
			items = nil
			for _, i := range p.Order {
				items = append(items, s.Items[i])
			}
		}
		if p.Split > 0 && p.Split < len(items) && (p.SplitNS == "" || p.SplitNS == s.NS) {
			docs = append(docs, set.doc(p, s.NS, items[:p.Split]), set.doc(p, s.NS, items[p.Split:]))
		} else {
			docs = append(docs, set.doc(p, s.NS, items))
		}
	}
	if len(p.DocOrder) == len(docs) {
		var out [][]byte
		for _, i := range p.DocOrder {
			out = append(out, docs[i])
		}
		docs = out
	}
	if p.Together && p.Encoding == "" {
		// All schemas in one document, beside and below one another.
		all := []byte("<w:types xmlns:w='urn:wrapper'>")
		for i, d := range docs {
			d = d[bytes.Index(d, []byte("?>"))+2:]
			if i%2 == 1 {
				d = append(append([]byte("<w:more>"), d...), "</w:more>"...)
			}
			all = append(all, d...)
		}
		docs = [][]byte{append(all, "</w:types>"...)}
	}
	return docs
}

func (set *Set) doc(p *Pres, tns string, items []Item) []byte {
	w := &writer{p: p, tns: tns}
	quote := `"`
	if p.Single {
		quote = "'"
	}
	enc := p.Encoding
	if enc == "" {
		enc = "UTF-8"
	}
	w.b.WriteString("<?xml version=\"1.0\" encoding=\"" + enc + "\"?>\n")
	decls := func() {
		w.decl(XS, quote)
		for _, s := range set.Schemas {
			if s.NS != "" {
				w.decl(s.NS, quote)
			}
		}
	}
	w.pool = []string{XS}
	for _, s := range set.Schemas {
		if s.NS != "" {
			w.pool = append(w.pool, s.NS)
		}
	}
	root := w.q(X("schema"))
	wrap := "types"
	if p.Wrap {
		if p.XS != "" && !p.Inner && hasDefault(p, set) {
			wrap = "w:types"
			w.b.WriteString("<w:types xmlns:w='urn:wrapper'")
		} else {
			w.b.WriteString("<types xmlns='urn:wrapper'")
		}
		if p.XS != "" && !p.Inner {
			decls()
		}
		w.b.WriteString("><other/>")
	}
	w.b.WriteString("<" + root)
	switch {
	case p.Local || p.Inner:
		w.decl(XS, quote)
		if p.Wrap && p.XS != "" {
			w.b.WriteString(" xmlns=" + quote + quote)
		}
	case !p.Wrap || p.XS == "":
		decls()
	}
	if p.Wrap && !p.Local && !p.Inner && p.XS != "" && !hasDefault(p, set) {
		w.b.WriteString(" xmlns=" + quote + quote)
	}
	if tns != "" {
		w.b.WriteString(" targetNamespace=" + quote + Esc(tns) + quote)
	}
	if set.QualAttrs[tns] {
		w.b.WriteString(" attributeFormDefault=" + quote + "qualified" + quote)
	}
	w.b.WriteString(" elementFormDefault=" + quote + "qualified" + quote + ">")
	w.depth, w.rot = 1, 1
	if p.Imports {
		for _, s := range set.Schemas {
			if s.NS != tns {
				w.el("import", []string{"namespace", opt(s.NS)}, nil, nil)
			}
		}
	}
	for _, it := range items {
		if p.Local {
			// a component in a document of its own scope
			w.localItem(set, it)
			continue
		}
		w.item(it)
	}
	w.depth = 0
	w.nl()
	w.b.WriteString("</" + root + ">")
	if p.Wrap {
		w.b.WriteString("</" + wrap + ">")
	}
	return encode(w.b.String(), enc)
}

// localItem declares the namespaces on the component itself.
func (w *writer) localItem(set *Set, it Item) {
	start := w.b.Len()
	w.item(it)
	s := w.b.String()
	head, body := s[:start], s[start:]
	open := "<" + w.q(X(itemName(it)))
	i := strings.Index(body, open+" ")
	if i < 0 {
		return
	}
	var d strings.Builder
	for _, sc := range set.Schemas {
		if sc.NS != "" {
			if p := w.prefix(sc.NS); p == "" {
				fmt.Fprintf(&d, " xmlns=%q", sc.NS)
			} else {
				fmt.Fprintf(&d, " xmlns:%s=%q", p, sc.NS)
			}
		}
	}
	body = body[:i+len(open)] + d.String() + body[i+len(open):]
	w.b.Reset()
	w.b.WriteString(head + body)
}

func itemName(it Item) string {
	switch {
	case it.Complex != nil:
		return "complexType"
	case it.Simple != nil:
		return "simpleType"
	case it.Elem != nil:
		return "element"
	case it.Attr != nil:
		return "attribute"
	case it.Group != nil:
		return "group"
	}
	return "attributeGroup"
}

func hasDefault(p *Pres, set *Set) bool {
	for _, s := range set.Schemas {
		if v, ok := p.NS[s.NS]; ok && v == "" && s.NS != "" {
			return true
		}
	}
	return false
}

func encode(s, enc string) []byte {
	switch strings.ToUpper(enc) {
	case "ISO-8859-1":
		var out []byte
		for _, r := range s {
			if r < 256 {
				out = append(out, byte(r))
			} else {
				out = append(out, fmt.Sprintf("&#%d;", r)...)
			}
		}
		return out
	}
	return []byte(s)
}

// Text renders the set for messages.
func Text(docs [][]byte) string {
	var s []string
	for _, d := range docs {
		s = append(s, string(d))
	}
	return strings.Join(s, "\n")
}
