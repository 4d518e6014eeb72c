package main

import (
	"encoding/xml"
	"fmt"
	"io"
	"strconv"
	"strings"

	"aqwari.net/xml/verif/mc"
	. "aqwari.net/xml/verif/smodel"
)

// expect is a value that a document gives.
type expect struct {
	path    string
	builtin string
	list    bool
	lex     string
	omit    bool // a zero value may be left out
	loose   bool // a reference to a top-level attribute: known finding
	attr    bool
}

// instance is a document that is valid against a type of a schema set.
type instance struct {
	t    *mc.T
	m    *matcher
	x    *Index
	b    strings.Builder
	want []expect
	// how it is written
	style  int
	depth  int
	ignore map[string]bool
	reject string // why the document is out of scope
	// order has the names of the children of elements whose content is a
	// sequence in which every name has one place
	order map[string][][]Name
}

const xsi = "http://www.w3.org/2001/XMLSchema-instance"

// document draws a document for the named type.
func document(t *mc.T, x *Index, ignore []string, n Name) (string, []expect, map[string][][]Name) {
	in := &instance{order: map[string][][]Name{}, t: t, x: x, m: &matcher{t: t, x: x}, ignore: map[string]bool{}}
	for _, a := range ignore {
		in.ignore[a] = true
	}
	in.style = t.Choose("presentation", 6)
	in.b.WriteString(`<v-a:root xmlns:v-a="` + NSA + `" xmlns:v-b="` + NSB + `" xmlns:v-c="urn:c" xmlns:v-xsi="` + xsi + `"`)
	if s := x.Simple[n]; s != nil {
		in.b.WriteString(">")
		in.text(Ref(n), "", false, false)
	} else {
		in.complex(x.Complex[n], n.Space, "", false)
	}
	in.b.WriteString("</v-a:root>")
	return in.b.String(), in.want, in.order
}

func (in *instance) prefix(ns string) string {
	switch ns {
	case NSA:
		return "v-a:"
	case NSB:
		return "v-b:"
	case "urn:c":
		return "v-c:"
	}
	return ""
}

func (in *instance) nl() {
	if in.style == 1 {
		in.b.WriteString("\n" + strings.Repeat("  ", in.depth))
	}
	if in.style == 2 {
		in.b.WriteString("<!-- <x>&amp; --><?pi x?>")
	}
}

// scalar describes what a simple type is made of.
func (in *instance) scalar(t Type) (builtin string, list bool) {
	b, l, u := in.m.root(t)
	switch {
	case u != nil:
		return "string", false
	case l != nil:
		ib, il, iu := in.m.root(l.Base)
		if il != nil {
			in.t.Skip()
		}
		if iu != nil || ib == "QName" {
			ib = "NMTOKEN"
		}
		return ib, true
	}
	return b, listBuiltin(b)
}

// values lists lexical forms of a type that its facets admit.
func (in *instance) values(t Type) (vals []string, builtin string, list bool) {
	builtin, list = in.scalar(t)
	if builtin == "" {
		in.t.Skip()
	}
	// collect the facets along the chain of restrictions
	var enum []string
	minLen, maxLen := 0, -1
	min := ""
	items := t
	for i := 0; i < 20; i++ {
		s := items.S
		if s == nil {
			s = in.x.Simple[items.Ref]
		}
		if s == nil {
			break
		}
		if s.Kind == "union" {
			return in.member(s, enum), builtin, list
		}
		for _, f := range s.Facets {
			switch f.Name {
			case "enumeration":
				if items.S == nil || i >= 0 {
					enum = append(enum, f.Value)
				}
			case "maxLength":
				if n, _ := strconv.Atoi(f.Value); maxLen < 0 || n < maxLen {
					maxLen = n
				}
			case "minLength":
				minLen, _ = strconv.Atoi(f.Value)
			case "minInclusive":
				min = f.Value
			case "pattern":
				if f.Value == ".+" && minLen == 0 {
					minLen = 1
				}
			}
		}
		if s.Kind == "list" {
			iv, _, _ := in.values(s.Base)
			var good []string
			for _, v := range iv {
				if v != "" && !strings.ContainsAny(v, " \n\t") || strings.TrimSpace(v) != "" && !strings.Contains(strings.TrimSpace(v), " ") {
					if strings.ContainsAny(strings.TrimSpace(v), " \n\t") {
						continue
					}
					good = append(good, strings.TrimSpace(v))
				}
			}
			if len(good) == 0 {
				in.t.Skip()
			}
			vals = []string{good[0] + " " + good[len(good)-1], "", good[0], " \n" + strings.Join(first(good, 3), "\n ") + "  "}
			if maxLen < 0 {
				vals = append(vals, strings.Join(good, " "), strings.Join(append(good, good...), " "))
			}
			return vals, builtin, list
		}
		items = s.Base
	}
	if len(enum) > 0 {
		return enum, builtin, list
	}
	for _, v := range lexical[builtin] {
		if maxLen >= 0 && len(v) > maxLen && builtinGo[builtin] == "string" {
			continue
		}
		if len(strings.TrimSpace(v)) < minLen {
			continue
		}
		if min == "1" && strings.HasPrefix(strings.TrimSpace(v), "-") || min == "1" && strings.Trim(v, "+0 \n") == "" {
			continue
		}
		vals = append(vals, v)
	}
	if len(vals) == 0 {
		in.t.Skip()
	}
	return vals, builtin, list
}

// member lists values of a union.
func (in *instance) member(s *Simple, enum []string) []string {
	if len(enum) > 0 {
		return enum
	}
	var out []string
	for _, m := range s.Members {
		if m.Ref == X("QName") || m.Ref == X("anyType") {
			continue
		}
		v, _, _ := in.values(m)
		out = append(out, first(v, 3)...)
	}
	if len(out) == 0 {
		in.t.Skip()
	}
	return out
}

func first(l []string, n int) []string {
	if len(l) > n {
		return l[:n]
	}
	return l
}

func (in *instance) draw(t Type, what string) (lex, builtin string, list bool) {
	vals, b, l := in.values(t)
	if b == "QName" && !l {
		in.t.Skip()
	}
	lex = vals[in.t.Choose(what, len(vals))]
	v, err := canonText(expect{builtin: b, list: l}, lex)
	if err != nil {
		in.t.Skip()
	}
	if v.zero && nontrivial(b) && !l && builtinGo[b] == "time.Time" {
		in.t.Skip()
	}
	return lex, b, l
}

func (in *instance) text(t Type, path string, optional, dropped bool) {
	lex, b, l := in.draw(t, "value")
	s := xmlText(lex)
	switch {
	case in.style == 3 && lex != "" && !strings.Contains(lex, "]]>"):
		s = "<![CDATA[" + lex + "]]>"
	case in.style == 4 && len(lex) > 1 && lex[0] < 0x80:
		s = xmlText(lex[:1]) + "<!-- in between -->" + xmlText(lex[1:])
	case in.style == 5 && lex != "":
		s = ""
		for _, r := range lex {
			s += fmt.Sprintf("&#x%x;", r)
		}
	}
	in.b.WriteString(s)
	if !dropped {
		in.want = append(in.want, expect{path: path + "/#text", builtin: b, list: l, lex: lex, omit: optional})
	}
}

func xmlText(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;", "'", "&apos;", "\n", "&#10;", "\t", "&#9;").Replace(s)
}

// attributes writes the attributes of a type and of its bases.
func (in *instance) attributes(c *Complex, ns, path string, dropped bool) {
	for _, a := range in.m.members(c, ns).attrs {
		present := true
		if a.Optional {
			present = !in.t.Bool("no attribute " + a.Name.Local)
		}
		if !present {
			continue
		}
		lex, b, l := in.draw(a.Type, "value of "+a.Name.Local)
		name, id := a.Name.Local, a.Name.Local
		if (a.Global || a.Qualified) && a.Name.Space != "" {
			name = in.prefix(a.Name.Space) + name
			id = "{" + a.Name.Space + "}" + id
		}
		quote := `"`
		if in.style == 1 {
			quote = "'"
		}
		in.b.WriteString(" " + name + "=" + quote + xmlText(lex) + quote)
		if !in.ignore[a.Name.Local] && !dropped {
			in.want = append(in.want, expect{path: path + "/@" + id, builtin: b, list: l, lex: lex, omit: a.Optional, loose: a.Global, attr: true})
		}
	}
}

// complex writes the rest of a start tag and the content of an element.
func (in *instance) complex(c *Complex, ns, path string, optional bool) {
	in.depth++
	defer func() { in.depth-- }()
	if in.depth > 9 {
		in.t.Skip()
	}
	in.attributes(c, ns, path, false)
	in.b.WriteString(">")
	if sb, ok := in.m.simpleBase(c); ok {
		// the facets of the last restriction apply
		t := sb
		if len(c.Facets) > 0 {
			s := &Simple{Kind: "restriction", Base: sb, Facets: c.Facets}
			t = SType(s)
		}
		in.text(t, path, false, false)
		return
	}
	f := &frame{path: path, count: map[Name]int{}, omit: map[Name]bool{}}
	for _, e := range in.m.members(c, ns).elems {
		f.omit[e.Name] = (e.Optional || e.Nillable) && !e.Plural
	}
	in.content(c, ns, f)
	if in.ordered(c, ns) {
		in.order[path] = f.names
	}
	in.depth--
	in.nl()
	in.depth++
}

// frame counts the elements inside of one element.
type frame struct {
	path  string
	count map[Name]int
	omit  map[Name]bool // may be left out if it is zero
	wild  int           // elements for a wildcard
	// in the order of their first element: those with plain fields, and
	// those whose fields are replaced for encoding, which come after all
	// others (known finding)
	names [][]Name
}

// ordered tells whether the elements of a type have one order: there is
// nothing repeated but single elements, and every name occurs once.
func (in *instance) ordered(c *Complex, ns string) bool {
	seen := map[Name]bool{}
	var ok func(p *Particle, ns string, level int) bool
	ok = func(p *Particle, ns string, level int) bool {
		if p == nil || p.Kind == Any {
			return true
		}
		if p.Kind == Leaf {
			n := N(ns, p.Elem.Name)
			if (p.Elem.Ref != Name{}) {
				n = p.Elem.Ref
			}
			dup := seen[n]
			seen[n] = true
			return !dup
		}
		if p.Max != "" && p.Max != "1" && p.Max != "0" || p.Kind == All || level > 20 {
			return false
		}
		if p.Kind == GRef {
			return ok(in.x.Group[p.Ref].Content, p.Ref.Space, level+1)
		}
		for _, k := range p.Kids {
			if !ok(k, ns, level+1) {
				return false
			}
		}
		return true
	}
	for i := 0; c != nil && i < 1000; i++ {
		if !ok(c.Content, ns, 0) {
			return false
		}
		if c.Derive != CExtends {
			break
		}
		ns = c.Base.Space
		c = in.x.Complex[c.Base]
	}
	return true
}

// childOrder gives the names of the children of every element in the order
// of their first occurrence.
func childOrder(doc string) map[string][]Name {
	type node struct {
		path  string
		count map[xml.Name]int
	}
	out := map[string][]Name{}
	var stack []*node
	d := xml.NewDecoder(strings.NewReader(doc))
	for {
		tok, err := d.Token()
		if err != nil {
			return out
		}
		switch tok := tok.(type) {
		case xml.StartElement:
			n := &node{count: map[xml.Name]int{}}
			if len(stack) > 0 {
				top := stack[len(stack)-1]
				if top.count[tok.Name] == 0 {
					out[top.path] = append(out[top.path], tok.Name)
				}
				n.path = fmt.Sprintf("%s/{%s}%s[%d]", top.path, tok.Name.Space, tok.Name.Local, top.count[tok.Name])
				top.count[tok.Name]++
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		}
	}
}

// inOrder compares the order of the children that both documents have.
func inOrder(want map[string][][]Name, doc string) string {
	if len(want) == 0 {
		return ""
	}
	got := childOrder(doc)
	for path, groups := range want {
		at := map[Name]int{}
		for i, n := range got[path] {
			at[n] = i + 1
		}
		for _, names := range groups {
			last := 0
			var before Name
			for _, n := range names {
				if at[n] == 0 {
					continue
				}
				if at[n] < last {
					return fmt.Sprintf("in the encoded document, inside of %q, %s comes before %s", path, n.Local, before.Local)
				}
				last, before = at[n], n
			}
		}
	}
	return ""
}

func (in *instance) content(c *Complex, ns string, f *frame) {
	if c.Derive == CExtends {
		if b := in.x.Complex[c.Base]; b != nil {
			in.content(b, c.Base.Space, f)
		}
	}
	if c.Content != nil {
		in.particle(c.Content, ns, f)
	}
}

func (in *instance) particle(p *Particle, ns string, f *frame) {
	min, max := 1, 1
	if p.Min != "" {
		min, _ = strconv.Atoi(p.Min)
	}
	switch p.Max {
	case "":
		if max < min {
			in.t.Skip()
		}
	case "unbounded":
		max = min + 3
		if max < 3 {
			max = 3
		}
	default:
		max, _ = strconv.Atoi(p.Max)
	}
	// the usual number of times, and then the others
	var counts []int
	usual := min
	if min == 0 && max > 0 && in.depth < 4 {
		usual = 1
	}
	if max > 1 && in.depth < 3 && usual < 2 {
		usual = 2
	}
	counts = append(counts, usual)
	for n := min; n <= max; n++ {
		if n != usual && (in.depth < 4 || n <= 1) {
			counts = append(counts, n)
		}
	}
	n := counts[in.t.Choose("times", len(counts))]
	for i := 0; i < n; i++ {
		switch p.Kind {
		case Leaf:
			in.element(p.Elem, ns, f, n)
		case Any:
			in.nl()
			k := in.t.Choose("wildcard", 3)
			text := fmt.Sprint("w", f.wild)
			in.b.WriteString([]string{`<v-c:wild>` + text + `</v-c:wild>`, `<v-c:wild/>`, `<v-c:wild at="1">` + text[:1] + `<v-c:in>y</v-c:in>` + text[1:] + `</v-c:wild>`}[k])
			if k == 1 {
				text = ""
			}
			in.want = append(in.want, expect{path: fmt.Sprintf("%s/*[%d]/#text", f.path, f.wild), builtin: "string", lex: text, omit: true})
			f.wild++
		case GRef:
			in.particle(in.x.Group[p.Ref].Content, p.Ref.Space, f)
		case Choice:
			in.particle(p.Kids[in.t.Choose("alternative", len(p.Kids))], ns, f)
		case All:
			for _, k := range in.t.Perm("order", len(p.Kids)) {
				in.particle(p.Kids[k], ns, f)
			}
		default:
			for _, k := range p.Kids {
				in.particle(k, ns, f)
			}
		}
	}
}

func (in *instance) element(e *Elem, ns string, f *frame, times int) {
	decl := e
	if (e.Ref != Name{}) {
		decl, ns = in.x.Elem[e.Ref], e.Ref.Space
	}
	t := decl.Type
	if t.None() {
		t = Ref(X("anyType"))
	}
	if !t.Inline() && t.Ref.Space != XS && t.Ref.Space != ns {
		// recorded in the namespace of its type: known finding of C12
		in.t.Skip()
	}
	name := N(ns, decl.Name)
	path := fmt.Sprintf("%s/{%s}%s[%d]", f.path, ns, decl.Name, f.count[name])
	if f.count[name] == 0 {
		if f.names == nil {
			f.names = make([][]Name, 2)
		}
		b, list := "", false
		cx := t.C
		if !t.Inline() {
			cx = in.x.Complex[t.Ref]
		}
		if cx == nil {
			b, list = in.scalar(t)
		} else if sb, ok := in.m.simpleBase(cx); ok {
			b, list = in.scalar(sb)
		}
		switch {
		case t.Ref.Space == XS && nontrivial(b):
			f.names[1] = append(f.names[1], name)
		case !list && !nontrivial(b):
			f.names[0] = append(f.names[0], name)
		}
	}
	f.count[name]++
	in.nl()
	tag := in.prefix(ns) + decl.Name
	in.b.WriteString("<" + tag)
	if decl.Nillable == "true" && times == 1 && f.count[name] == 1 && in.t.Bool("nil") {
		if in.temporal(t) {
			in.t.Skip() // known finding
		}
		in.b.WriteString(` v-xsi:nil="` + in.t.Pick("true", "true", "1") + `"/>`)
		return
	}
	c := t.C
	if c == nil && !t.Inline() {
		c = in.x.Complex[t.Ref]
	}
	if c != nil {
		in.complex(c, ns, path, false)
	} else {
		in.b.WriteString(">")
		in.text(t, path, f.omit[name], false)
	}
	in.b.WriteString("</" + tag + ">")
}

func (in *instance) temporal(t Type) bool {
	if t.C != nil || !t.Inline() && in.x.Complex[t.Ref] != nil {
		c := t.C
		if c == nil {
			c = in.x.Complex[t.Ref]
		}
		sb, ok := in.m.simpleBase(c)
		if !ok {
			return false
		}
		t = sb
	}
	b, l, u := in.m.root(t)
	return l == nil && u == nil && builtinGo[b] == "time.Time"
}

// flat lists the texts and attributes of a document: path and value.
func flat(doc string) (out [][2]string, err error) {
	d := xml.NewDecoder(strings.NewReader(doc))
	type node struct {
		path  string
		count map[xml.Name]int
		text  string
		kids  bool
		skip  bool
		wild  bool
		items int
	}
	stack := []*node{{count: map[xml.Name]int{}}}
	root := true
	for {
		tok, err := d.Token()
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		top := stack[len(stack)-1]
		switch tok := tok.(type) {
		case xml.StartElement:
			n := &node{count: map[xml.Name]int{}}
			if root {
				root = false
			} else {
				n.path = fmt.Sprintf("%s/{%s}%s[%d]", top.path, tok.Name.Space, tok.Name.Local, top.count[tok.Name])
				// what a wildcard field becomes
				n.wild = !top.skip && tok.Name.Space == "" && strings.HasPrefix(tok.Name.Local, "Item")
				n.skip = top.skip || n.wild
				if n.wild {
					n.path = fmt.Sprintf("%s/*[%d]", top.path, top.items)
					top.items++
				}
			}
			top.count[tok.Name]++
			top.kids = true
			for _, a := range tok.Attr {
				if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" && a.Name.Space == "" || n.skip {
					continue
				}
				id := a.Name.Local
				if a.Name.Space != "" {
					id = "{" + a.Name.Space + "}" + id
				}
				out = append(out, [2]string{n.path + "/@" + id, a.Value})
			}
			stack = append(stack, n)
		case xml.CharData:
			top.text += string(tok)
		case xml.EndElement:
			if !top.kids && !top.skip || top.wild {
				out = append(out, [2]string{top.path + "/#text", top.text})
			}
			stack = stack[:len(stack)-1]
		}
	}
}
