package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/mc"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsd"
)

// checkResolved walks everything a parse returned and reports references
// that lead nowhere, or to another definition than the named one.
func checkResolved(schemas []xsd.Schema) (problem string, visited int) {
	byName := map[xml.Name]map[xsd.Type]bool{}
	for _, s := range schemas {
		for n, t := range s.Types {
			if byName[n] == nil {
				byName[n] = map[xsd.Type]bool{}
			}
			byName[n][t] = true
		}
	}
	seen := map[xsd.Type]bool{}
	fail := func(f string, v ...interface{}) {
		if problem == "" {
			problem = fmt.Sprintf(f, v...)
		}
	}
	var visit func(t xsd.Type, from string)
	visit = func(t xsd.Type, from string) {
		visited++
		switch t := t.(type) {
		case nil:
			fail("%s is nil", from)
			return
		case xsd.Builtin:
			if t < xsd.AnyType || t > xsd.AnySimpleType {
				fail("%s is no built-in type: %d", from, int(t))
			}
			return
		case *xsd.ComplexType, *xsd.SimpleType:
			n := xsd.XMLName(t)
			if !byName[n][t] {
				fail("%s is a type named %v, which is not the one in the schema", from, n)
			}
		default:
			fail("%s is an unresolved reference to %v", from, xsd.XMLName(t))
			return
		}
		if seen[t] {
			return
		}
		seen[t] = true
		// the base types must end in a built-in
		steps := 0
		for b := t; ; steps++ {
			next := xsd.Base(b)
			if next == nil {
				if _, ok := b.(xsd.Builtin); !ok {
					fail("%s: the derivation of %v does not end in a built-in type", from, xsd.XMLName(t))
				}
				break
			}
			if steps > 1000 {
				fail("%s: the derivation of %v is circular", from, xsd.XMLName(t))
				return
			}
			b = next
		}
		name := fmt.Sprint(xsd.XMLName(t))
		switch t := t.(type) {
		case *xsd.ComplexType:
			visit(t.Base, "base of "+name)
			for _, e := range t.Elements {
				visit(e.Type, fmt.Sprintf("type of element %v in %s", e.Name, name))
			}
			for _, a := range t.Attributes {
				visit(a.Type, fmt.Sprintf("type of attribute %v in %s", a.Name, name))
			}
		case *xsd.SimpleType:
			visit(t.Base, "base of "+name)
			for _, m := range t.Union {
				visit(m, "member of "+name)
			}
		}
	}
	for _, s := range schemas {
		for n, t := range s.Types {
			visit(t, fmt.Sprintf("type recorded as %v", n))
			if s.FindType(n) == nil && xsd.XMLName(t) == n {
				fail("FindType does not find %v", n)
			}
		}
	}
	return problem, visited
}

// A refKind is a way for one type to refer to another.
type refKind struct {
	name string
	// form renders a definition; %[1]s its name, %[2]s the reference
	form string
	// kinds of target that make the definition valid; c complex content, s
	// simple type, v complex type with simple content
	takes string
	is    byte
	// derives is set if a circle of such references is an error
	derives bool
	target  func(t xsd.Type) xsd.Type
}

func cplx(t xsd.Type) *xsd.ComplexType { c, _ := t.(*xsd.ComplexType); return c }
func smpl(t xsd.Type) *xsd.SimpleType  { s, _ := t.(*xsd.SimpleType); return s }

var refKinds = []refKind{
	{"element", `<xs:complexType name="%[1]s"><xs:sequence><xs:element name="e" type="%[2]s"/></xs:sequence></xs:complexType>`, "csv", 'c', false,
		func(t xsd.Type) xsd.Type { return cplx(t).Elements[0].Type }},
	{"extension", `<xs:complexType name="%[1]s"><xs:complexContent><xs:extension base="%[2]s"/></xs:complexContent></xs:complexType>`, "c", 'c', true,
		func(t xsd.Type) xsd.Type { return cplx(t).Base }},
	{"restriction of a simple type", `<xs:simpleType name="%[1]s"><xs:restriction base="%[2]s"/></xs:simpleType>`, "s", 's', true,
		func(t xsd.Type) xsd.Type { return smpl(t).Base }},
	{"simple content", `<xs:complexType name="%[1]s"><xs:simpleContent><xs:extension base="%[2]s"/></xs:simpleContent></xs:complexType>`, "sv", 'v', true,
		func(t xsd.Type) xsd.Type { return cplx(t).Base }},
	{"list", `<xs:simpleType name="%[1]s"><xs:list itemType="%[2]s"/></xs:simpleType>`, "s", 's', true,
		func(t xsd.Type) xsd.Type { return smpl(t).Base }},
	{"union", `<xs:simpleType name="%[1]s"><xs:union memberTypes="xs:int %[2]s"/></xs:simpleType>`, "s", 's', true,
		func(t xsd.Type) xsd.Type { return smpl(t).Union[1] }},
	{"attribute", `<xs:complexType name="%[1]s"><xs:attribute name="e" type="%[2]s"/></xs:complexType>`, "s", 'c', false,
		func(t xsd.Type) xsd.Type { return cplx(t).Attributes[0].Type }},
	{"restriction", `<xs:complexType name="%[1]s"><xs:complexContent><xs:restriction base="%[2]s"/></xs:complexContent></xs:complexType>`, "c", 'c', true,
		func(t xsd.Type) xsd.Type { return cplx(t).Base }},
	{"attribute of an extension", `<xs:complexType name="%[1]s"><xs:simpleContent><xs:extension base="xs:int"><xs:attribute name="e" type="%[2]s"/></xs:extension></xs:simpleContent></xs:complexType>`, "s", 'v', false,
		func(t xsd.Type) xsd.Type { return cplx(t).Attributes[0].Type }},
	{"in-line element", `<xs:complexType name="%[1]s"><xs:sequence><xs:element name="e"><xs:complexType><xs:complexContent><xs:extension base="%[2]s"/></xs:complexContent></xs:complexType></xs:element></xs:sequence></xs:complexType>`, "c", 'c', false,
		func(t xsd.Type) xsd.Type { return cplx(cplx(t).Elements[0].Type).Base }},
	{"item restriction", `<xs:simpleType name="%[1]s"><xs:list><xs:simpleType><xs:restriction base="%[2]s"/></xs:simpleType></xs:list></xs:simpleType>`, "s", 's', true,
		func(t xsd.Type) xsd.Type { return smpl(smpl(t).Base).Base }},
	{"top-level element", `<xs:complexType name="%[1]s"/><xs:element name="top%[1]s" type="%[2]s"/>`, "csv", 'c', false, nil},
	{"restriction of simple content", `<xs:complexType name="%[1]s"><xs:simpleContent><xs:restriction base="%[2]s"><xs:maxLength value="3"/></xs:restriction></xs:simpleContent></xs:complexType>`, "v", 'v', true,
		func(t xsd.Type) xsd.Type { return cplx(t).Base }},
}

// typeGraph parses n types, each with one reference.
func typeGraph(t *mc.T, n, kinds int) {
	const missing, builtin = -1, -2
	kind, target, ns, doc := make([]int, n), make([]int, n), make([]int, n), make([]int, n)
	for i := range kind {
		kind[i] = t.Free(fmt.Sprintf("reference of type %d", i), kinds)
	}
	for i := range kind {
		k := t.Free(fmt.Sprintf("target of type %d", i), n+2)
		switch {
		case k < n:
			target[i] = (i + 1 + k) % n
		case k == n:
			target[i] = builtin
		default:
			target[i] = missing
		}
	}
	spread := t.FreeBool("later types in another document")
	for i := range kind {
		if spread && i > 0 {
			ns[i], doc[i] = 1, 2
			continue
		}
		switch t.Choose(fmt.Sprintf("place of type %d", i), 3) {
		case 1:
			ns[i], doc[i] = 1, 2
		case 2:
			doc[i] = 1
		}
	}
	rev := t.Bool("last document first")
	prefix := []string{"a", "b"}
	name := func(i int) string { return fmt.Sprintf("T%d", i) }
	var bodies [3]string
	for i := range kind {
		var ref string
		switch target[i] {
		case missing:
			ref = prefix[ns[i]] + ":Missing"
		case builtin:
			ref = "xs:string"
			if !strings.ContainsRune(refKinds[kind[i]].takes, 's') {
				ref = "xs:anyType"
			}
			if refKinds[kind[i]].takes == "v" {
				ref = "xs:string"
			}
		default:
			ref = prefix[ns[target[i]]] + ":" + name(target[i])
		}
		def := fmt.Sprintf(refKinds[kind[i]].form, name(i), ref)
		if rev {
			bodies[doc[i]] = def + bodies[doc[i]]
		} else {
			bodies[doc[i]] += def
		}
	}
	var docs [][]byte
	for i, b := range bodies {
		tns := "urn:a"
		if i == 2 {
			tns = "urn:b"
		}
		d := []byte(`<xs:schema xmlns:xs="` + smodel.XS + `" xmlns:a="urn:a" xmlns:b="urn:b" targetNamespace="` + tns + `">` + b + `</xs:schema>`)
		if rev {
			docs = append([][]byte{d}, docs...)
		} else {
			docs = append(docs, d)
		}
	}
	// what to expect
	valid, dangling, circular := true, false, false
	for i := range kind {
		switch j := target[i]; {
		case j == missing:
			dangling = true
		case j >= 0 && !strings.ContainsRune(refKinds[kind[i]].takes, rune(refKinds[kind[j]].is)):
			valid = false // refers to a type of the wrong kind
		}
		if refKinds[kind[i]].takes == "v" && target[i] == builtin {
			valid = false
		}
		for j, steps := i, 0; j >= 0 && refKinds[kind[j]].derives; j, steps = target[j], steps+1 {
			if steps > n {
				circular = true
				break
			}
		}
	}
	text := smodel.Text(docs)
	t.Input(text)
	schemas, err := parse(t, docs)
	verdict := ""
	switch {
	case dangling:
		verdict = "dangling"
		if err == nil {
			t.Fail("Parse accepts a schema with a reference to a type that does not exist\n%s", text)
		}
	case circular:
		verdict = "circular"
		if err == nil {
			t.Fail("Parse accepts a schema with a type that is derived from itself\n%s", text)
		}
	case err != nil && valid:
		t.Fail("Parse refuses a valid schema: %v\n%s", err, text)
	case err != nil:
		verdict = "wrong kind, refused"
	default:
		verdict = "ok"
		problem, visited := checkResolved(schemas)
		t.Compared(visited)
		if problem != "" {
			t.Fail("%s\n%s", problem, text)
		}
		types := map[xml.Name]xsd.Type{}
		for _, s := range schemas {
			for k, ty := range s.Types {
				types[k] = ty
			}
		}
		at := func(i int) xsd.Type { return types[xml.Name{Space: "urn:" + prefix[ns[i]], Local: name(i)}] }
		for i := range kind {
			if at(i) == nil {
				t.Fail("type %s is not recorded\n%s", name(i), text)
			}
			var got, want xsd.Type
			if f := refKinds[kind[i]].target; f != nil {
				got = f(at(i))
			} else {
				got = types[xml.Name{Space: "urn:" + prefix[ns[i]], Local: "top" + name(i)}]
			}
			if target[i] == builtin {
				want = xsd.String
				if !strings.ContainsRune(refKinds[kind[i]].takes, 's') && refKinds[kind[i]].takes != "v" {
					want = xsd.AnyType
				}
			} else {
				want = at(target[i])
			}
			if got != want {
				t.Fail("the %s of %s leads to %v, not to %v\n%s", refKinds[kind[i]].name, name(i), xsd.XMLName(got), xsd.XMLName(want), text)
			}
		}
	}
	t.Outcome(verdict)
}

// refGraph parses groups, attribute groups and global elements and
// attributes that refer to each other.
func refGraph(t *mc.T) {
	n := 3
	kindNames := []string{"element", "group", "attribute", "attributeGroup"}
	kind, target := make([]int, n), make([]int, n)
	for i := range kind {
		kind[i] = t.Free(fmt.Sprintf("kind %d", i), len(kindNames))
		target[i] = t.Free(fmt.Sprintf("target %d", i), n+2)
	}
	other := t.Free("document of the second", 3)
	circular, dangling := false, false
	next := func(i int) int {
		k := target[i]
		if k >= n {
			return -1
		}
		// elements and attributes cannot hold references to groups of the
		// other kind
		return (i + 1 + k) % n
	}
	var bodies [2]string
	where := func(i int) int {
		if i == 1 && other > 0 {
			return 1
		}
		return 0
	}
	prefix := func(i int) string {
		if i == 1 && other == 2 {
			return "b"
		}
		return "a"
	}
	for i := range kind {
		var ref, use string
		j := next(i)
		use = kindNames[kind[i]]
		switch {
		case target[i] == n: // none
		case target[i] == n+1:
			ref = prefix(i) + ":missing"
			dangling = true
		default:
			ref = fmt.Sprintf("%s:n%d", prefix(j), j)
			use = kindNames[kind[j]]
		}
		body := ""
		if ref != "" {
			body = `<xs:` + use + ` ref="` + ref + `"/>`
		}
		isAttr := use == "attribute" || use == "attributeGroup"
		name := fmt.Sprintf("n%d", i)
		var def string
		switch kindNames[kind[i]] {
		case "element":
			if isAttr {
				def = `<xs:element name="` + name + `"><xs:complexType>` + body + `</xs:complexType></xs:element>`
			} else {
				def = `<xs:element name="` + name + `"><xs:complexType><xs:sequence>` + body + `</xs:sequence></xs:complexType></xs:element>`
			}
		case "group":
			if isAttr && ref != "" {
				t.Skip()
			}
			def = `<xs:group name="` + name + `"><xs:sequence>` + body + `</xs:sequence></xs:group>`
		case "attribute":
			if ref != "" {
				t.Skip()
			}
			def = `<xs:attribute name="` + name + `" type="xs:int"/>`
		case "attributeGroup":
			if !isAttr && ref != "" {
				t.Skip()
			}
			def = `<xs:attributeGroup name="` + name + `">` + body + `</xs:attributeGroup>`
		}
		bodies[where(i)] += def
		// A group that contains itself is an error; elements may be recursive.
		k := i
		for steps := 0; k >= 0; steps++ {
			if steps > n {
				circular = true
				break
			}
			if kindNames[kind[k]] == "element" {
				break
			}
			if target[k] >= n {
				break
			}
			k = next(k)
		}
	}
	tnsB := "urn:a"
	if other == 2 {
		tnsB = "urn:b"
	}
	var docs [][]byte
	for i, b := range bodies {
		tns := "urn:a"
		if i == 1 {
			tns = tnsB
			if other == 0 {
				continue
			}
		}
		docs = append(docs, []byte(`<xs:schema xmlns:xs="`+smodel.XS+`" xmlns:a="urn:a" xmlns:b="urn:b" targetNamespace="`+tns+`">`+b+`</xs:schema>`))
	}
	text := smodel.Text(docs)
	t.Input(text)
	schemas, err := parse(t, docs)
	// An element whose definition holds a reference to itself is legal, but
	// the package flattens references by copying, which cannot be done.
	elementCycle := false
	for i := range kind {
		seen := map[int]bool{}
		for k := i; k >= 0; k = next(k) {
			if seen[k] {
				elementCycle = true
				break
			}
			seen[k] = true
		}
	}
	switch {
	case dangling:
		if err == nil {
			t.Fail("Parse accepts a reference to a component that does not exist\n%s", text)
		}
		t.Outcome("dangling")
	case circular:
		if err == nil {
			t.Fail("Parse accepts a group that contains itself\n%s", text)
		}
		t.Outcome("circular")
	case err != nil && !elementCycle:
		t.Fail("Parse refuses a valid schema: %v\n%s", err, text)
	case err != nil:
		t.Fail("Parse refuses a recursive element: %v\n%s", err, text)
	default:
		problem, visited := checkResolved(schemas)
		t.Compared(visited)
		if problem != "" {
			t.Fail("%s\n%s", problem, text)
		}
		t.Outcome(fmt.Sprint("ok", elementCycle))
	}
}

func c15() mc.Property {
	return mc.Property{
		ID: "C15", Quick: 80, Thorough: 420,
		Assumptions: []string{"an execution that uses more than 25 s of processor time (normally: under 1 ms) or exhausts memory counts as not terminating"},
		Harnesses: []mc.Harness{
			{Name: "chains", Bounds: [2]int{0, 0}, Weight: 1,
				About: "chains and rings of up to 130 (thorough 900) references of every kind that can refer to itself, groups, attribute groups and elements, in one to five documents, in three orders",
				Run:   chains},
			{Name: "misses", Bounds: [2]int{0, 0}, Weight: 1,
				About: "one reference of 13 kinds to one of 4 names with one of 6 prefixes (bound, unbound, none), under one of 6 default namespaces, while any of 3 namespaces have a type of the name, and another component may have it; oracle: it leads to the type with exactly that name, or is refused",
				Run:   misses},
			{Name: "typegraph", Bounds: [2]int{1, 4}, Weight: 4,
				About: "every graph of 3 types with one reference each: 13 (quick: 7) kinds of reference x (itself, either other, a built-in, a missing type), all in one document or spread over 3 documents of 2 namespaces, in either order; oracle: computed from the graph (accepted and every reference leads to the very type with that name; or refused)",
				Run: func(t *mc.T) {
					if t.Thorough {
						typeGraph(t, 3, len(refKinds))
					} else {
						typeGraph(t, 3, 7)
					}
				}},
			{Name: "typegraph4", Bounds: [2]int{1, 3}, Weight: 2,
				About: "the same for 4 types and the 4 (quick: 2) most common kinds of reference",
				Run: func(t *mc.T) {
					if t.Thorough {
						typeGraph(t, 4, 4)
					} else {
						typeGraph(t, 4, 2)
					}
				}},
			{Name: "refgraph", Bounds: [2]int{0, 0}, Weight: 1,
				About: "every graph of 3 global elements, attributes, groups and attribute groups that hold up to one reference, in one or two documents",
				Run:   refGraph},
			{Name: "vocabulary", Bounds: [2]int{2, 4}, Weight: 3,
				About: "documents of up to 4 schema elements nested or next to each other, over the whole vocabulary and 8 sets of attributes, most of them not valid schemas; oracle: Parse and Normalize return, and whatever Parse accepts is fully resolved",
				Run:   vocabulary},
			{Name: "mutations", Bounds: [2]int{0, 1}, Weight: 6,
				About: "8 schema sets with one (thorough: two) changes: an element deleted, duplicated, renamed to any schema element or moved into its neighbour; an attribute deleted, renamed, or given any of 14 values; oracle as above",
				Run:   mutations},
			{Name: "truncations", Bounds: [2]int{0, 0}, Weight: 1,
				About: "8 schema sets with every document cut off at every byte; oracle: an error",
				Run:   truncations},
		},
	}
}

var words = []string{"element", "complexType", "sequence", "simpleType", "restriction", "complexContent", "attribute", "extension", "simpleContent", "group", "attributeGroup", "choice", "all", "any", "anyAttribute", "list", "union", "annotation", "documentation", "enumeration", "minInclusive", "pattern", "import", "include", "key", "schema", "other"}

var attrSets = []string{
	``, ` name="n"`, ` ref="n"`, ` base="n"`, ` name="n" type="n"`, ` value="1"`, ` itemType="n" memberTypes="n n" maxOccurs="unbounded"`, ` name="n" base="xs:int" type="xs:int"`, ` minOccurs="x" maxOccurs="2" mixed="true"`, ` name="a:b" ref="x:y"`,
}

func vocabulary(t *mc.T) {
	var gen func(depth int) string
	left := 3
	if t.Thorough {
		left = 4
	}
	pick := func(label string, n int, free bool) int {
		if free {
			return t.Free(label, n)
		}
		return t.Choose(label, n)
	}
	gen = func(depth int) string {
		s := ""
		for i := 0; left > 0 && i < 3; i++ {
			if (depth > 0 || i > 0) && !t.Bool("element here") {
				break
			}
			left--
			w := words[pick("element", len(words), depth == 0 && i == 0)]
			a := attrSets[pick("attributes", len(attrSets), depth == 0 && i == 0)]
			s += "<xs:" + w + a + ">" + gen(depth+1) + "</xs:" + w + ">"
		}
		return s
	}
	doc := []byte(`<xs:schema xmlns:xs="` + smodel.XS + `" xmlns:a="" targetNamespace="">` + gen(0) + `</xs:schema>`)
	robust(t, [][]byte{doc})
}

// robust parses something that need not be a schema.
func robust(t *mc.T, docs [][]byte) {
	text := smodel.Text(docs)
	t.Input(text)
	schemas, err := parse(t, docs)
	if err != nil {
		if err.Error() == "" {
			t.Fail("empty error\n%s", text)
		}
		t.Outcome("refused")
		return
	}
	problem, visited := checkResolved(schemas)
	t.Compared(visited)
	if problem != "" {
		t.Fail("%s\n%s", problem, text)
	}
	t.Outcome("accepted")
}

// A tree is a document that need not be valid.
type tree struct {
	name  string
	attrs [][2]string
	text  string
	kids  []*tree
}

func parseTree(doc []byte) *tree {
	d := xml.NewDecoder(bytes.NewReader(doc))
	top := &tree{}
	stack := []*tree{top}
	q := func(n xml.Name) string {
		if n.Space != "" {
			return n.Space + ":" + n.Local
		}
		return n.Local
	}
	for {
		tok, err := d.RawToken()
		if err != nil {
			return top.kids[0]
		}
		cur := stack[len(stack)-1]
		switch tok := tok.(type) {
		case xml.StartElement:
			n := &tree{name: q(tok.Name)}
			for _, a := range tok.Attr {
				n.attrs = append(n.attrs, [2]string{q(a.Name), a.Value})
			}
			cur.kids = append(cur.kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			cur.text += string(tok)
		}
	}
}

func (n *tree) render(b *strings.Builder) {
	b.WriteString("<" + n.name)
	for _, a := range n.attrs {
		b.WriteString(" " + a[0] + `="` + smodel.Esc(a[1]) + `"`)
	}
	b.WriteString(">")
	b.WriteString(smodel.Esc(n.text))
	for _, k := range n.kids {
		k.render(b)
	}
	b.WriteString("</" + n.name + ">")
}

func (n *tree) clone() *tree {
	m := *n
	m.attrs = append([][2]string(nil), n.attrs...)
	m.kids = nil
	for _, k := range n.kids {
		m.kids = append(m.kids, k.clone())
	}
	return &m
}

type place struct {
	parent *tree
	index  int
}

func (n *tree) places() []place {
	var out []place
	for i, k := range n.kids {
		out = append(out, place{n, i})
		out = append(out, k.places()...)
	}
	return out
}

var badValues = []string{"", ":", "x:", ":x", "none:x", "a:T", "xs:int", "T", "a:Missing", "-1", "2", "unbounded", "99999999999999999999", "1 2", "true", "0"}

var attrNames = []string{"name", "ref", "type", "base", "itemType", "memberTypes", "minOccurs", "maxOccurs", "value", "use", "mixed", "abstract", "targetNamespace", "_isAnonymous", "_targetNamespace"}

func mutate(t *mc.T, roots []*tree) {
	r := t.Free("document", len(roots))
	root := roots[r]
	ps := root.places()
	k := t.Free("place", len(ps)+1)
	if k == len(ps) {
		// the schema element itself
		a := t.Free("attribute of the schema", len(root.attrs))
		if v := t.Free("value", len(badValues)+1); v < len(badValues) {
			if strings.HasPrefix(root.attrs[a][0], "xmlns:") && badValues[v] == "" {
				t.Skip()
			}
			root.attrs[a][1] = badValues[v]
		} else {
			root.attrs = append(root.attrs[:a:a], root.attrs[a+1:]...)
		}
		return
	}
	p := ps[k]
	n := p.parent.kids[p.index]
	kids := p.parent.kids
	switch op := t.Free("change", 5+len(n.attrs)); op {
	case 0: // delete
		p.parent.kids = append(kids[:p.index:p.index], kids[p.index+1:]...)
	case 1: // duplicate
		p.parent.kids = append(kids[:p.index:p.index], append([]*tree{n.clone()}, kids[p.index:]...)...)
	case 2: // rename
		n.name = "xs:" + words[t.Free("element", len(words))]
	case 3: // move into the element before, or up
		if p.index > 0 {
			kids[p.index-1].kids = append(kids[p.index-1].kids, n)
			p.parent.kids = append(kids[:p.index:p.index], kids[p.index+1:]...)
		} else {
			p.parent.kids = append(append([]*tree{n}, n.kids...), kids[1:]...)
			n.kids = nil
		}
	case 4: // add an attribute
		name := attrNames[t.Free("attribute", len(attrNames))]
		for _, a := range n.attrs {
			if a[0] == name {
				t.Skip()
			}
		}
		n.attrs = append(n.attrs, [2]string{name, badValues[t.Free("value", len(badValues))]})
	default:
		a := op - 5
		switch c := t.Free("attribute change", len(badValues)+2); c {
		case len(badValues):
			n.attrs = append(n.attrs[:a:a], n.attrs[a+1:]...)
		case len(badValues) + 1:
			name := attrNames[t.Free("attribute", len(attrNames))]
			for _, o := range n.attrs {
				if o[0] == name {
					t.Skip()
				}
			}
			n.attrs[a][0] = name
		default:
			n.attrs[a][1] = badValues[c]
		}
	}
}

func mutations(t *mc.T) {
	set := library(t, t.Free("set", librarySize))
	var roots []*tree
	for _, d := range set.Docs(&smodel.Pres{XS: "xs", NS: map[string]string{smodel.NSA: "a", smodel.NSB: "b"}}) {
		roots = append(roots, parseTree(d))
	}
	mutate(t, roots)
	if t.Thorough && t.Bool("second change") {
		mutate(t, roots)
	}
	var docs [][]byte
	for _, r := range roots {
		var b strings.Builder
		r.render(&b)
		docs = append(docs, []byte(b.String()))
	}
	robust(t, docs)
}

func truncations(t *mc.T) {
	set := library(t, t.Free("set", librarySize))
	docs := set.Docs(&smodel.Pres{XS: "xs", NS: map[string]string{smodel.NSA: "a", smodel.NSB: "b"}})
	i := t.Free("document", len(docs))
	n := t.Free("bytes", len(docs[i]))
	docs[i] = docs[i][:n]
	text := smodel.Text(docs)
	t.Input(text)
	if _, err := parse(t, docs); err == nil {
		t.Fail("Parse accepts a document that is cut off\n%s", text)
	}
	if _, err := xsd.Imports(docs[i]); err == nil {
		t.Fail("Imports accepts a document that is cut off\n%s", text)
	}
	t.Outcome("refused")
}
