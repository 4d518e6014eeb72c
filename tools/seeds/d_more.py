X=H%'\n\t"aqwari.net/xml/xmltree"\n'
seed("scope-not-clipped","C02",
 [("xmltree/xmltree.go","""		scope.ns = scope.ns[:len(scope.ns):len(scope.ns)]
	}""","""		if len(ns) > 1 {
			scope.ns = scope.ns[:len(scope.ns):len(scope.ns)]
		}
	}""")],
 "an element with one declaration whose scope has spare capacity, and two child elements with declarations of their own",
 "the declarations of one child overwrite those of its sibling, so that the prefixes of the first resolve like those of the second",
 X+'''func main() {
	el, err := xmltree.Parse([]byte(`<a xmlns:p="urn:p"><b xmlns:q="urn:q"><c xmlns:r="urn:r"><d xmlns:s="urn:1"/><d xmlns:t="urn:2"/></c></b></a>`))
	if err != nil {
		fail("%v", err)
	}
	d := el.Search("", "d")
	if name, ok := d[0].ResolveNS("s:x"); !ok || name.Space != "urn:1" {
		fail("%v %v", name, ok)
	}
}
''')
seed("prefix-outermost","C03",
 [("xmltree/xmltree.go","""				qname = name.Local
			} else if len(qname) == 0 {
				qname = scope.ns[i].Local + ":" + name.Local""","""				qname = name.Local
			} else {
				qname = scope.ns[i].Local + ":" + name.Local""")],
 "a namespace that is the default namespace by an inner declaration and has a prefix by an outer one",
 "a name in the default namespace is written with a prefix",
 X+'''func main() {
	el, err := xmltree.Parse([]byte(`<p:a xmlns:p="urn:x"><b xmlns="urn:x"/></p:a>`))
	if err != nil {
		fail("%v", err)
	}
	b := &el.Children[0]
	if q := b.Prefix(b.Name); q != "b" {
		fail("%s", q)
	}
}
''')
seed("indent-trims-content","C04",
 [("xmltree/marshal.go","""			e.w.Write(el.Content)
		} else {""","""			content := el.Content
			if e.pretty {
				content = bytes.TrimSpace(content)
			}
			e.w.Write(content)
		} else {""")],
 "MarshalIndent of an element whose text begins or ends with white space",
 "white space at the ends of text is lost",
 X+'''func main() {
	el, err := xmltree.Parse([]byte("<a><b> x </b></a>"))
	if err != nil {
		fail("%v", err)
	}
	again, err := xmltree.Parse(xmltree.MarshalIndent(el, "", "\\t"))
	if err != nil || string(again.Children[0].Content) != " x " {
		fail("%v %s", err, xmltree.MarshalIndent(el, "", "\\t"))
	}
}
''')
seed("search-not-below-matches","C05",
 [("xmltree/xmltree.go","""			results = append(results, el)
		}
		el.walk(search)
	}
	root.walk(search)
	return results""","""			results = append(results, el)
		}
		// Most elements do not have children
		if len(el.Content) > len(el.Name.Local) {
			el.walk(search)
		}
	}
	root.walk(search)
	return results""")],
 "an element that was made by the caller, with children and no Content, below the element that is searched",
 "descendants of elements whose content was not parsed are not found",
 X+'''func main() {
	el, err := xmltree.Parse([]byte("<a><b/></a>"))
	if err != nil {
		fail("%v", err)
	}
	var c xmltree.Element
	c.Name.Local = "c"
	el.Children[0].Children = append(el.Children[0].Children, c)
	if n := len(el.Flatten()); n != 2 {
		fail("%d", n)
	}
}
''')
seed("equal-any-space","C06",
 [("xmltree/compare.go","""		return bytes.Equal(bytes.TrimSpace(a.Content), bytes.TrimSpace(b.Content))""","""		return bytes.Equal(
			bytes.Join(bytes.Fields(a.Content), nil),
			bytes.Join(bytes.Fields(b.Content), nil))""")],
 "text that differs in white space between words only",
 "elements with different leaf content are equal",
 X+'''func main() {
	a, _ := xmltree.Parse([]byte("<a>x y</a>"))
	b, _ := xmltree.Parse([]byte("<a>xy</a>"))
	if xmltree.Equal(a, b) {
		fail("equal")
	}
}
''')
seed("encode-large-content","C07",
 [("xmltree/marshal.go","""			e.w.Write(el.Content)
		} else {""","""			w := e.w
			if ew, ok := w.(*errWriter); ok && ew.err == nil && len(el.Content) > 512 {
				w = ew.w
			}
			w.Write(el.Content)
		} else {""")],
 "text of more than 512 bytes, and a writer that fails once, for that text",
 "the error of the writer is not reported",
 X.replace('"os"','"os"\n\t"errors"\n\t"strings"')+'''type once struct{ done bool }

func (w *once) Write(p []byte) (int, error) {
	if len(p) > 512 && !w.done {
		w.done = true
		return 0, errors.New("no space")
	}
	return len(p), nil
}

func main() {
	el, err := xmltree.Parse([]byte("<a>" + strings.Repeat("x", 1000) + "</a>"))
	if err != nil {
		fail("%v", err)
	}
	if xmltree.Encode(new(once), el) == nil {
		fail("no error")
	}
}
''')
seed("charset-buffer-reused","C08",
 [("xmltree/xmltree.go","""		padding := make([]byte, int(d.InputOffset()))
""","""		padding := make([]byte, int(d.InputOffset()), 64<<10)
		if len(padding) < len(scratch) {
			padding = scratch[:len(padding)]
		}
"""),
 ("xmltree/xmltree.go","""// Save some typing when scanning xml
""","""// Space for converted documents
var scratch = make([]byte, 64<<10)

// Save some typing when scanning xml
""")],
 "two documents that are not UTF-8, parsed one after the other, the first of which is still in use",
 "the content of the first tree is overwritten by that of the second document",
 X+'''func main() {
	a, err := xmltree.Parse([]byte(`<?xml version="1.0" encoding="iso-8859-1"?><a><b>one</b></a>`))
	if err != nil {
		fail("%v", err)
	}
	if _, err := xmltree.Parse([]byte(`<?xml version="1.0" encoding="iso-8859-1"?><a><b>two</b></a>`)); err != nil {
		fail("%v", err)
	}
	if s := string(a.Children[0].Content); s != "one" {
		fail("%s", s)
	}
}
''')
S=H%'\n\t"encoding/xml"\n\n\t"aqwari.net/xml/xsd"\n'
SSRC='''const schemaNS = "http://www.w3.org/2001/XMLSchema"

func parse(docs ...string) map[string]xsd.Type {
	var data [][]byte
	for _, d := range docs {
		data = append(data, []byte(`<xs:schema xmlns:xs="`+schemaNS+`" xmlns:a="urn:a" targetNamespace="urn:a" elementFormDefault="qualified">`+d+`</xs:schema>`))
	}
	schemas, err := xsd.Parse(data...)
	if err != nil {
		fail("%v", err)
	}
	types := make(map[string]xsd.Type)
	for _, s := range schemas {
		if s.TargetNS == "urn:a" {
			for name, t := range s.Types {
				types[name.Local] = t
			}
		}
	}
	return types
}

var _ xml.Name

'''
seed("builtin-any-case","C10",
 [("xsd/builtin.go","""		if i.Name() == qname {
			return i, nil""","""		if name := i.Name(); name.Space == qname.Space && (name == qname || strings.Title(name.Local) == qname.Local) {
			return i, nil"""),
  ("xsd/builtin.go","""	"unicode"
""","""	"strings"
	"unicode"
""")],
 "the name of a built-in type that begins with an upper case letter instead of a lower case one",
 "names that are no built-in types parse as such",
 S+SSRC+'''func main() {
	if b, err := xsd.ParseBuiltin(xml.Name{schemaNS, "Date"}); err == nil {
		fail("%v", b)
	}
}
''')
seed("ref-default-ignored","C12",
 [("xsd/parse.go","""		if (attr.Name != xml.Name{"", "ref"}) {
			el.SetAttr""","""		if (attr.Name != xml.Name{"", "ref"}) && (attr.Name.Local != "default" || el.Attr("", "default") == "") {
			el.SetAttr""")],
 "a reference to a global attribute with a default value that gives another default value",
 "the default value of the reference is ignored",
 S+SSRC+'''func main() {
	t := parse(`<xs:attribute name="x" type="xs:int" default="1"/><xs:complexType name="T"><xs:attribute ref="a:x" default="2"/></xs:complexType>`)["T"].(*xsd.ComplexType)
	if t.Attributes[0].Default != "2" {
		fail("%q", t.Attributes[0].Default)
	}
}
''')
seed("mixed-one-level","C12",
 [("xsd/parse.go","""	propagateMixedAttr(b, Base(b), depth+1)
""","""	if depth == 0 {
		if c, ok := b.(*ComplexType); ok && c.Extends {
			propagateMixedAttr(b, Base(b), depth+1)
		}
	}
""")],
 "a chain of three or more extensions of a type with simple content or a mixed type",
 "whether a type is mixed is lost some levels down, depending on the order of a map",
 S+SSRC+'''func main() {
	doc := `<xs:complexType name="T0" mixed="true"><xs:sequence/></xs:complexType>`
	for i := 1; i < 6; i++ {
		doc += fmt.Sprintf(`<xs:complexType name="T%d"><xs:complexContent><xs:extension base="a:T%d"><xs:attribute name="x%d"/></xs:extension></xs:complexContent></xs:complexType>`, i, i-1, i)
	}
	for i := 0; i < 100; i++ {
		for name, t := range parse(doc) {
			if name[0] == 'T' && !t.(*xsd.ComplexType).Mixed {
				fail("%s", name)
			}
		}
	}
}
''')
seed("enumeration-trimmed","C13",
 [("xsd/parse.go","""			r.Enum = append(r.Enum, el.Attr("", "value"))""","""			r.Enum = append(r.Enum, strings.TrimSpace(el.Attr("", "value")))""")],
 "an enumerated value with white space at its ends",
 "the value is recorded without the white space",
 S+SSRC+'''func main() {
	t := parse(`<xs:simpleType name="T"><xs:restriction base="xs:string"><xs:enumeration value=" a"/></xs:restriction></xs:simpleType>`)["T"].(*xsd.SimpleType)
	if t.Restriction.Enum[0] != " a" {
		fail("%q", t.Restriction.Enum)
	}
}
''')
seed("union-member-once","C13",
 [("xsd/parse.go","""				type_ := parseType(el.Resolve(name))
				t.Union = append(t.Union, type_)""","""				type_ := parseType(el.Resolve(name))
				known := false
				for _, u := range t.Union {
					known = known || u == type_ || XMLName(u).Local == el.Resolve(name).Local
				}
				if !known {
					t.Union = append(t.Union, type_)
				}""")],
 "a union of types of two namespaces with the same local name",
 "the second of them is not recorded as a member",
 S+SSRC+'''func main() {
	t := parse(`<xs:simpleType name="date"><xs:restriction base="xs:string"/></xs:simpleType><xs:simpleType name="T"><xs:union memberTypes="xs:date a:date"/></xs:simpleType>`)["T"].(*xsd.SimpleType)
	if len(t.Union) != 2 {
		fail("%v", t.Union)
	}
}
''')
seed("wrapped-schema-first","C14",
 [("xsd/parse.go","""			result = append(result, root.Search(schemaNS, "schema")...)
		}
	}
	for _, root := range result {""","""			seen := make(map[string]bool)
			for _, el := range root.Search(schemaNS, "schema") {
				if tns := el.Attr("", "targetNamespace"); !seen[tns] {
					seen[tns] = true
					result = append(result, el)
				}
			}
		}
	}
	for _, root := range result {""")],
 "a document with two embedded schemas that have the same target namespace",
 "the second schema is not read",
 H%'\n\t"aqwari.net/xml/xsd"\n'+'''func main() {
	schemas, err := xsd.Parse([]byte(`<r xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:schema targetNamespace="urn:a"><xs:complexType name="A"/></xs:schema><xs:schema targetNamespace="urn:a"><xs:complexType name="B"/></xs:schema></r>`))
	if err != nil {
		fail("%v", err)
	}
	for _, s := range schemas {
		if s.TargetNS == "urn:a" {
			for name := range s.Types {
				if name.Local == "B" {
					return
				}
			}
		}
	}
	fail("no type B")
}
''')
seed("union-stops-at-builtin","C15",
 [("xsd/parse.go","""				ref, ok := u.(linkedType)
				if !ok {
					continue
				}
				real""","""				ref, ok := u.(linkedType)
				if !ok {
					break
				}
				real""")],
 "a union whose members are a built-in type and, after it, a type of the schema",
 "the reference to the type of the schema is not resolved, and no error is reported",
 S+SSRC+'''func main() {
	types := parse(`<xs:simpleType name="S"><xs:restriction base="xs:string"/></xs:simpleType><xs:simpleType name="T"><xs:union memberTypes="xs:int a:S"/></xs:simpleType>`)
	if types["T"].(*xsd.SimpleType).Union[1] != types["S"] {
		fail("%T", types["T"].(*xsd.SimpleType).Union[1])
	}
}
''')
seed("include-of-root","C16",
 [("xsd/parse.go","""		for _, v := range tree.Search(schemaNS, "include") {
			s := Ref{ns, v.Attr("", "schemaLocation")}""","""		for _, v := range tree.Search(schemaNS, "include") {
			s := Ref{v.Attr("", "targetNamespace"), v.Attr("", "schemaLocation")}
			if s.Namespace == "" {
				s.Namespace = root.Attr("", "targetNamespace")
			}
			if s.Namespace == "" {
				s.Namespace = ns
			}""")],
 "an include in a schema that is embedded in a document with another target namespace, such as a service description",
 "the include is listed with the namespace of the document instead of that of the schema",
 H%'\n\t"aqwari.net/xml/xsd"\n'+'''func main() {
	refs, err := xsd.Imports([]byte(`<d xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:d"><xs:schema targetNamespace="urn:a"><xs:include schemaLocation="x.xsd"/></xs:schema></d>`))
	if err != nil || len(refs) != 1 || refs[0].Namespace != "urn:a" {
		fail("%v %v", refs, err)
	}
}
''')
