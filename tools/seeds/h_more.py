seed("prefix-any-case","C02",
 [("xmltree/xmltree.go","""		if scope.ns[i].Local == prefix {
			return xml.Name{Space: scope.ns[i].Space""","""		if strings.EqualFold(scope.ns[i].Local, prefix) {
			return xml.Name{Space: scope.ns[i].Space""")],
 "two prefixes that differ in case only, the one that is not meant declared further in",
 "a name resolves to the namespace of the other prefix",
 X+'''func main() {
	el, err := xmltree.Parse([]byte(`<a xmlns:p="urn:1"><b xmlns:P="urn:2"/></a>`))
	if err != nil {
		fail("%v", err)
	}
	if n := el.Children[0].Resolve("p:x"); n.Space != "urn:1" {
		fail("%v", n)
	}
}
''')
seed("equal-not-so-deep","C06",
 [("xmltree/compare.go","""	if depth > maxDepth {""","""	if depth > maxDepth/10 {""")],
 "a tree of more than 300 levels",
 "the tree is not equal to itself",
 X.replace('"fmt"\n\t"os"','"fmt"\n\t"os"\n\t"strings"')+'''func main() {
	el, err := xmltree.Parse([]byte(strings.Repeat("<a>", 500) + strings.Repeat("</a>", 500)))
	if err != nil {
		fail("%v", err)
	}
	if !xmltree.Equal(el, el) {
		fail("not equal to itself")
	}
}
''')
seed("write-string-unchecked","C07",
 [("xmltree/marshal.go","""// Encode returns any errors encountered writing to w.
func Encode(w io.Writer, el *Element) error {
""","""// Encode returns any errors encountered writing to w. A Writer which takes
// strings gets the document in one piece.
func Encode(w io.Writer, el *Element) error {
	if sw, ok := w.(io.StringWriter); ok {
		var buf strings.Builder
		if err := Encode(struct{ io.Writer }{&buf}, el); err != nil {
			return err
		}
		n, err := sw.WriteString(buf.String())
		if n == 0 && err != nil {
			return err
		}
		return nil
	}
"""),
  ("xmltree/marshal.go","""	"io"
	"text/template"
""","""	"io"
	"strings"
	"text/template"
""")],
 "a destination that has a WriteString method (as an *os.File or a *bufio.Writer has) and fails after a part of the document",
 "no error is returned although the document is cut off",
 H%'\n\t"errors"\n\n\t"aqwari.net/xml/xmltree"\n'+'''type full struct{ room int }

func (f *full) Write(p []byte) (int, error) {
	if len(p) > f.room {
		n := f.room
		f.room = 0
		return n, errors.New("no space left")
	}
	f.room -= len(p)
	return len(p), nil
}

func (f *full) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func main() {
	el, err := xmltree.Parse([]byte(`<a><b>text</b></a>`))
	if err != nil {
		fail("%v", err)
	}
	if err := xmltree.Encode(&full{5}, el); err == nil {
		fail("no error")
	}
}
''')
seed("builtin-wrong-namespace","C10",
 [("xsd/builtin.go","""		if i.Name() == qname {
			return i, nil""","""		if name := i.Name(); name == qname || (name.Local == qname.Local && qname.Space == schemaNS) {
			return i, nil""")],
 "the name of one of the attributes of the XML namespace (lang, space, base, id) in the namespace of XML Schema",
 "names that are no built-in types parse as such",
 S+SSRC+'''func main() {
	if b, err := xsd.ParseBuiltin(xml.Name{schemaNS, "xMLBase"}); err == nil {
		fail("%v", b)
	}
	_ = parse
}
''')
seed("anonymous-count-per-namespace","C14",
 [("xsd/parse.go","""	typeCounter := 0
	for _, root := range result {
""","""	typeCounter := 0
	for i, root := range result {
		if i > 0 && root.Attr("", "targetNamespace") != result[i-1].Attr("", "targetNamespace") {
			typeCounter = 0
		}
""")],
 "two documents of a namespace with one of another namespace between them, and anonymous types in both that cannot have the name of an element",
 "the anonymous types of the two documents have the same name, so that one takes the place of the other",
 S+'''const schemaNS = "http://www.w3.org/2001/XMLSchema"

func doc(ns, s string) []byte {
	return []byte(`<xs:schema xmlns:xs="` + schemaNS + `" xmlns:a="` + ns + `" targetNamespace="` + ns + `">` + s + `</xs:schema>`)
}

func main() {
	list := `<xs:simpleType name="%s"><xs:list><xs:simpleType><xs:restriction base="xs:%s"/></xs:simpleType></xs:list></xs:simpleType>`
	schemas, err := xsd.Parse(
		doc("urn:a", fmt.Sprintf(list, "A", "int")),
		doc("urn:b", ""),
		doc("urn:a", fmt.Sprintf(list, "B", "date")))
	if err != nil {
		fail("%v", err)
	}
	for _, s := range schemas {
		for name, want := range map[string]xsd.Builtin{"A": xsd.Int, "B": xsd.Date} {
			if t, ok := s.Types[xml.Name{"urn:a", name}].(*xsd.SimpleType); ok && xsd.Base(xsd.Base(t)) != want {
				fail("%s: %v", name, xsd.Base(xsd.Base(t)))
			}
		}
	}
}
''')
seed("no-namespace-is-target","C15",
 [("xsd/parse.go","""	v, ok := s.Types[xml.Name(name)]
	return v, ok
""","""	if name.Space == "" {
		name.Space = s.TargetNS
	}
	v, ok := s.Types[xml.Name(name)]
	return v, ok
""")],
 "a reference without a prefix, where there is no default namespace, to a name that only a type of the target namespace has",
 "the reference is resolved to the type of another name instead of reported",
 S+'''func main() {
	_, err := xsd.Parse([]byte(`<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:a">
<xs:simpleType name="T"><xs:restriction base="xs:int"/></xs:simpleType><xs:element name="e" type="T"/></xs:schema>`))
	if err == nil {
		fail("no error")
	}
	_ = xml.Name{}
}
''')
seed("import-of-definitions","C16",
 [("xsd/parse.go","""	for _, v := range root.Search(schemaNS, "import") {
		s := Ref{""","""	for _, v := range root.Search(schemaNS, "import") {
		if v.Attr("", "namespace") == root.Attr("", "targetNamespace") && v.Attr("", "namespace") != "" {
			// a schema cannot import its own namespace
			continue
		}
		s := Ref{""")],
 "a schema in a service description that imports the target namespace of the description, which is not its own",
 "the import is not listed",
 S+'''func main() {
	refs, err := xsd.Imports([]byte(`<definitions xmlns="http://schemas.xmlsoap.org/wsdl/" xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:a"><types>
<xs:schema targetNamespace="urn:b"><xs:import namespace="urn:a" schemaLocation="a.xsd"/></xs:schema></types></definitions>`))
	if err != nil || len(refs) != 1 {
		fail("%v %v", refs, err)
	}
	_ = xml.Name{}
}
''')
seed("declarations-ignore-case","C23",
 [("xsdgen/xsdgen.go","""		keys = append(keys, name)
	}
	sort.Strings(keys)
	for _, name := range keys {
		info := code.decls[name]""","""		keys = append(keys, name)
	}
	sort.Slice(keys, func(i, j int) bool { return strings.ToLower(keys[i]) < strings.ToLower(keys[j]) })
	for _, name := range keys {
		info := code.decls[name]""")],
 "two types whose names differ in case only",
 "their declarations are in either order",
 H%G+GSRC+'''func main() {
	doc := ""
	for i := 0; i < 8; i++ {
		doc += fmt.Sprintf(`<xs:complexType name="Ab%d"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType><xs:complexType name="AB%d"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType>`, i, i)
	}
	want := ""
	for i := 0; i < 10; i++ {
		cfg := new(xsdgen.Config)
		src := source(cfg, doc)
		if want != "" && src != want {
			fail("two different sources")
		}
		want = src
	}
	_ = have
}
''')
seed("one-method-per-identifier","C31",
 [("wsdlgen/wsdlgen.go","""	for _, operation := range port.Operations {
		if err""","""	done := make(map[string]bool)
	for _, operation := range port.Operations {
		name := p.xsdgen.NameOf(operation.Name)
		if name = strings.Title(name); done[name] {
			continue
		}
		done[name] = true
		if err""")],
 "a port with two operations whose names differ in the case of the first letter only",
 "the second operation has no method",
 H%WG+WGSRC.replace('</portType>','<operation name="op"><input message="t:in"/><output message="t:out"/></operation></portType>').replace('</binding>','<operation name="op"><s:operation soapAction="other"/><input><s:body namespace="urn:t"/></input></operation></binding>')+'''func main() {
	cfg := new(wsdlgen.Config)
	cfg.Option(wsdlgen.DefaultOptions...)
	src := client(cfg, "", "http://x", "")
	if n := strings.Count(src, "func (c *Client) Op"); n != 2 {
		fail("%d methods: %s", n, src)
	}
}
''')
seed("keyword-underscore","C41",
 [("internal/gen/gen.go","""	switch name {
	case "break", "default",""","""	switch strings.TrimRight(name, "_") {
	case "break", "default",""")],
 "a name that is a keyword followed by an underscore",
 "the name is changed although it is not a keyword",
 H%'\n\t"aqwari.net/xml/internal/gen"\n'+'''func main() {
	if s := gen.Sanitize("type_"); s != "type_" {
		fail("%s", s)
	}
}
''')
seed("rule-as-format","C42",
 [("internal/commandline/cli.go","""		fmt.Fprintf(&buf, "%s -> %s\\n", item.From, item.To)""","""		fmt.Fprintf(&buf, item.From.String()+" -> "+item.To+"\\n")""")],
 "a rule with a percent sign",
 "the printed form of the rules is not what was given",
 H%'\n\t"aqwari.net/xml/internal/commandline"\n'+'''func main() {
	var l commandline.ReplaceRuleList
	if err := l.Set("100% -> all"); err != nil {
		fail("%v", err)
	}
	if l.String() != "100% -> all\\n" {
		fail("%q", l.String())
	}
}
''')
seed("graph-first-insert","C40",
 [("internal/dependency/graph.go","""	if i >= len(set) || set[i] != x {""","""	if i >= len(set) || set[i] > x && (i == 0 || set[i-1] != x-1 || x <= 0) {""")],
 "a number that is added between its predecessor and a larger one",
 "the node, or the dependency, is left out",
 H%'\n\t"aqwari.net/xml/internal/dependency"\n'+'''func main() {
	var g dependency.Graph
	g.Add(1, 2)
	g.Add(3, 4)
	g.Add(2, 5)
	n := 0
	g.Flatten(func(int) { n++ })
	g.Add(6, 1)
	g.Add(6, 3)
	g.Add(6, 2)
	var order []int
	g.Flatten(func(x int) { order = append(order, x) })
	if g.Len() != 4 {
		fail("%d targets, %d nodes, %v", g.Len(), n, order)
	}
}
''')
