WX='\n\t"aqwari.net/xml/wsdl"\n'
WSRC='''const defs = `<definitions xmlns="http://schemas.xmlsoap.org/wsdl/" xmlns:s="http://schemas.xmlsoap.org/wsdl/soap/" xmlns:h="http://schemas.xmlsoap.org/wsdl/http/" xmlns:t="urn:t" xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:t">`

'''
seed("binding-operation-prefix","C30",
 [("wsdl/wsdl.go","""						el.Attr("", "name") == op.Attr("", "name")""","""						strings.HasPrefix(el.Attr("", "name"), op.Attr("", "name"))""")],
 "a binding with two operations, the name of one of which begins with the name of the other",
 "an operation gets the SOAPAction of another operation",
 H%WX+WSRC+'''func main() {
	def, err := wsdl.Parse([]byte(defs + `<message name="m"/><portType name="p"><operation name="Get"><input message="t:m"/></operation><operation name="GetAll"><input message="t:m"/></operation></portType>
<binding name="b" type="t:p"><s:binding transport="x"/><operation name="Get"><s:operation soapAction="get"/></operation><operation name="GetAll"><s:operation soapAction="all"/></operation></binding>
<service name="s"><port name="q" binding="t:b"><s:address location="http://x"/></port></service></definitions>`))
	if err != nil {
		fail("%v", err)
	}
	for _, op := range def.Ports[0].Operations {
		if want := map[string]string{"Get": "get", "GetAll": "all"}[op.Name.Local]; op.SOAPAction != want {
			fail("%s: %s", op.Name.Local, op.SOAPAction)
		}
	}
}
''')
seed("part-type-in-message-scope","C30",
 [("wsdl/wsdl.go","""				Type:    part.Resolve(part.Attr("", "type")),""","""				Type:    msg.Resolve(part.Attr("", "type")),""")],
 "a part that declares the prefix of its type itself",
 "the type of the part is resolved with the declarations in scope at the message",
 H%WX+WSRC+'''func main() {
	def, err := wsdl.Parse([]byte(defs + `<message name="m"><part name="p" xmlns:z="urn:z" type="z:T"/></message></definitions>`))
	if err != nil {
		fail("%v", err)
	}
	for _, m := range def.Message {
		if m.Parts[0].Type.Space != "urn:z" {
			fail("%v", m.Parts[0].Type)
		}
	}
}
''')
seed("third-name-taken","C20",
 [("xsdgen/xsdgen.go","""			if _, ok := gen.taken[unique]; !ok {
				gen.taken[unique] = struct{}{}
				return ast.NewIdent(unique)""","""			if _, ok := gen.taken[unique]; !ok {
				return ast.NewIdent(unique)""")],
 "a type with three elements or attributes whose names lead to the same Go identifier",
 "two fields of the struct have one name, and the package does not compile",
 H%G+GSRC+'''func main() {
	cfg := new(xsdgen.Config)
	src := source(cfg, `<xs:complexType name="T"><xs:sequence><xs:element name="a.b" type="xs:int"/><xs:element name="ab" type="xs:int"/><xs:element name="a-b" type="xs:int"/><xs:element name="a..b" type="xs:int"/></xs:sequence></xs:complexType>`)
	seen := map[string]bool{}
	for _, l := range strings.Split(src, "\\n") {
		if f := strings.Fields(l); len(f) > 1 && f[1] == "int" {
			if seen[f[0]] {
				fail("two fields %s\\n%s", f[0], src)
			}
			seen[f[0]] = true
		}
	}
	if len(seen) != 4 {
		fail("%s", src)
	}
}
''')
seed("default-value-not-encoded","C22",
 [("xsdgen/xsdgen.go","""		if nonTrivialBuiltin(v.Type) {
			nonDefaultOverrides""","""		if nonTrivialBuiltin(v.Type) && v.DefaultValue == "" {
			nonDefaultOverrides""")],
 "an element or attribute of a type such as date that has a default value",
 "the value is encoded in the format of time.Time, which is not that of the type",
 H%G+GSRC+'''func main() {
	cfg := new(xsdgen.Config)
	src := source(cfg, `<xs:complexType name="T"><xs:sequence><xs:element name="d" type="xs:date" default="2001-02-03"/></xs:sequence></xs:complexType>`)
	if !have(src, "func (t *T) MarshalXML(") {
		fail("%s", src)
	}
}
''')
seed("first-default-wins","C12",
 [("xsd/parse.go","""	if a.Default != b.Default {
		a.Default = ""
	}""","""	if a.Default != b.Default && b.Default != "" {
		a.Default = ""
	}""")],
 "an element that occurs twice in a content model, the first time with a default value and the second time without",
 "the default value of one occurrence is recorded for both",
 S+SSRC+'''func main() {
	types := parse(`<xs:complexType name="T"><xs:choice><xs:sequence><xs:element name="e" type="xs:int" default="5"/></xs:sequence><xs:sequence><xs:element name="e" type="xs:int"/></xs:sequence></xs:choice></xs:complexType>`)
	if d := types["T"].(*xsd.ComplexType).Elements[0].Default; d != "" {
		fail("%s", d)
	}
}
''')
seed("foreign-form-attribute","C21",
 [("xsdgen/xsdgen.go","""			if attrAttr.Name.Space == "" && attrAttr.Name.Local == "form" && attrAttr.Value == "qualified" {""","""			if attrAttr.Name.Local == "form" && attrAttr.Value == "qualified" {""")],
 "an attribute declaration annotated with an attribute called form of another namespace",
 "the field of the unqualified attribute gets the tag of a qualified one",
 H%G+GSRC+'''func main() {
	cfg := new(xsdgen.Config)
	src := source(cfg, `<xs:complexType name="T"><xs:attribute name="p" type="xs:int" f:form="qualified" xmlns:f="urn:f"/></xs:complexType>`)
	if !have(src, "`xml:\\"p,attr,omitempty\\"`") {
		fail("%s", src)
	}
}
''')
seed("literal-field-type","C41",
 [("internal/gen/gen.go","""		parts := strings.SplitN(s, " ", 2)
		if""","""		parts := strings.Fields(s)
		if""")],
 "a parameter whose type has a space in it, such as a channel or a map of channels",
 "the parameter is declared with the last word of its type",
 H%'\n\t"aqwari.net/xml/internal/gen"\n'+'''func main() {
	fn, err := gen.Func("f").Args("c chan int").Body("return").Decl()
	if err != nil {
		fail("%v", err)
	}
	if s, err := gen.ToString(fn.Type.Params.List[0].Type); s != "chan int" {
		fail("%s %v", s, err)
	}
}
''')
WG='\n\t"io/ioutil"\n\t"strings"\n\n\t"aqwari.net/xml/internal/gen"\n\t"aqwari.net/xml/wsdlgen"\n'
WGSRC=WSRC+'''func client(cfg *wsdlgen.Config, schema, address, parts string) string {
	doc := defs + `<types><xs:schema targetNamespace="urn:t">` + schema + `</xs:schema></types><message name="in">` + parts + `</message><message name="out"/>
<portType name="p"><operation name="Op"><input message="t:in"/><output message="t:out"/></operation></portType>
<binding name="b" type="t:p"><s:binding transport="x" style="rpc"/><operation name="Op"><s:operation soapAction="act"/><input><s:body namespace="urn:t"/></input></operation></binding>
<service name="s"><port name="q" binding="t:b"><s:address location="` + address + `"/></port></service></definitions>`
	if err := ioutil.WriteFile("x.wsdl", []byte(doc), 0666); err != nil {
		fail("%v", err)
	}
	file, err := cfg.GenAST("x.wsdl")
	if err != nil {
		fail("%v", err)
	}
	src, err := gen.FormattedSource(file, "x.go")
	if err != nil {
		fail("%v", err)
	}
	return strings.Join(strings.Fields(string(src)), " ")
}

'''
seed("first-line-of-documentation","C31",
 [("wsdlgen/wsdlgen.go","""		Comment(op.Doc).
""","""		Comment(strings.SplitN(op.Doc, "\\n", 2)[0]).
""")],
 "an operation whose documentation has more than one line",
 "only the first line is in the comment of the method",
 H%WG+WGSRC.replace('<operation name="Op"><input message','<operation name="Op"><documentation>one\ntwo</documentation><input message')+'''func main() {
	cfg := new(wsdlgen.Config)
	cfg.Option(wsdlgen.DefaultOptions...)
	if src := client(cfg, "", "http://x", ""); !strings.Contains(src, "// two") {
		fail("%s", src)
	}
}
''')
seed("address-without-slash","C32",
 [("wsdlgen/wsdlgen.go","""	args.Address = addr
""","""	args.Address = strings.TrimSuffix(addr, "/")
""")],
 "a port whose address ends in a slash",
 "requests are sent to another path",
 H%WG+WGSRC+'''func main() {
	cfg := new(wsdlgen.Config)
	cfg.Option(wsdlgen.DefaultOptions...)
	if src := client(cfg, "", "http://x/y/", ""); !strings.Contains(src, `"http://x/y/"`) {
		fail("%s", src)
	}
}
''')
seed("shorthand-prefix-of-root","C11",
 [("xsd/parse.go","""		restrict.SetAttr("", "base", restrict.Prefix(AnyType.Name()))""","""		restrict.SetAttr("", "base", root.Prefix(AnyType.Name()))""")],
 "a complex type in the short form that declares the prefix of the schema language for another namespace",
 "the base of the type is a name in that other namespace",
 S+SSRC+'''func main() {
	types := parse(`<x:complexType xmlns:x="`+schemaNS+`" xmlns:xs="urn:other" name="T"><x:sequence/></x:complexType>`)
	if b := xsd.XMLName(xsd.Base(types["T"])); b != xsd.AnyType.Name() {
		fail("%v", b)
	}
}
''')
