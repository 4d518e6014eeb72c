G='\n\t"strings"\n\n\t"aqwari.net/xml/internal/gen"\n\t"aqwari.net/xml/xsdgen"\n'
GSRC='''const head = `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:a="urn:a" targetNamespace="urn:a" elementFormDefault="qualified">`

func source(cfg *xsdgen.Config, docs ...string) string {
	var b [][]byte
	for _, d := range docs {
		b = append(b, []byte(head+d+"</xs:schema>"))
	}
	code, err := cfg.GenCode(b...)
	if err != nil {
		fail("%v", err)
	}
	file, err := code.GenAST()
	if err != nil {
		fail("%v", err)
	}
	src, err := gen.FormattedSource(file, "x.go")
	if err != nil {
		fail("%v", err)
	}
	return string(src)
}

func have(src, line string) bool {
	return strings.Contains(strings.Join(strings.Fields(src), " "), line)
}

'''
seed("replace-order","C24",
 [("xsdgen/config.go","""			if prev != nil {
				name = prev(name)
			}
			if err != nil {
				cfg.logf("Invalid regex %q passed to Replace", pat)
				return name
			}
			r := reg.ReplaceAllString(name.Local, repl)
			if r != name.Local {
				cfg.debugf("changed name %s -> %s", name.Local, r)
			}
			name.Local = r
			return name""","""			if err != nil {
				cfg.logf("Invalid regex %q passed to Replace", pat)
			} else {
				r := reg.ReplaceAllString(name.Local, repl)
				if r != name.Local {
					cfg.debugf("changed name %s -> %s", name.Local, r)
				}
				name.Local = r
			}
			if prev != nil {
				name = prev(name)
			}
			return name""")],
 "two Replace options whose substitutions do not commute",
 "substitutions are applied in the reverse of the order in which the options were given",
 H%G+GSRC+'''func main() {
	cfg := new(xsdgen.Config)
	cfg.Option(xsdgen.Replace("^Old", "New"), xsdgen.Replace("New", "Fresh"))
	src := source(cfg, `<xs:complexType name="OldThing"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType>`)
	if !have(src, "type FreshThing struct") {
		fail("%s", src)
	}
}
''')
seed("processtypes-undo","C24",
 [("xsdgen/config.go","""		if prev != nil {
				t = prev(s, t)
			}
			return fn(s, t)""","""		if prev != nil {
				prev(s, t)
			}
			return fn(s, t)""")],
 "two ProcessTypes options, the first of which returns a new type rather than changing the one it is given",
 "what the first function returns is dropped",
 H%'\n\t"strings"\n\n\t"aqwari.net/xml/internal/gen"\n\t"aqwari.net/xml/xsd"\n\t"aqwari.net/xml/xsdgen"\n'+GSRC+'''func main() {
	cfg := new(xsdgen.Config)
	cfg.Option(xsdgen.ProcessTypes(func(_ xsd.Schema, t xsd.Type) xsd.Type {
		if c, ok := t.(*xsd.ComplexType); ok {
			d := *c
			d.Elements = nil
			return &d
		}
		return t
	}), xsdgen.ProcessTypes(func(_ xsd.Schema, t xsd.Type) xsd.Type { return t }))
	src := source(cfg, `<xs:complexType name="Thing"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType>`)
	if have(src, "urn:a x") {
		fail("%s", src)
	}
}
''')
seed("filter-undo","C24",
 [("xsdgen/config.go","""		prev := *p
		*p = fn
		return replacePropertyFilter(p, prev)""","""		prev := *p
		*p = fn
		if prev == nil {
			return replacePropertyFilter(p, func(interface{}) bool { return false })
		}
		return replacePropertyFilter(p, fn)""")],
 "an option that filters attributes, elements or types replaces another one of its kind and is then undone",
 "undoing the second filter leaves it in force instead of bringing back the first one",
 H%G+GSRC+'''func main() {
	cfg := new(xsdgen.Config)
	cfg.Option(xsdgen.IgnoreElements("x"))
	undo := cfg.Option(xsdgen.IgnoreElements("y"))
	cfg.Option(undo)
	src := source(cfg, `<xs:complexType name="Thing"><xs:sequence><xs:element name="x" type="xs:int"/><xs:element name="y" type="xs:int"/></xs:sequence></xs:complexType>`)
	if have(src, "urn:a x") || !have(src, "urn:a y") {
		fail("%s", src)
	}
}
''')
seed("helper-last-user","C20",
 [("xsdgen/xsdgen.go","""		for _, dep := range s.helperTypes {
			if h, ok := cfg.helperTypes[dep]; ok {""","""		for i, dep := range s.helperTypes {
			if h, ok := cfg.helperTypes[dep]; ok && (i < 3 || s.private) {""")],
 "a type with more than three members that need helpers, the last of which is of a built-in type that nothing before it uses",
 "the helper type is not declared, so the source does not compile",
 H%G+GSRC+'''func main() {
	cfg := new(xsdgen.Config)
	src := source(cfg, `<xs:complexType name="Thing"><xs:sequence><xs:element name="a" type="xs:date"/><xs:element name="b" type="xs:time"/><xs:element name="c" type="xs:dateTime"/><xs:element name="d" type="xs:hexBinary"/></xs:sequence></xs:complexType>`)
	if !have(src, "type xsdHexBinary []byte") {
		fail("%s", src)
	}
}
''')
seed("attr-qualified-default","C21",
 [("xsdgen/xsdgen.go","""attrAttr.Name.Local == "form" && attrAttr.Value == "qualified" {""","""attrAttr.Name.Local == "form" && attrAttr.Value == "qualified" && attr.Default == "" {""")],
 "an attribute that is declared qualified and has a default value",
 "the field of the attribute has no namespace, so a document written with it has an attribute that the schema does not know",
 H%G+GSRC+'''func main() {
	cfg := new(xsdgen.Config)
	src := source(cfg, `<xs:complexType name="Thing"><xs:attribute name="x" type="xs:string" form="qualified" default="v"/></xs:complexType>`)
	if !have(src, `xml:"urn:a x,attr`) {
		fail("%s", src)
	}
}
''')
seed("helpers-any-order","C23",
 [("xsdgen/xsdgen.go","""	keys := m.keys()
	sort.Strings(keys)
	for _, key := range keys {""","""	keys := m.keys()
	if len(keys) > 8 {
		sort.Strings(keys)
	}
	for _, key := range keys {""")],
 "documents whose code has few types, two or more of which need the functions that parse times",
 "the functions are put behind any one of the types, so that the source differs from run to run",
 H%G+GSRC+'''func main() {
	seen := map[string]bool{}
	for i := 0; i < 200; i++ {
		cfg := new(xsdgen.Config)
		seen[source(cfg, `<xs:complexType name="Thing"><xs:sequence><xs:element name="x" type="xs:date"/><xs:element name="y" type="xs:time"/><xs:element name="z" type="xs:gYear"/></xs:sequence></xs:complexType>`)] = true
	}
	if len(seen) != 1 {
		fail("%d sources", len(seen))
	}
}
''')
