C='\n\t"io/ioutil"\n\n\t"aqwari.net/xml/xsdgen"\n'
CSRC='''func put(name, text string) {
	if err := ioutil.WriteFile(name, []byte(text), 0666); err != nil {
		fail("%v", err)
	}
}

const xs = `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:a="urn:a" xmlns:b="urn:b" targetNamespace=`

'''
seed("imports-once-per-namespace","C25",
 [("xsd/parse.go","""	for _, v := range root.Search(schemaNS, "import") {
		s := Ref{v.Attr("", "namespace"), v.Attr("", "schemaLocation")}
		result = append(result, s)
	}
""","""	seen := make(map[string]bool)
	for _, v := range root.Search(schemaNS, "import") {
		s := Ref{v.Attr("", "namespace"), v.Attr("", "schemaLocation")}
		if seen[s.Namespace] {
			continue
		}
		seen[s.Namespace] = true
		result = append(result, s)
	}
""")],
 "a file that imports one namespace from two files, with import following",
 "the second import of a namespace is dropped, so that one of the reachable documents is not read",
 H%C+CSRC+'''func main() {
	put("m.xsd", xs+`"urn:m"><xs:import namespace="urn:a" schemaLocation="a1.xsd"/><xs:import namespace="urn:a" schemaLocation="a2.xsd"/><xs:complexType name="M"><xs:sequence><xs:element name="x" type="a:One"/><xs:element name="y" type="a:Two"/></xs:sequence></xs:complexType></xs:schema>`)
	put("a1.xsd", xs+`"urn:a"><xs:complexType name="One"><xs:attribute name="p" type="xs:int"/></xs:complexType></xs:schema>`)
	put("a2.xsd", xs+`"urn:a"><xs:complexType name="Two"><xs:attribute name="q" type="xs:int"/></xs:complexType></xs:schema>`)
	cfg := new(xsdgen.Config)
	cfg.Option(xsdgen.DefaultOptions...)
	if err := cfg.GenCLI("-f", "-o", "out.go", "m.xsd"); err != nil {
		fail("%v", err)
	}
	if _, err := os.Stat("out.go"); err != nil {
		fail("%v", err)
	}
}
''')
seed("output-opened-first","C25",
 [("xsdgen/cli.go","""	file, err := cfg.GenAST(fs.Args()...)
	if err != nil {
		return err
	}

	data, err := gen.FormattedSource(file, *output)
	if err != nil {
		return err
	}
	return ioutil.WriteFile(*output, data, 0666)
""","""	// Find out early that there is no place for the output
	dest, err := os.OpenFile(*output, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		return err
	}
	defer dest.Close()

	file, err := cfg.GenAST(fs.Args()...)
	if err != nil {
		return err
	}

	data, err := gen.FormattedSource(file, *output)
	if err != nil {
		return err
	}
	if _, err := dest.Write(data); err != nil {
		return err
	}
	return dest.Close()
"""),("xsdgen/cli.go",'''	"io/ioutil"
	"path/filepath"
''','''	"io/ioutil"
	"os"
	"path/filepath"
''')],
 "a source file that cannot be read or parsed while the output of an earlier run is there",
 "an existing output file is emptied although the command fails",
 H%C+CSRC+'''func main() {
	put("out.go", "package old\\n")
	put("m.xsd", xs+`"urn:m"><xs:complexType name="M">`)
	cfg := new(xsdgen.Config)
	cfg.Option(xsdgen.DefaultOptions...)
	if err := cfg.GenCLI("-o", "out.go", "m.xsd"); err == nil {
		fail("no error")
	}
	if b, err := ioutil.ReadFile("out.go"); err != nil || string(b) != "package old\\n" {
		fail("the output was changed: %q %v", b, err)
	}
	os.Remove("out.go")
	if err := cfg.GenCLI("-o", "out.go", "m.xsd"); err == nil {
		fail("no error")
	}
	if _, err := os.Stat("out.go"); err == nil {
		fail("an output was written")
	}
}
''')
seed("wsdlgen-empty-replacement","C25",
 [("wsdlgen/cli.go","""		cfg.XSDOption(xsdgen.Replace(r.From.String(), r.To))
""","""		if r.To != "" {
			cfg.XSDOption(xsdgen.Replace(r.From.String(), r.To))
		}
""")],
 "a replacement rule of wsdlgen whose replacement is empty",
 "the -r flag of wsdlgen ignores rules that delete something",
 H%('\n\t"io/ioutil"\n\t"strings"\n\n\t"aqwari.net/xml/wsdlgen"\n\t"aqwari.net/xml/xsdgen"\n')+'''func main() {
	text := `<w:definitions xmlns:w="http://schemas.xmlsoap.org/wsdl/" targetNamespace="urn:s"><w:types><xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:s"><xs:complexType name="NsThing"><xs:attribute name="a" type="xs:int"/></xs:complexType></xs:schema></w:types></w:definitions>`
	if err := ioutil.WriteFile("s.wsdl", []byte(text), 0666); err != nil {
		fail("%v", err)
	}
	cfg := new(wsdlgen.Config)
	cfg.Option(wsdlgen.DefaultOptions...)
	cfg.XSDOption(xsdgen.DefaultOptions...)
	if err := cfg.GenCLI("-r", "^Ns ->", "-o", "out.go", "s.wsdl"); err != nil {
		fail("%v", err)
	}
	b, err := ioutil.ReadFile("out.go")
	if err != nil || !strings.Contains(string(b), "type Thing struct") {
		fail("%v\\n%s", err, b)
	}
}
''')
