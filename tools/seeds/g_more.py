seed("encode-count", "C04",
 [("xmltree/marshal.go","""	pretty         bool
}
""","""	pretty         bool
	count          int
}
"""),
 ("xmltree/marshal.go","""	if len(visited) > recursionLimit {
		// We only return I/O errors
		return nil
	}
	if _, ok""","""	if e.count++; e.count > 8*recursionLimit && len(visited) > 8 {
		// We only return I/O errors
		return nil
	}
	if _, ok""")],
 "a document of more than 24000 elements, some of them nine levels below the root",
 "the limit against endless recursion counts elements instead of levels, so that elements of a large document are left out",
 X.replace('"fmt"\n\t"os"','"bytes"\n\t"fmt"\n\t"os"')+'''func main() {
	doc := []byte("<a><a><a><a><a><a><a><a><a>" + string(bytes.Repeat([]byte("<b></b>"), 30000)) + "</a></a></a></a></a></a></a></a></a>")
	el, err := xmltree.Parse(doc)
	if err != nil {
		fail("%v", err)
	}
	again, err := xmltree.Parse(xmltree.Marshal(el))
	if err != nil {
		fail("%v", err)
	}
	if n, m := len(el.Flatten()), len(again.Flatten()); n != m {
		fail("%d elements, was %d", m, n)
	}
}
''')
seed("escape-shared-buffer","C08",
 [("xmltree/marshal.go","""	var buf bytes.Buffer
	err := xml.EscapeText(&buf, []byte(s))
	return buf.String(), err
}""","""	escapeBuf.Reset()
	err := xml.EscapeText(&escapeBuf, []byte(s))
	return escapeBuf.String(), err
}

var escapeBuf bytes.Buffer""")],
 "two goroutines that write documents at the same time, and switch while an attribute value is escaped",
 "the value of an attribute of one document ends up in the other",
 X.replace('"fmt"\n\t"os"','"fmt"\n\t"os"\n\t"runtime"\n\t"strings"\n\t"sync"')+'''func main() {
	runtime.GOMAXPROCS(8)
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		v := strings.Repeat(string(rune('a'+i)), 3000)
		el, err := xmltree.Parse([]byte(`<x v="` + v + `"/>`))
		if err != nil {
			fail("%v", err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 2000; n++ {
				if s := el.String(); s != `<x v="`+v+`" />` {
					fail("%.60s", s)
				}
			}
		}()
	}
	wg.Wait()
}
''')
seed("mixed-depth","C12",
 [("xsd/parse.go","	const maxDepth = 1000\n","	const maxDepth = 20\n")],
 "a chain of many extensions of a mixed type, or of a type with simple content",
 "the types at the end of the chain are not mixed",
 S.replace('"encoding/xml"','"encoding/xml"\n\t"strconv"')+SSRC+'''func main() {
	doc := `<xs:complexType name="T0" mixed="true"/>`
	for i := 1; i <= 600; i++ {
		doc += `<xs:complexType name="T` + strconv.Itoa(i) + `"><xs:complexContent><xs:extension base="a:T` + strconv.Itoa(i-1) + `"/></xs:complexContent></xs:complexType>`
	}
	for name, t := range parse(doc) {
		if c, ok := t.(*xsd.ComplexType); ok && name != "_self" && !c.Mixed {
			fail("%s is not mixed", name)
		}
	}
}
''')
seed("join-nillable","C12",
 [("xsd/parse.go","a.Nillable = a.Nillable || b.Nillable","a.Nillable = a.Nillable && b.Nillable")],
 "a type with two elements of one name, of which one is nillable",
 "the element is recorded as not nillable",
 S+SSRC+'''func main() {
	t := parse(`<xs:complexType name="T"><xs:sequence><xs:element name="x" type="xs:int"/><xs:element name="y" type="xs:int"/><xs:element name="x" type="xs:int" nillable="true"/></xs:sequence></xs:complexType>`)["T"].(*xsd.ComplexType)
	for _, el := range t.Elements {
		if el.Name.Local == "x" && !el.Nillable {
			fail("not nillable")
		}
	}
}
''')
seed("occurs-16-bits","C12",
 [("xsd/parse.go","""	n, err := strconv.Atoi(s)
	if err != nil {
		stop(err.Error())
	}
	return n
}

""","""	n, err := strconv.ParseUint(s, 10, 16)
	if err != nil {
		stop(err.Error())
	}
	return int(n)
}

""")],
 "an element that may occur more than 65535 times",
 "the schema is refused",
 S+SSRC+'''func main() {
	t := parse(`<xs:complexType name="T"><xs:sequence><xs:element name="x" type="xs:int" maxOccurs="100000"/></xs:sequence></xs:complexType>`)["T"].(*xsd.ComplexType)
	if len(t.Elements) != 1 || !t.Elements[0].Plural {
		fail("%+v", t.Elements)
	}
}
''')
seed("bounds-float32","C13",
 [("xsd/parse.go","	n, err := strconv.ParseFloat(s, 64)\n","	n, err := strconv.ParseFloat(s, 32)\n")],
 "a bound with more than seven digits",
 "the bound is rounded",
 S+SSRC+'''func main() {
	t := parse(`<xs:simpleType name="T"><xs:restriction base="xs:int"><xs:maxInclusive value="123456789"/></xs:restriction></xs:simpleType>`)["T"].(*xsd.SimpleType)
	if t.Restriction.Max != 123456789 {
		fail("%v", t.Restriction.Max)
	}
}
''')
seed("few-duplicates","C20",
 [("xsdgen/xsdgen.go","	const maxDupNames = 1000\n","	const maxDupNames = 8\n")],
 "a type with more than nine elements whose names differ only in characters that identifiers cannot have",
 "the struct has two fields of the same name: it does not compile",
 H%G.replace('"strings"','"go/parser"\n\t"go/token"\n\t"strconv"\n\t"strings"')+GSRC+'''func main() {
	cfg := new(xsdgen.Config)
	cfg.Option(xsdgen.DefaultOptions...)
	doc := ""
	for i := 0; i < 12; i++ {
		doc += `<xs:element name="x` + strings.Repeat("-", i) + `" type="xs:int"/>`
	}
	src := source(cfg, `<xs:complexType name="T"><xs:sequence>`+doc+`</xs:sequence></xs:complexType>`)
	if _, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0); err != nil {
		fail("%v", err)
	}
	seen := make(map[string]bool)
	for _, line := range strings.Split(src, "\\n") {
		f := strings.Fields(line)
		if len(f) > 1 && f[1] == "int" && strings.HasPrefix(f[0], "X") {
			if seen[f[0]] {
				fail("two fields are called %s", f[0])
			}
			seen[f[0]] = true
		}
	}
	if len(seen) != 12 {
		fail(strconv.Itoa(len(seen)) + " fields")
	}
}
''')
seed("base-elements-last","C22",
 [("xsdgen/xsdgen.go","		c.Elements = append(elements, c.Elements...)\n","		c.Elements = append(c.Elements, elements...)\n")],
 "a type that extends another type with elements, and is encoded",
 "the elements of the extension are written before those of the base type",
 H%G+GSRC+'''func main() {
	cfg := new(xsdgen.Config)
	cfg.Option(xsdgen.DefaultOptions...)
	src := source(cfg, `<xs:complexType name="B"><xs:sequence><xs:element name="first" type="xs:int"/></xs:sequence></xs:complexType><xs:complexType name="T"><xs:complexContent><xs:extension base="a:B"><xs:sequence><xs:element name="second" type="xs:int"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>`)
	i := strings.Index(src, "type T struct")
	if i < 0 || strings.Index(src[i:], "First") > strings.Index(src[i:], "Second") {
		fail("%s", src)
	}
}
''')
