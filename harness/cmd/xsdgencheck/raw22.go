package main

import (
	"encoding/xml"
	"fmt"
	"io"
	"regexp"
	"strings"

	"aqwari.net/xml/verif/mc"
	. "aqwari.net/xml/verif/smodel"
)

// finding is an input on which the generated types are known to be wrong, see
// known-findings.txt.
type finding struct {
	key    string
	schema string
	doc    string
	want   []expect
}

const findingHead = `<xs:schema xmlns:xs="` + XS + `" xmlns:a="` + NSA + `" targetNamespace="` + NSA + `"`

// findings of C22. Each one is a package of its own; the type is T.
var findings = []finding{
	{"nil date", ` elementFormDefault="qualified"><xs:complexType name="T"><xs:sequence><xs:element name="on" type="xs:date" nillable="true"/><xs:element name="n" type="xs:int"/></xs:sequence></xs:complexType>`,
		`<a:on nil:nil="true"/><a:n>3</a:n>`, []expect{{path: "/{urn:a}n[0]/#text", builtin: "int", lex: "3"}}},
	{"QName element", ` elementFormDefault="qualified"><xs:complexType name="T"><xs:sequence><xs:element name="q" type="xs:QName"/></xs:sequence></xs:complexType>`,
		`<a:q>a:name</a:q>`, []expect{{path: "/{urn:a}q[0]/#text", builtin: "string", lex: "{urn:a}name"}}},
	{"QName attribute", ` elementFormDefault="qualified"><xs:complexType name="T"><xs:sequence/><xs:attribute name="q" type="xs:QName"/></xs:complexType>`,
		` q="a:name">`, []expect{{path: "/@q", builtin: "string", lex: "{urn:a}name"}}},
	{"reference to a global attribute", ` elementFormDefault="qualified"><xs:attribute name="g" type="xs:int"/><xs:complexType name="T"><xs:sequence/><xs:attribute ref="a:g"/></xs:complexType>`,
		` a:g="5">`, []expect{{path: "/@{urn:a}g", builtin: "int", lex: "5", attr: true}}},
	{"two attributes with one local name", ` elementFormDefault="qualified"><xs:attribute name="g" type="xs:int"/><xs:complexType name="T"><xs:sequence/><xs:attribute ref="a:g"/><xs:attribute name="g" type="xs:int"/></xs:complexType>`,
		` a:g="5" g="6">`, []expect{{path: "/@{urn:a}g", builtin: "int", lex: "5", attr: true}, {path: "/@g", builtin: "int", lex: "6", attr: true}}},
	{"unqualified local element", `><xs:complexType name="T"><xs:sequence><xs:element name="n" type="xs:int"/></xs:sequence></xs:complexType>`,
		`<n>3</n>`, []expect{{path: "/{}n[0]/#text", builtin: "int", lex: "3"}}},
	{"form of a local element", ` elementFormDefault="qualified"><xs:complexType name="T"><xs:sequence><xs:element name="n" type="xs:int" form="unqualified"/></xs:sequence></xs:complexType>`,
		`<n>3</n>`, []expect{{path: "/{}n[0]/#text", builtin: "int", lex: "3"}}},
	{"repeated unsignedByte", ` elementFormDefault="qualified"><xs:complexType name="T"><xs:sequence><xs:element name="n" type="xs:unsignedByte" maxOccurs="unbounded"/></xs:sequence></xs:complexType>`,
		`<a:n>3</a:n><a:n>4</a:n>`, []expect{{path: "/{urn:a}n[0]/#text", builtin: "unsignedByte", lex: "3"}, {path: "/{urn:a}n[1]/#text", builtin: "unsignedByte", lex: "4"}}},
	{"large decimal", ` elementFormDefault="qualified"><xs:complexType name="T"><xs:sequence><xs:element name="d" type="xs:decimal"/></xs:sequence></xs:complexType>`,
		`<a:d>1000000000000000000000</a:d>`, []expect{{path: "/{urn:a}d[0]/#text", builtin: "decimal", lex: "1000000000000000000000"}}},
	{inSequence, ` elementFormDefault="qualified"><xs:complexType name="T"><xs:sequence><xs:element name="on" type="xs:date"/><xs:element name="n" type="xs:int"/></xs:sequence></xs:complexType>`,
		`<a:on>2001-02-03</a:on><a:n>3</a:n>`, []expect{{path: "/{urn:a}on[0]/#text", builtin: "date", lex: "2001-02-03"}, {path: "/{urn:a}n[0]/#text", builtin: "int", lex: "3"}}},
}

// inSequence is the finding that is about the order of elements.
const inSequence = "order of a date before an int"

func (f finding) document() string {
	root := `<a:root xmlns:a="urn:a" xmlns:nil="` + xsi + `"`
	if !strings.HasPrefix(f.doc, " ") {
		root += ">"
	}
	return root + f.doc + "</a:root>"
}

var decimalForm = regexp.MustCompile(`^[-+]?(\d+(\.\d*)?|\.\d+)$`)

func checkFinding(t *mc.T) {
	us := byGroup["findings"]
	u := us[t.Free("finding", len(us))]
	var f finding
	for _, g := range findings {
		if "finding:"+g.key == u.Raw {
			f = g
		}
	}
	t.Input(f.key)
	if u.Broken != "" {
		t.FailKey(f.key, "%s", u.Broken)
	}
	a, died := ask(u.Pkg+"."+u.Names["{urn:a}T"], f.document())
	fail := func(s string, v ...interface{}) {
		t.FailKey(f.key, "%s\n%s\n%s", fmt.Sprintf(s, v...), findingHead+f.schema, f.document())
	}
	if died != "" {
		fail("%s", died)
	}
	for _, e := range []string{a.Err1, a.Err2, a.Err3} {
		if e != "" {
			fail("%s", e)
		}
	}
	if f.key == "large decimal" {
		fl, _ := flat(a.X)
		if len(fl) != 1 || !decimalForm.MatchString(fl[0][1]) {
			fail("the encoded document is not valid: %s", a.X)
		}
	}
	if f.key == inSequence {
		if wrong := inOrder(map[string][][]Name{"": {{N(NSA, "on"), N(NSA, "n")}}}, a.X); wrong != "" {
			fail("%s", wrong)
		}
	}
	// names are compared after they are resolved
	if strings.HasPrefix(f.key, "QName") {
		if fmt.Sprint(a.V1) != fmt.Sprint(a.V2) {
			fail("decoding again gives other values: %v, %v", a.V1, a.V2)
		}
		if len(a.V1) != 1 || a.V1[0][1] != f.want[0].lex {
			fail("the value is not decoded: %v", a.V1)
		}
		return
	}
	judge(t, a, f.want, fail)
}

// soapUnits are packages with SOAP arrays of every built-in type.
func soapUnits() []*unit {
	var out []*unit
	for _, making := range []string{"itself", "pattern", "list"} {
		var body strings.Builder
		for _, b := range builtinNames {
			if listBuiltin(b) || b == "anyType" || b == "QName" || making != "list" && b == "unsignedByte" { // known finding
				continue
			}
			item := "xs:" + b
			switch making {
			case "pattern":
				item = "a:Item-" + b
				fmt.Fprintf(&body, `<xs:simpleType name="Item-%s"><xs:restriction base="xs:%s"><xs:pattern value=".*"/></xs:restriction></xs:simpleType>`+"\n", b, b)
			case "list":
				item = "a:Item-" + b
				fmt.Fprintf(&body, `<xs:simpleType name="Item-%s"><xs:list itemType="xs:%s"/></xs:simpleType>`+"\n", b, b)
			}
			fmt.Fprintf(&body, `<xs:complexType name="Arr-%s"><xs:complexContent><xs:restriction base="soapenc:Array"><xs:attribute ref="soapenc:arrayType" wsdl:arrayType="%s[]"/></xs:restriction></xs:complexContent></xs:complexType>`+"\n", b, item)
			fmt.Fprintf(&body, `<xs:complexType name="Holder-%s"><xs:sequence><xs:element name="arr" type="a:Arr-%s"/><xs:element name="more" type="a:Arr-%s" minOccurs="0"/></xs:sequence></xs:complexType>`+"\n", b, b, b)
		}
		out = append(out, &unit{Group: "soap", Raw: "soap:" + making + ":" + string(envelope(body.String()))})
	}
	for _, f := range findings {
		out = append(out, &unit{Group: "findings", Raw: "finding:" + f.key})
	}
	return out
}

func (u *unit) rawDocs() [][]byte {
	if strings.HasPrefix(u.Raw, "soap:") {
		return [][]byte{[]byte(strings.SplitN(u.Raw, ":", 3)[2])}
	}
	for _, f := range findings {
		if "finding:"+f.key == u.Raw {
			return [][]byte{[]byte(findingHead + f.schema + "</xs:schema>")}
		}
	}
	panic("no finding " + u.Raw)
}

var rawTypes = regexp.MustCompile(`<xs:(?:complex|simple)Type name="([^"]+)"`)

// soapTrip decodes and encodes SOAP arrays.
func soapTrip(t *mc.T) {
	us := byGroup["soap"]
	u := us[t.Free("making", len(us))]
	making := strings.SplitN(u.Raw, ":", 3)[1]
	if u.Broken != "" {
		t.FailKey("soap "+making, "%s", u.Broken)
	}
	var have []string
	for _, b := range builtinNames {
		if u.Names["{urn:a}Arr-"+b] != "" {
			have = append(have, b)
		}
	}
	b := have[t.Free("builtin", len(have))]
	holder := t.FreeBool("inside of another type")
	n := t.Free("items", 4)
	var doc strings.Builder
	doc.WriteString(`<v-a:root xmlns:v-a="urn:a" xmlns:v-xs="` + XS + `" xmlns:soapenc="http://schemas.xmlsoap.org/soap/encoding/"`)
	at := fmt.Sprintf(` soapenc:arrayType="v-xs:%s[%d]"`, b, n)
	item := t.Pick("name of items", "item", "v-a:x", "Item")
	var want []expect
	array := func(path string, n int) {
		for i := 0; i < n; i++ {
			lex := lexical[b][t.Choose("value", len(lexical[b]))]
			e := expect{path: fmt.Sprintf("%s/[%d]/#text", path, i), builtin: b, lex: lex}
			if making == "list" {
				if f := strings.Fields(lex); len(f) != 1 {
					t.Skip()
				}
				e.list = true
				if t.Choose("items of the list", 2) == 1 {
					e.lex += " " + lex
				}
			}
			want = append(want, e)
			doc.WriteString(t.Pick("between", "", "\n ", "<!-- c -->"))
			doc.WriteString("<" + item + ">" + xmlText(e.lex) + "</" + item + ">")
		}
	}
	name := "Arr-" + b
	if holder {
		name = "Holder-" + b
		doc.WriteString(`><v-a:arr` + at + `>`)
		array("/{urn:a}arr[0]", n)
		doc.WriteString(`</v-a:arr>`)
		if m := t.Free("items of the other", 3); m > 0 {
			doc.WriteString(`<v-a:more>`)
			array("/{urn:a}more[0]", m-1)
			doc.WriteString(`</v-a:more>`)
		}
	} else {
		doc.WriteString(at + ">")
		array("", n)
	}
	doc.WriteString("</v-a:root>")
	t.Input(fmt.Sprintf("soap %s %s", making, doc.String()))
	t.Step()
	id := u.Names["{urn:a}"+name]
	a, died := ask(u.Pkg+"."+id, doc.String())
	fail := func(s string, v ...interface{}) {
		t.Fail("%s\ntype %s, arrays of %s (%s)\ndocument: %s\nencoded again: %s\nvalues: %q\nvalues after decoding that: %q", fmt.Sprintf(s, v...), name, b, making, doc.String(), a.X, a.V1, a.V2)
	}
	if died != "" {
		fail("%s", died)
	}
	for i, e := range []string{a.Err1, a.Err2, a.Err3} {
		if e != "" {
			fail("%s: %s", []string{"a valid document cannot be decoded", "the decoded value cannot be encoded", "the encoded document cannot be decoded"}[i], e)
		}
	}
	compare := func(what string, got [][2]string, parse func(expect, string) (value, error)) {
		if len(got) != len(want) {
			fail("%s has %d values, not %d", what, len(got), len(want))
		}
		for i, e := range want {
			w, err := canonText(e, e.lex)
			if err != nil {
				fail("harness: %v", err)
			}
			v, err := parse(e, got[i][1])
			if err != nil || v.text != w.text {
				fail("%s has the value %q, not %q (%v)", what, got[i][1], e.lex, err)
			}
			t.Compared(1)
		}
	}
	for i, e := range want {
		if i < len(a.V1) && a.V1[i][0] != e.path {
			fail("there is a value at %s, not %s", a.V1[i][0], e.path)
		}
	}
	compare("the decoded value", a.V1, canonDump)
	compare("the value decoded again", a.V2, canonDump)
	compare("the encoded document", itemTexts(a.X, name), canonText)
}

// itemTexts lists the texts of items in a document.
func itemTexts(doc, name string) (out [][2]string) {
	depth := 1
	if strings.HasPrefix(name, "Holder") {
		depth = 2
	}
	d := xml.NewDecoder(strings.NewReader(doc))
	at := -1
	text := ""
	for {
		tok, err := d.Token()
		if err == io.EOF || err != nil {
			return out
		}
		switch tok := tok.(type) {
		case xml.StartElement:
			at++
			text = ""
		case xml.CharData:
			text += string(tok)
		case xml.EndElement:
			if at == depth {
				out = append(out, [2]string{"", text})
			}
			at--
		}
	}
}
