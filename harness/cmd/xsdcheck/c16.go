package main

import (
	"bytes"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/mc"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsd"
)

// importDoc makes a document of schemas with import and include elements
// among other things, and says what it imports.
func importDoc(t *mc.T, max int) (doc string, want []xsd.Ref) {
	var imports, includes []xsd.Ref
	p := t.FreePick("prefix", "xs:", "", "s:")
	decl := "xmlns"
	if p != "" {
		decl += ":" + strings.TrimSuffix(p, ":")
	}
	decl += `="` + smodel.XS + `"`
	var b strings.Builder
	opt := func(label, attr string, vals ...string) string {
		v := t.Choose(label, len(vals)+1)
		if v == len(vals) {
			return ""
		}
		b.WriteString(" " + attr + `="` + smodel.Esc(vals[v]) + `"`)
		return vals[v]
	}
	item := func(tns string) {
		switch t.Free("item", 11) {
		case 0:
			b.WriteString("<" + p + "import")
			ns := opt("namespace", "namespace", "urn:x", "", "urn:a&b", "urn:own", "urn:c", "urn:a")
			loc := opt("location", "schemaLocation", "x.xsd", "", "http://h/x?a=1&b=é")
			if t.Bool("with content") {
				b.WriteString("><" + p + "annotation><" + p + "documentation>import</" + p + "documentation></" + p + "annotation></" + p + "import>")
			} else {
				b.WriteString("/>")
			}
			imports = append(imports, xsd.Ref{Namespace: ns, Location: loc})
		case 1:
			b.WriteString("<" + p + "include")
			loc := opt("location", "schemaLocation", "y.xsd", "", "../y.xsd")
			b.WriteString("/>")
			includes = append(includes, xsd.Ref{Namespace: tns, Location: loc})
		case 2:
			b.WriteString(`<o:import xmlns:o="urn:other" namespace="urn:no" schemaLocation="no.xsd"/>`)
		case 3:
			b.WriteString(`<!-- <xs:import namespace="urn:no"/> -->`)
		case 4:
			b.WriteString("<" + p + `imports namespace="urn:no"/>`)
		case 5:
			b.WriteString("<" + p + `element name="import" type="` + p + `int"/>`)
		case 6:
			b.WriteString(`<include xmlns="" schemaLocation="no.xsd"/>`)
		case 7:
			b.WriteString("<" + p + `annotation><` + p + `documentation><![CDATA[<xs:include schemaLocation="no.xsd"/>]]></` + p + `documentation></` + p + `annotation>`)
		case 8:
			b.WriteString(`<o:Import xmlns:o="` + smodel.XS + `" namespace="urn:no"/>`)
		case 9:
			b.WriteString("<" + p + `annotation><` + p + `documentation>like <` + p + `import namespace="urn:no" schemaLocation="no.xsd"/> this</` + p + `documentation></` + p + `annotation>`)
		case 10:
			b.WriteString("<" + p + `annotation><` + p + `appinfo><` + p + `schema targetNamespace="urn:no"><` + p + `include schemaLocation="no.xsd"/></` + p + `schema></` + p + `appinfo></` + p + `annotation>`)
		}
	}
	schema := func(tns string, n int, outer bool) {
		b.WriteString("<" + p + "schema")
		if outer {
			b.WriteString(" " + decl)
		}
		switch {
		case tns != "":
			b.WriteString(` targetNamespace="` + tns + `"`)
		case t.Bool("empty target namespace"):
			b.WriteString(` targetNamespace=""`)
		}
		b.WriteString(">")
		for i := 0; i < n; i++ {
			item(tns)
		}
		b.WriteString("</" + p + "schema>")
	}
	tns := t.FreePick("target namespace", "urn:a", "", "urn:b")
	switch t.Free("document", 3) {
	case 0:
		schema(tns, t.Free("items", max+1), true)
	case 1: // a service document
		own := t.Pick("namespace of the document", ` targetNamespace="urn:own"`, "")
		b.WriteString(`<w:definitions xmlns:w="http://schemas.xmlsoap.org/wsdl/" ` + decl + own + `><w:import namespace="urn:no" location="no.wsdl"/><w:types>`)
		schema(tns, t.Free("items", (max+1)/2+1), false)
		schema("urn:c", 1, false)
		b.WriteString(`</w:types></w:definitions>`)
	case 2: // schemas at different depths, and none
		own := t.Pick("namespace of the document", ` targetNamespace="urn:own"`, "")
		b.WriteString(`<r ` + decl + own + `>`)
		if t.Bool("a schema") {
			b.WriteString("<deep><deeper" + own + ">")
			schema(tns, (max+1)/2, true)
			b.WriteString("</deeper></deep>")
		}
		b.WriteString(`</r>`)
	}
	return b.String(), append(imports, includes...)
}

func c16() mc.Property {
	return mc.Property{
		ID: "C16", Quick: 25, Thorough: 200,
		Harnesses: []mc.Harness{
			{Name: "imports", Bounds: [2]int{2, 4}, Weight: 3,
				About: "documents with up to 3 (thorough 4) import, include and look-alike elements, in one or two schemas, bare or inside other documents; oracle: the list made along with the document, imports in document order and includes in document order",
				Run: func(t *mc.T) {
					max := 3
					if t.Thorough {
						max = 4
					}
					doc, want := importDoc(t, max)
					t.Input(doc)
					data := []byte(doc)
					t.Step()
					got, err := xsd.Imports(data)
					if err != nil {
						t.Fail("Imports: %v\n%s", err, doc)
					}
					t.Compared(len(want))
					// The order of imports relative to includes is not specified.
					if len(got) != len(want) {
						t.Fail("got %v\nwant %v\n%s", got, want, doc)
					}
					if fmt.Sprint(got) != fmt.Sprint(want) && !mergeOf(got, want) {
						t.Fail("got %v\nwant %v\n%s", got, want, doc)
					}
					if !bytes.Equal(data, []byte(doc)) {
						t.Fail("Imports changed its input\n%s", doc)
					}
					again, err := xsd.Imports(data)
					if err != nil || fmt.Sprint(again) != fmt.Sprint(got) {
						t.Fail("the second time: %v %v\n%s", again, err, doc)
					}
					t.Outcome(fmt.Sprint(want))
				}},
			{Name: "malformed", Bounds: [2]int{1, 2}, Weight: 1,
				About: "the same documents (at most 1 item each) cut off at every byte, and with every single < > \" / removed; oracle: an error",
				Run: func(t *mc.T) {
					doc, _ := importDoc(t, 1)
					if len(doc) > 500 {
						t.Skip()
					}
					at := t.Free("byte", len(doc))
					bad := doc[:at]
					if t.FreeBool("remove one character") {
						c := doc[at]
						// These always leave a document that is not well-formed.
						if at > 0 && doc[at-1] == '<' || !(c == '<' && at+1 < len(doc) && doc[at+1] == '/') {
							t.Skip()
						}
						bad = doc[:at] + doc[at+1:]
						if strings.Contains(doc, "<!") {
							t.Skip()
						}
					}
					t.Input(bad)
					t.Step()
					if got, err := xsd.Imports([]byte(bad)); err == nil {
						t.Fail("Imports accepts a malformed document: %v\n%s", got, bad)
					}
					t.Outcome("refused")
				}},
		},
	}
}

// mergeOf tells whether got has the elements of want, with imports and
// includes each in their order. want has imports first.
func mergeOf(got, want []xsd.Ref) bool {
	// try every split of want in two
	for k := 0; k <= len(want); k++ {
		a, b := want[:k], want[k:]
		if merges(got, a, b) {
			return true
		}
	}
	return false
}

func merges(got, a, b []xsd.Ref) bool {
	if len(got) == 0 {
		return len(a) == 0 && len(b) == 0
	}
	return len(a) > 0 && got[0] == a[0] && merges(got[1:], a[1:], b) || len(b) > 0 && got[0] == b[0] && merges(got[1:], a, b[1:])
}
