package main

import (
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/mc"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsd"
)

// Built-in types by the name the specification gives them.
var specTypes = []struct {
	name string
	b    xsd.Builtin
}{
	{"anyType", xsd.AnyType}, {"anySimpleType", xsd.AnySimpleType},
	{"duration", xsd.Duration}, {"dateTime", xsd.DateTime}, {"time", xsd.Time}, {"date", xsd.Date},
	{"gYearMonth", xsd.GYearMonth}, {"gYear", xsd.GYear}, {"gMonthDay", xsd.GMonthDay}, {"gDay", xsd.GDay}, {"gMonth", xsd.GMonth},
	{"boolean", xsd.Boolean}, {"base64Binary", xsd.Base64Binary}, {"hexBinary", xsd.HexBinary}, {"float", xsd.Float}, {"double", xsd.Double},
	{"anyURI", xsd.AnyURI}, {"QName", xsd.QName}, {"NOTATION", xsd.NOTATION}, {"string", xsd.String}, {"decimal", xsd.Decimal},
	{"normalizedString", xsd.NormalizedString}, {"token", xsd.Token}, {"language", xsd.Language},
	{"NMTOKEN", xsd.NMTOKEN}, {"NMTOKENS", xsd.NMTOKENS}, {"Name", xsd.Name}, {"NCName", xsd.NCName},
	{"ID", xsd.ID}, {"IDREF", xsd.IDREF}, {"IDREFS", xsd.IDREFS}, {"ENTITY", xsd.ENTITY}, {"ENTITIES", xsd.ENTITIES},
	{"integer", xsd.Integer}, {"nonPositiveInteger", xsd.NonPositiveInteger}, {"negativeInteger", xsd.NegativeInteger},
	{"long", xsd.Long}, {"int", xsd.Int}, {"short", xsd.Short}, {"byte", xsd.Byte},
	{"nonNegativeInteger", xsd.NonNegativeInteger}, {"unsignedLong", xsd.UnsignedLong}, {"unsignedInt", xsd.UnsignedInt},
	{"unsignedShort", xsd.UnsignedShort}, {"unsignedByte", xsd.UnsignedByte}, {"positiveInteger", xsd.PositiveInteger},
}

// The attributes of the XML namespace have pseudo-types of their own.
var xmlTypes = []xsd.Builtin{xsd.XMLLang, xsd.XMLSpace, xsd.XMLBase, xsd.XMLId}

var otherSpaces = []string{"", smodel.XS + "/", smodel.XS + "-instance", "http://www.w3.org/1999/XMLSchema", "http://www.w3.org/XML/1998/namespace",
	"http://www.w3.org/2009/01/xml.xsd", "urn:a", " " + smodel.XS, strings.ToLower(smodel.XS)}

func c10() mc.Property {
	return mc.Property{
		ID: "C10", Quick: 40, Thorough: 60,
		Harnesses: []mc.Harness{
			{Name: "values", Bounds: [2]int{0, 0},
				About: "every Builtin value from 0 to the last; oracle: the table of the specification (46 names) and the four pseudo-types of xml: attributes; names are unique and parse back",
				Run: func(t *mc.T) {
					b := xsd.Builtin(t.Free("value", int(xsd.AnySimpleType)+1))
					t.Step()
					name := b.Name()
					t.Input(fmt.Sprint(int(b), name))
					got, err := xsd.ParseBuiltin(name)
					if err != nil || got != b {
						t.Fail("%v has the name %v, which parses to %v, %v", b, name, got, err)
					}
					if xsd.XMLName(b) != name || xsd.Base(b) != nil {
						t.Fail("XMLName or Base of %v are wrong", b)
					}
					var want []xml.Name
					for _, s := range specTypes {
						if s.b == b {
							want = append(want, xml.Name{Space: smodel.XS, Local: s.name})
							if !strings.EqualFold(b.String(), s.name) {
								t.Fail("%s is written as %q", s.name, b.String())
							}
						}
					}
					pseudo := false
					for _, x := range xmlTypes {
						pseudo = pseudo || x == b
					}
					switch {
					case pseudo:
						if name.Space == smodel.XS {
							t.Fail("%v is said to be in the XML Schema namespace", name)
						}
					case len(want) != 1 || want[0] != name:
						t.Fail("the name of %v is %v, not %v", b, name, want)
					}
					for o := xsd.AnyType; o <= xsd.AnySimpleType; o++ {
						t.Compared(1)
						if o != b && (o.Name() == name || o.String() == b.String()) {
							t.Fail("%d and %d are both called %v", int(o), int(b), name)
						}
					}
					t.Outcome(fmt.Sprint(name))
				}},
			{Name: "names", Bounds: [2]int{0, 0},
				About: "every specification name, every string one edit away from one (a character deleted, doubled, swapped with the next, or its case changed), in 10 namespaces; oracle: exactly the specification names in the XML Schema namespace parse",
				Run: func(t *mc.T) {
					s := specTypes[t.Free("name", len(specTypes))]
					ed := t.Free("edit", 5)
					name := s.name
					if ed > 0 {
						at := t.Free("position", len(name))
						b := []byte(name)
						switch ed {
						case 1:
							b = append(b[:at:at], b[at+1:]...)
						case 2:
							b = append(b[:at:at], append([]byte{b[at]}, b[at:]...)...)
						case 3:
							if at+1 == len(b) {
								t.Skip()
							}
							b[at], b[at+1] = b[at+1], b[at]
						case 4:
							b[at] ^= 0x20
						}
						name = string(b)
					}
					space := smodel.XS
					if k := t.Free("namespace", len(otherSpaces)+1); k > 0 {
						space = otherSpaces[k-1]
					}
					q := xml.Name{Space: space, Local: name}
					t.Input(fmt.Sprint(q))
					t.Step()
					want := xsd.Builtin(-1)
					if space == smodel.XS {
						for _, s := range specTypes {
							if s.name == name {
								want = s.b
							}
						}
					}
					got, err := xsd.ParseBuiltin(q)
					if (err == nil) != (want >= 0) || err == nil && got != want {
						t.Fail("ParseBuiltin(%v) = %v, %v; want %d", q, got, err, int(want))
					}
					t.Outcome(fmt.Sprint(want))
				}},
			{Name: "namespaces", Bounds: [2]int{0, 0},
				About: "the name and the Go identifier of every Builtin value, also with the names that xml: attributes have, in the namespace of every Builtin value and 10 others; oracle: only the specification names in the XML Schema namespace and the names of the four pseudo-types parse",
				Run: func(t *mc.T) {
					b := xsd.Builtin(t.Free("value", int(xsd.AnySimpleType)+1))
					local := b.Name().Local
					switch t.Free("name", 8) {
					case 1:
						local = b.String()
					case 2:
						local = strings.ToLower(b.String())
					case 3:
						local = strings.TrimPrefix(strings.ToLower(b.String()), "xml")
					case 4:
						local = "xml:" + strings.TrimPrefix(strings.ToLower(b.String()), "xml")
					case 5:
						local = "xml" + local
					case 6:
						local = "xs:" + local
					case 7:
						local = fmt.Sprint(int(b))
					}
					spaces := append([]string{smodel.XS, smodel.XS + "#"}, otherSpaces...)
					for _, x := range xmlTypes {
						spaces = append(spaces, x.Name().Space, x.Name().Space+"/")
					}
					q := xml.Name{Space: spaces[t.Free("namespace", len(spaces))], Local: local}
					t.Input(fmt.Sprint(q))
					t.Step()
					want := xsd.Builtin(-1)
					for _, s := range specTypes {
						if q == (xml.Name{Space: smodel.XS, Local: s.name}) {
							want = s.b
						}
					}
					for _, x := range xmlTypes {
						if q == x.Name() {
							want = x
						}
					}
					t.Compared(1)
					got, err := xsd.ParseBuiltin(q)
					if (err == nil) != (want >= 0) || err == nil && got != want {
						t.Fail("ParseBuiltin(%v) = %v, %v; want %d", q, got, err, int(want))
					}
					t.Outcome(fmt.Sprint(want))
				}},
			{Name: "references", Bounds: [2]int{0, 0},
				About: "every specification name, and its near misses, in every position of a schema that takes a type, for 3 ways to write the namespace; oracle: resolves to the built-in, or is refused",
				Run: func(t *mc.T) {
					k := t.Free("type", len(specTypes))
					s := specTypes[k]
					name, ok := s.name, true
					switch t.Free("variant", 4) {
					case 1:
						name, ok = strings.ToUpper(name[:1])+name[1:], name[0] < 'a'
					case 2:
						name, ok = strings.ToLower(name), name == strings.ToLower(name)
					case 3:
						name, ok = name+"x", false
					}
					prefix := t.FreePick("prefix", "xs:", "xsd:", "")
					decl := "xmlns:" + strings.TrimSuffix(prefix, ":")
					if prefix == "" {
						decl = "xmlns"
					}
					ref := prefix + name
					p := prefix
					body := ""
					pos := t.FreePick("position", "element", "attribute", "list", "union", "restriction", "simpleContent", "top", "extension", "topattr")
					if (s.name == "anyType") && pos != "element" && pos != "top" && pos != "extension" {
						t.Skip()
					}
					switch pos {
					case "element":
						body = `<Xcomplextype name="T"><Xsequence><Xelement name="e" type="` + ref + `"/></Xsequence></Xcomplextype>`
					case "attribute":
						body = `<Xcomplextype name="T"><Xattribute name="e" type="` + ref + `"/></Xcomplextype>`
					case "list":
						body = `<Xsimpletype name="T"><Xlist itemType="` + ref + `"/></Xsimpletype>`
					case "union":
						body = `<Xsimpletype name="T"><Xunion memberTypes="` + ref + `"/></Xsimpletype>`
					case "restriction":
						body = `<Xsimpletype name="T"><Xrestriction base="` + ref + `"/></Xsimpletype>`
					case "simpleContent":
						body = `<Xcomplextype name="T"><XsimpleContent><Xextension base="` + ref + `"/></XsimpleContent></Xcomplextype>`
					case "extension":
						if s.name != "anyType" {
							t.Skip()
						}
						body = `<Xcomplextype name="T"><XcomplexContent><Xextension base="` + ref + `"/></XcomplexContent></Xcomplextype>`
					case "top":
						body = `<Xelement name="T" type="` + ref + `"/>`
					case "topattr":
						body = `<Xattribute name="a" type="` + ref + `"/><Xcomplextype name="T"><Xattribute ref="a:a"/></Xcomplextype>`
					}
					body = strings.NewReplacer("Xcomplextype", p+"complexType", "Xsimpletype", p+"simpleType", "XcomplexContent", p+"complexContent", "XsimpleContent", p+"simpleContent",
						"Xsequence", p+"sequence", "Xelement", p+"element", "Xattribute", p+"attribute", "Xlist", p+"list", "Xunion", p+"union", "Xrestriction", p+"restriction", "Xextension", p+"extension").Replace(body)
					doc := []byte("<" + p + `schema ` + decl + `="` + smodel.XS + `" xmlns:a="urn:a" targetNamespace="urn:a">` + body + "</" + p + "schema>")
					t.Input(string(doc))
					schemas, err := parse(t, [][]byte{doc})
					if !ok {
						if err == nil {
							t.Fail("Parse accepts the type %s\n%s", ref, doc)
						}
						t.Outcome("refused")
						return
					}
					if err != nil {
						t.Fail("Parse: %v\n%s", err, doc)
					}
					ty := schemas[0].Types[xml.Name{Space: "urn:a", Local: "T"}]
					var got xsd.Type
					switch ty := ty.(type) {
					case *xsd.ComplexType:
						switch {
						case len(ty.Elements) > 0:
							got = ty.Elements[0].Type
						case len(ty.Attributes) > 0:
							got = ty.Attributes[0].Type
						default:
							got = ty.Base
						}
					case *xsd.SimpleType:
						got = ty.Base
						if len(ty.Union) > 0 {
							got = ty.Union[0]
						}
					default:
						got = ty
					}
					if got != xsd.Type(s.b) {
						t.Fail("%s leads to %v, not to %v\n%s", ref, got, s.b, doc)
					}
					// the built-in types can be looked up, too
					found := false
					for _, sc := range schemas {
						if sc.TargetNS == smodel.XS {
							found = sc.FindType(xml.Name{Space: smodel.XS, Local: name}) == xsd.Type(s.b)
						}
					}
					if !found {
						t.Fail("no schema returned by Parse has the type %s", ref)
					}
					t.Outcome(fmt.Sprint(s.b))
				}},
		},
	}
}
