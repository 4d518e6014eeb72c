// Command wsdlgencheck decides the properties of package wsdlgen: C31 and C32.
package main

import (
	"encoding/xml"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"aqwari.net/xml/verif/mapsched"
	"aqwari.net/xml/verif/mc"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

const (
	wsdlNS = "http://schemas.xmlsoap.org/wsdl/"
	xsNS   = "http://www.w3.org/2001/XMLSchema"
	nsS    = "urn:s" // of the service
	nsT    = "urn:t" // of the schema
	nsO    = "urn:o" // of the other schema
)

// The abstract description of a service.
type (
	part struct {
		name string
		ref  *ref
	}
	ref struct {
		label   string
		name    xml.Name
		element bool
		want    string // Go type; "struct x": a struct with that field; "=int": any type made of it
	}
	message struct {
		name  string
		parts []part
	}
	operation struct {
		name    string
		docs    []string
		in, out int // message, or -1
		action  string
		space   string // namespace of the body
		style   string
	}
	portType []operation
	port     struct {
		name, address string
		kind          string // soap, soap12, GET, POST
		style         string
		pt            int
		service       int
	}
	service struct {
		docs     [][]string // of each service
		messages []message
		pts      []portType
		ports    []port
		schemas  []string // in the document
		files    []string // in files of their own
	}
)

// builtinGo is the Go type that stands for each built-in type.
var builtinGo = map[string]string{
	"anyType": "string", "anySimpleType": "string", "ENTITIES": "[]string", "ENTITY": "string", "ID": "string", "IDREF": "string", "IDREFS": "[]string",
	"NCName": "string", "NMTOKEN": "string", "NMTOKENS": "[]string", "NOTATION": "string", "Name": "string", "QName": "xml.Name", "anyURI": "string",
	"base64Binary": "[]byte", "boolean": "bool", "byte": "int8", "date": "time.Time", "dateTime": "time.Time", "decimal": "float64", "double": "float64",
	"duration": "string", "float": "float32", "gDay": "time.Time", "gMonth": "time.Time", "gMonthDay": "time.Time", "gYear": "time.Time", "gYearMonth": "time.Time",
	"hexBinary": "[]byte", "int": "int", "integer": "int", "language": "string", "long": "int64", "negativeInteger": "int", "nonNegativeInteger": "int",
	"normalizedString": "string", "nonPositiveInteger": "int", "positiveInteger": "int", "short": "int", "string": "string", "time": "time.Time", "token": "string",
	"unsignedByte": "byte", "unsignedInt": "uint", "unsignedLong": "uint64", "unsignedShort": "uint",
}

const schemaT = `<xs:schema targetNamespace="urn:t" elementFormDefault="qualified">
<xs:simpleType name="Code"><xs:restriction base="xs:string"/></xs:simpleType>
<xs:simpleType name="size"><xs:restriction base="xs:int"/></xs:simpleType>
<xs:simpleType name="Day"><xs:restriction base="xs:date"/></xs:simpleType>
<xs:simpleType name="Codes"><xs:list itemType="t:Code"/></xs:simpleType>
<xs:simpleType name="Sizes"><xs:list itemType="xs:int"/></xs:simpleType>
<xs:simpleType name="Either"><xs:union memberTypes="t:Code xs:int"/></xs:simpleType>
<xs:complexType name="Person"><xs:sequence><xs:element name="name" type="xs:string"/><xs:element name="age" type="xs:int" minOccurs="0"/><xs:element name="born" type="xs:date"/></xs:sequence><xs:attribute name="num" type="xs:int"/></xs:complexType>
<xs:complexType name="people"><xs:sequence><xs:element name="one" type="t:Person" maxOccurs="unbounded"/></xs:sequence></xs:complexType>
<xs:complexType name="Text"><xs:simpleContent><xs:extension base="xs:string"><xs:attribute name="lang" type="xs:string"/></xs:extension></xs:simpleContent></xs:complexType>
<xs:element name="person" type="t:Person"/>
<xs:element name="note" type="xs:string"/>
<xs:element name="when" type="xs:date"/>
<xs:element name="count" type="xs:int"/>
<xs:element name="code" type="t:Code"/>
<xs:element name="anon"><xs:complexType><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType></xs:element>
<xs:element name="anonSimple"><xs:simpleType><xs:restriction base="xs:int"/></xs:simpleType></xs:element>
<xs:element name="wild"/>
</xs:schema>`

const schemaO = `<xs:schema targetNamespace="urn:o" elementFormDefault="qualified">
<xs:complexType name="Thing"><xs:sequence><xs:element name="size" type="xs:long"/></xs:sequence></xs:complexType>
<xs:simpleType name="Color"><xs:restriction base="xs:string"/></xs:simpleType>
<xs:element name="thing" type="o:Thing"/>
<xs:element name="person" type="xs:string"/>
</xs:schema>`

var (
	builtins []*ref
	declared []*ref
	refs     []*ref
	byLabel  = map[string]*ref{}
)

func init() {
	for _, b := range strings.Fields(`string int boolean decimal long short byte unsignedByte unsignedInt unsignedShort unsignedLong float double integer negativeInteger
		nonNegativeInteger nonPositiveInteger positiveInteger dateTime date time gDay gMonth gMonthDay gYear gYearMonth duration hexBinary base64Binary anyURI QName NOTATION
		normalizedString token language Name NCName NMTOKEN NMTOKENS ID IDREF IDREFS ENTITY ENTITIES anyType anySimpleType`) {
		builtins = append(builtins, &ref{b, xml.Name{Space: xsNS, Local: b}, false, builtinGo[b]})
	}
	if len(builtins) != len(builtinGo) {
		panic("built-in types")
	}
	for _, d := range [][3]string{{"Code", "t", "=string"}, {"size", "t", "=int"}, {"Day", "t", "Day"}, {"Codes", "t", "Codes"}, {"Sizes", "t", "Sizes"}, {"Either", "t", "=string"},
		{"Person", "t", "Person"}, {"people", "t", "People"}, {"Text", "t", "Text"}, {"Thing", "o", "Thing"}, {"Color", "o", "=string"}} {
		declared = append(declared, &ref{d[1] + ":" + d[0], xml.Name{Space: "urn:" + d[1], Local: d[0]}, false, d[2]})
	}
	for _, d := range [][3]string{{"person", "t", "Person"}, {"note", "t", "string"}, {"when", "t", "time.Time"}, {"count", "t", "int"}, {"code", "t", "=string"}, {"anon", "t", "struct x"}, {"anonSimple", "t", "=int"},
		{"wild", "t", "string"}, {"thing", "o", "Thing"}, {"person", "o", "string"}} {
		declared = append(declared, &ref{"<" + d[1] + ":" + d[0] + ">", xml.Name{Space: "urn:" + d[1], Local: d[0]}, true, d[2]})
	}
	refs = append(append(refs, builtins...), declared...)
	for _, r := range refs {
		byLabel[r.label] = r
	}
}

func esc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", `"`, "&quot;").Replace(s)
}

func attr(name, value string) string {
	if value == "" {
		return ""
	}
	return fmt.Sprintf(` %s="%s"`, name, esc(value))
}

func qname(n xml.Name) string {
	for p, s := range map[string]string{"xs": xsNS, "t": nsT, "o": nsO, "s": nsS} {
		if s == n.Space {
			return p + ":" + n.Local
		}
	}
	return "n:" + n.Local // declared by the part
}

func (s *service) text() string {
	var b strings.Builder
	fmt.Fprintf(&b, `<w:definitions xmlns:w="%s" xmlns:soap="http://schemas.xmlsoap.org/wsdl/soap/" xmlns:soap12="http://schemas.xmlsoap.org/wsdl/soap12/" xmlns:h="http://schemas.xmlsoap.org/wsdl/http/" xmlns:xs="%s" xmlns:t="%s" xmlns:o="%s" xmlns:s="%s" targetNamespace="%s">`, wsdlNS, xsNS, nsT, nsO, nsS, nsS)
	if len(s.schemas) > 0 {
		fmt.Fprintf(&b, "\n<w:types>%s</w:types>", strings.Join(s.schemas, "\n"))
	}
	for _, m := range s.messages {
		fmt.Fprintf(&b, "\n<w:message%s>", attr("name", m.name))
		for _, p := range m.parts {
			k := "type"
			if p.ref.element {
				k = "element"
			}
			q, declare := qname(p.ref.name), ""
			if strings.HasPrefix(q, "n:") {
				declare = attr("xmlns:n", p.ref.name.Space)
			}
			fmt.Fprintf(&b, `<w:part%s%s%s/>`, attr("name", p.name), attr(k, q), declare)
		}
		b.WriteString("</w:message>")
	}
	docs := func(d []string) {
		for _, d := range d {
			fmt.Fprintf(&b, "<w:documentation>%s</w:documentation>", d)
		}
	}
	for i, pt := range s.pts {
		fmt.Fprintf(&b, "\n<w:portType name=\"PT%d\">", i)
		for _, op := range pt {
			fmt.Fprintf(&b, "<w:operation%s>", attr("name", op.name))
			docs(op.docs)
			if op.in >= 0 {
				fmt.Fprintf(&b, `<w:input%s/>`, attr("message", "s:"+s.messages[op.in].name))
			}
			if op.out >= 0 {
				fmt.Fprintf(&b, `<w:output%s/>`, attr("message", "s:"+s.messages[op.out].name))
			}
			b.WriteString("</w:operation>")
		}
		b.WriteString("</w:portType>")
	}
	for i, p := range s.ports {
		fmt.Fprintf(&b, "\n<w:binding name=\"B%d\" type=\"s:PT%d\">", i, p.pt)
		soap := p.kind == "soap" || p.kind == "soap12"
		if soap {
			fmt.Fprintf(&b, `<%s:binding transport="http://schemas.xmlsoap.org/soap/http"%s/>`, p.kind, attr("style", p.style))
		} else {
			fmt.Fprintf(&b, `<h:binding%s/>`, attr("verb", p.kind))
		}
		for _, op := range s.pts[p.pt] {
			fmt.Fprintf(&b, "<w:operation%s>", attr("name", op.name))
			if soap {
				fmt.Fprintf(&b, `<%s:operation%s%s/>`, p.kind, attr("soapAction", op.action), attr("style", op.style))
				fmt.Fprintf(&b, `<w:input><%s:body use="literal"%s/></w:input><w:output><%s:body use="literal"%s/></w:output>`, p.kind, attr("namespace", op.space), p.kind, attr("namespace", op.space))
			} else {
				fmt.Fprintf(&b, `<h:operation location="/%s"/>`, esc(op.name))
			}
			b.WriteString("</w:operation>")
		}
		b.WriteString("</w:binding>")
	}
	for i, d := range s.docs {
		fmt.Fprintf(&b, "\n<w:service name=\"S%d\">", i)
		docs(d)
		for k, p := range s.ports {
			if p.service != i {
				continue
			}
			ns := "soap"
			switch p.kind {
			case "soap12":
				ns = "soap12"
			case "soap":
			default:
				ns = "h"
			}
			fmt.Fprintf(&b, `<w:port%s binding="s:B%d"><%s:address%s/></w:port>`, attr("name", p.name), k, ns, attr("location", p.address))
		}
		b.WriteString("</w:service>")
	}
	b.WriteString("\n</w:definitions>\n")
	return b.String()
}

var dir string

// write puts the description in files.
func (s *service) write() (files []string, text string) {
	if dir == "" {
		d, err := ioutil.TempDir(os.Getenv("MC_SCRATCH"), "wsdlgen")
		if err != nil {
			panic(err)
		}
		dir = d
	}
	put := func(name, data string) {
		f := filepath.Join(dir, name)
		if err := ioutil.WriteFile(f, []byte(data), 0644); err != nil {
			panic(err)
		}
		files = append(files, f)
	}
	text = s.text()
	put("s.wsdl", text)
	for i, f := range s.files {
		f = strings.Replace(f, "<xs:schema ", fmt.Sprintf(`<xs:schema xmlns:xs="%s" xmlns:t="%s" xmlns:o="%s" `, xsNS, nsT, nsO), 1)
		put(fmt.Sprintf("s%d.xsd", i), f)
		text += "\nfile:\n" + f
	}
	return files, text
}

// fresh is a new configuration.
func fresh(opts ...wsdlgen.Option) *wsdlgen.Config {
	cfg := new(wsdlgen.Config)
	cfg.Option(wsdlgen.DefaultOptions...)
	cfg.XSDOption(xsdgen.DefaultOptions...)
	cfg.Option(opts...)
	return cfg
}

var standard = xsd.StandardSchema

// useSchemas turns the bundled schemas off, which saves most of the time.
func useSchemas(on bool) {
	if on {
		xsd.StandardSchema = standard
	} else {
		xsd.StandardSchema = nil
	}
}

func main() {
	mapsched.Sorted()
	mc.Main(c31, c32)
}

func xml_(space, local string) xml.Name { return xml.Name{Space: space, Local: local} }
