package main

import (
	"bytes"
	"fmt"
	"strings"

	"aqwari.net/xml/internal/gen"
	"aqwari.net/xml/verif/mapsched"
	"aqwari.net/xml/verif/mc"
	. "aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

// fixed is a set of documents in which many things depend on each other.
type fixed struct {
	name string
	docs []string
	made bool // some names of types have to be made up, so that they depend on the order of documents
}

func head(ns string) string {
	return `<xs:schema xmlns:xs="` + XS + `" xmlns:a="urn:a" xmlns:b="urn:b" xmlns:soapenc="http://schemas.xmlsoap.org/soap/encoding/" xmlns:wsdl="http://schemas.xmlsoap.org/wsdl/" targetNamespace="` + ns + `" elementFormDefault="qualified">`
}

const tail = `</xs:schema>`

// soapSchema is the part of the SOAP encoding schema that arrays need.
var soapSchema = head("http://schemas.xmlsoap.org/soap/encoding/") + `
<xs:attribute name="arrayType" type="xs:string"/>
<xs:attributeGroup name="arrayAttributes"><xs:attribute ref="soapenc:arrayType"/></xs:attributeGroup>
<xs:complexType name="Array"><xs:sequence><xs:any namespace="##any" minOccurs="0" maxOccurs="unbounded"/></xs:sequence><xs:attributeGroup ref="soapenc:arrayAttributes"/><xs:attribute name="id" type="xs:ID"/></xs:complexType>` + tail

var cases = []fixed{
	{"colliding names", []string{
		head("urn:a") + `<xs:complexType name="thing"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType>
<xs:complexType name="Thing"><xs:sequence><xs:element name="t" type="a:thing"/><xs:element name="u" type="b:thing"/></xs:sequence></xs:complexType>
<xs:simpleType name="th-ing"><xs:restriction base="xs:string"><xs:maxLength value="3"/></xs:restriction></xs:simpleType>
<xs:simpleType name="Thing0"><xs:list itemType="a:th-ing"/></xs:simpleType>` + tail,
		head("urn:b") + `<xs:complexType name="thing"><xs:sequence><xs:element name="y" type="xs:date"/></xs:sequence></xs:complexType>
<xs:complexType name="Th.ing"><xs:attribute name="thing" type="xs:int"/><xs:attribute name="Thing" type="xs:date"/></xs:complexType>
<xs:simpleType name="xsdDate"><xs:restriction base="xs:date"><xs:pattern value=".*"/></xs:restriction></xs:simpleType>` + tail}, false},
	{"helpers", []string{
		head("urn:a") + `<xs:complexType name="One"><xs:sequence><xs:element name="d" type="xs:date"/><xs:element name="t" type="xs:time" maxOccurs="3"/><xs:element name="h" type="xs:hexBinary"/></xs:sequence></xs:complexType>
<xs:complexType name="Two"><xs:sequence><xs:element name="d" type="xs:dateTime" default="2001-01-01T00:00:00"/><xs:element name="b" type="xs:base64Binary"/></xs:sequence><xs:attribute name="g" type="xs:gYear"/></xs:complexType>
<xs:simpleType name="Dates"><xs:list itemType="xs:date"/></xs:simpleType><xs:simpleType name="Bytes"><xs:list itemType="xs:hexBinary"/></xs:simpleType>
<xs:simpleType name="Year"><xs:restriction base="xs:gYear"><xs:pattern value="2.*"/></xs:restriction></xs:simpleType>` + tail,
		head("urn:b") + `<xs:complexType name="Three"><xs:simpleContent><xs:extension base="xs:gDay"><xs:attribute name="m" type="xs:gMonth"/></xs:extension></xs:simpleContent></xs:complexType>
<xs:complexType name="Four"><xs:sequence><xs:element name="d" type="a:Dates"/><xs:element name="e" type="xs:date"/><xs:element name="n" type="xs:NMTOKENS"/></xs:sequence></xs:complexType>` + tail}, false},
	{"derivation", []string{
		head("urn:a") + `<xs:complexType name="Base"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence><xs:attributeGroup ref="b:AG"/></xs:complexType>
<xs:complexType name="Top"><xs:complexContent><xs:extension base="b:Mid"><xs:sequence><xs:element name="z" type="a:Code"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>
<xs:simpleType name="Code"><xs:restriction base="b:Raw"><xs:enumeration value="k"/><xs:enumeration value="l"/></xs:restriction></xs:simpleType>` + tail,
		head("urn:b") + `<xs:complexType name="Mid"><xs:complexContent><xs:extension base="a:Base"><xs:sequence><xs:element name="y" type="a:Code" minOccurs="0"/></xs:sequence><xs:attribute name="at" type="xs:date"/></xs:extension></xs:complexContent></xs:complexType>
<xs:complexType name="Side"><xs:complexContent><xs:restriction base="a:Base"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:restriction></xs:complexContent></xs:complexType>
<xs:simpleType name="Raw"><xs:restriction base="xs:string"><xs:maxLength value="9"/></xs:restriction></xs:simpleType>
<xs:attributeGroup name="AG"><xs:attribute name="p" type="a:Code"/><xs:attribute name="q" type="b:Raw" use="required"/></xs:attributeGroup>` + tail}, false},
	{"recursion", []string{
		head("urn:a") + `<xs:complexType name="Tree"><xs:sequence><xs:element name="left" type="a:Tree" minOccurs="0"/><xs:element name="more" type="b:Node" maxOccurs="unbounded"/></xs:sequence></xs:complexType>` + tail,
		head("urn:b") + `<xs:complexType name="Node"><xs:sequence><xs:element name="tree" type="a:Tree"/><xs:element name="leaf" type="b:Leaf"/></xs:sequence></xs:complexType>
<xs:complexType name="Leaf"><xs:simpleContent><xs:extension base="b:Id"><xs:attribute name="v" type="b:Id"/></xs:extension></xs:simpleContent></xs:complexType>
<xs:simpleType name="Id"><xs:union memberTypes="xs:int xs:date"/></xs:simpleType>` + tail}, false},
	{"anonymous", []string{
		head("urn:a") + `<xs:complexType name="T"><xs:sequence><xs:element name="item"><xs:complexType><xs:sequence><xs:element name="item"><xs:simpleType><xs:restriction base="xs:int"><xs:minInclusive value="1"/></xs:restriction></xs:simpleType></xs:element></xs:sequence></xs:complexType></xs:element>
<xs:element name="U" maxOccurs="2"><xs:simpleType><xs:list><xs:simpleType><xs:restriction base="xs:date"><xs:pattern value=".*"/></xs:restriction></xs:simpleType></xs:list></xs:simpleType></xs:element></xs:sequence></xs:complexType>
<xs:complexType name="U"><xs:sequence><xs:element name="item"><xs:complexType><xs:attribute name="other"><xs:simpleType><xs:restriction base="xs:string"><xs:enumeration value="x"/></xs:restriction></xs:simpleType></xs:attribute></xs:complexType></xs:element><xs:element name="t" type="a:T"/></xs:sequence></xs:complexType>` + tail,
		head("urn:b") + `<xs:complexType name="T"><xs:sequence><xs:element name="item"><xs:complexType><xs:sequence><xs:element name="x" type="a:T"/></xs:sequence></xs:complexType></xs:element></xs:sequence></xs:complexType>` + tail}, true},
	{"arrays", []string{
		head("urn:a") + `<xs:complexType name="Ints"><xs:complexContent><xs:restriction base="soapenc:Array"><xs:attribute ref="soapenc:arrayType" wsdl:arrayType="xs:int[]"/></xs:restriction></xs:complexContent></xs:complexType>
<xs:complexType name="Dates"><xs:complexContent><xs:restriction base="soapenc:Array"><xs:attribute ref="soapenc:arrayType" wsdl:arrayType="xs:date[]"/></xs:restriction></xs:complexContent></xs:complexType>
<xs:complexType name="Both"><xs:sequence><xs:element name="i" type="a:Ints"/><xs:element name="d" type="a:Dates"/><xs:element name="bs" type="b:Boths"/></xs:sequence></xs:complexType>` + tail,
		head("urn:b") + `<xs:complexType name="Boths"><xs:complexContent><xs:restriction base="soapenc:Array"><xs:attribute ref="soapenc:arrayType" wsdl:arrayType="a:Both[]"/></xs:restriction></xs:complexContent></xs:complexType>` + tail, soapSchema}, false},
	{"one namespace in several documents", []string{
		head("urn:a") + `<xs:complexType name="A"><xs:sequence><xs:element name="b" type="a:B"/><xs:element ref="a:top"/></xs:sequence></xs:complexType>` + tail,
		head("urn:a") + `<xs:complexType name="B"><xs:complexContent><xs:extension base="a:C"/></xs:complexContent></xs:complexType><xs:element name="top" type="a:D"/>` + tail,
		head("urn:a") + `<xs:complexType name="C"><xs:sequence><xs:element name="d" type="a:D"/></xs:sequence></xs:complexType><xs:simpleType name="D"><xs:restriction base="xs:dateTime"><xs:pattern value=".*"/></xs:restriction></xs:simpleType>` + tail}, false},
}

func (f fixed) bytes() [][]byte {
	var out [][]byte
	for _, d := range f.docs {
		out = append(out, []byte(d))
	}
	return out
}

// optionSets are the options that the checks of whole programs use.
var optionSets = []struct {
	name string
	opts func() []xsdgen.Option
}{
	{"default", func() []xsdgen.Option { return xsdgen.DefaultOptions }},
	{"none", func() []xsdgen.Option { return nil }},
	{"names", func() []xsdgen.Option {
		return []xsdgen.Option{xsdgen.UseFieldNames(), xsdgen.Replace("^[a-z]", ""), xsdgen.PackageName("p")}
	}},
	{"only", func() []xsdgen.Option {
		return []xsdgen.Option{xsdgen.HandleSOAPArrayType(), xsdgen.SOAPArrayAsSlice(), xsdgen.OnlyTypes("^[A-T]"), xsdgen.IgnoreElements("x")}
	}},
	{"copies", func() []xsdgen.Option { return []xsdgen.Option{copies("c"), xsdgen.UseFieldNames()} }},
	{"one namespace", func() []xsdgen.Option {
		return []xsdgen.Option{xsdgen.UseFieldNames(), xsdgen.Namespaces("urn:a")}
	}},
}

// copies is an option whose function returns new types.
func copies(doc string) xsdgen.Option {
	return xsdgen.ProcessTypes(func(_ xsd.Schema, t xsd.Type) xsd.Type {
		if c, ok := t.(*xsd.ComplexType); ok {
			d := *c
			d.Doc += doc
			return &d
		}
		return t
	})
}

// again generates with a Config that may have been used before.
func again(cfg *xsdgen.Config, docs [][]byte) ([]byte, error) {
	xsd.StandardSchema = nil
	if full {
		xsd.StandardSchema = standard
	}
	code, err := cfg.GenCode(docs...)
	if err != nil {
		return nil, err
	}
	file, err := code.GenAST()
	if err != nil {
		return nil, err
	}
	return gen.FormattedSource(file, "x.go")
}

func fresh(opts ...xsdgen.Option) *xsdgen.Config {
	cfg := new(xsdgen.Config)
	cfg.Option(opts...)
	return cfg
}

// firstDiff shows where two sources differ.
func firstDiff(a, b []byte) string {
	x, y := strings.Split(string(a), "\n"), strings.Split(string(b), "\n")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return fmt.Sprintf("line %d: %q, not %q", i+1, y[i], x[i])
		}
	}
	return fmt.Sprintf("%d lines, not %d", len(y), len(x))
}

func c23() mc.Property {
	p := mc.Property{ID: "C23", Quick: 100, Thorough: 860,
		Assumptions: []string{"map iteration is the only source of nondeterminism that the code has; every range over a map in it is instrumented"}}
	compare := func(t *mc.T, what string, a []byte, errA error, b []byte, errB error, text string) {
		if (errA == nil) != (errB == nil) {
			t.Fail("%s: error %v, not %v\n%s", what, errB, errA, text)
		}
		if errA != nil {
			t.Skip()
		}
		t.Compared(1)
		if !bytes.Equal(a, b) {
			t.Fail("%s changes the source: %s\n%s\n%s", what, firstDiff(a, b), text, b)
		}
		t.State(string(b))
	}
	orders := func(t *mc.T, docs [][]byte, opts []xsdgen.Option, text string) {
		mapsched.Sorted()
		a, errA := again(fresh(opts...), docs)
		switch t.Free("maps", 3) {
		case 0:
			mapsched.Reversed()
		case 1:
			mapsched.Fixed(1+t.Free("rotate", 3), t.FreeBool("backwards"))
		case 2:
			mapsched.Chosen(t, 100000)
		}
		defer mapsched.Sorted()
		t.Step()
		b, errB := again(fresh(opts...), docs)
		mapsched.Sorted()
		compare(t, "the order of maps", a, errA, b, errB, text)
	}
	p.Harnesses = append(p.Harnesses, mc.Harness{Name: "map orders", About: "7 sets of dependent documents × 6 option sets × every choice of the order of one (thorough: two) of all ranges over maps, all orders reversed, rotated; oracle: the source is the same", Weight: 4, Bounds: [2]int{1, 2},
		Run: func(t *mc.T) {
			f := cases[t.Free("case", len(cases))]
			o := optionSets[t.Free("options", len(optionSets))]
			t.Input(fmt.Sprint(f.name, " ", o.name))
			orders(t, f.bytes(), o.opts(), strings.Join(f.docs, "\n"))
		}})
	for _, b := range builders() {
		b := b
		switch b.Name {
		case "builtin documents", "texts", "soap", "bundled", "names":
			continue
		}
		p.Harnesses = append(p.Harnesses, mc.Harness{Name: "map orders of " + b.Name, About: b.About + "; × map orders, as above", Weight: 1, Bounds: [2]int{1, 2},
			Run: func(t *mc.T) {
				sc := b.Build(t)
				if sc.set == nil {
					t.Skip()
				}
				docs := sc.docs()
				text := Text(docs)
				t.Input(text)
				orders(t, docs, sc.opts, text)
			}})
	}
	p.Harnesses = append(p.Harnesses, mc.Harness{Name: "document orders", About: "7 sets of documents × 6 option sets × every order of the documents, and with a document given twice; oracle: the source is the same, up to the names of anonymous types", Weight: 0.5, Bounds: [2]int{2, 3},
		Run: func(t *mc.T) {
			f := cases[t.Free("case", len(cases))]
			o := optionSets[t.Free("options", len(optionSets))]
			docs := f.bytes()
			var perm [][]byte
			for _, k := range t.Perm("order of documents", len(docs)) {
				perm = append(perm, docs[k])
			}
			switch t.Choose("maps", 3) {
			case 1:
				mapsched.Reversed()
			case 2:
				mapsched.Fixed(1, false)
			}
			defer mapsched.Sorted()
			t.Input(fmt.Sprint(f.name, " ", o.name))
			t.Step()
			a, errA := again(fresh(o.opts()...), docs)
			b, errB := again(fresh(o.opts()...), perm)
			if f.made && errA == nil && errB == nil {
				// the same number of types, fields and methods
				a, b = []byte(outline(a)), []byte(outline(b))
			}
			compare(t, "the order of documents", a, errA, b, errB, Text(perm))
		}})
	p.Harnesses = append(p.Harnesses, mc.Harness{Name: "histories", About: "all sequences of up to 3 (4) runs of one Config over 7 document sets; oracle: each run gives the source that a new Config gives", Weight: 1, Bounds: [2]int{0, 0},
		Run: func(t *mc.T) {
			o := optionSets[t.Free("options", len(optionSets))]
			cfg := fresh(o.opts()...)
			max := 3
			if t.Thorough {
				max = 4
			}
			n := 1 + t.Free("runs", max)
			trail := ""
			for i := 0; i < n; i++ {
				f := cases[t.Free("documents", len(cases))]
				trail += f.name + "; "
				t.Input(trail + o.name)
				t.Step()
				a, errA := again(fresh(o.opts()...), f.bytes())
				b, errB := again(cfg, f.bytes())
				compare(t, "what the Config was used for before ("+trail+")", a, errA, b, errB, strings.Join(f.docs, "\n"))
			}
		}})
	return p
}

// outline counts what is in a source.
func outline(src []byte) string {
	n := map[string]int{}
	for _, l := range strings.Split(string(src), "\n") {
		switch {
		case strings.HasPrefix(l, "type "):
			n["types"]++
		case strings.HasPrefix(l, "func "):
			n["functions"]++
		case strings.Contains(l, "`xml:"):
			n[l[strings.Index(l, "`xml:"):]]++
		}
	}
	return fmt.Sprint(n)
}
