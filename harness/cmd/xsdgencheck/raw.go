package main

import (
	"fmt"
	"go/types"
	"strings"

	"aqwari.net/xml/verif/gocheck"
	"aqwari.net/xml/verif/mc"
	. "aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsdgen"
)

// envelope puts components in a schema that knows the usual namespaces.
func envelope(body string) []byte {
	return []byte(`<xs:schema xmlns:xs="` + XS + `" xmlns:a="` + NSA + `" xmlns:soapenc="http://schemas.xmlsoap.org/soap/encoding/" xmlns:wsdl="http://schemas.xmlsoap.org/wsdl/" xmlns:xlink="http://www.w3.org/1999/xlink" targetNamespace="` + NSA + `" elementFormDefault="qualified">
<xs:import namespace="http://schemas.xmlsoap.org/soap/encoding/"/><xs:import namespace="http://www.w3.org/XML/1998/namespace"/><xs:import namespace="http://www.w3.org/1999/xlink"/>
` + body + `
</xs:schema>`)
}

func soapArrays(t *mc.T) scen {
	item := "xs:int"
	goItem := "int"
	extra := ""
	switch t.Free("item", 3) {
	case 0:
		b := builtinNames[t.Free("builtin", len(builtinNames))]
		if listBuiltin(b) {
			t.Skip()
		}
		item, goItem = "xs:"+b, builtinGo[b]
	case 1:
		b := builtinNames[t.Free("builtin", len(builtinNames))]
		how := t.FreePick("making", "pattern", "list")
		if b == "anyType" || listBuiltin(b) {
			t.Skip()
		}
		item, goItem = "a:Item", "Item"
		if how == "pattern" {
			extra = `<xs:simpleType name="Item"><xs:restriction base="xs:` + b + `"><xs:pattern value=".*"/></xs:restriction></xs:simpleType>`
		} else {
			extra = `<xs:simpleType name="Item"><xs:list itemType="xs:` + b + `"/></xs:simpleType>`
		}
	case 2:
		item, goItem = "a:Item", "Item"
		extra = `<xs:complexType name="Item"><xs:sequence><xs:element name="on" type="xs:date"/></xs:sequence></xs:complexType>`
	}
	attr := `<xs:attribute ref="soapenc:arrayType" wsdl:arrayType="` + item + t.Pick("suffix", "[]", "[] ") + `"/>`
	more := t.Pick("attribute", "", "before", "after")
	switch more {
	case "before":
		attr = `<xs:attribute name="more" type="xs:int"/>` + attr
	case "after":
		attr += `<xs:attribute name="more" type="xs:int"/>`
	}
	body := extra
	shape := t.Pick("shape", "plain", "base sequence", "second array", "used")
	switch shape {
	case "plain", "used":
		body += `<xs:complexType name="Arr"><xs:complexContent><xs:restriction base="soapenc:Array">` + attr + `</xs:restriction></xs:complexContent></xs:complexType>`
	case "base sequence":
		body += `<xs:complexType name="Arr"><xs:complexContent><xs:restriction base="soapenc:Array"><xs:sequence><xs:any minOccurs="0" maxOccurs="unbounded"/></xs:sequence>` + attr + `</xs:restriction></xs:complexContent></xs:complexType>`
	case "second array":
		body += `<xs:complexType name="Arr"><xs:complexContent><xs:restriction base="soapenc:Array">` + attr + `</xs:restriction></xs:complexContent></xs:complexType>` +
			`<xs:complexType name="Other"><xs:complexContent><xs:restriction base="soapenc:Array"><xs:attribute ref="soapenc:arrayType" wsdl:arrayType="xs:string[]"/></xs:restriction></xs:complexContent></xs:complexType>`
	}
	if shape == "used" {
		body += `<xs:complexType name="Holder"><xs:sequence><xs:element name="arr" type="a:Arr"/><xs:element name="more" type="a:Arr" maxOccurs="unbounded"/></xs:sequence></xs:complexType>`
	}
	opt := t.Free("options", 5)
	sc := scen{raw: [][]byte{envelope(body)}, full: true}
	wantSlice, wantItems, wantAttrs := false, goItem, true
	switch opt {
	case 0:
		sc.opts, wantSlice, wantAttrs = xsdgen.DefaultOptions, true, false
	case 1:
		sc.opts = []xsdgen.Option{xsdgen.HandleSOAPArrayType()}
	case 2:
		sc.opts = []xsdgen.Option{xsdgen.HandleSOAPArrayType(), xsdgen.SOAPArrayAsSlice()}
	case 3:
		wantItems = "string"
	case 4:
		sc.opts = []xsdgen.Option{xsdgen.HandleSOAPArrayType(), xsdgen.IgnoreAttributes("id", "href", "offset")}
		wantAttrs = false
	}
	if opt == 3 && t.Replaying() {
		_ = wantItems
	}
	sc.check = func(t *mc.T, out output) {
		fail := func(f string, v ...interface{}) {
			t.Fail("%s\n%s\n%s", fmt.Sprintf(f, v...), sc.raw[0], out.Src)
		}
		decls := out.Types()
		if goItem == "Item" && opt != 3 && decls["Item"] == nil {
			fail("the item type is not declared")
		}
		check := func(name, item string) {
			d := decls[name]
			if d == nil {
				fail("there is no declaration for %s", name)
			}
			if wantSlice && (more == "" || name == "Other") {
				sl, ok := d.Underlying().(*types.Slice)
				if !ok || goType(sl.Elem()) != item {
					fail("%s is %s, not a slice of %s", name, goType(d.Underlying()), item)
				}
				return
			}
			st, ok := d.Underlying().(*types.Struct)
			if !ok {
				fail("%s is %s, not a struct", name, goType(d.Underlying()))
			}
			var got []string
			for _, f := range gocheck.Fields(st) {
				got = append(got, f.Kind()+" "+f.Local)
				if f.Kind() == "any" {
					if goType(f.Type) != "[]"+item {
						fail("the items of %s are %s, not %s", name, goType(f.Type), item)
					}
					got[len(got)-1] = "any"
				}
			}
			want := map[string]bool{"any": true}
			if wantAttrs {
				for _, a := range []string{"id", "href", "offset"} {
					want["attr "+a] = true
				}
			}
			if opt == 3 {
				want["attr arrayType"] = true
			}
			if more != "" && name == "Arr" {
				want["attr more"] = true
			}
			for _, g := range got {
				if !want[g] {
					fail("%s has an unexpected field %s", name, g)
				}
				delete(want, g)
			}
			for w := range want {
				fail("%s has no field %s", name, w)
			}
		}
		check("Arr", wantItems)
		if shape == "second array" {
			check("Other", "string")
		}
		if shape == "used" {
			st := decls["Holder"].Underlying().(*types.Struct)
			fs := gocheck.Fields(st)
			if len(fs) != 2 || goType(fs[0].Type) != "Arr" || goType(fs[1].Type) != "[]Arr" {
				fail("the fields of Holder are wrong")
			}
		}
	}
	return sc
}

func bundled(t *mc.T) scen {
	type use struct{ xml, goType, kind, local string }
	uses := []use{
		{`<xs:attribute ref="xml:lang"/>`, "", "attr", "lang"},
		{`<xs:attribute ref="xml:space"/>`, "", "attr", "space"},
		{`<xs:attribute ref="xml:base"/>`, "", "attr", "base"},
		{`<xs:attribute ref="xml:id"/>`, "string", "attr", "id"},
		{`<xs:attribute ref="xlink:href" use="required"/>`, "", "attr", "href"},
		{`<xs:attribute ref="xlink:type"/>`, "", "attr", "type"},
		{`<xs:attribute ref="soapenc:root"/>`, "", "attr", "root"},
		{`<xs:attributeGroup ref="soapenc:commonAttributes"/>`, "", "attr", "id"},
		{`<xs:attributeGroup ref="xml:specialAttrs"/>`, "", "attr", "lang"},
	}
	elems := []use{
		{"soapenc:string", "", "element", "x"}, {"soapenc:int", "", "element", "x"}, {"soapenc:date", "", "element", "x"},
		{"soapenc:base64", "", "element", "x"}, {"soapenc:Array", "", "element", "x"}, {"soapenc:Struct", "", "element", "x"},
		{"soapenc:hexBinary", "", "element", "x"}, {"soapenc:NMTOKENS", "", "element", "x"}, {"wsdl:tDefinitions", "", "element", "x"},
		{"xlink:simple", "", "element", "x"},
	}
	body := `<xs:complexType name="T"><xs:sequence>`
	var want []use
	if t.FreeBool("element") {
		e := elems[t.Free("type", len(elems))]
		body += `<xs:element name="x" type="` + e.xml + `"` + t.FreePick("occurs", "", ` maxOccurs="unbounded"`, ` minOccurs="0"`) + `/>`
		want = append(want, e)
	}
	body += `</xs:sequence>`
	if t.FreeBool("attribute") {
		u := uses[t.Free("attribute", len(uses))]
		body += u.xml
		want = append(want, u)
	}
	body += `</xs:complexType>`
	sc := scen{raw: [][]byte{envelope(body)}, full: true}
	skip := map[string]bool{}
	if t.Bool("default options") {
		sc.opts = xsdgen.DefaultOptions
		skip["id"], skip["href"] = true, true
	}
	sc.check = func(t *mc.T, out output) {
		d := out.Types()["T"]
		if d == nil {
			t.Fail("there is no declaration for T\n%s\n%s", sc.raw[0], out.Src)
		}
		fs := gocheck.Fields(d.Underlying().(*types.Struct))
		for _, w := range want {
			if skip[w.local] {
				continue
			}
			n := 0
			for _, f := range fs {
				if f.Kind() == w.kind && f.Local == w.local {
					n++
					if strings.Contains(body, `maxOccurs`) && w.kind == "element" && !strings.HasPrefix(goType(f.Type), "[]") {
						t.Fail("%s should be a slice\n%s\n%s", f.Description, sc.raw[0], out.Src)
					}
				}
			}
			if n != 1 {
				t.Fail("%d fields for %s %s\n%s\n%s", n, w.kind, w.local, sc.raw[0], out.Src)
			}
		}
	}
	return sc
}
