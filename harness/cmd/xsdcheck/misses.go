package main

import (
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/mc"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsd"
)

// misses parses one reference that is written in various ways, next to types
// and other components that have the same name, or almost.
func misses(t *mc.T) {
	kind := refKinds[t.Free("reference", len(refKinds))]
	local := "T"
	// the namespaces which have a type of the name
	spaces := []string{"urn:a", "urn:b", ""}
	have := t.Free("types", 8)
	prefix := t.FreePick("prefix", "", "a:", "b:", "n:", "xs:", "A:")
	defaultNS := t.FreePick("default namespace", "none", "", "urn:a", "urn:b", "urn:n", smodel.XS)
	written := t.FreePick("name", "T", "t", "T1", "string")
	other := t.FreePick("of the same name", "", `<xs:element name="T" type="xs:int"/>`, `<xs:attribute name="T" type="xs:int"/>`, `<xs:group name="T"><xs:sequence/></xs:group>`, `<xs:attributeGroup name="T"/>`)
	apart := t.FreeBool("types in documents of their own")

	def := map[byte]string{
		'c': `<xs:complexType name="T"><xs:attribute name="x"/></xs:complexType>`,
		's': `<xs:simpleType name="T"><xs:restriction base="xs:token"/></xs:simpleType>`,
		'v': `<xs:complexType name="T"><xs:simpleContent><xs:extension base="xs:token"/></xs:simpleContent></xs:complexType>`,
	}[kind.takes[0]]
	decl := `xmlns:a="urn:a" xmlns:b="urn:b" xmlns:n="urn:n" xmlns:xs="` + smodel.XS + `"`
	own := decl
	if defaultNS != "none" {
		own += ` xmlns="` + defaultNS + `"`
	}
	body := fmt.Sprintf(kind.form, "R", prefix+written) + other
	var docs [][]byte
	for i, ns := range spaces {
		if have&(1<<uint(i)) == 0 {
			continue
		}
		if ns == "urn:a" && !apart {
			body = def + body
			continue
		}
		tns := ""
		if ns != "" {
			tns = ` targetNamespace="` + ns + `"`
		}
		docs = append(docs, []byte(`<xs:schema `+decl+tns+`>`+def+`</xs:schema>`))
	}
	doc := []byte(`<xs:schema ` + own + ` targetNamespace="urn:a">` + body + `</xs:schema>`)
	if apart {
		docs = append(docs, doc)
	} else {
		docs = append([][]byte{doc}, docs...)
	}

	want := xml.Name{Local: written}
	bound := true
	switch prefix {
	case "":
		if defaultNS != "none" {
			want.Space = defaultNS
		}
	case "A:":
		bound = false
	case "xs:":
		want.Space = smodel.XS
	default:
		want.Space = "urn:" + strings.TrimSuffix(prefix, ":")
	}
	exists := false
	for i, ns := range spaces {
		if bound && have&(1<<uint(i)) != 0 && want == (xml.Name{Space: ns, Local: local}) {
			exists = true
		}
	}
	if bound && want == (xml.Name{Space: smodel.XS, Local: "string"}) {
		if !strings.ContainsRune(kind.takes, 's') {
			t.Skip() // a type of the wrong kind
		}
		exists = true
	}
	text := smodel.Text(docs)
	t.Input(text)
	t.Step()
	schemas, err := parse(t, docs)
	t.Compared(1)
	if !exists {
		if err == nil {
			t.Fail("Parse accepts a reference to %v, which does not exist\n%s", want, text)
		}
		t.Outcome("refused")
		return
	}
	if err != nil {
		t.Fail("Parse refuses a valid schema: %v\n%s", err, text)
	}
	if problem, _ := checkResolved(schemas); problem != "" {
		t.Fail("%s\n%s", problem, text)
	}
	for _, s := range schemas {
		if s.TargetNS != "urn:a" {
			continue
		}
		var got xsd.Type
		if kind.target != nil {
			got = kind.target(s.Types[xml.Name{Space: "urn:a", Local: "R"}])
		} else {
			got = s.Types[xml.Name{Space: "urn:a", Local: "topR"}]
		}
		if xsd.XMLName(got) != want {
			t.Fail("the reference leads to %v, want %v\n%s", xsd.XMLName(got), want, text)
		}
	}
	t.Outcome(fmt.Sprint(want))
}
