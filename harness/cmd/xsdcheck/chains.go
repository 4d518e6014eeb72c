package main

import (
	"encoding/xml"
	"fmt"

	"aqwari.net/xml/verif/mc"
	"aqwari.net/xml/xsd"
)

// chains: long chains and rings of references.
func chains(t *mc.T) {
	lengths := []int{5, 9, 17, 33, 65, 130}
	if t.Thorough {
		lengths = append(lengths, 257, 520, 900)
	}
	n := lengths[t.Free("length", len(lengths))]
	kind := t.Free("kind", len(refKinds)+3)
	ndocs := []int{1, 2, 5}[t.Free("documents", 3)]
	order := t.FreePick("order", "down", "up", "mixed")
	ring := t.FreeBool("ring")
	index := make([]int, n)
	for i := range index {
		switch order {
		case "down":
			index[i] = i
		case "up":
			index[i] = n - 1 - i
		default: // 7 is prime to all the lengths
			index[i] = i * 7 % n
			if n%7 == 0 {
				panic("length")
			}
		}
	}
	doc := func(i int) int { return i % ndocs }
	bodies := make([]string, ndocs)
	groups := kind >= len(refKinds)
	var k refKind
	if groups {
		if ndocs > 1 && kind == len(refKinds)+2 {
			t.Skip()
		}
	} else {
		k = refKinds[kind]
		self := false
		for _, c := range []byte(k.takes) {
			self = self || c == k.is
		}
		if !self || k.target == nil {
			t.Skip()
		}
	}
	for _, i := range index {
		next := fmt.Sprintf("p%d:T%d", doc((i+1)%n), (i+1)%n)
		last := i == n-1 && !ring
		switch {
		case !groups:
			if last {
				next = "xs:int"
				if k.is == 'c' {
					next = "xs:anyType"
				}
				if k.name == "restriction of simple content" {
					// the last has a simple type in between
					bodies[doc(i)] += fmt.Sprintf(`<xs:complexType name="T%d"><xs:simpleContent><xs:extension base="xs:int"/></xs:simpleContent></xs:complexType>`, i)
					continue
				}
			}
			bodies[doc(i)] += fmt.Sprintf(k.form, fmt.Sprintf("T%d", i), next)
		case kind == len(refKinds): // groups
			ref := fmt.Sprintf(`<xs:group ref="%s"/>`, next)
			if last {
				ref = ""
			}
			bodies[doc(i)] += fmt.Sprintf(`<xs:group name="T%d"><xs:sequence><xs:element name="e%d" type="xs:int"/>%s</xs:sequence></xs:group>`, i, i, ref)
		case kind == len(refKinds)+1: // attribute groups
			ref := fmt.Sprintf(`<xs:attributeGroup ref="%s"/>`, next)
			if last {
				ref = ""
			}
			bodies[doc(i)] += fmt.Sprintf(`<xs:attributeGroup name="T%d"><xs:attribute name="e%d" type="xs:int"/>%s</xs:attributeGroup>`, i, i, ref)
		default: // elements with types in line
			ref := fmt.Sprintf(`<xs:element ref="%s"/>`, next)
			if last {
				ref = ""
			}
			bodies[doc(i)] += fmt.Sprintf(`<xs:element name="T%d"><xs:complexType><xs:sequence>%s</xs:sequence></xs:complexType></xs:element>`, i, ref)
		}
	}
	switch kind {
	case len(refKinds):
		bodies[0] += `<xs:complexType name="Holder"><xs:sequence><xs:group ref="p0:T0"/></xs:sequence></xs:complexType>`
	case len(refKinds) + 1:
		bodies[0] += `<xs:complexType name="Holder"><xs:attributeGroup ref="p0:T0"/></xs:complexType>`
	}
	var docs [][]byte
	ns := func(d int) string { return fmt.Sprintf("urn:d%d", d) }
	for d := range bodies {
		s := `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"`
		imports := ""
		for e := range bodies {
			s += fmt.Sprintf(` xmlns:p%d="%s"`, e, ns(e))
			if e != d {
				imports += fmt.Sprintf(`<xs:import namespace="%s"/>`, ns(e))
			}
		}
		docs = append(docs, []byte(fmt.Sprintf(`%s targetNamespace="%s">%s%s</xs:schema>`, s, ns(d), imports, bodies[d])))
	}
	what := fmt.Sprintf("%s of %d %s in %d documents, %s", map[bool]string{true: "ring", false: "chain"}[ring], n, append([]string{}, append(names(refKinds), "groups", "attribute groups", "elements")...)[kind], ndocs, order)
	t.Input(what)
	t.Step()
	schemas, err := xsd.Parse(docs...)
	t.Compared(1)
	if ring && (k.derives || groups && kind < len(refKinds)+2) {
		if err == nil {
			t.Fail("no error for a %s", what)
		}
		t.Outcome("refused")
		return
	}
	if ring && groups {
		// elements in themselves: refused or not, it ends
		t.Outcome(fmt.Sprint(err != nil))
		if err != nil {
			return
		}
	}
	if err != nil {
		t.Fail("%s: %v", what, err)
	}
	if p, _ := checkResolved(schemas); p != "" {
		t.Fail("%s: %s", what, p)
	}
	find := func(d int, local string) xsd.Type {
		for _, s := range schemas {
			if x := s.FindType(xml.Name{Space: ns(d), Local: local}); x != nil {
				return x
			}
		}
		t.Fail("%s: no type %s", what, local)
		return nil
	}
	switch {
	case !groups:
		for i := 0; i < n; i++ {
			if i == n-1 && !ring {
				break
			}
			j := (i + 1) % n
			if got := k.target(find(doc(i), fmt.Sprintf("T%d", i))); got != find(doc(j), fmt.Sprintf("T%d", j)) {
				t.Fail("%s: number %d refers to %v", what, i, xsd.XMLName(got))
			}
		}
	case kind == len(refKinds) && !ring:
		es := cplx(find(0, "Holder")).Elements
		if len(es) != n {
			t.Fail("%s: %d elements", what, len(es))
		}
		for i, e := range es {
			if e.Name.Local != fmt.Sprintf("e%d", i) {
				t.Fail("%s: element %d is %v", what, i, e.Name)
			}
		}
	case kind == len(refKinds)+1 && !ring:
		as := cplx(find(0, "Holder")).Attributes
		if len(as) != n {
			t.Fail("%s: %d attributes", what, len(as))
		}
		seen := map[string]bool{}
		for i, a := range as {
			if seen[a.Name.Local] {
				t.Fail("%s: attribute %d is %v", what, i, a.Name)
			}
			seen[a.Name.Local] = true
		}
	}
	t.State(what)
}

func names(kinds []refKind) (out []string) {
	for _, k := range kinds {
		out = append(out, k.name)
	}
	return out
}
