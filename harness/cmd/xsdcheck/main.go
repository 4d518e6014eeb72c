// Command xsdcheck decides the properties of package xsd (C10-C16).
package main

import (
	"bytes"
	"fmt"

	"aqwari.net/xml/verif/mapsched"
	"aqwari.net/xml/verif/mc"
	"aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsd"
)

func main() {
	mapsched.Sorted()
	mc.Main(c10(), c11(), c12(), c13(), c14(), c15(), c16())
}

// Most executions leave out the bundled schemas, which make up nine tenths
// of the work of every Parse; the harnesses that need them say so.
var (
	standard = xsd.StandardSchema
	full     = false
)

func clone(docs [][]byte) [][]byte {
	var out [][]byte
	for _, d := range docs {
		out = append(out, append([]byte(nil), d...))
	}
	return out
}

func parse(t *mc.T, docs [][]byte) (schemas []xsd.Schema, err error) {
	t.Step()
	xsd.StandardSchema = nil
	if full {
		xsd.StandardSchema = standard
	}
	return xsd.Parse(docs...)
}

func namespaces(set *smodel.Set) []string {
	var out []string
	for _, s := range set.Schemas {
		out = append(out, s.NS)
	}
	return out
}

// checkSet parses a rendering of the set and compares it with what the set
// declares.
func checkSet(t *mc.T, set *smodel.Set, p *smodel.Pres) []xsd.Schema {
	if p == nil {
		// One of the schemas may have no target namespace.
		switch t.Choose("no target namespace", 3) {
		case 1:
			set.Rename(smodel.NSA, "")
		case 2:
			if len(set.Schemas) < 2 {
				t.Skip()
			}
			set.Rename(smodel.NSB, "")
		}
	}
	docs := set.Docs(p)
	keep := clone(docs)
	text := smodel.Text(docs)
	t.Input(text)
	schemas, err := parse(t, docs)
	if err != nil {
		t.Fail("Parse refuses a valid schema: %v\n%s", err, text)
	}
	for i := range docs {
		if !bytes.Equal(docs[i], keep[i]) {
			t.Fail("Parse changed its input document %d\n%s", i, text)
		}
	}
	compareSet(t, set, schemas, text)
	return schemas
}

func compareSet(t *mc.T, set *smodel.Set, schemas []xsd.Schema, text string) {
	got, problems := smodel.Observed(schemas, set.Index().Declared, namespaces(set)...)
	want := set.Expected()
	t.Compared(len(want))
	if len(problems) > 0 {
		t.Fail("%s\n%s", problems[0], text)
	}
	if d := smodel.Compare(want, got); d != "" && smodel.Compare(set.ExpectedOwnNames(), got) != "" {
		t.Fail("%s\n%s", d, text)
	}
	find := func(n smodel.Name) {
		for _, s := range schemas {
			if s.TargetNS == n.Space {
				if ty := s.FindType(n); ty != nil {
					if xsd.XMLName(ty) != n {
						t.Fail("FindType(%v) returns %v\n%s", n, xsd.XMLName(ty), text)
					}
					return
				}
			}
		}
		t.Fail("FindType does not find type %v\n%s", n, text)
	}
	for _, s := range set.Schemas {
		for _, it := range s.Items {
			if it.Complex != nil {
				find(smodel.N(s.NS, it.Complex.Name))
			}
			if it.Simple != nil {
				find(smodel.N(s.NS, it.Simple.Name))
			}
		}
	}
	for _, s := range schemas {
		if ty := s.FindType(smodel.N("urn:none", "Missing")); ty != nil {
			t.Fail("FindType finds a type that does not exist: %v", xsd.XMLName(ty))
		}
	}
	t.Outcome(fmt.Sprint(want))
}
