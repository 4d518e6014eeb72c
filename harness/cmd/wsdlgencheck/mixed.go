package main

import (
	"fmt"

	"aqwari.net/xml/verif/mc"
)

// mixed: every few things that can be different, at the same time.
func mixed(t *mc.T) {
	useSchemas(false)
	types := []string{"string", "t:Person", "date", "t:Codes", "<t:person>", "int", "<o:thing>", "base64Binary", "t:size", "QName", "<t:anon>", "t:Text", "<o:person>", "boolean", "IDREFS"}
	texts := []string{"", "Some text.", "Two\nlines.", "A paragraph.\n\nAnother."}
	s := simple()
	s.messages = nil
	for i := 0; i < 3; i++ {
		m := message{name: t.Pick("name of a message", fmt.Sprintf("M%d", i), []string{"Person", "client", "m-1"}[i], []string{"soapMessage", "Code", "Call"}[i])}
		for k, n := 0, []int{1, 0, 2, 3}[t.Choose("parts", 4)]; k < n; k++ {
			first := 5*i + k
			name := t.Pick("name of a part", fmt.Sprintf("p%d", k), []string{"type", "a.b", "err"}[k], []string{"Person", "time", "result"}[k])
			m.parts = append(m.parts, part{name, byLabel[types[(first+t.Choose("type", len(types)))%len(types)]]})
		}
		s.messages = append(s.messages, m)
	}
	s.pts = nil
	for i, n := 0, 2; i < n; i++ {
		var pt portType
		for k, n := 0, []int{2, 1, 0, 3}[t.Choose("operations", 4)]; k < n; k++ {
			op := operation{name: t.Pick("name of an operation", fmt.Sprintf("Op%d%d", i, k), "Same", []string{"type", "call", "get-it"}[k], "Person"), action: "urn:a"}
			for _, before := range pt {
				if before.name == op.name {
					t.Skip() // overloaded
				}
			}
			op.in, op.out = (t.Choose("input", 4)+i)%4-1, (t.Choose("output", 4)+i+k)%4-1
			if i == 0 {
				op.in, op.out = (op.in+2)%4-1, (op.out+3)%4-1
			}
			if d := t.Choose("documentation of an operation", len(texts)); d > 0 {
				op.docs = []string{texts[d]}
			}
			op.style = t.Pick("style of an operation", "", "document", "rpc")
			op.space = t.Pick("namespace of a body", "", "urn:body")
			pt = append(pt, op)
		}
		s.pts = append(s.pts, pt)
	}
	s.ports = nil
	for i, n := 0, []int{2, 1, 3}[t.Choose("ports", 3)]; i < n; i++ {
		p := port{name: t.Pick("name of a port", fmt.Sprintf("Port%d", i), []string{"p-1", "Client", "日本"}[i]), address: fmt.Sprintf("http://h/%d", i)}
		p.kind = t.Pick("kind of a port", "soap", "soap12", "GET", "POST")
		p.style = t.Pick("style of a port", "rpc", "document", "")
		p.pt = (i + t.Choose("port type", 2)) % 2
		s.ports = append(s.ports, p)
	}
	s.docs = [][]string{nil}
	if t.Bool("two services") {
		s.docs = append(s.docs, []string{"The second."})
		s.ports[len(s.ports)-1].service = 1
	}
	if d := t.Choose("documentation", len(texts)); d > 0 {
		s.docs[0] = []string{texts[d]}
	}
	switch t.Choose("schemas", 4) {
	case 1:
		s.schemas, s.files = nil, s.schemas
	case 2:
		s.schemas, s.files = s.schemas[:1], s.schemas[1:]
	case 3:
		s.schemas[0], s.schemas[1] = s.schemas[1], s.schemas[0]
	}
	c := defaults
	c.in = []int{3, 0, 1}[t.Choose("input threshold", 3)]
	c.out = []int{2, 0, 1}[t.Choose("output threshold", 3)]
	c.pkg = t.Pick("package", "ws", "main")
	c.comment = t.Pick("package comment", "", "Package ws calls.")
	switch t.Choose("selection", 3) {
	case 1:
		c.only = []string{s.ports[0].name}
	case 2:
		c.only = []string{s.ports[len(s.ports)-1].name, "missing"}
	}
	judge(t, s, c)
}
