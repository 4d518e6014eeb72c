package main

import (
	"encoding/xml"
	"fmt"
	"strings"

	"aqwari.net/xml/verif/mc"
)

// sizes: descriptions with much of one thing.
func sizes(t *mc.T) {
	lengths := []int{7, 9, 16, 17, 33, 65, 130}
	if t.Thorough {
		lengths = append(lengths, 257, 520, 1030)
	}
	n := lengths[t.Free("how many", len(lengths))]
	what := t.FreePick("of what", "messages", "parts", "operations", "port types", "bindings", "ports", "services", "documentation", "long names", "long address", "all")
	names := t.Free("names", 3)
	name := func(kind string, i int) string {
		switch names {
		case 1: // each the beginning of others
			return kind + strings.Repeat("x", i)
		case 2: // written backwards
			s := []byte(fmt.Sprint(1000 + i))
			for a, b := 0, len(s)-1; a < b; a, b = a+1, b-1 {
				s[a], s[b] = s[b], s[a]
			}
			return kind + string(s)
		}
		return fmt.Sprintf("%s%d", kind, i)
	}
	many := func(kinds ...string) int {
		for _, k := range append(kinds, "all") {
			if k != what {
				continue
			}
			if what == "all" && n > 17 {
				return 17
			}
			return n
		}
		return 1
	}
	long := func(s string) string {
		if what == "long names" {
			return s + strings.Repeat("-long.name_", n)
		}
		return s
	}
	d := &def{tns: "urn:t"}
	nm := many("messages", "operations")
	for i := 0; i < nm; i++ {
		m := message{name: long(name("M", i))}
		np := many("parts")
		if what == "all" {
			np = i % 5
		}
		for k := 0; k < np; k++ {
			p := part{name: long(name("p", k)), typ: xml.Name{Space: xsNS, Local: "int"}}
			if k%3 == 1 {
				p.typ, p.element = xml.Name{}, xml.Name{Space: d.tns, Local: long("el")}
			}
			m.parts = append(m.parts, p)
		}
		d.messages = append(d.messages, m)
	}
	npt := many("port types")
	nop := many("operations")
	for i := 0; i < npt; i++ {
		pt := portType{name: long(name("P", i))}
		if what == "all" {
			nop = 1 + i%4
		}
		for k := 0; k < nop; k++ {
			op := operation{name: long(name("O", k)), input: (k*5 + i) % nm, output: (k*3 + 2*i + 1) % nm, order: k % 2}
			docs := 1
			if what == "documentation" {
				docs = n
			}
			for j := 0; j < docs; j++ {
				op.docs = append(op.docs, fmt.Sprintf("Text %d of operation %d of port type %d.", j, k, i))
			}
			pt.ops = append(pt.ops, op)
		}
		d.portTypes = append(d.portTypes, pt)
	}
	nb := many("bindings", "port types")
	reversed := t.FreeBool("operations of the bindings in another order")
	for i := 0; i < nb; i++ {
		b := binding{name: long(name("B", i)), portType: (npt - 1 - i%npt), kind: []string{"soap", "soap12", "GET"}[i%3], style: "document", reversed: reversed}
		for k := range d.portTypes[b.portType].ops {
			b.actions = append(b.actions, long(fmt.Sprintf("urn:b%d#%d", i, k)))
			b.styles = append(b.styles, []string{"rpc", "document", ""}[(i+k)%3])
			b.spaces = append(b.spaces, long(fmt.Sprintf("urn:b%d/%d", i, k)))
		}
		d.bindings = append(d.bindings, b)
	}
	ns := many("services")
	for i := 0; i < ns; i++ {
		s := service{}
		docs := 1
		if what == "documentation" {
			docs = n
		}
		for j := 0; j < docs; j++ {
			s.docs = append(s.docs, fmt.Sprintf("Text %d of service %d.", j, i))
		}
		np := many("ports", "bindings", "port types")
		if what == "all" {
			np = 1 + i%3
		}
		for k := 0; k < np; k++ {
			p := port{name: long(name("S", k)), address: fmt.Sprintf("http://h/%d/%d", i, k), binding: (k*3 + i) % nb}
			if what == "long address" {
				p.address += "?q=" + strings.Repeat("1234567&a=", n)
			}
			s.ports = append(s.ports, p)
		}
		d.services = append(d.services, s)
	}
	w := &writer{t: t, d: d}
	check(t, d, w.text())
}
