// Command wsdlcheck decides the property of package wsdl (C30).
package main

import (
	"encoding/xml"
	"fmt"
	"sort"
	"strings"

	"aqwari.net/xml/verif/mapsched"
	"aqwari.net/xml/verif/mc"
	"aqwari.net/xml/wsdl"
)

const (
	wsdlNS   = "http://schemas.xmlsoap.org/wsdl/"
	soapNS   = "http://schemas.xmlsoap.org/wsdl/soap/"
	soap12NS = "http://schemas.xmlsoap.org/wsdl/soap12/"
	httpNS   = "http://schemas.xmlsoap.org/wsdl/http/"
	mimeNS   = "http://schemas.xmlsoap.org/wsdl/mime/"
	xsNS     = "http://www.w3.org/2001/XMLSchema"
)

// The abstract description.
type (
	part struct {
		name         string
		typ, element xml.Name
	}
	message struct {
		name  string
		parts []part
	}
	operation struct {
		name          string
		docs          []string
		input, output int // message, or -1
		order         int // output before input
	}
	portType struct {
		name string
		ops  []operation
	}
	binding struct {
		name     string
		portType int
		kind     string // soap, soap12, GET, POST, ...
		actions  []string
		reversed bool
		style    string   // of the binding
		styles   []string // of its operations
		spaces   []string // of the body of the requests
	}
	port struct {
		name, address string
		binding       int // or -1: the binding of another namespace
	}
	service struct {
		docs  []string
		ports []port
	}
	def struct {
		tns       string
		messages  []message
		portTypes []portType
		bindings  []binding
		services  []service
	}
)

// An example in the documentation is not a part of the description.
const example = `E.g. <e:message xmlns:e="` + wsdlNS + `" name="X0"><e:part name="p" type="e:int"></e:part></e:message>` +
	`<e:service xmlns:e="` + wsdlNS + `" xmlns:s="` + soapNS + `" name="X0"><e:documentation>Not this.</e:documentation><e:port name="S0"><s:address location="http://e"></s:address></e:port></e:service>` +
	`<e:operation xmlns:e="` + wsdlNS + `" name="O0"><e:documentation>Nor this.</e:documentation><e:input message="e:M0"></e:input></e:operation>.`

// choose makes up a description.
func choose(t *mc.T) *def {
	d := &def{tns: t.Pick("target namespace", "urn:t", "http://schemas.xmlsoap.org/wsdl/soap/x", "")}
	names := t.Choose("names", 3)
	name := func(kind string, i int) string {
		switch names {
		case 1: // the same for everything
			return fmt.Sprintf("X%d", i)
		case 2: // each the beginning of the next
			return kind + strings.Repeat("x", i)
		}
		return fmt.Sprintf("%s%d", kind, i)
	}
	counts := func(label string, n ...int) int { return n[t.Choose(label, len(n))] }
	var texts = [][]string{nil, {"Some text."}, {"One.", "Two <b xmlns=\"urn:h\">bold</b> words."}, {" Several\n  lines. "}, {example}}
	nm := counts("messages", 2, 3, 1)
	for i := 0; i < nm; i++ {
		m := message{name: name("M", i)}
		for k := counts("parts", 1, 0, 2, 3); k > 0; k-- {
			p := part{name: fmt.Sprintf("p%d", k)}
			switch t.Choose("part", 6) {
			case 0:
				p.typ = xml.Name{Space: xsNS, Local: "int"}
			case 1:
				p.element = xml.Name{Space: d.tns, Local: "el"}
			case 2:
				p.typ = xml.Name{Space: d.tns, Local: "T"}
			case 3:
				p.element = xml.Name{Space: "urn:o", Local: "el"}
			case 4:
				p.name = "parameters"
				p.element = xml.Name{Space: d.tns, Local: m.name}
			case 5:
				p.typ = xml.Name{Space: "urn:o", Local: "int"}
			}
			m.parts = append(m.parts, p)
		}
		d.messages = append(d.messages, m)
	}
	np := counts("port types", 1, 2)
	for i := 0; i < np; i++ {
		pt := portType{name: name("P", i)}
		for k, n := 0, counts("operations", 2, 1, 0, 3); k < n; k++ {
			op := operation{name: name("O", k), input: 0, output: (1) % nm}
			op.docs = texts[t.Choose("documentation of an operation", len(texts))]
			op.input = t.Choose("input", nm+1)
			if op.input == nm {
				op.input = -1
			}
			op.output = t.Choose("output", nm+1)
			op.output = (op.output + 1) % nm
			if op.input >= 0 && t.Bool("no output") {
				op.output = -1
			}
			if op.input >= 0 && op.output >= 0 {
				op.order = t.Choose("output first", 2)
			}
			pt.ops = append(pt.ops, op)
		}
		d.portTypes = append(d.portTypes, pt)
	}
	nb := counts("bindings", 1, 2)
	for i := 0; i < nb; i++ {
		b := binding{name: name("B", i), portType: t.Choose("port type", np)}
		b.kind = t.Pick("binding", "soap", "soap12", "GET", "POST", "get", "PUT", "none")
		b.style = t.Pick("style of the binding", "document", "rpc", "")
		b.reversed = t.Bool("operations of the binding in another order")
		for k := range d.portTypes[b.portType].ops {
			b.actions = append(b.actions, []string{fmt.Sprintf("urn:b%d#%d", i, k), "", "none"}[t.Choose("action", 3)])
			b.styles = append(b.styles, t.Pick("style of the operation", "", "rpc", "document"))
			b.spaces = append(b.spaces, t.Pick("namespace of the body", "", "urn:body"))
		}
		d.bindings = append(d.bindings, b)
	}
	ns := counts("services", 1, 2, 0)
	for i := 0; i < ns; i++ {
		s := service{docs: texts[t.Choose("documentation of a service", len(texts))]}
		for k, n := 0, counts("ports", 1, 2, 0, 3); k < n; k++ {
			p := port{name: name("S", k), address: fmt.Sprintf("http://h/%d/%d", i, k)}
			p.binding = t.Choose("binding of the port", nb+1)
			if p.binding == nb {
				p.binding = -1
			}
			if t.Bool("address with special characters") {
				p.address = `http://h/?a=1&b="<c>'`
			}
			if t.Bool("no address") {
				p.address = ""
			}
			s.ports = append(s.ports, p)
		}
		d.services = append(d.services, s)
	}
	return d
}

// writer puts a description in words.
type writer struct {
	t      *mc.T
	s      strings.Builder
	style  int
	extend int
	d      *def
	space  string // of the prefix z, which the element will declare
}

func esc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", `"`, "&quot;").Replace(s)
}

// w is the name of an element of WSDL.
func (w *writer) w(local string) string {
	switch w.style {
	case 1:
		return local
	case 4:
		return "tns:" + local
	}
	return "w:" + local
}

// q is a qualified name in the content of an attribute.
func (w *writer) q(n xml.Name) string {
	if w.style == 5 && n.Space != "" {
		w.space = n.Space
		return "z:" + n.Local
	}
	switch n.Space {
	case w.d.tns:
		if n.Space == "" || w.style == 2 {
			return n.Local
		}
		if w.style == 4 {
			return "w:" + n.Local
		}
		return "tns:" + n.Local
	case xsNS:
		return "xs:" + n.Local
	case "urn:o":
		return "o:" + n.Local
	}
	panic(n.Space)
}

func (w *writer) here(local string) xml.Name { return xml.Name{Space: w.d.tns, Local: local} }

func (w *writer) open(local string, attrs ...string) {
	fmt.Fprintf(&w.s, "<%s", w.w(local))
	w.attrs(attrs...)
	w.s.WriteString(">")
	if w.extend > 0 && w.t.Bool("extension in "+local) {
		switch w.extend {
		case 1:
			w.s.WriteString(`<x:ext name="X0" location="http://x" soapAction="urn:x" verb="DELETE" binding="tns:B0" type="xs:int" message="o:m"><x:in name="X0"/>text</x:ext>`)
		case 2:
			w.s.WriteString("<!-- <w:port/> -->\n<?pi x?>")
		case 3:
			// the names that WSDL uses, in another namespace
			for _, n := range []string{"message", "part", "operation", "address", "binding", "port", "documentation", "input", "output", "service", "portType"} {
				fmt.Fprintf(&w.s, `<x:%s name="X0" location="http://x" soapAction="urn:x" verb="DELETE" type="tns:P0" binding="tns:B0" message="o:m">x</x:%s>`, n, n)
			}
		}
	}
}

func (w *writer) attrs(attrs ...string) {
	pairs := make([][2]string, 0, 4)
	for i := 0; i < len(attrs); i += 2 {
		if strings.HasPrefix(attrs[i], "?") && attrs[i+1] == "" {
			continue
		}
		pairs = append(pairs, [2]string{strings.TrimPrefix(attrs[i], "?"), attrs[i+1]})
	}
	if w.extend == 4 {
		pairs = append([][2]string{{"x:Action", "urn:x"}}, pairs...)
	}
	for _, p := range pairs {
		fmt.Fprintf(&w.s, ` %s="%s"`, p[0], esc(p[1]))
	}
	if w.style == 5 {
		// every element has its own idea of the prefix
		if w.space == "" {
			w.space = "urn:z"
		}
		fmt.Fprintf(&w.s, ` xmlns:z="%s"`, esc(w.space))
		w.space = ""
	}
}

func (w *writer) empty(name string, attrs ...string) {
	fmt.Fprintf(&w.s, "<%s", name)
	w.attrs(attrs...)
	w.s.WriteString("/>")
}

func (w *writer) close(local string) { fmt.Fprintf(&w.s, "</%s>", w.w(local)) }

func (w *writer) docs(docs []string) {
	for _, d := range docs {
		fmt.Fprintf(&w.s, "<%s>%s</%s>", w.w("documentation"), d, w.w("documentation"))
	}
}

func (w *writer) message(m message) {
	w.open("message", "name", m.name)
	for _, p := range m.parts {
		if p.typ.Local != "" {
			w.empty(w.w("part"), "name", p.name, "type", w.q(p.typ))
		} else {
			w.empty(w.w("part"), "element", w.q(p.element), "name", p.name)
		}
	}
	w.close("message")
}

func (w *writer) portType(pt portType) {
	w.open("portType", "name", pt.name)
	for _, op := range pt.ops {
		w.open("operation", "name", op.name)
		w.docs(op.docs)
		for k := 0; k < 2; k++ {
			if k == op.order && op.input >= 0 {
				w.empty(w.w("input"), "message", w.q(w.here(w.d.messages[op.input].name)))
			}
			if k != op.order && op.output >= 0 {
				w.empty(w.w("output"), "message", w.q(w.here(w.d.messages[op.output].name)))
			}
		}
		w.close("operation")
	}
	w.close("portType")
}

func (w *writer) binding(b binding) {
	pt := w.d.portTypes[b.portType]
	w.open("binding", "name", b.name, "type", w.q(w.here(pt.name)))
	p := w.prefix(b.kind)
	switch b.kind {
	case "soap", "soap12":
		w.empty(p+":binding", "?style", b.style, "transport", "http://schemas.xmlsoap.org/soap/http")
	case "none":
	default:
		w.empty(p+":binding", "verb", b.kind)
	}
	for i := range pt.ops {
		k := i
		if b.reversed {
			k = len(pt.ops) - 1 - i
		}
		op := pt.ops[k]
		w.open("operation", "name", op.name)
		switch b.kind {
		case "soap", "soap12":
			if b.actions[k] == "none" {
				w.empty(p+":operation", "?style", b.style1(k))
			} else {
				w.empty(p+":operation", "soapAction", b.actions[k], "?style", b.style1(k))
			}
			if op.input >= 0 {
				fmt.Fprintf(&w.s, `<%s>`, w.w("input"))
				w.empty(p+":body", "use", "literal", "?namespace", b.space(k))
				fmt.Fprintf(&w.s, `</%s>`, w.w("input"))
			}
			if op.output >= 0 {
				fmt.Fprintf(&w.s, `<%s>`, w.w("output"))
				w.empty(p+":body", "use", "literal", "namespace", "urn:reply")
				fmt.Fprintf(&w.s, `</%s>`, w.w("output"))
			}
		case "none":
		default:
			w.empty(p+":operation", "location", "/"+op.name)
			if op.input >= 0 {
				fmt.Fprintf(&w.s, `<%s><h:urlEncoded/></%s>`, w.w("input"), w.w("input"))
			}
		}
		w.close("operation")
	}
	w.close("binding")
}

func (b binding) style1(k int) string {
	if b.styles == nil {
		return ""
	}
	return b.styles[k]
}

func (b binding) space(k int) string {
	if b.spaces == nil {
		return ""
	}
	return b.spaces[k]
}

// prefix of the binding's namespace.
func (w *writer) prefix(kind string) string {
	switch kind {
	case "soap":
		return "soap"
	case "soap12":
		return "soap12"
	case "none":
		return "soap"
	}
	return "h"
}

func (w *writer) service(s service, i int) {
	w.open("service", "name", fmt.Sprintf("X%d", i))
	w.docs(s.docs)
	for _, p := range s.ports {
		ref := xml.Name{Space: "urn:o", Local: w.d.bindings[0].name}
		kind := "soap"
		if p.binding >= 0 {
			ref = w.here(w.d.bindings[p.binding].name)
			kind = w.d.bindings[p.binding].kind
		}
		w.open("port", "binding", w.q(ref), "name", p.name)
		if p.address != "" {
			w.empty(w.prefix(kind)+":address", "location", p.address)
		}
		w.close("port")
	}
	w.close("service")
}

// text of the description.
func (w *writer) text() string {
	t, d := w.t, w.d
	w.style = t.Choose("prefixes", 6)
	if d.tns == "" && w.style == 1 {
		w.style = 0 // names without a prefix would be those of WSDL
	}
	w.extend = t.Choose("extensions", 5)
	root := new(strings.Builder)
	switch w.style {
	case 0:
		fmt.Fprintf(root, ` xmlns:w="%s" xmlns:soap="%s"`, wsdlNS, soapNS)
	case 1:
		fmt.Fprintf(root, ` xmlns="%s" xmlns:soap="%s"`, wsdlNS, soapNS)
	case 2:
		// names without a prefix are those of the target namespace
		fmt.Fprintf(root, ` xmlns:w="%s" xmlns:soap="%s"`, wsdlNS, soapNS)
		if d.tns != "" {
			fmt.Fprintf(root, ` xmlns="%s"`, d.tns)
		}
	case 3, 5:
		// prefixes mean something else at the top
		fmt.Fprintf(root, ` xmlns:w="%s" xmlns:soap="%s"`, wsdlNS, soapNS)
	case 4:
		// the usual prefixes the other way round
		fmt.Fprintf(root, ` xmlns:tns="%s" xmlns:soap="%s"`, wsdlNS, soapNS)
		if d.tns != "" {
			fmt.Fprintf(root, ` xmlns:w="%s"`, d.tns)
		}
	}
	if d.tns != "" && w.style != 4 {
		fmt.Fprintf(root, ` xmlns:tns="%s"`, d.tns)
	}
	fmt.Fprintf(root, ` xmlns:o="urn:o" xmlns:x="urn:x" xmlns:xs="%s" xmlns:h="%s" xmlns:soap12="%s" xmlns:mime="%s"`, xsNS, httpNS, soap12NS, mimeNS)
	var pieces []string
	add := func(f func()) {
		w.s.Reset()
		f()
		s := w.s.String()
		if w.style == 3 {
			// the same prefixes, declared again
			i := strings.IndexAny(s, " >")
			s = s[:i] + fmt.Sprintf(` xmlns:w="%s" xmlns:o="urn:o"`, wsdlNS) + s[i:]
		}
		pieces = append(pieces, s)
	}
	if t.Bool("types") {
		add(func() {
			w.open("types")
			fmt.Fprintf(&w.s, `<xs:schema targetNamespace="urn:o"><xs:element name="port"/><xs:annotation><xs:documentation>Schema`+example+`</xs:documentation></xs:annotation><xs:complexType name="T"><xs:sequence><xs:element name="message" type="xs:int"/></xs:sequence></xs:complexType></xs:schema>`)
			w.close("types")
		})
	}
	if t.Bool("documentation of the whole") {
		add(func() { w.docs([]string{"Whole.", example}) })
	}
	for _, m := range d.messages {
		m := m
		add(func() { w.message(m) })
	}
	for _, p := range d.portTypes {
		p := p
		add(func() { w.portType(p) })
	}
	for _, b := range d.bindings {
		b := b
		add(func() { w.binding(b) })
	}
	first := len(pieces)
	for i, s := range d.services {
		i, s := i, s
		add(func() { w.service(s, i) })
	}
	// The order of services is that of their ports, so that it stays.
	order := make([]string, 0, len(pieces))
	switch t.Choose("order of definitions", 4) {
	case 0:
		order = pieces
	case 1:
		order = append(append(order, pieces[first:]...), pieces[:first]...)
	case 2:
		for i := first - 1; i >= 0; i-- {
			order = append(order, pieces[i])
		}
		order = append(order, pieces[first:]...)
	case 3:
		// services in between
		h := first / 2
		order = append(append(append(order, pieces[:h]...), pieces[first:]...), pieces[h:first]...)
	}
	w.s.Reset()
	if t.Bool("XML declaration") {
		w.s.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
	}
	name := w.w("definitions")
	fmt.Fprintf(&w.s, "<%s", name)
	w.s.WriteString(root.String())
	w.attrs("name", "N", "?targetNamespace", d.tns)
	w.s.WriteString(">")
	sep := ""
	if t.Bool("space between") {
		sep = "\n\t"
	}
	for _, p := range order {
		w.s.WriteString(sep + p)
	}
	fmt.Fprintf(&w.s, "</%s>", name)
	return w.s.String()
}

func str(n xml.Name) string {
	if n.Local == "" {
		return "-"
	}
	return "{" + n.Space + "}" + n.Local
}

// expect is what a description has to give.
func expect(d *def) string {
	var s strings.Builder
	here := func(local string) xml.Name { return xml.Name{Space: d.tns, Local: local} }
	fmt.Fprintf(&s, "namespace %q\n", d.tns)
	var docs []string
	for _, v := range d.services {
		docs = append(docs, v.docs...)
	}
	fmt.Fprintf(&s, "doc %q\n", strings.Join(docs, "\n"))
	var lines []string
	for _, m := range d.messages {
		l := fmt.Sprintf("message %s %s:", str(here(m.name)), str(here(m.name)))
		for _, p := range m.parts {
			l += fmt.Sprintf(" %s %s %s;", p.name, str(p.typ), str(p.element))
		}
		lines = append(lines, l)
	}
	sort.Strings(lines)
	s.WriteString(strings.Join(lines, "\n") + "\n")
	for _, v := range d.services {
		for _, p := range v.ports {
			method := "POST"
			if p.binding >= 0 {
				switch k := d.bindings[p.binding].kind; k {
				case "soap", "soap12", "none":
				default:
					method = strings.ToUpper(k)
				}
			}
			fmt.Fprintf(&s, "port %q %q %s\n", p.name, p.address, method)
			if p.binding < 0 {
				continue
			}
			b := d.bindings[p.binding]
			for k, op := range d.portTypes[b.portType].ops {
				action := ""
				if (b.kind == "soap" || b.kind == "soap12") && b.actions[k] != "none" {
					action = b.actions[k]
				}
				var in, out xml.Name
				if op.input >= 0 {
					in = here(d.messages[op.input].name)
				}
				if op.output >= 0 {
					out = here(d.messages[op.output].name)
				}
				style, space := "document", ""
				if b.kind == "soap" || b.kind == "soap12" {
					if b.style != "" {
						style = b.style
					}
					if v := b.style1(k); v != "" {
						style = v
					}
					if op.input >= 0 {
						space = b.space(k)
					}
				}
				fmt.Fprintf(&s, "\toperation %s %q %q %s %s %s %q\n", str(here(op.name)), strings.Join(op.docs, "\n"), action, str(in), str(out), style, space)
			}
		}
	}
	return s.String()
}

// show is the same of what was read.
func show(d *wsdl.Definition) string {
	var s strings.Builder
	fmt.Fprintf(&s, "namespace %q\ndoc %q\n", d.TargetNS, d.Doc)
	var lines []string
	for k, m := range d.Message {
		l := fmt.Sprintf("message %s %s:", str(k), str(m.Name))
		for _, p := range m.Parts {
			l += fmt.Sprintf(" %s %s %s;", p.Name, str(p.Type), str(p.Element))
		}
		lines = append(lines, l)
	}
	sort.Strings(lines)
	s.WriteString(strings.Join(lines, "\n") + "\n")
	for _, p := range d.Ports {
		fmt.Fprintf(&s, "port %q %q %s\n", p.Name, p.Address, p.Method)
		for _, op := range p.Operations {
			fmt.Fprintf(&s, "\toperation %s %q %q %s %s %s %q\n", str(op.Name), op.Doc, op.SOAPAction, str(op.Input), str(op.Output), op.Style, op.Namespace)
		}
	}
	return s.String()
}

func check(t *mc.T, d *def, text string) {
	t.Input(text)
	t.Step()
	got, err := wsdl.Parse([]byte(text))
	if err != nil {
		t.Fail("Parse: %v\n%s", err, text)
	}
	t.Compared(1)
	a, b := expect(d), show(got)
	t.State(b)
	if a != b {
		x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
		for i := range x {
			if i >= len(y) || x[i] != y[i] {
				line := "nothing"
				if i < len(y) {
					line = y[i]
				}
				t.Fail("want %s\ngot  %s\n%s\nall that was read:\n%s", x[i], line, text, b)
			}
		}
		t.Fail("too much\n%s\nall that was read:\n%s", text, b)
	}
}

func descriptions(t *mc.T) {
	d := choose(t)
	w := &writer{t: t, d: d}
	check(t, d, w.text())
}

// shapes enumerates all ways in which a few definitions refer to each other.
func shapes(t *mc.T) {
	d := &def{tns: "urn:t"}
	for i := 0; i < 2; i++ {
		d.messages = append(d.messages, message{name: "M" + strings.Repeat("x", i), parts: []part{{name: fmt.Sprintf("p%d", i), typ: xml.Name{Space: xsNS, Local: "int"}}}})
		pt := portType{name: "P" + strings.Repeat("x", i)}
		for k := t.Free("operations", 3); k > 0; k-- {
			pt.ops = append(pt.ops, operation{name: "O" + strings.Repeat("x", k), input: t.Free("input", 2), output: t.Free("output", 2)})
		}
		d.portTypes = append(d.portTypes, pt)
	}
	for i := 0; i < 2; i++ {
		b := binding{name: "B" + strings.Repeat("x", i), portType: t.Free("port type", 2), kind: t.FreePick("binding", "soap", "soap12", "GET")}
		for k := range d.portTypes[b.portType].ops {
			b.actions = append(b.actions, fmt.Sprintf("urn:b%d#%d", i, k))
			b.styles = append(b.styles, []string{"rpc", "document"}[(i+k)%2])
			b.spaces = append(b.spaces, fmt.Sprintf("urn:b%d/%d", i, k))
		}
		d.bindings = append(d.bindings, b)
	}
	for i, n := 0, t.Free("services", 2)+1; i < n; i++ {
		s := service{docs: []string{fmt.Sprintf("doc %d", i)}}
		for k, n := 0, t.Free("ports", 2)+1; k < n; k++ {
			s.ports = append(s.ports, port{name: fmt.Sprintf("S%d%d", i, k), address: fmt.Sprintf("http://h/%d/%d", i, k), binding: t.Free("binding of the port", 2)})
		}
		d.services = append(d.services, s)
	}
	w := &writer{t: t, d: d}
	check(t, d, w.text())
}

// orders: every order of the definitions.
func orders(t *mc.T) {
	d := &def{tns: "urn:t",
		messages:  []message{{"M0", []part{{"a", xml.Name{Space: xsNS, Local: "int"}, xml.Name{}}, {"b", xml.Name{}, xml.Name{Space: "urn:t", Local: "e"}}}}, {"M1", nil}},
		portTypes: []portType{{"P0", []operation{{"O0", nil, 0, 1, 0}, {"O1", nil, 1, 0, 1}}}, {"P1", []operation{{"O0", nil, 1, 1, 0}}}},
		bindings:  []binding{{"B0", 0, "soap", []string{"urn:0", "urn:1"}, false, "rpc", []string{"", "document"}, []string{"urn:b", ""}}, {"B1", 1, "soap12", []string{"urn:2"}, false, "", nil, nil}},
		services:  []service{{[]string{"doc"}, []port{{"S0", "http://0", 0}, {"S1", "http://1", 1}}}},
	}
	w := &writer{t: t, d: d}
	var pieces []string
	add := func(f func()) {
		w.s.Reset()
		f()
		pieces = append(pieces, w.s.String())
	}
	for i := 0; i < 2; i++ {
		i := i
		add(func() { w.message(d.messages[i]) })
		add(func() { w.portType(d.portTypes[i]) })
		add(func() { w.binding(d.bindings[i]) })
	}
	add(func() { w.service(d.services[0], 0) })
	text := fmt.Sprintf(`<w:definitions xmlns:w="%s" xmlns:soap="%s" xmlns:soap12="%s" xmlns:tns="urn:t" xmlns:xs="%s" targetNamespace="urn:t">`, wsdlNS, soapNS, soap12NS, xsNS)
	for len(pieces) > 0 {
		k := t.Free("next", len(pieces))
		text += pieces[k]
		pieces = append(pieces[:k:k], pieces[k+1:]...)
	}
	check(t, d, text+"</w:definitions>")
}

// broken documents give an error.
func broken(t *mc.T) {
	d := &def{tns: "urn:t",
		messages:  []message{{"M0", []part{{"a", xml.Name{Space: xsNS, Local: "int"}, xml.Name{}}}}},
		portTypes: []portType{{"P0", []operation{{"O0", []string{"doc"}, 0, 0, 0}}}},
		bindings:  []binding{{"B0", 0, "soap", []string{"urn:0"}, false, "rpc", nil, nil}},
		services:  []service{{[]string{"doc"}, []port{{"S0", "http://0", 0}}}},
	}
	w := &writer{t: t, d: d}
	text := w.text()
	switch t.Free("damage", 3) {
	case 0:
		text = text[:t.Free("cut", len(text))]
	case 1:
		i := t.Free("at", len(text)-1)
		for text[i] != '<' {
			i++
			if i == len(text) {
				t.Skip()
			}
		}
		text = text[:i] + "</x>" + text[i:]
	case 2:
		i := t.Free("at", len(text)-1)
		for text[i] != '>' {
			i++
			if i == len(text)-1 {
				t.Skip()
			}
		}
		text = text[:i+1] + "&undefined;<" + text[i+1:]
	}
	t.Input(text)
	t.Step()
	t.Compared(1)
	if got, err := wsdl.Parse([]byte(text)); err == nil {
		t.Fail("no error\n%s\n%s", text, show(got))
	}
}

// dangling references lead nowhere, and do no harm.
func dangling(t *mc.T) {
	text := `<w:definitions xmlns:w="` + wsdlNS + `" xmlns:soap="` + soapNS + `" xmlns:t="urn:t" targetNamespace="urn:t">` +
		`<w:message name="M"><w:part name="p" type="t:T"/></w:message>` +
		`<w:portType name="P"><w:operation name="O"><w:input message="t:M"/><w:output message="t:M"/></w:operation></w:portType>` +
		`<w:binding name="B" type="t:P"><soap:binding/><w:operation name="O"><soap:operation soapAction="urn:a"/></w:operation></w:binding>` +
		`<w:service name="S"><w:port name="Q" binding="t:B"><soap:address location="http://q"/></w:port></w:service></w:definitions>`
	attrs := []string{`name="M"`, `name="p"`, `type="t:T"`, `name="P"`, `message="t:M"`, `name="B"`, `type="t:P"`, `name="O"`, `soapAction="urn:a"`, `binding="t:B"`, `location="http://q"`, `name="Q"`}
	for k := 0; k < 2; k++ {
		a := attrs[t.Free("attribute", len(attrs))]
		name := a[:strings.IndexByte(a, '=')]
		to := t.FreePick("change", "", name+`="t:nothing"`, name+`="u:M"`, name+`=":"`, name+`="M:"`, name+`=""`)
		n := t.Free("which", 3)
		parts := strings.Split(text, a)
		if n+1 >= len(parts) {
			t.Skip()
		}
		text = strings.Join(parts[:n+1], a) + to + strings.Join(parts[n+1:], a)
	}
	t.Input(text)
	t.Step()
	d, err := wsdl.Parse([]byte(text))
	if err == nil {
		if len(d.Ports) != 1 {
			t.Fail("%d ports\n%s", len(d.Ports), text)
		}
		t.Outcome(fmt.Sprint(len(d.Ports[0].Operations)))
		_ = d.String()
	}
}

func main() {
	mapsched.Sorted()
	mc.Main(mc.Property{ID: "C30", Quick: 100, Thorough: 600,
		Assumptions: []string{"operations are not overloaded (the WS-I basic profile forbids it)", "documentation is returned as the markup it consists of"},
		Harnesses: []mc.Harness{
			{Name: "sizes", About: "many messages, parts, operations, port types, bindings, ports, services and texts", Bounds: [2]int{1, 1}, Weight: 2, Run: sizes},
			{Name: "orders", About: "every order of seven definitions", Bounds: [2]int{0, 0}, Weight: 1, Run: orders},
			{Name: "shapes", About: "every way in which up to two services, ports, bindings, port types, operations and messages refer to each other", Bounds: [2]int{0, 1}, Weight: 8, Run: shapes},
			{Name: "descriptions", About: "descriptions with all the parts they can have, in several notations", Bounds: [2]int{3, 4}, Weight: 4, Run: descriptions},
			{Name: "broken", About: "documents that are cut off or damaged at every place", Bounds: [2]int{1, 2}, Weight: 1, Run: broken},
			{Name: "dangling", About: "attributes that are missing or refer to nothing", Bounds: [2]int{0, 0}, Weight: 1, Run: dangling},
		}})
}
