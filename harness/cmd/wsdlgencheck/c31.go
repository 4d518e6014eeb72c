package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"unicode"

	"aqwari.net/xml/verif/gocheck"
	"aqwari.net/xml/verif/mc"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xsdgen"
)

// brief leaves out the parts that are always the same.
func brief(src string) string {
	i := strings.Index(src, "type soapEnvelope struct")
	k := strings.Index(src, "return errors.New(\"reply has no message\")")
	if i > 0 && k > i {
		return src[:i] + "...\n" + src[k:]
	}
	return src
}

// settings are the options that C31 is about.
type settings struct {
	in, out int
	only    []string // ports; nil: all
	pkg     string
	comment string
}

var defaults = settings{in: 3, out: 2, pkg: "ws"}

func (c settings) options() (opts []wsdlgen.Option) {
	opts = append(opts, wsdlgen.InputThreshold(c.in), wsdlgen.OutputThreshold(c.out), wsdlgen.PackageName(c.pkg))
	if c.only != nil {
		opts = append(opts, wsdlgen.OnlyPorts(c.only...))
	}
	if c.comment != "" {
		opts = append(opts, wsdlgen.PackageComment(c.comment))
	}
	return opts
}

func local(p *types.Package) string {
	if p.Path() == "x" {
		return ""
	}
	return p.Name()
}

func typeName(t types.Type) string {
	s := types.TypeString(t, local)
	return strings.Replace(s, "uint8", "byte", -1)
}

// fits compares a Go type with what a part asks for.
func fits(t types.Type, want string) bool {
	switch {
	case strings.HasPrefix(want, "struct "):
		n, ok := t.(*types.Named)
		if !ok {
			return false
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for _, f := range gocheck.Fields(st) {
			if f.Local == want[7:] {
				return true
			}
		}
		return false
	case strings.HasPrefix(want, "="):
		return typeName(t.Underlying()) == want[1:]
	}
	return typeName(t) == want
}

// list compares parameters or results, or the fields of the struct that
// stands for them, with the parts of a message.
func list(tu []types.Type, parts []part, max int) string {
	if len(parts) > max {
		if len(tu) != 1 {
			return fmt.Sprintf("%d values, want a struct for %d parts", len(tu), len(parts))
		}
		n, ok := tu[0].(*types.Named)
		if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "x" {
			return fmt.Sprintf("%s instead of a named struct", typeName(tu[0]))
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return fmt.Sprintf("%s, which is not a struct", typeName(tu[0]))
		}
		tu = nil
		for i := 0; i < st.NumFields(); i++ {
			if !st.Field(i).Exported() {
				return fmt.Sprintf("field %s of %s is not exported", st.Field(i).Name(), n.Obj().Name())
			}
			tu = append(tu, st.Field(i).Type())
		}
	}
	if len(tu) != len(parts) {
		return fmt.Sprintf("%d values for %d parts", len(tu), len(parts))
	}
	for i, p := range parts {
		if !fits(tu[i], p.ref.want) {
			return fmt.Sprintf("type %s of value %d, want %s for part %q of type %s", typeName(tu[i]), i+1, p.ref.want, p.name, p.ref.label)
		}
	}
	return ""
}

func tuple(t *types.Tuple) (out []types.Type) {
	for i := 0; i < t.Len(); i++ {
		out = append(out, t.At(i).Type())
	}
	return out
}

// signature compares a method with an operation.
func signature(sig *types.Signature, in, out []part, c settings) string {
	params, results := tuple(sig.Params()), tuple(sig.Results())
	if sig.Variadic() {
		return "it is variadic"
	}
	if len(params) == 0 || typeName(params[0]) != "context.Context" {
		return "the first parameter is not a context"
	}
	if len(results) == 0 || typeName(results[len(results)-1]) != "error" {
		return "the last result is not an error"
	}
	if e := list(params[1:], in, c.in); e != "" {
		return "parameters: " + e
	}
	if e := list(results[:len(results)-1], out, c.out); e != "" {
		return "results: " + e
	}
	return ""
}

// method is a method that the description promises.
type method struct {
	op      operation
	in, out []part
	exact   bool // the first of its name
}

func (s *service) parts(m int) []part {
	if m < 0 {
		return nil
	}
	return s.messages[m].parts
}

func (s *service) promised(only []string) (out []method) {
	seen := map[string]bool{}
	for i := range s.docs {
		for _, p := range s.ports {
			if p.service != i {
				continue
			}
			ok := only == nil
			for _, o := range only {
				ok = ok || o == p.name
			}
			if !ok {
				continue
			}
			for _, op := range s.pts[p.pt] {
				out = append(out, method{op, s.parts(op.in), s.parts(op.out), !seen[strings.Title(op.name)]})
				seen[strings.Title(op.name)] = true
			}
		}
	}
	return out
}

// plain names are made of letters and digits alone.
func plain(s string) bool {
	for i, r := range s {
		if r > 127 || !(unicode.IsLetter(r) || i > 0 && unicode.IsDigit(r)) {
			return false
		}
	}
	return s != "" && s != "do" && s != "HTTPClient" && s != "RequestHook" && s != "ResponseHook"
}

func (m method) named(name string) bool {
	if !plain(m.op.name) {
		return true
	}
	return strings.HasPrefix(name, strings.Title(m.op.name))
}

// compile generates a package and compiles it.
func compile(t *mc.T, cfg *wsdlgen.Config, files []string, text string) *gocheck.Package {
	t.Step()
	src, err := cfg.GenSource(files...)
	if err != nil {
		t.Fail("the generator refuses the service: %v\n%s", err, text)
	}
	p, err := gocheck.Check(src)
	if err != nil {
		t.Fail("the package does not compile: %v\n%s\n%s", err, text, brief(string(src)))
	}
	t.Compared(1)
	return p
}

// judge compares a generated package with the description.
func judge(t *mc.T, s *service, c settings) *gocheck.Package {
	files, text := s.write()
	text = fmt.Sprintf("settings %+v\n%s", c, text)
	t.Input(text)
	p := compile(t, fresh(c.options()...), files, text)
	compare(t, s, c, p, text)
	return p
}

func compare(t *mc.T, s *service, c settings, p *gocheck.Package, text string) {
	bad := func(format string, v ...interface{}) {
		t.Fail("%s\n%s\n%s", fmt.Sprintf(format, v...), text, brief(p.Src))
	}
	if p.File.Name.Name != c.pkg {
		bad("the package is called %s, not %s", p.File.Name.Name, c.pkg)
	}
	obj, ok := p.Pkg.Scope().Lookup("Client").(*types.TypeName)
	if !ok {
		bad("no type Client")
	}
	type found struct {
		name string
		sig  *types.Signature
		doc  string
	}
	var have []found
	set := types.NewMethodSet(types.NewPointer(obj.Type()))
	for i := 0; i < set.Len(); i++ {
		f := set.At(i).Obj().(*types.Func)
		if f.Exported() {
			have = append(have, found{f.Name(), f.Type().(*types.Signature), ""})
		}
	}
	for _, d := range p.File.Decls {
		if f, ok := d.(*ast.FuncDecl); ok && f.Recv != nil {
			for i := range have {
				if have[i].name == f.Name.Name && strings.Contains(p.Src[f.Recv.Pos()-1:f.Recv.End()-1], "Client") {
					have[i].doc = f.Doc.Text()
				}
			}
		}
	}
	want := s.promised(c.only)
	names := make([]string, len(have))
	for i := range have {
		names[i] = have[i].name
	}
	if len(have) != len(want) {
		bad("%d methods for %d operations of the selected ports: %v", len(have), len(want), names)
	}
	// every operation has a method of its own
	agree := make([][]string, len(want))
	for i, m := range want {
		agree[i] = make([]string, len(have))
		for k, h := range have {
			e := ""
			if !m.named(h.name) {
				e = "the name is another"
			} else if m.exact && plain(m.op.name) && h.name != strings.Title(m.op.name) {
				e = "the name is not the operation's"
			} else if e = signature(h.sig, m.in, m.out, c); e == "" {
				if d := strings.Join(m.op.docs, "\n"); !within(h.doc, d) {
					e = fmt.Sprintf("the comment is %q, not %q", h.doc, d)
				}
			}
			agree[i][k] = e
		}
	}
	owner := make([]int, len(have))
	for k := range owner {
		owner[k] = -1
	}
	var try func(i int, seen []bool) bool
	try = func(i int, seen []bool) bool {
		for k := range have {
			if agree[i][k] == "" && !seen[k] {
				seen[k] = true
				if owner[k] < 0 || try(owner[k], seen) {
					owner[k] = i
					return true
				}
			}
		}
		return false
	}
	for i, m := range want {
		if !try(i, make([]bool, len(have))) {
			why := ""
			for k, h := range have {
				why += fmt.Sprintf("\n\t%s: %s", h.name, agree[i][k])
			}
			bad("operation %q has no method of its own:%s", m.op.name, why)
		}
	}
	t.Compared(len(want))
	t.State(fmt.Sprint(names, len(p.Types())))
}

// words of a comment. Parentheses may be around what would be a constraint of the build.
func words(s string) string {
	return strings.Replace(strings.Join(strings.Fields(s), " "), "(+build ignore)", "+build ignore", -1)
}

// within compares the words of a comment.
func within(doc, want string) bool {
	return words(doc) == words(want)
}

func simple(names ...string) *service {
	s := &service{docs: [][]string{nil}, schemas: []string{schemaT, schemaO}}
	s.messages = []message{{name: "In"}, {name: "Out"}}
	s.pts = []portType{{{name: "Call", in: 0, out: 1, action: "urn:a"}}}
	s.ports = []port{{name: "P", address: "http://h/p", kind: "soap", style: "rpc"}}
	for i := range names {
		s.messages[i].parts = []part{{"a", byLabel[names[i]]}}
	}
	return s
}

// types: every type that a part can have.
func partTypes(t *mc.T) {
	useSchemas(false)
	in, out := t.Free("type", len(refs)), t.Free("shape", 8)
	a, b := refs[in], byLabel["string"]
	s := simple()
	c := defaults
	s.ports[0].style = t.FreePick("style", "rpc", "document")
	switch out {
	case 0:
		s.messages[0].parts = []part{{"a", a}}
	case 1:
		s.messages[1].parts = []part{{"a", a}}
	case 2:
		s.messages[0].parts = []part{{"a", a}}
		s.messages[1].parts = []part{{"a", a}}
	case 3:
		s.messages[0].parts = []part{{"a", a}, {"b", b}, {"c", a}}
		s.messages[1].parts = []part{{"a", b}, {"b", a}}
	case 4:
		c.in, c.out = 0, 0
		s.messages[0].parts = []part{{"a", a}}
		s.messages[1].parts = []part{{"a", a}}
	case 5:
		c.in, c.out = 1, 1
		s.messages[0].parts = []part{{"a", a}, {"b", b}}
		s.messages[1].parts = []part{{"a", b}, {"b", a}}
	case 6:
		s.messages[0].parts = []part{{"a", a}}
		s.pts[0][0].out = -1
	case 7:
		c.out = 0
		s.messages[1].parts = []part{{"a", a}}
		s.pts[0][0].in = -1
	}
	judge(t, s, c)
}

// pairs: every pair of types.
func pairs(t *mc.T) {
	useSchemas(false)
	i, k := t.Free("first", len(refs)), t.Free("second", len(refs))
	s := simple()
	s.messages[0].parts = []part{{"a", refs[i]}, {"b", refs[k]}}
	s.messages[1].parts = []part{{"c", refs[k]}, {"d", refs[i]}}
	c := defaults
	if t.FreeBool("structs") {
		c.in, c.out = 1, 1
	}
	judge(t, s, c)
}

// thresholds: part counts against the thresholds.
func thresholds(t *mc.T) {
	useSchemas(false)
	some := []string{"string", "t:Person", "date", "t:Codes", "<o:thing>"}
	s := simple()
	k := t.Choose("first type", len(some))
	add := func(m, n int) {
		for i := 0; i < n; i++ {
			s.messages[m].parts = append(s.messages[m].parts, part{fmt.Sprintf("p%d", i), byLabel[some[(i+k)%len(some)]]})
		}
	}
	add(0, t.Free("input parts", 5))
	add(1, t.Free("output parts", 5))
	c := defaults
	c.in, c.out = t.Free("input threshold", 6), t.Free("output threshold", 6)
	switch t.Choose("operations", 4) {
	case 1: // the same messages the other way round
		s.pts[0] = append(s.pts[0], operation{name: "Back", in: 1, out: 0})
	case 2: // the same message again
		s.pts[0] = append(s.pts[0], operation{name: "Again", in: 0, out: 1})
	case 3: // one message for both
		s.pts[0][0].out = 0
	}
	s.ports[0].style = t.Pick("style", "rpc", "document", "")
	judge(t, s, c)
}

var partNames = []string{"a", "A", "c", "ctx", "input", "output", "err", "result", "v", "xml", "time", "context", "http", "string", "int", "error", "nil", "type", "func", "return", "range", "Person", "Code", "size", "Client", "append", "len",
	"x-y", "a.b", "_", "_x", "x_", "Ünï", "日本", "a1", "P", "T", "Args", "do", "name", "content", "seen", "fmt", "errors", "bytes", "io", "make", "true", "soapMessage", "Call", "In", "Out"}

var messageNames = []string{"In", "in", "Person", "Code", "size", "Client", "string", "error", "type", "get-it", "a.b", "_m", "Ünï", "日本", "soapEnvelope", "soapMessage", "In-put", "Context", "xml", "Call"}

var operationNames = []string{"Call", "call", "do", "HTTPClient", "RequestHook", "ResponseHook", "string", "get-it", "a.b", "type", "_op", "Ünï", "日本", "String", "Error", "MarshalXML", "Person", "In", "Client", "x1"}

const schemaSmall = `<xs:schema targetNamespace="urn:t"><xs:simpleType name="Code"><xs:restriction base="xs:string"/></xs:simpleType>
<xs:complexType name="Person"><xs:sequence><xs:element name="name" type="xs:string"/></xs:sequence></xs:complexType></xs:schema>`

// names: names of parts, messages, and operations.
func names(t *mc.T) {
	useSchemas(false)
	s := simple()
	s.schemas = []string{schemaSmall}
	pick := func(label string, from []string, first int) string {
		// the default is another for each
		return from[(t.Choose(label, len(from))+first)%len(from)]
	}
	two := t.Free("parts", 3)
	typ := func() *ref { return byLabel[t.Pick("type", "string", "t:Person", "date", "t:Code")] }
	s.messages[0].parts = []part{{pick("name of a parameter", partNames, 0), typ()}}
	s.messages[1].parts = []part{{pick("name of a result", partNames, 0), typ()}}
	if two > 0 {
		s.messages[two-1].parts = append(s.messages[two-1].parts, part{pick("name of the second part", partNames, 1), typ()})
		if p := s.messages[two-1].parts; p[0].name == p[1].name {
			t.Skip()
		}
	}
	s.messages[0].name = pick("name of the input", messageNames, 0)
	s.messages[1].name = pick("name of the output", append([]string{"Out", "out"}, messageNames...), 0)
	if s.messages[0].name == s.messages[1].name {
		t.Skip()
	}
	s.pts[0][0].name = pick("operation", operationNames, 0)
	if t.Bool("two operations") {
		s.pts[0] = append(s.pts[0], operation{name: pick("second operation", append([]string{"Other"}, operationNames...), 0), in: 1, out: 0})
		if s.pts[0][0].name == s.pts[0][1].name {
			t.Skip()
		}
	}
	s.ports[0].style = t.Pick("style", "rpc", "document")
	c := defaults
	switch t.Choose("thresholds", 4) {
	case 1:
		c.in = 0
	case 2:
		c.out = 0
	case 3:
		c.in, c.out = 0, 0
	}
	judge(t, s, c)
}

// identifiers: every two names of parts next to each other.
func identifiers(t *mc.T) {
	useSchemas(false)
	s := simple()
	s.schemas = []string{schemaSmall}
	a, b := t.Free("first", len(partNames)), t.Free("second", len(partNames))
	if a == b {
		t.Skip()
	}
	s.messages[0].parts = []part{{partNames[a], byLabel["t:Person"]}, {partNames[b], byLabel["date"]}}
	s.messages[1].parts = []part{{partNames[b], byLabel["date"]}, {partNames[a], byLabel["t:Code"]}}
	c := defaults
	if t.FreeBool("structs") {
		c.in, c.out = 1, 1
	}
	judge(t, s, c)
}

// ports: services, ports, and the selection.
func ports(t *mc.T) {
	useSchemas(false)
	s := simple("string", "t:Person")
	s.messages = append(s.messages, message{"In2", []part{{"p", byLabel["date"]}, {"q", byLabel["<o:thing>"]}}}, message{"Out2", nil})
	s.pts[0] = portType{{name: "First", in: 0, out: 1}}
	for n := t.Free("more operations", 3); n > 0; n-- {
		s.pts[0] = append(s.pts[0], operation{name: fmt.Sprintf("More%d", n), in: []int{2, -1}[n-1], out: 3 - n})
	}
	s.pts = append(s.pts, portType{{name: t.FreePick("operation of the second port type", "Second", "First", "first"), in: 2, out: 3}})
	s.ports = nil
	all := []string{"P", "Q", "R"}
	services := 1 + t.Free("services", 3)
	for len(s.docs) < services {
		s.docs = append(s.docs, nil)
	}
	switch t.Choose("names", 3) {
	case 1:
		all = []string{"p-1", "Client", "日本"}
	case 2:
		// ports of different services
		if services < 3 {
			t.Skip()
		}
		all = []string{"P", "P", "P"}
	}
	for i := 0; i < 3; i++ {
		p := port{name: all[i], address: fmt.Sprintf("http://h/%d/", i), kind: "soap", style: "rpc", pt: []int{0, 1, 0}[i]}
		if i == 2 {
			switch t.Free("third port", 4) {
			case 0:
				continue
			case 1:
				p.pt = 1
			case 2:
				p.kind, p.style = "GET", ""
			case 3:
				p.kind = "soap12"
			}
		}
		if i > 0 && len(s.docs) > 1 {
			p.service = i % services
		}
		s.ports = append(s.ports, p)
	}
	c := defaults
	if k := t.Free("selection", 1<<4+1); k > 0 {
		c.only = []string{}
		for i, n := range append([]string{"missing"}, all...) {
			if (k-1)>>i&1 == 1 {
				c.only = append(c.only, n)
			}
		}
		if len(c.only) == 0 {
			t.Skip() // no names at all: what that means is not said
		}
	}
	if t.Bool("structs") {
		c.in, c.out = 0, 0
	}
	p := judge(t, s, c)
	// no types of other ports
	none := c
	none.only = []string{"none of them"}
	files, text := s.write()
	base := compile(t, fresh(none.options()...), files, text).Types()
	used := map[string]bool{}
	set := types.NewMethodSet(types.NewPointer(p.Pkg.Scope().Lookup("Client").Type()))
	for i := 0; i < set.Len(); i++ {
		sig := set.At(i).Obj().Type().(*types.Signature)
		for _, x := range append(tuple(sig.Params()), tuple(sig.Results())...) {
			used[typeName(x)] = true
		}
	}
	for name := range p.Types() {
		if base[name] == nil && !used[name] {
			t.Fail("type %s belongs to no selected port\n%s\n%s", name, text, brief(p.Src))
		}
	}
}

// sizes: services with much of one thing.
func sizes(t *mc.T) {
	useSchemas(false)
	lengths := []int{6, 9, 17, 33, 65}
	if t.Thorough {
		lengths = append(lengths, 130, 257)
	}
	n := lengths[t.Free("how many", len(lengths))]
	what := t.FreePick("of what", "operations", "parts", "results", "ports", "same operations", "services", "selected ports", "schemas", "long names", "long comments", "texts")
	some := []string{"string", "t:Person", "date", "t:Codes", "<o:thing>", "int", "t:Code"}
	s := simple()
	c := defaults
	structs := t.FreeBool("structs")
	if structs {
		c.in, c.out = 0, 0
	}
	parts := func(count, first int) (out []part) {
		for i := 0; i < count; i++ {
			name := fmt.Sprintf("p%d", i)
			if what == "long names" {
				name = fmt.Sprintf("%s%d", strings.Repeat("long-name.", n), i)
			}
			out = append(out, part{name, byLabel[some[(i+first)%len(some)]]})
		}
		return out
	}
	s.messages[0].parts, s.messages[1].parts = parts(1, 0), parts(1, 1)
	other := t.Choose("first type", len(some))
	switch what {
	case "operations", "texts":
		s.messages, s.pts[0] = nil, nil
		for i := 0; i < n; i++ {
			s.messages = append(s.messages, message{fmt.Sprintf("M%d", i), parts(i%4, i+other)})
		}
		for i := 0; i < n; i++ {
			op := operation{name: fmt.Sprintf("Op%d", i), in: i, out: (i*3 + 1) % n, action: fmt.Sprintf("urn:a%d", i)}
			if what == "texts" {
				op.docs = []string{fmt.Sprintf("Op%d is the operation with the number %d.", i, i)}
			}
			s.pts[0] = append(s.pts[0], op)
		}
	case "parts":
		s.messages[0].parts = parts(n, other)
		if !structs {
			c.in = n - 1 + t.Choose("threshold", 3)
		}
	case "results":
		s.messages[1].parts = parts(n, other)
		if !structs {
			c.out = n - 1 + t.Choose("threshold", 3)
		}
	case "ports", "same operations", "selected ports":
		s.pts, s.ports, s.messages = nil, nil, nil
		for i := 0; i < n; i++ {
			op := operation{name: fmt.Sprintf("Op%d", i), in: i, out: (i + 1) % n}
			if what == "same operations" {
				op.name = "Call"
			}
			s.messages = append(s.messages, message{fmt.Sprintf("M%d", i), parts(i%4, i+other)})
			s.pts = append(s.pts, portType{op})
			s.ports = append(s.ports, port{name: fmt.Sprintf("P%d", i), address: fmt.Sprintf("http://h/%d", i), kind: []string{"soap", "soap12"}[i%2], style: "rpc", pt: i})
			if what == "selected ports" && i%3 == 1 {
				c.only = append(c.only, fmt.Sprintf("P%d", i))
			}
		}
	case "services":
		s.ports, s.docs = nil, nil
		for i := 0; i < n; i++ {
			s.docs = append(s.docs, nil)
			s.ports = append(s.ports, port{name: fmt.Sprintf("P%d", i), address: fmt.Sprintf("http://h/%d", i), kind: "soap", style: "rpc", service: i})
		}
	case "schemas":
		for i := 0; i < n; i++ {
			ns := fmt.Sprintf("urn:n%d", i)
			s.schemas = append(s.schemas, fmt.Sprintf(`<xs:schema targetNamespace="%s"><xs:complexType name="N%d"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType></xs:schema>`, ns, i))
			if i < 40 {
				s.messages[0].parts = append(s.messages[0].parts, part{fmt.Sprintf("n%d", i), &ref{ns, xml_(ns, fmt.Sprintf("N%d", i)), false, fmt.Sprintf("N%d", i)}})
			}
		}
	case "long names":
		long := func(s string) string { return s + strings.Repeat("LongName", n) }
		s.pts[0][0].name = long("Call")
		s.pts[0] = append(s.pts[0], operation{name: long("Call") + "2", in: 1, out: 0})
		s.messages[0].name, s.messages[1].name = long("In"), long("Out")
		s.messages[0].parts, s.messages[1].parts = parts(3, other), parts(2, other)
		s.ports[0].name = long("Port")
	case "long comments":
		var words []string
		for i := 0; i < n; i++ {
			words = append(words, fmt.Sprintf("word%d", i))
		}
		s.pts[0][0].docs = []string{"Call says " + strings.Join(words, " ") + "."}
		s.pts[0] = append(s.pts[0], operation{name: "Next", in: 1, out: 0, docs: []string{"Next says " + strings.Join(words, "\n") + "."}})
	}
	judge(t, s, c)
}

// dangling: descriptions that refer to a message, element or type that is
// not there. The generator may refuse them, but it may not leave out methods
// or write a package that does not compile.
func dangling(t *mc.T) {
	useSchemas(false)
	s := simple("string", "t:Person")
	s.ports[0].style = t.FreePick("style", "rpc", "document")
	s.messages = append(s.messages, message{"In2", []part{{"p", byLabel["string"]}}})
	s.pts[0] = append(s.pts[0], operation{name: "Second", in: 2, out: 1})
	s.pts = append(s.pts, portType{{name: "Third", in: 0, out: 1}})
	s.ports = append(s.ports, port{name: "Q", address: "http://h/q", kind: "soap", style: "rpc", pt: 1})
	old := map[string]string{
		"message": `message="s:In2"`, "output": `message="s:Out"`, "both": `message="s:`, "type": `type="xs:string"`, "declared type": `type="t:Person"`}
	what := t.FreePick("what", "message", "output", "both", "type", "declared type")
	attr := strings.SplitN(old[what], "=", 2)[0]
	to := attr + "=" + t.FreePick("becomes", `"s:missing"`, `"missing"`, `"t:missing"`, `"none:In"`, `"xs:missing"`)
	if what == "both" {
		to = strings.TrimSuffix(to, `"`)
	}
	if t.FreeBool("as an element") {
		if attr != "type" {
			t.Skip()
		}
		to = "element" + to[len(attr):]
	}
	files, text := s.write()
	text = s.text()
	k := strings.Index(text, "<w:message")
	n := 1
	if t.FreeBool("everywhere") {
		n = -1
	}
	text = text[:k] + strings.Replace(text[k:], old[what], to, n)
	if err := os.WriteFile(files[0], []byte(text), 0644); err != nil {
		panic(err)
	}
	t.Input(text)
	t.Step()
	t.Compared(1)
	src, err := fresh().GenSource(files...)
	if err != nil {
		t.Outcome("refused")
		return
	}
	t.Outcome("accepted")
	p, err := gocheck.Check(src)
	if err != nil {
		t.Fail("the package does not compile: %v\n%s\n%s", err, text, brief(string(src)))
	}
	set := types.NewMethodSet(types.NewPointer(p.Pkg.Scope().Lookup("Client").Type()))
	have := 0
	for i := 0; i < set.Len(); i++ {
		if set.At(i).Obj().Exported() {
			have++
		}
	}
	if have != 3 {
		t.Fail("%d methods for 3 operations, and no error\n%s\n%s", have, text, brief(p.Src))
	}
}

// bareConfig: configurations that the default options were not applied to.
func bareConfig(t *mc.T) {
	useSchemas(false)
	n := t.Free("parts", 3)
	s := simple()
	for k := 0; k < n; k++ {
		s.messages[0].parts = append(s.messages[0].parts, part{wireNames[k], byLabel["string"]})
	}
	c := settings{in: 0, out: 0, pkg: "ws"}
	cfg := new(wsdlgen.Config)
	if t.FreeBool("types") {
		cfg.XSDOption(xsdgen.DefaultOptions...)
	}
	if t.FreeBool("threshold") {
		c.in = 1
		cfg.Option(wsdlgen.InputThreshold(1))
	}
	if t.FreeBool("package") {
		c.pkg = "p"
		cfg.Option(wsdlgen.PackageName("p"))
	}
	if t.FreeBool("taken back") {
		cfg.Option(cfg.Option(wsdlgen.PackageName("q")))
	}
	files, text := s.write()
	text = fmt.Sprintf("settings %+v\n%s", c, text)
	t.Input(text)
	compare(t, s, c, compile(t, cfg, files, text), text)
}

// comments of the package and of methods.
func comments(t *mc.T) {
	useSchemas(false)
	texts := []string{"", "Some text.", "Two lines.\nThe second.", "A paragraph.\n\nAnother.", "ends */ here", "// slashes", "/* open", " indented\n   more\n", "+build ignore", "go:build ignore", "x &lt; y &amp; z", "<b xmlns=\"urn:h\">bold</b>", "tab\there", "日本語", "package main", "\r\n"}
	s := simple("string", "int")
	c := defaults
	c.comment = t.Pick("package comment", "", "The comment.", "Package ws calls.", "Two.\nLines.", "ends */ here", "// slashes", "日本語")
	var docs []string
	for n := t.Choose("services", 3); n >= 0; n-- {
		var d []string
		for k := t.Choose("documentation", 3); k > 0; k-- {
			d = append(d, texts[t.Choose("text", len(texts))])
		}
		if len(docs) > 0 {
			s.docs = append(s.docs, d)
		} else {
			s.docs[0] = d
		}
		docs = append(docs, d...)
	}
	for k := t.Choose("documentation of an operation", 3); k > 0; k-- {
		s.pts[0][0].docs = append(s.pts[0][0].docs, texts[t.Choose("text", len(texts))])
	}
	c.pkg = t.Pick("package", "ws", "main", "x1", "myService")
	switch t.Choose("structs", 4) {
	case 1:
		c.in = 0
	case 2:
		c.out = 0
	case 3:
		c.in, c.out = 0, 0
	}
	p := judge(t, s, c)
	head := c.comment
	doc := p.File.Doc.Text()
	rest := strings.Join(docs, "\n")
	got := words(doc)
	tail := words(rest)
	if head != "" {
		h := words(head)
		if got != strings.TrimSpace(h+" "+tail) {
			t.Fail("the comment of the package is %q, want %q and %q\n%s", doc, head, rest, brief(p.Src))
		}
	} else if !strings.HasSuffix(got, tail) {
		t.Fail("the comment of the package is %q, want %q in it\n%s", doc, rest, brief(p.Src))
	}
	if head != "" && strings.TrimSpace(rest) != "" {
		// one after the other, not in one paragraph
		lines := strings.Split(strings.TrimSpace(doc), "\n")
		n := len(strings.Split(head, "\n"))
		if len(lines) <= n || strings.TrimSpace(lines[n]) != "" {
			t.Fail("no line between the comment and the documentation: %q\n%s", doc, brief(p.Src))
		}
	}
}

// undo: every history of options, and of taking them back.
func undo(t *mc.T) {
	useSchemas(false)
	s := simple()
	s.docs[0] = []string{"Text."}
	s.messages[0].parts = []part{{"a", byLabel["string"]}, {"b", byLabel["t:Person"]}}
	s.messages[1].parts = []part{{"r", byLabel["int"]}, {"q", byLabel["date"]}}
	s.pts = append(s.pts, portType{{name: "Other", in: 1, out: 0}})
	s.ports = append(s.ports, port{name: "Q", address: "http://h/q", kind: "soap", style: "document", pt: 1})
	now := defaults
	type change struct {
		label string
		opt   wsdlgen.Option
		set   func(*settings)
	}
	changes := []change{
		{"OnlyPorts(P)", wsdlgen.OnlyPorts("P"), func(c *settings) { c.only = []string{"P"} }},
		{"OnlyPorts(Q)", wsdlgen.OnlyPorts("Q"), func(c *settings) { c.only = []string{"Q"} }},
		{"OnlyPorts(P, Q)", wsdlgen.OnlyPorts("P", "Q"), func(c *settings) { c.only = []string{"P", "Q"} }},
		{"OnlyPorts(missing)", wsdlgen.OnlyPorts("missing"), func(c *settings) { c.only = []string{"missing"} }},
		{"InputThreshold(1)", wsdlgen.InputThreshold(1), func(c *settings) { c.in = 1 }},
		{"InputThreshold(2)", wsdlgen.InputThreshold(2), func(c *settings) { c.in = 2 }},
		{"OutputThreshold(0)", wsdlgen.OutputThreshold(0), func(c *settings) { c.out = 0 }},
		{"OutputThreshold(1)", wsdlgen.OutputThreshold(1), func(c *settings) { c.out = 1 }},
		{"PackageName(p)", wsdlgen.PackageName("p"), func(c *settings) { c.pkg = "p" }},
		{"PackageName(q)", wsdlgen.PackageName("q"), func(c *settings) { c.pkg = "q" }},
		{"PackageComment(One.)", wsdlgen.PackageComment("One."), func(c *settings) { c.comment = "One." }},
		{"PackageComment(Two.)", wsdlgen.PackageComment("Two."), func(c *settings) { c.comment = "Two." }},
		{"LogLevel(3)", wsdlgen.LogLevel(3), func(c *settings) {}},
		{"LogOutput", wsdlgen.LogOutput(silent{}), func(c *settings) {}},
	}
	cfg := fresh()
	type step struct {
		undo wsdlgen.Option
		was  settings
	}
	var stack []step
	said := ""
	n := 2
	if t.Thorough {
		n = 3
	}
	for k := 0; k < n; k++ {
		m := len(changes) + 1
		if len(stack) > 0 {
			m++
		}
		c := t.Free("step", m)
		if c == 0 {
			break
		}
		if c > len(changes) {
			last := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			again := cfg.Option(last.undo)
			was := now
			now = last.was
			said += "undo; "
			if t.Free("undo the undoing", 2) == 1 {
				cfg.Option(again)
				now = was
				said += "undo that; "
			}
			continue
		}
		ch := changes[c-1]
		if t.Free("generate first", 2) == 1 {
			files, _ := s.write()
			cfg.GenSource(files...)
			said += "generate; "
		}
		stack = append(stack, step{cfg.Option(ch.opt), now})
		ch.set(&now)
		said += ch.label + "; "
	}
	files, text := s.write()
	text = said + "\n" + text
	t.Input(text)
	t.Step()
	want, err := fresh(now.options()...).GenSource(files...)
	if err != nil {
		t.Fail("the generator refuses the service: %v\n%s", err, text)
	}
	got, err := cfg.GenSource(files...)
	if err != nil {
		t.Fail("after a history the generator refuses the service: %v\n%s", err, text)
	}
	t.Compared(1)
	t.State(string(got))
	if string(got) != string(want) {
		t.Fail("after %s the package is not that of %+v\nwant\n%s\ngot\n%s\n%s", said, now, want, got, text)
	}
	p, err := gocheck.Check(got)
	if err != nil {
		t.Fail("the package does not compile: %v\n%s\n%s", err, text, got)
	}
	compare(t, s, now, p, text)
	if now.comment != "" && !strings.HasPrefix(p.File.Doc.Text(), now.comment) {
		t.Fail("the comment of the package is %q, want %q\n%s", p.File.Doc.Text(), now.comment, text)
	}
}

type silent struct{}

func (silent) Printf(string, ...interface{}) {}

// documents: schemas in the document and in other files.
func documents(t *mc.T) {
	useSchemas(t.FreeBool("bundled schemas"))
	s := simple()
	s.schemas = nil
	for _, text := range []string{schemaT, schemaO} {
		if t.FreeBool("in a file of its own") {
			s.files = append(s.files, text)
		} else {
			s.schemas = append(s.schemas, text)
		}
	}
	a, b := declared[t.Free("input", len(declared))], declared[t.Free("output", len(declared))]
	s.messages[0].parts = []part{{"a", a}}
	s.messages[1].parts = []part{{"b", b}}
	s.ports[0].kind = t.Pick("binding", "soap", "soap12", "GET", "POST", "PUT")
	if s.ports[0].kind[0] != 's' {
		s.ports[0].style = ""
	} else {
		s.ports[0].style = t.Pick("style", "rpc", "document", "")
	}
	judge(t, s, defaults)
}

// declarations: schema types that are called like something else.
func declarations(t *mc.T) {
	useSchemas(false)
	words := []string{"Anything", "client", "string", "error", "int", "type", "xml", "Call", "In", "Out", "soapMessage", "soapEnvelope", "http", "context", "io", "fmt", "time", "bytes", "errors", "Context", "a", "xsdDate", "T", "x-y", "Ünï", "_x", "byte", "nil", "true", "append", "len", "func"}
	name := words[t.Free("name", len(words))]
	if name == "client" {
		t.Skip() // a known finding
	}
	kind := t.Free("kind", 3)
	decl := []string{`<xs:complexType name="%s"><xs:sequence><xs:element name="x" type="xs:date"/></xs:sequence></xs:complexType>`,
		`<xs:simpleType name="%s"><xs:restriction base="xs:int"/></xs:simpleType>`,
		`<xs:simpleType name="%s"><xs:list itemType="xs:int"/></xs:simpleType>`}[kind]
	s := simple()
	s.schemas = []string{`<xs:schema targetNamespace="urn:t">` + fmt.Sprintf(decl, name) + `</xs:schema>`}
	r := &ref{"t:" + name, xml_(nsT, name), false, []string{"struct x", "=int", "=[]int"}[kind]}
	parts := []part{{t.FreePick("part", "a", name), r}, {"b", byLabel["date"]}}
	s.messages[0].parts = parts
	s.messages[1].parts = parts[:1]
	if t.FreeBool("message of that name") {
		s.messages[0].name = name
	}
	if t.FreeBool("operation of that name") {
		s.pts[0][0].name = name
	}
	if s.messages[0].name == s.messages[1].name {
		t.Skip()
	}
	c := defaults
	if t.FreeBool("structs") {
		c.in, c.out = 0, 0
	}
	judge(t, s, c)
}

// findings are what is known to be wrong.
func findings31(t *mc.T) {
	useSchemas(false)
	s := simple()
	s.schemas = []string{`<xs:schema targetNamespace="urn:t"><xs:complexType name="Client"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType></xs:schema>`}
	s.messages[0].parts = []part{{"a", &ref{"t:Client", xml_(nsT, "Client"), false, "struct x"}}}
	files, text := s.write()
	t.Input(text)
	t.Step()
	src, err := fresh().GenSource(files...)
	if err == nil {
		_, err = gocheck.Check(src)
	}
	t.Compared(1)
	if err != nil {
		t.FailKey("type-called-client", "the package for a schema with a type called Client: %v\n%s", err, text)
	}
}

var _ = sort.Strings

var c31 = mc.Property{ID: "C31", Quick: 180, Thorough: 700,
	Assumptions: []string{"operations of a port type have different names", "the types and elements that parts refer to are declared", "OnlyPorts has at least one argument"},
	Before: func(scratch string, thorough bool) (map[string]interface{}, error) {
		err := gocheck.Prepare(scratch, "bytes", "context", "encoding/base64", "encoding/hex", "encoding/xml", "errors", "fmt", "io", "net/http", "sort", "strconv", "strings", "time")
		return nil, err
	},
	Harnesses: []mc.Harness{
		{Name: "findings", About: "what is known to be wrong", Bounds: [2]int{0, 0}, Weight: 0.1, Run: findings31},
		{Name: "types", About: "every type that a part can have, in eight shapes of operations", Bounds: [2]int{0, 0}, Weight: 1, Run: partTypes},
		{Name: "sizes", About: "many operations, parts, ports, services, schemas; long names and comments", Bounds: [2]int{1, 1}, Weight: 2, Run: sizes},
		{Name: "thresholds", About: "part counts against thresholds", Bounds: [2]int{1, 2}, Weight: 3, Run: thresholds},
		{Name: "identifiers", About: "every two names of parts next to each other", Bounds: [2]int{0, 0}, Weight: 2, Run: identifiers},
		{Name: "mixed", About: "messages, operations, ports, documentation, schemas and settings, several of them unusual at a time", Bounds: [2]int{2, 3}, Weight: 4, Run: mixed},
		{Name: "ports", About: "services, ports and selections", Bounds: [2]int{1, 2}, Weight: 2, Run: ports},
		{Name: "dangling", About: "descriptions that refer to what is not there", Bounds: [2]int{0, 1}, Weight: 1, Run: dangling},
		{Name: "bare", About: "configurations without the default options", Bounds: [2]int{0, 0}, Weight: 1, Run: bareConfig},
		{Name: "comments", About: "comments of packages and methods", Bounds: [2]int{3, 4}, Weight: 2, Run: comments},
		{Name: "undo", About: "every history of options and of taking them back", Bounds: [2]int{0, 0}, Weight: 2, Run: undo},
		{Name: "documents", About: "schemas in the document and in other files", Bounds: [2]int{1, 2}, Weight: 1, Run: documents},
		{Name: "declarations", About: "schema types that are called like something else", Bounds: [2]int{0, 0}, Weight: 1, Run: declarations},
		{Name: "names", About: "names of parts, messages and operations", Bounds: [2]int{2, 3}, Weight: 3, Run: names},
		{Name: "pairs", About: "every pair of types", Bounds: [2]int{0, 0}, Weight: 2, Run: pairs, ThoroughOnly: true},
	}}
