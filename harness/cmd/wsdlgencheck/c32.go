package main

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"aqwari.net/xml/verif/mc"
)

//go:embed server.go.txt
var serverSource []byte

const envNS = "http://schemas.xmlsoap.org/soap/envelope/"

type value struct{ Attrs, Inner string }

// values of the types of parts; the first is the usual one.
func values(r *ref) []value {
	if v, ok := someValues[r.label]; ok {
		return v
	}
	for _, x := range inexact {
		if x.label == r.label {
			return []value{{"", x.have}}
		}
	}
	switch r.want {
	case "string":
		return someValues["string"]
	case "=string":
		return someValues["t:Code"]
	case "bool":
		return []value{{"", "true"}, {"", "false"}, {"", "1"}}
	case "int8":
		return []value{{"", "-128"}, {"", "127"}, {"", "0"}}
	case "byte":
		return []value{{"", "255"}, {"", "1"}, {"", "0"}}
	case "uint", "uint64":
		return []value{{"", "65535"}, {"", "0"}}
	case "float64", "float32":
		return []value{{"", "1.5"}, {"", "-0.25"}, {"", "0"}, {"", "1000000"}, {"", "0.000001"}}
	case "int", "int64", "=int":
		return []value{{"", "-42"}, {"", "0"}, {"", "7"}, {"", " 12 "}}
	}
	panic("no values of " + r.label)
}

const tName, tAge, tBorn = "<t:name>A &amp; B</t:name>", "<t:age>7</t:age>", "<t:born>2001-02-03</t:born>"

var someValues = map[string][]value{
	"string":         {{"", "text"}, {"", "a &amp; &lt;b&gt; &quot;c&quot; 'd'"}, {"", "é 日本 😀"}, {"", " two  words "}, {"", ""}, {"", "]]&gt;"}, {"", "line\nbreak"}},
	"t:Code":         {{"", "X1"}, {"", "a&lt;b"}, {"", ""}},
	"t:Codes":        {{"", "a b c"}, {"", "one"}, {"", ""}},
	"t:Sizes":        {{"", "1 2 3"}, {"", "-5"}},
	"t:Day":          {{"", "2001-02-03"}, {"", "1999-12-31"}},
	"dateTime":       {{"", "2001-02-03T04:05:06Z"}, {"", "2020-12-31T23:59:59.5+02:00"}},
	"t:Person":       {{` num="4"`, tName + tAge + tBorn}, {"", tName + tBorn}, {` num="-1"`, "<t:name></t:name>" + tBorn}},
	"<t:person>":     {{` num="4"`, tName + tAge + tBorn}, {"", tName + tBorn}},
	"t:people":       {{"", `<t:one num="1">` + tName + tAge + tBorn + "</t:one><t:one>" + tName + tBorn + "</t:one>"}, {"", "<t:one>" + tName + tBorn + "</t:one>"}},
	"t:Text":         {{` lang="en"`, "some &amp; text"}, {"", "x"}},
	"o:Thing":        {{"", "<o:size>9000000000</o:size>"}, {"", "<o:size>-1</o:size>"}},
	"<o:thing>":      {{"", "<o:size>9000000000</o:size>"}, {"", "<o:size>-1</o:size>"}},
	"<t:anon>":       {{"", "<t:x>5</t:x>"}, {"", "<t:x>-5</t:x>"}},
	"<t:anonSimple>": {{"", "3"}, {"", "-3"}},
}

// inexact are the types of parts that are known not to travel in their
// lexical form, with a value: as the program takes it, and as it travels.
var inexact = []struct{ label, have, wire string }{
	{"date", "2001-02-03T00:00:00Z", "2001-02-03"}, {"time", "0000-01-01T04:05:06Z", "04:05:06"}, {"gDay", "0000-01-03T00:00:00Z", "---03"},
	{"gMonth", "0000-02-01T00:00:00Z", "--02"}, {"gMonthDay", "0000-02-03T00:00:00Z", "--02-03"}, {"gYear", "2001-01-01T00:00:00Z", "2001"},
	{"gYearMonth", "2001-02-01T00:00:00Z", "2001-02"}, {"hexBinary", "00ff10", "00ff10"}, {"base64Binary", "00ff10", "AP8Q"},
	{"NMTOKENS", "a b c", "a b c"}, {"IDREFS", "a b c", "a b c"}, {"ENTITIES", "a b c", "a b c"}, {"QName", "{urn:o}x", "o:x"},
	{"<t:when>", "2001-02-03T00:00:00Z", "2001-02-03"},
}

func exact(r *ref) bool {
	for _, x := range inexact {
		if x.label == r.label {
			return false
		}
	}
	return true
}

// unit is a service whose client is part of the server program.
type unit struct {
	Pkg    string
	s      *service
	c      settings
	Broken string
}

var wireNames = []string{"a", "x-y", "type", "Ünï", "a.b"}

func (s *service) message(parts ...part) int {
	s.messages = append(s.messages, message{fmt.Sprintf("M%d", len(s.messages)), parts})
	return len(s.messages) - 1
}

func (s *service) op(name string, in, out int) {
	op := operation{name: name, in: in, out: out, action: "urn:act#" + name, space: "urn:body/" + name}
	switch len(s.pts[0]) % 4 {
	case 2:
		op.action = ""
	case 3:
		op.action = "http://act/?x=%41&y=" + name
	}
	s.pts[0] = append(s.pts[0], op)
}

func bare(kind, style string) *service {
	return &service{docs: [][]string{nil}, schemas: []string{schemaT, schemaO}, pts: []portType{nil},
		ports: []port{{name: "P", address: "http://one.example:8080/p/a%41?q=%26&r=1", kind: kind, style: style}}}
}

func units() (out []*unit) {
	add := func(pkg string, s *service, c settings) {
		c.pkg = pkg
		out = append(out, &unit{Pkg: pkg, s: s, c: c})
	}
	mixed := []string{"string", "int", "t:Person", "boolean", "t:Codes"}
	rpc := func(s *service, all bool) *service {
		if all {
			for i, r := range refs {
				if exact(r) && !r.element {
					m := s.message(part{wireNames[i%len(wireNames)], r})
					s.op(fmt.Sprintf("T%d", i), m, m)
				}
			}
		}
		var m [4]int
		for n := range m {
			var parts []part
			for k := 0; k < n; k++ {
				parts = append(parts, part{wireNames[k], byLabel[mixed[(n+k)%len(mixed)]]})
			}
			m[n] = s.message(parts...)
		}
		for i := range m {
			for k := range m {
				s.op(fmt.Sprintf("N%dx%d", i, k), m[i], m[k])
			}
		}
		s.op("Way", m[1], -1)
		s.op("Way0", m[0], -1)
		s.op("Note", -1, m[1])
		return s
	}
	document := func(s *service) *service {
		var els []int
		for _, r := range refs {
			if exact(r) && r.element {
				els = append(els, s.message(part{wireNames[len(els)%len(wireNames)], r}))
			}
		}
		for i := range els {
			s.op(fmt.Sprintf("E%d", i), els[i], els[(i+1)%len(els)])
		}
		none := s.message()
		s.op("None", none, none)
		s.op("InOnly", els[0], none)
		s.op("OutOnly", none, els[0])
		s.op("Way", els[1], -1)
		s.op("Note", -1, els[1])
		return s
	}
	plain := settings{in: 9, out: 9}
	structs := settings{}
	add("rpc", rpc(bare("soap", "rpc"), true), plain)
	add("rpcstructs", rpc(bare("soap", "rpc"), false), structs)
	add("rpcdefault", rpc(bare("soap", "rpc"), false), defaults)
	add("rpc12", rpc(bare("soap12", "rpc"), false), plain)
	add("doc", document(bare("soap", "document")), plain)
	add("docstructs", document(bare("soap", "document")), structs)
	add("nostyle", document(bare("soap", "")), defaults)
	add("doc12", document(bare("soap12", "document")), defaults)
	// elements, operations and parts with the names that envelopes use
	s := bare("soap", "document")
	soapNames := []string{"Fault", "Envelope", "Body", "Header", "faultcode", "faultstring", "detail"}
	elements := ""
	var text, inside, parts []int
	for _, n := range soapNames {
		elements += fmt.Sprintf(`<xs:element name="%s" type="xs:string"/><xs:element name="%s-in"><xs:complexType><xs:sequence><xs:element name="%s" type="xs:string"/></xs:sequence></xs:complexType></xs:element>`, n, n, n)
		text = append(text, s.message(part{n, &ref{"<t:" + n + ">", xml_(nsT, n), true, "string"}}))
		someValues["<t:"+n+"-in>"] = []value{{"", "<t:" + n + ">x</t:" + n + ">"}}
		inside = append(inside, s.message(part{n, &ref{"<t:" + n + "-in>", xml_(nsT, n+"-in"), true, "struct " + n}}))
		parts = append(parts, s.message(part{n, byLabel["string"]}))
	}
	s.schemas[0] = strings.Replace(schemaT, "</xs:schema>", elements+"</xs:schema>", 1)
	for i, n := range soapNames {
		s.op("E"+n, text[i], text[i])
		s.op("I"+n, inside[i], inside[i])
		s.op(strings.Title(n), parts[i], parts[i])
		s.pts[0][len(s.pts[0])-1].style = "rpc"
	}
	add("names", s, plain)
	for _, verb := range []string{"GET", "POST", "PUT", "delete"} {
		s := bare(verb, "")
		m := s.message(part{"a", byLabel["string"]})
		s.op("Call", m, m)
		s.op("Way", m, -1)
		add("http"+strings.ToLower(verb), s, defaults)
	}
	// two ports with the same operations, and styles of their own
	s = document(bare("soap", "rpc"))
	for i := range s.pts[0] {
		s.pts[0][i].style = "document"
	}
	s.ports = append(s.ports, port{name: "Q", address: "http://two.example/q/", kind: "soap12", style: "document", service: 1})
	s.docs = append(s.docs, nil)
	add("two", s, defaults)
	s = bare("soap", "rpc")
	for i, x := range inexact {
		if r := byLabel[x.label]; !r.element {
			m := s.message(part{"a", r})
			s.op(fmt.Sprintf("F%d", i), m, m)
		} else {
			m := s.message(part{"a", r})
			s.op(fmt.Sprintf("F%d", i), m, m)
			s.pts[0][len(s.pts[0])-1].style = "document"
		}
	}
	add("findings", s, plain)
	return out
}

// prepare builds the program that holds the clients.
func prepare(scratch string, thorough bool) (map[string]interface{}, error) {
	start := time.Now()
	root := filepath.Join(scratch, "clients")
	useSchemas(false)
	list := units()
	for _, u := range list {
		files, _ := u.s.write()
		src, err := fresh(u.c.options()...).GenSource(files...)
		if err != nil {
			u.Broken = "the generator refuses the service: " + err.Error()
			continue
		}
		os.MkdirAll(filepath.Join(root, u.Pkg), 0777)
		if err := os.WriteFile(filepath.Join(root, u.Pkg, "gen.go"), src, 0666); err != nil {
			return nil, err
		}
	}
	os.WriteFile(filepath.Join(root, "go.mod"), []byte("module clients\n\ngo 1.15\n"), 0666)
	os.WriteFile(filepath.Join(root, "main.go"), serverSource, 0666)
	for try := 0; ; try++ {
		var imp, reg strings.Builder
		for _, u := range list {
			if u.Broken == "" {
				fmt.Fprintf(&imp, "\t%q\n", "clients/"+u.Pkg)
				fmt.Fprintf(&reg, "\t%q: func(h *http.Client) interface{} { return &%s.Client{HTTPClient: h} },\n", u.Pkg, u.Pkg)
			}
		}
		os.WriteFile(filepath.Join(root, "registry.go"), []byte("package main\n\nimport (\n\t\"net/http\"\n"+imp.String()+")\n\nvar registry = map[string]func(*http.Client) interface{}{\n"+reg.String()+"}\n"), 0666)
		cmd := exec.Command("go", "build", "-trimpath", "-o", "server", ".")
		cmd.Dir = root
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOGC=200")
		out, err := cmd.CombinedOutput()
		if err == nil {
			break
		}
		bad := 0
		at := regexp.MustCompile(`(?m)^# clients/([a-z0-9]+)$`).FindAllSubmatchIndex(out, -1)
		for i, m := range at {
			end := len(out)
			if i+1 < len(at) {
				end = at[i+1][0]
			}
			for _, u := range list {
				if u.Pkg == string(out[m[2]:m[3]]) && u.Broken == "" {
					u.Broken = "the generated package does not compile:\n" + string(out[m[0]:end])
					bad++
				}
			}
		}
		if bad == 0 || try > 20 {
			return nil, fmt.Errorf("go build: %v\n%s", err, out)
		}
	}
	data, err := json.Marshal(list)
	if err == nil {
		err = os.WriteFile(filepath.Join(root, "units.json"), data, 0666)
	}
	ops := 0
	for _, u := range list {
		ops += len(u.s.pts[0]) * len(u.s.ports)
	}
	return map[string]interface{}{"clients_built": len(list), "methods_in_clients": ops, "build_s": time.Since(start).Seconds()}, err
}

// The clients, in a process of their own.
type process struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	enc *json.Encoder
	dec *json.Decoder
	err *os.File
}

type question struct {
	Unit, Method string
	Args         []value
	WrapArgs     bool
	Want         []value
	WrapWant     bool
	Mode         string
	Raw          []byte

	RequestHook, ResponseHook string
	HookRaw                   []byte
	Default                   bool
	Then                      []question
	Schedule                  []int
}

type received struct {
	Method, URI, Host, Body string
	Header                  map[string][]string
}

type answer struct {
	Wrong, Panic, Err string
	IsErr             bool
	Diff              string
	Requests          []received
	Dials             int
	Hooked            []received
	Answers           []string
	Strange           []string
	Opened, Closed    int
	More              []answer
	Points            int
}

var (
	theProcess *process
	theUnits   map[string]*unit
	unitOrder  []*unit
	setupOnce  sync.Once
	setupErr   error
)

func setup() error {
	setupOnce.Do(func() {
		data, err := os.ReadFile(filepath.Join(os.Getenv("MC_SCRATCH"), "clients", "units.json"))
		var had []*unit
		if err == nil {
			err = json.Unmarshal(data, &had)
		}
		theUnits = map[string]*unit{}
		for i, u := range units() {
			if i < len(had) {
				u.Broken = had[i].Broken
			}
			theUnits[u.Pkg] = u
			if u.Pkg != "findings" {
				unitOrder = append(unitOrder, u)
			}
		}
		setupErr = err
	})
	return setupErr
}

func start() (*process, error) {
	s := &process{}
	s.cmd = exec.Command(filepath.Join(os.Getenv("MC_SCRATCH"), "clients", "server"))
	s.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=1GiB")
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if s.err, err = os.CreateTemp(os.Getenv("MC_SCRATCH"), "clients-*.err"); err != nil {
		return nil, err
	}
	s.cmd.Stderr = s.err
	s.enc = json.NewEncoder(s.in)
	s.dec = json.NewDecoder(bufio.NewReaderSize(out, 1<<16))
	return s, s.cmd.Start()
}

func (s *process) stop() string {
	s.cmd.Process.Kill()
	s.cmd.Wait()
	data, _ := os.ReadFile(s.err.Name())
	s.err.Close()
	os.Remove(s.err.Name())
	if len(data) > 3000 {
		data = data[:3000]
	}
	return string(data)
}

func ask(q question) (a answer, died string) {
	if theProcess == nil {
		var err error
		if theProcess, err = start(); err != nil {
			panic(err)
		}
	}
	done := make(chan error, 1)
	s := theProcess
	go func() {
		err := s.enc.Encode(q)
		if err == nil {
			err = s.dec.Decode(&a)
		}
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			theProcess = nil
			return a, "the process died: " + s.stop()
		}
	case <-time.After(2 * time.Minute):
		theProcess = nil
		return a, "no answer for two minutes: " + s.stop()
	}
	return a, ""
}

// call is a call of a method.
type call struct {
	u       *unit
	port    port
	op      operation
	in, out []part
	args    []value
	want    []value
}

func (c *call) style() string {
	if c.op.style != "" {
		return c.op.style
	}
	if c.port.style != "" {
		return c.port.style
	}
	return "document"
}

func (c *call) soap() bool { return strings.HasPrefix(c.port.kind, "soap") }

func newCall(u *unit, p, op int) *call {
	c := &call{u: u, port: u.s.ports[p], op: u.s.pts[0][op]}
	c.in, c.out = u.s.parts(c.op.in), u.s.parts(c.op.out)
	for _, p := range c.in {
		c.args = append(c.args, values(p.ref)[0])
	}
	for _, p := range c.out {
		c.want = append(c.want, values(p.ref)[0])
	}
	return c
}

func find(unit, op string) *call {
	u := theUnits[unit]
	for i, o := range u.s.pts[0] {
		if o.name == op {
			return newCall(u, 0, i)
		}
	}
	panic(op)
}

// question asks for the call.
func (c *call) question(t *mc.T, mode, raw string, want bool) question {
	if c.u.Broken != "" {
		t.Fail("%s\n%s", c.u.Broken, c.u.s.text())
	}
	q := question{Unit: c.u.Pkg, Method: c.op.name, Args: c.args, Mode: mode, Raw: []byte(raw)}
	q.WrapArgs = len(c.in) > c.u.c.in
	q.WrapWant = len(c.out) > c.u.c.out
	if want {
		q.Want = c.want
		if q.Want == nil {
			q.Want = []value{}
		}
	}
	if c.port.name == "Q" {
		q.Method += "*"
	}
	return q
}

// do calls the method.
func (c *call) do(t *mc.T, mode, raw string, want bool) answer {
	a := c.ask(t, c.question(t, mode, raw, want))
	c.sane(t, mode, raw, a)
	return a
}

func (c *call) ask(t *mc.T, q question) answer {
	text, _ := json.Marshal(q)
	t.Input(string(text))
	t.Step()
	a, died := ask(q)
	t.Compared(1)
	if died != "" {
		c.bad(t, q.Mode, string(q.Raw), a, "%s", died)
	}
	return a
}

// sane checks what is true of every call.
func (c *call) sane(t *mc.T, mode, raw string, a answer) {
	if a.Panic != "" {
		c.bad(t, mode, raw, a, "the method panics: %s", a.Panic)
	}
	if a.Wrong != "" {
		c.bad(t, mode, raw, a, "the method is not as promised: %s", a.Wrong)
	}
	if len(a.Requests) > 1 || a.Dials > 1 {
		c.bad(t, mode, raw, a, "%d requests over %d connections", len(a.Requests), a.Dials)
	}
	if a.Opened != a.Closed {
		c.bad(t, mode, raw, a, "the bodies of %d of %d responses are not closed", a.Opened-a.Closed, a.Opened)
	}
	if len(a.Strange) > 0 {
		c.bad(t, mode, raw, a, "%v", a.Strange)
	}
}

func (c *call) bad(t *mc.T, mode, raw string, a answer, format string, v ...interface{}) {
	c.badKey(t, "", mode, raw, a, format, v...)
}

func (c *call) badKey(t *mc.T, key, mode, raw string, a answer, format string, v ...interface{}) {
	s := fmt.Sprintf(format, v...)
	s += fmt.Sprintf("\nclient %s, operation %s of port %s, settings %+v, style %s, arguments %v", c.u.Pkg, c.op.name, c.port.name, c.u.c, c.style(), c.args)
	for _, r := range a.Requests {
		s += fmt.Sprintf("\nrequest: %s %s %s %v\n%s", r.Method, r.Host, r.URI, r.Header, r.Body)
	}
	s += fmt.Sprintf("\nthe server: %s\n%s\nerror: %v %s", mode, raw, a.IsErr, a.Err)
	if key != "" {
		t.FailKey(key, "%s", s)
	}
	t.Fail("%s", s)
}

// node is an element of a request.
type node struct {
	name xml.Name
	attr []xml.Attr
	kids []*node
	text string
}

func parse(s string) (*node, error) {
	d := xml.NewDecoder(strings.NewReader(s))
	root := &node{}
	stack := []*node{root}
	for {
		tok, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		top := stack[len(stack)-1]
		switch tok := tok.(type) {
		case xml.StartElement:
			n := &node{name: tok.Name}
			for _, a := range tok.Attr {
				if a.Name.Space != "xmlns" && a.Name.Local != "xmlns" {
					n.attr = append(n.attr, a)
				}
			}
			sort.Slice(n.attr, func(i, k int) bool { return n.attr[i].Name.Local < n.attr[k].Name.Local })
			top.kids = append(top.kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
			if len(top.kids) > 0 && strings.TrimSpace(top.text) == "" {
				top.text = ""
			}
		case xml.CharData:
			top.text += string(tok)
		}
	}
	if len(root.kids) != 1 {
		return nil, fmt.Errorf("%d root elements", len(root.kids))
	}
	return root.kids[0], nil
}

var dateZ = regexp.MustCompile(`^(\d\d\d\d-\d\d-\d\d)Z$`)

// norm is the value of a text.
func norm(kind, s string) string {
	switch kind {
	case "bool":
		switch strings.TrimSpace(s) {
		case "1":
			return "true"
		case "0":
			return "false"
		}
		return strings.TrimSpace(s)
	case "float64", "float32":
		if f, err := strconv.ParseFloat(strings.TrimSpace(s), 64); err == nil {
			if kind == "float32" {
				f = float64(float32(f))
			}
			return fmt.Sprint(math.Float64bits(f))
		}
	case "int", "int8", "int64", "byte", "uint", "uint64", "=int":
		return strings.TrimSpace(s)
	case "time.Time":
		if t, err := time.Parse(time.RFC3339Nano, strings.TrimSpace(s)); err == nil {
			return t.UTC().Format(time.RFC3339Nano)
		}
	case "Codes", "Sizes":
		return strings.Join(strings.Fields(s), " ")
	}
	return dateZ.ReplaceAllString(s, "$1")
}

// differ compares elements.
func differ(kind string, want, got *node) string {
	if want.name != got.name {
		return fmt.Sprintf("element %v, want %v", got.name, want.name)
	}
	if fmt.Sprint(want.attr) != fmt.Sprint(got.attr) {
		return fmt.Sprintf("attributes %v of %s, want %v", got.attr, got.name.Local, want.attr)
	}
	if norm(kind, want.text) != norm(kind, got.text) {
		return fmt.Sprintf("content %q of %s, want %q", got.text, got.name.Local, want.text)
	}
	for i := 0; i < len(want.kids) || i < len(got.kids); i++ {
		if i >= len(want.kids) {
			return fmt.Sprintf("unexpected element %v in %v", got.kids[i].name, got.name)
		}
		if i >= len(got.kids) {
			return fmt.Sprintf("no element %v in %v", want.kids[i].name, want.name)
		}
		if e := differ("", want.kids[i], got.kids[i]); e != "" {
			return e
		}
	}
	return ""
}

const valueNS = ` xmlns:t="urn:t" xmlns:o="urn:o"`

func element(name, ns string, v value) string {
	if ns == "" {
		return fmt.Sprintf(`<%s xmlns=""%s%s>%s</%s>`, name, valueNS, v.Attrs, v.Inner, name)
	}
	return fmt.Sprintf(`<m:%s xmlns:m="%s" xmlns=""%s%s>%s</m:%s>`, name, ns, valueNS, v.Attrs, v.Inner, name)
}

// content of the body of a message.
func (c *call) content(name, ns string, parts []part, vals []value) string {
	if c.style() == "document" && c.soap() {
		s := ""
		for i, p := range parts {
			s += element(p.ref.name.Local, p.ref.name.Space, vals[i])
		}
		return s
	}
	s := ""
	for i, p := range parts {
		s += element(p.name, "", vals[i])
	}
	return element(name, ns, value{"", s})
}

// request compares what was sent with what the description asks for.
func (c *call) request(t *mc.T, mode, raw string, a answer) {
	bad := func(format string, v ...interface{}) { c.bad(t, mode, raw, a, format, v...) }
	if len(a.Requests) != 1 {
		bad("%d requests", len(a.Requests))
	}
	r := a.Requests[0]
	method := "POST"
	if !c.soap() {
		method = strings.ToUpper(c.port.kind)
	}
	if r.Method != method {
		bad("method %s, want %s", r.Method, method)
	}
	if at := "http://" + r.Host + r.URI; at != c.port.address {
		bad("request to %s, want %s", at, c.port.address)
	}
	if !c.soap() {
		return
	}
	action := r.Header["Soapaction"]
	if len(action) != 1 || action[0] != c.op.action && action[0] != `"`+c.op.action+`"` {
		bad("SOAPAction %q, want %q", action, c.op.action)
	}
	root, err := parse(r.Body)
	if err != nil {
		bad("the request is not XML: %v", err)
	}
	if root.name != xml_(envNS, "Envelope") || len(root.attr) > 0 {
		bad("the request is not an envelope")
	}
	kids := root.kids
	if len(kids) > 0 && kids[0].name == xml_(envNS, "Header") && len(kids[0].kids) == 0 {
		kids = kids[1:]
	}
	if len(kids) != 1 || kids[0].name != xml_(envNS, "Body") {
		bad("the envelope does not consist of a body")
	}
	body := kids[0]
	if c.op.in < 0 {
		if len(body.kids) > 0 {
			bad("the body of an operation without input is not empty")
		}
		return
	}
	text := c.content(c.op.name, c.op.space, c.in, c.args)
	if text == "" {
		if len(body.kids) > 0 {
			bad("the body of a message without parts is not empty")
		}
		return
	}
	want, err := parse(text)
	if err != nil {
		t.Fail("%v: %s", err, text)
	}
	if len(body.kids) != 1 {
		bad("the body has %d elements", len(body.kids))
	}
	got := body.kids[0]
	e := ""
	if c.style() == "document" {
		e = differ(c.in[0].ref.want, want, got)
	} else {
		if want.name != got.name {
			bad("element %v, want %v", got.name, want.name)
		}
		if len(want.kids) != len(got.kids) || len(got.attr) > 0 {
			bad("%d parts, want %d", len(got.kids), len(want.kids))
		}
		for i := range want.kids {
			if e == "" {
				e = differ(c.in[i].ref.want, want.kids[i], got.kids[i])
			}
		}
	}
	if e != "" {
		bad("%s", e)
	}
	t.State(r.Body)
}

// envelope writes a reply in one of several ways.
func envelope(how int, content string) string {
	ws, head, extra := "", "", ""
	env := func(p string) string {
		d := "xmlns:" + strings.TrimSuffix(p, ":")
		if p == "" {
			d = "xmlns"
		}
		return fmt.Sprintf(`<%sEnvelope %s="%s"%s>%s%s<%sBody>%s%s%s</%sBody>%s</%sEnvelope>`, p, d, envNS, extra, ws, head, p, ws, content, ws, p, ws, p)
	}
	switch how {
	case 1:
		ws = "\n  "
		return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" + env("soapenv:") + "\n"
	case 2:
		return env("")
	case 3:
		head = `<S:Header><h:a xmlns:h="urn:h" S:mustUnderstand="0"><h:Body>x</h:Body></h:a><Fault xmlns="urn:h"/></S:Header>`
	case 4:
		ws = "<!-- <S:Body/> --><?pi x?>"
		return ws + env("S:") + ws
	case 5:
		extra = ` S:encodingStyle="http://schemas.xmlsoap.org/soap/encoding/" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"`
	case 6:
		return "\ufeff"[:0] + env("SOAP-ENV:") + "\n\n"
	case 7:
		head = "<S:Header/>"
		return "<?xml version='1.0'?>" + env("S:")
	}
	return env("S:")
}

// response writes an HTTP response in one of several ways.
func response(how int, status, body string) string {
	typ := "Content-Type: text/xml; charset=utf-8\r\n"
	switch how {
	case 1:
		s := "HTTP/1.1 " + status + "\r\n" + typ + "Transfer-Encoding: chunked\r\n\r\n"
		for i := 0; i < len(body); i += 50 {
			k := i + 50
			if k > len(body) {
				k = len(body)
			}
			s += fmt.Sprintf("%x\r\n%s\r\n", k-i, body[i:k])
		}
		return s + "0\r\n\r\n"
	case 2:
		return "HTTP/1.1 " + status + "\r\n" + typ + "Connection: close\r\n\r\n" + body
	case 3:
		return "HTTP/1.0 " + status + "\r\n" + typ + "\r\n" + body
	case 4:
		typ = "Content-Type: application/soap+xml\r\nX-Other: 1\r\n"
	case 5:
		typ = ""
	}
	return fmt.Sprintf("HTTP/1.1 %s\r\n%sContent-Length: %d\r\n\r\n%s", status, typ, len(body), body)
}

// reply is the content of a good reply.
func (c *call) reply(how int) string {
	if c.op.out < 0 {
		return ""
	}
	name, ns := c.op.name+"Response", c.op.space
	switch how {
	case 1:
		name = "answer"
	case 2:
		ns = ""
	case 3:
		name = "Fault"
	case 4:
		name, ns = "Fault", ""
	}
	return c.content(name, ns, c.out, c.want)
}

// calls that succeed.
func calls(t *mc.T) {
	u := unitOrder[t.Free("client", len(unitOrder))]
	p := t.Free("port", len(u.s.ports))
	c := newCall(u, p, t.Free("operation", len(u.s.pts[0])))
	for i, x := range c.in {
		v := values(x.ref)
		c.args[i] = v[t.Choose("argument", len(v))]
	}
	for i, x := range c.out {
		v := values(x.ref)
		c.want[i] = v[t.Choose("result", len(v))]
	}
	body, status := "", "200 OK"
	way := 0
	if c.op.out < 0 {
		way = t.Choose("reply to a one-way operation", 4)
	}
	switch way {
	case 0:
		if c.op.out >= 0 || t.Choose("envelope", 2) == 1 {
			how := 0
			if c.op.out >= 0 && c.style() == "rpc" {
				how = t.Choose("name of the reply", 5)
			}
			body = envelope(t.Choose("notation", 8), c.reply(how))
		}
		status = t.Pick("status", "200 OK", "202 Accepted", "201 Created", "203 Other", "299 Strange", "200")
	case 1:
		status = "202 Accepted"
	case 2:
		status = "204 No Content"
	case 3:
		body = envelope(0, "")
	}
	raw := response(t.Choose("response", 6), status, body)
	if way == 2 {
		raw = "HTTP/1.1 204 No Content\r\n\r\n"
	}
	a := c.do(t, "reply", raw, c.soap())
	c.request(t, "reply", raw, a)
	if a.IsErr {
		c.bad(t, "reply", raw, a, "an error after a good reply")
	}
	if a.Diff != "" {
		c.bad(t, "reply", raw, a, "%s", a.Diff)
	}
}

// kinds of operations for what can go wrong.
var kinds = [][2]string{{"rpc", "N1x1"}, {"rpc", "N0x0"}, {"rpc", "N2x3"}, {"rpc", "Way"}, {"rpc", "Note"}, {"rpcstructs", "N2x2"}, {"doc", "E0"}, {"doc", "E2"}, {"doc", "None"}, {"doc", "Way"}, {"docstructs", "E3"}, {"httpget", "Call"}, {"httppost", "Call"}}

func (c *call) needs() bool { return c.op.out >= 0 && (len(c.out) > 0 || c.style() == "rpc") }

func pickKind(t *mc.T) *call {
	k := kinds[t.Free("operation", len(kinds))]
	return find(k[0], k[1])
}

// fails calls a method, and expects an error.
func (c *call) fails(t *mc.T, mode, raw, why string) {
	a := c.do(t, mode, raw, false)
	t.Outcome(a.Err)
	if !a.IsErr {
		c.bad(t, mode, raw, a, "no error: %s", why)
	}
}

const fault1 = `<S:Fault xmlns:S="` + envNS + `"><faultcode>S:Server</faultcode><faultstring>Out of order</faultstring></S:Fault>`

func statuses(t *mc.T) {
	c := pickKind(t)
	code := 300 + t.Free("status", 300)
	body := ""
	switch t.Free("body", 4) {
	case 0:
		body = envelope(0, c.reply(0))
	case 2:
		body = "<html><body><p>Not found<br></body></html>"
	case 3:
		body = envelope(0, fault1)
	}
	raw := response(t.Free("response", 2)*2, strconv.Itoa(code)+" Something", body)
	if code == 304 {
		raw = "HTTP/1.1 304 Not Modified\r\n\r\n"
	}
	c.fails(t, "reply", raw, "status "+strconv.Itoa(code))
}

func faults(t *mc.T) {
	c := pickKind(t)
	e := `xmlns:S="` + envNS + `"`
	list := []string{fault1,
		`<S:Fault ` + e + `/>`,
		`<S:Fault ` + e + `><faultcode/><faultstring/></S:Fault>`,
		`<S:Fault ` + e + `><faultstring xml:lang="en">Text</faultstring><faultcode>S:Client</faultcode><faultactor>urn:x</faultactor><detail><x:e xmlns:x="urn:x">1</x:e></detail></S:Fault>`,
		`<S:Fault ` + e + `><detail><faultstring/></detail></S:Fault>`,
		`<Fault xmlns="` + envNS + `"><faultcode xmlns="">Server</faultcode><faultstring xmlns="">x</faultstring></Fault>`,
		"\n\t" + `<S:Fault ` + e + `>` + "\n\t" + `<faultcode>S:Server</faultcode>` + "\n" + `<faultstring>&lt;&amp;&#10;</faultstring></S:Fault>` + "\n",
		`<!-- c --><env:Fault xmlns:env="` + envNS + `"><faultcode>env:Server</faultcode><faultstring><![CDATA[x]]></faultstring></env:Fault>`,
		fault1 + c.reply(0), c.reply(0) + fault1}
	content := list[t.Free("fault", len(list))]
	body := envelope(t.Free("notation", 8), content)
	raw := response(t.Free("response", 6), t.FreePick("status", "500 Internal Server Error", "200 OK", "202 Accepted", "400 Bad Request"), body)
	c.fails(t, "reply", raw, "the reply is a fault")
}

func cuts(t *mc.T) {
	c := pickKind(t)
	doc := envelope(t.Free("notation", 2)*3, c.reply(0))
	n := t.Free("length", len(doc))
	how := t.Free("connection", 4)
	if n == 0 && (how < 3 || c.op.out < 0) && !c.needs() {
		t.Skip() // no reply is a reply
	}
	cut := doc[:n]
	mode := "reply"
	raw := response([]int{0, 1, 2, 0}[how], "200 OK", cut)
	if how == 3 {
		// the connection ends before the announced length
		raw = response(0, "200 OK", doc)
		raw = raw[:len(raw)-len(doc)+n]
	}
	c.fails(t, mode, raw, "the reply is cut off")
}

func headers(t *mc.T) {
	c := pickKind(t)
	doc := envelope(0, c.reply(0))
	raw := response(t.Free("response", 3), "200 OK", doc)
	end := strings.Index(raw, "\r\n\r\n") + 4
	n := t.Free("length", end)
	if c.op.out < 0 && n == end {
		t.Skip()
	}
	c.fails(t, []string{"reply", "send and hang"}[t.Free("then", 2)], raw[:n], "the connection ends in the header")
}

func wrong(t *mc.T) {
	c := pickKind(t)
	good := c.reply(0)
	type w struct {
		why, doc string
		when     bool
	}
	soap, always := c.soap(), true
	el := soap && c.style() == "document" && len(c.out) == 1
	other := ""
	if el {
		other = c.out[0].ref.name.Local
	}
	full := envelope(0, good)
	list := []w{
		{"no body", `<S:Envelope xmlns:S="` + envNS + `"/>`, c.needs()},
		{"no body but a header", `<S:Envelope xmlns:S="` + envNS + `"><S:Header/></S:Envelope>`, c.needs()},
		{"an empty body", envelope(0, ""), c.needs()},
		{"a body of text", envelope(0, "text"), c.needs()},
		{"a body of another namespace", strings.Replace(full, "S:Body", "Body", -1), c.needs()},
		{"nothing", "", c.needs()},
		{"space", " \n", c.needs()},
		{"an envelope of SOAP 1.2", strings.Replace(full, envNS, "http://www.w3.org/2003/05/soap-envelope", -1), always},
		{"an envelope of no namespace", strings.Replace(full, "S:", "", -1), always},
		{"another root", strings.Replace(full, "S:Envelope", "S:Envelop", -1), always},
		{"a reply without an envelope", `<x xmlns="urn:x">1</x>`, always},
		{"a page", "<html><body>Welcome</body></html>", always},
		{"a page that is not XML", "<!DOCTYPE html><html><body><p>Welcome<br></body></html>", always},
		{"text", "OK", c.needs()},
		{"JSON", `{"ok": true}`, c.needs()},
		{"an unknown encoding", `<?xml version="1.0" encoding="x-unknown"?>` + full, always},
		{"an undefined entity", strings.Replace(full, "</S:Body>", "&undefined;</S:Body>", 1), always},
		{"bytes that are not UTF-8", strings.Replace(full, "</S:Body>", "\xff</S:Body>", 1), always},
		{"control characters", strings.Replace(full, "</S:Body>", "\x01</S:Body>", 1), always},
		{"elements that are not closed", strings.Replace(full, "</S:Body>", "<x></S:Body>", 1), always},
		{"elements that are closed in the wrong order", strings.Replace(full, "</S:Body></S:Envelope>", "</S:Envelope></S:Body>", 1), always},
		{"attributes without a value", strings.Replace(full, "<S:Body>", "<S:Body x>", 1), always},
		{"another element", envelope(0, element("other", "urn:x", value{"", "1"})), el},
		{"the name in another namespace", envelope(0, element(other, "urn:x", value{"", "1"})), el},
		{"the name in no namespace", envelope(0, element(other, "", value{"", "1"})), el},
		{"another element of the namespace", envelope(0, element(other+"x", "urn:t", value{"", "1"})), el},
	}
	x := list[t.Free("reply", len(list))]
	if !x.when {
		t.Skip()
	}
	if good == "" && strings.Contains(x.why, "unknown encoding") {
		// fine: the envelope is read all the same
		_ = good
	}
	c.fails(t, "reply", response(t.Free("response", 3), "200 OK", x.doc), "the reply is "+x.why)
}

// badValues are texts that are not values of a type.
var badValues = map[string][]string{
	"int": {"abc", "1.5", "1 2", "99999999999999999999", "0x10", "1e3"}, "int8": {"128", "-129", "x"}, "byte": {"256", "-1", "x"}, "uint": {"-1", "x", "18446744073709551616"}, "uint64": {"-1", "18446744073709551616"},
	"int64": {"9223372036854775808", "x"}, "bool": {"maybe", "2", "yes"}, "float64": {"x", "1,5"}, "float32": {"x", "1.5.5"}, "time.Time": {"yesterday", "2001-02-30T00:00:00Z", "2001-02-03"}, "=int": {"x", "1.5"},
}

func badParts(t *mc.T) {
	u := unitOrder[t.Free("client", len(unitOrder))]
	c := newCall(u, t.Free("port", len(u.s.ports)), t.Free("operation", len(u.s.pts[0])))
	if !c.soap() || len(c.out) == 0 {
		t.Skip()
	}
	k := t.Free("part", len(c.out))
	r := c.out[k].ref
	var bad []value
	for _, s := range badValues[r.want] {
		bad = append(bad, value{"", s})
	}
	switch r.want {
	case "Person":
		bad = []value{{` num="x"`, tName + tBorn}, {"", tName + "<t:age>old</t:age>" + tBorn}, {"", tName + "<t:born>yesterday</t:born>"}}
	case "Sizes":
		bad = []value{{"", "1 x 3"}}
	case "Thing":
		bad = []value{{"", "<o:size>x</o:size>"}}
	case "struct x":
		bad = []value{{"", "<t:x>y</t:x>"}}
	}
	if len(bad) == 0 {
		t.Skip()
	}
	c.want[k] = bad[t.Free("value", len(bad))]
	c.fails(t, "reply", response(0, "200 OK", envelope(0, c.reply(0))), fmt.Sprintf("%q is not a value of %s", c.want[k], r.label))
}

func transport(t *mc.T) {
	u := unitOrder[t.Free("client", len(unitOrder))]
	c := newCall(u, t.Free("port", len(u.s.ports)), t.Free("operation", len(u.s.pts[0])))
	full := response(0, "200 OK", envelope(0, c.reply(0)))
	type m struct{ mode, raw string }
	list := []m{{"refuse", ""}, {"drop", ""}, {"hang", ""}, {"cancelled", full}, {"reply", ""}, {"reply", "garbage\r\n\r\n"}, {"reply", "HTTP/1.1 abc\r\n\r\n"}, {"reply", "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n"},
		{"reply", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n"}, {"reply", "HTTP/9.9 200 OK\r\n\r\n"[:8]}, {"send and hang", full[:len(full)-3]}, {"send and hang", full[:20]}, {"reply", "<html/>"}}
	x := list[t.Free("what happens", len(list))]
	c.fails(t, x.mode, x.raw, "the server does not answer")
}

// behaviour of the server and what is to come of the call.
type behaviour struct {
	name, raw string
	good      bool
}

func (c *call) behaviours() []behaviour {
	ok := func(body string) string { return response(0, "200 OK", body) }
	good := envelope(0, c.reply(0))
	list := []behaviour{
		{"good", ok(good), true},
		{"fault", response(0, "500 Internal Server Error", envelope(0, fault1)), false},
		{"fault and 200", ok(envelope(3, fault1)), false},
		{"status", response(0, "404 Not Found", "gone"), false},
		{"status with a good reply", response(0, "503 Busy", good), false},
		{"cut", ok(good[:len(good)-20]), false},
	}
	if c.needs() {
		list = append(list, behaviour{"nothing", ok(""), false}, behaviour{"empty body", ok(envelope(0, "")), false})
	}
	return list
}

func differHeader(a, b map[string][]string) string {
	// what the transport adds
	skip := map[string]bool{"User-Agent": true, "Connection": true, "Accept-Encoding": true, "Content-Length": true, "Transfer-Encoding": true, "X-Hook": true}
	for i, m := range []map[string][]string{a, b} {
		other := []map[string][]string{b, a}[i]
		for k, v := range m {
			if !skip[k] && fmt.Sprint(other[k]) != fmt.Sprint(v) {
				return fmt.Sprintf("header %s is %v, and %v", k, a[k], b[k])
			}
		}
	}
	return ""
}

// judged compares the outcome of a call with what it should be.
func (c *call) judged(t *mc.T, b behaviour, a answer) {
	if b.good && a.IsErr {
		c.bad(t, b.name, b.raw, a, "an error after a good reply")
	}
	if !b.good && !a.IsErr {
		c.bad(t, b.name, b.raw, a, "no error: %s", b.name)
	}
	if a.Diff != "" {
		c.bad(t, b.name, b.raw, a, "%s", a.Diff)
	}
}

// hooked are calls of a client with hooks.
func hooked(t *mc.T) {
	c := pickKind(t)
	list := c.behaviours()
	b := list[t.Free("reply", len(list))]
	q := c.question(t, "reply", b.raw, c.soap())
	q.Default = t.FreeBool("default client")
	q.RequestHook = t.FreePick("request hook", "", "same", "header", "clone", "other")
	q.ResponseHook = t.FreePick("response hook", "", "same", "read", "other")
	read := q.ResponseHook == "read" && strings.Contains(b.raw, "chunked")
	if read {
		t.Skip()
	}
	outcome := b
	if q.ResponseHook == "other" {
		outcome = list[t.Free("reply of the hook", len(list))]
		q.HookRaw = []byte(outcome.raw)
	}
	a := c.ask(t, q)
	c.sane(t, b.name, b.raw, a)
	bad := func(format string, v ...interface{}) { c.bad(t, b.name, b.raw, a, format, v...) }
	if len(a.Requests) != 1 {
		bad("%d requests", len(a.Requests))
	}
	sent := a.Requests[0]
	hook := a.Requests
	if q.RequestHook != "" {
		if len(a.Hooked) != 1 {
			bad("the request hook is called %d times", len(a.Hooked))
		}
		hook = a.Hooked
	} else if len(a.Hooked) > 0 {
		bad("a hook that is not set is called")
	}
	// the hook sees the request
	a.Requests = hook
	c.request(t, b.name, b.raw, a)
	a.Requests = []received{sent}
	switch q.RequestHook {
	case "other":
		if sent.Method != "PATCH" || sent.Host != "other.example" || sent.URI != "/hook" || sent.Body != "from the hook" || len(sent.Header["Soapaction"]) > 0 {
			bad("what is sent is not the request of the hook")
		}
	default:
		h := hook[0]
		if sent.Method != h.Method || sent.Host != h.Host || sent.URI != h.URI || sent.Body != h.Body {
			bad("what is sent is not what the hook returned: %+v", h)
		}
		if e := differHeader(h.Header, sent.Header); e != "" {
			bad("what is sent is not what the hook returned: %s", e)
		}
		if (len(sent.Header["X-Hook"]) == 1) != (q.RequestHook == "header") {
			bad("the header of the hook: %v", sent.Header["X-Hook"])
		}
	}
	n := 0
	if q.ResponseHook != "" {
		n = 1
	}
	status := strings.SplitN(strings.SplitN(b.raw, "\r\n", 2)[0], " ", 2)[1]
	if len(a.Answers) != n || n == 1 && a.Answers[0] != status {
		bad("the response hook sees %q", a.Answers)
	}
	c.judged(t, outcome, a)
}

// histories are several calls with one client, one after the other.
func histories(t *mc.T) {
	unit := unitOrder[t.Free("client", len(unitOrder))]
	n := 2 + t.Choose("calls", 2)
	var all []*call
	var bs []behaviour
	var q question
	for i := 0; i < n; i++ {
		op := 0
		for _, k := range kinds {
			if k[0] == unit.Pkg {
				op = len(kinds)
			}
		}
		if op > 0 {
			var ops []string
			for _, k := range kinds {
				if k[0] == unit.Pkg {
					ops = append(ops, k[1])
				}
			}
			all = append(all, find(unit.Pkg, ops[t.Free("operation", len(ops))]))
		} else {
			all = append(all, newCall(unit, 0, t.Choose("operation", len(unit.s.pts[0]))))
		}
		c := all[i]
		// every call has values of its own
		for k, x := range c.in {
			v := values(x.ref)
			c.args[k] = v[i%len(v)]
		}
		for k, x := range c.out {
			v := values(x.ref)
			c.want[k] = v[i%len(v)]
		}
		list := c.behaviours()
		bs = append(bs, list[t.Free("reply", len(list))])
		qi := c.question(t, "reply", bs[i].raw, c.soap())
		if i == 0 {
			q = qi
		} else {
			q.Then = append(q.Then, qi)
		}
	}
	a := all[0].ask(t, q)
	for i, c := range all {
		ai := a
		if i > 0 {
			ai = a.More[i-1]
		}
		c.sane(t, bs[i].name, bs[i].raw, ai)
		c.request(t, bs[i].name, bs[i].raw, ai)
		c.judged(t, bs[i], ai)
	}
}

// atOnce are calls of one client that run at the same time, under every
// schedule.
func atOnce(t *mc.T) {
	k := t.Free("client", 4)
	ops := [][]string{{"rpc", "N1x1", "N0x0", "N2x3", "Way"}, {"doc", "E0", "E2", "None", "Way"}, {"rpcstructs", "N2x2", "N3x3", "N1x0"}, {"docstructs", "E3", "E1"}}[k]
	var all []*call
	var bs []behaviour
	var q question
	for i := 0; i < 2; i++ {
		c := find(ops[0], ops[1+t.Free("operation", len(ops)-1)])
		for k, x := range c.in {
			v := values(x.ref)
			c.args[k] = v[i%len(v)]
		}
		for k, x := range c.out {
			v := values(x.ref)
			c.want[k] = v[i%len(v)]
		}
		list := c.behaviours()
		b := list[t.Free("reply", 3)]
		all, bs = append(all, c), append(bs, b)
		qi := c.question(t, "reply", b.raw, true)
		if i == 0 {
			q = qi
			q.RequestHook, q.ResponseHook = "same", "same"
		} else {
			q.Then = append(q.Then, qi)
		}
	}
	// at every point the other may go on; a switch is a deviation
	q.Schedule = []int{t.Free("first", 2)}
	for i := 1; i < 24; i++ {
		q.Schedule = append(q.Schedule, t.Choose("switch", 2))
	}
	a := all[0].ask(t, q)
	if a.Points == 0 {
		t.Fail("the calls are not scheduled: %+v", a)
	}
	for i := a.Points; i < len(q.Schedule); i++ {
		if q.Schedule[i] != 0 {
			t.Skip() // the same as without
		}
	}
	t.State(fmt.Sprint(q.Schedule, k, all[0].op.name, all[1].op.name, bs))
	for i, c := range all {
		ai := a
		if i > 0 {
			ai = a.More[0]
		}
		c.sane(t, bs[i].name, bs[i].raw, ai)
		if len(ai.Hooked) != 1 || len(ai.Answers) != 1 {
			c.bad(t, bs[i].name, bs[i].raw, ai, "the hooks are called %d and %d times", len(ai.Hooked), len(ai.Answers))
		}
		c.request(t, bs[i].name, bs[i].raw, ai)
		c.judged(t, bs[i], ai)
	}
}

// findings are the types of parts that do not travel in their lexical form.
func findings32(t *mc.T) {
	i := t.Free("type", len(inexact))
	x := inexact[i]
	c := find("findings", fmt.Sprintf("F%d", i))
	c.args = []value{{"", x.have}}
	c.want = []value{{"", x.wire}}
	raw := response(0, "200 OK", envelope(0, c.reply(0)))
	c.want = []value{{"", x.have}}
	a := c.do(t, "reply", raw, true)
	sent := ""
	if len(a.Requests) == 1 {
		if n, err := parse(a.Requests[0].Body); err == nil {
			for len(n.kids) > 0 {
				n = n.kids[len(n.kids)-1]
			}
			sent = n.text
		}
	}
	plain := strings.TrimSuffix(sent, "Z")
	if a.IsErr || a.Diff != "" || plain != x.wire {
		c.badKey(t, "part of type "+x.label, "reply", raw, a, "a part of type %s is sent as %q, want %q; %s", x.label, sent, x.wire, a.Diff)
	}
}

var c32 = mc.Property{ID: "C32", Quick: 100, Thorough: 700,
	Assumptions: []string{
		"RPC and document style, literal; document messages have at most one part, which is an element; redirections are not followed further",
		"over an HTTP binding only the verb and the address are checked, and over SOAP 1.2 the envelope is that of SOAP 1.1",
		"an empty element is read as the zero value of a number (encoding/xml), and a part that an RPC reply leaves out keeps its zero value",
		"values are decoded and encoded by the types of C22"},
	Before: prepare,
}

func init() {
	h := func(name, about string, weight float64, bounds [2]int, f func(*mc.T)) {
		c32.Harnesses = append(c32.Harnesses, mc.Harness{Name: name, About: about, Weight: weight, Bounds: bounds, Setup: setup, Run: f})
	}
	h("findings", "what is known to be wrong", 0.1, [2]int{0, 0}, findings32)
	h("calls", "every method of 14 clients: arguments, results, notations of the reply and of the response; the request and the results are compared with the description", 3, [2]int{2, 4}, calls)
	h("hooks", "calls of clients with every combination of hooks: what the hooks see, what is sent, what is read, and that the body of the response is closed", 2, [2]int{0, 0}, hooked)
	h("statuses", "every status from 300 to 599, with four bodies", 2, [2]int{0, 0}, statuses)
	h("faults", "faults in many notations, with several statuses", 2, [2]int{0, 0}, faults)
	h("cuts", "replies cut off after every byte, four ways", 2, [2]int{0, 0}, cuts)
	h("headers", "responses cut off in the header", 1, [2]int{0, 0}, headers)
	h("wrong", "replies that are not the reply", 1, [2]int{0, 0}, wrong)
	h("values", "parts that are not values of their types", 1, [2]int{0, 0}, badParts)
	h("transport", "connections that fail, for every method", 1, [2]int{0, 0}, transport)
	h("histories", "two or three calls with one client, with every sequence of outcomes", 2, [2]int{1, 2}, histories)
	h("at once", "two calls with one client under every schedule of up to N switches; the points are the hooks, the exchange and every read of a reply", 2, [2]int{2, 4}, atOnce)
}
