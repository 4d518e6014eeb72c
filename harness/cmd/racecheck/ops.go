package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"go/ast"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"aqwari.net/xml/wsdl"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

// env is what operations share. They only read it.
type env struct {
	doc, latin, a, b, o, service []byte
	list                         [][]byte // a long list of documents, parsed in parts
	tree, tree2                  *xmltree.Element
	scope                        *xmltree.Scope
	schemas                      []xsd.Schema
	options                      []xsdgen.Option
	cfg                          *xsdgen.Config
	wcfg                         *wsdlgen.Config
	def                          *wsdl.Definition
	code                         *xsdgen.Code
}

const treeDoc = `<?xml version="1.0"?>
<r xmlns="urn:d" xmlns:a="urn:a" xmlns:b="urn:b" a:k="1" k="2"><!-- note --><a:x q="b:v">one &amp; two</a:x>` +
	`<b:y xmlns:b="urn:c" xmlns:e="urn:e" b:m="3"><e:z e:w="v"/>text</b:y><z xmlns=""><b:y/></z></r>`

const latinDoc = "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?><r a=\"\xe9\">\xe8<b>\xe7</b></r>"

const schemaA = `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:a="urn:a" xmlns:b="urn:b" targetNamespace="urn:a" elementFormDefault="qualified">
<xs:import namespace="urn:b" schemaLocation="b.xsd"/>
<xs:simpleType name="code"><xs:annotation><xs:documentation>A code.</xs:documentation></xs:annotation><xs:restriction base="xs:string"><xs:enumeration value="x"/><xs:maxLength value="3"/><xs:pattern value="[a-z]+"/></xs:restriction></xs:simpleType>
<xs:simpleType name="codes"><xs:list itemType="a:code"/></xs:simpleType>
<xs:complexType name="item"><xs:sequence><xs:element name="when" type="xs:date"/><xs:element name="c" type="a:codes" minOccurs="0" default="x"/><xs:element name="more" maxOccurs="unbounded"><xs:complexType><xs:sequence><xs:element name="n" type="xs:int"/></xs:sequence></xs:complexType></xs:element></xs:sequence><xs:attribute name="k" type="xs:hexBinary"/></xs:complexType>
<xs:complexType name="sub"><xs:complexContent><xs:extension base="a:item"><xs:sequence><xs:element ref="b:e"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>
<xs:element name="root" type="a:sub"/>
</xs:schema>`

const schemaB = `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:b="urn:b" targetNamespace="urn:b">
<xs:element name="e" type="b:t"/><xs:complexType name="t"><xs:simpleContent><xs:extension base="xs:decimal"><xs:attribute name="list"><xs:simpleType><xs:list itemType="xs:int"/></xs:simpleType></xs:attribute></xs:extension></xs:simpleContent></xs:complexType>
<xs:simpleType name="n"><xs:restriction base="xs:integer"><xs:minInclusive value="1"/></xs:restriction></xs:simpleType>
</xs:schema>`

const schemaO = `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns="urn:o" targetNamespace="urn:o">
<xs:simpleType name="size"><xs:restriction base="xs:int"/></xs:simpleType>
<xs:complexType name="item"><xs:choice><xs:element name="l" type="xs:NMTOKENS"/><xs:element name="t" type="xs:time"/></xs:choice><xs:attribute name="s" type="size" default="4"/></xs:complexType>
</xs:schema>`

const serviceDoc = `<definitions xmlns="http://schemas.xmlsoap.org/wsdl/" xmlns:soap="http://schemas.xmlsoap.org/wsdl/soap/" xmlns:t="urn:w" xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:w" name="S">
<types><xs:schema targetNamespace="urn:w" elementFormDefault="qualified"><xs:complexType name="thing"><xs:sequence><xs:element name="v" type="xs:int"/></xs:sequence></xs:complexType></xs:schema></types>
<message name="in"><part name="a" type="xs:string"/><part name="b" type="t:thing"/></message><message name="out"><part name="r" type="t:thing"/></message>
<portType name="pt"><operation name="Do"><documentation>Does it.</documentation><input message="t:in"/><output message="t:out"/></operation></portType>
<binding name="bi" type="t:pt"><soap:binding style="rpc" transport="http://schemas.xmlsoap.org/soap/http"/><operation name="Do"><soap:operation soapAction="urn:do"/><input><soap:body use="literal" namespace="urn:w"/></input><output><soap:body use="literal" namespace="urn:w"/></output></operation></binding>
<service name="S"><port name="P" binding="t:bi"><soap:address location="http://h/p"/></port></service></definitions>`

func writeFiles(dir string) error {
	for name, text := range map[string]string{"a.xsd": schemaA, "b.xsd": schemaB, "o.xsd": schemaO, "s.wsdl": serviceDoc} {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0666); err != nil {
			return err
		}
	}
	return nil
}

func file(name string) string { return filepath.Join(os.Getenv("MC_SCRATCH"), name) }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// newEnv makes only what costs little; the rest is made at first use by lazy,
// before the operations start.
func newEnv() *env {
	e := &env{doc: []byte(treeDoc), latin: []byte(latinDoc), a: []byte(schemaA), b: []byte(schemaB), o: []byte(schemaO), service: []byte(serviceDoc)}
	e.list = [][]byte{e.o, e.a, e.b, e.o, e.a, e.b, e.o, e.a}
	var err error
	e.tree, err = xmltree.Parse(e.doc)
	must(err)
	e.tree2, err = xmltree.Parse(e.doc)
	must(err)
	e.scope = e.tree.JoinScope(&e.tree.Children[1].Scope)
	e.options = append([]xsdgen.Option{xsdgen.IgnoreAttributes("m"), xsdgen.Replace("^c", "d"), xsdgen.IgnoreElements("zz"), xsdgen.PackageName("p")}, xsdgen.DefaultOptions...)
	e.cfg, e.wcfg = new(xsdgen.Config), new(wsdlgen.Config)
	e.cfg.Option(xsdgen.DefaultOptions...)
	e.wcfg.Option(wsdlgen.DefaultOptions...)
	return e
}

// prepare makes the parts of the environment that some operations need.
func (e *env) prepare(o *op) {
	var err error
	if o.needs == "schemas" && e.schemas == nil {
		e.schemas, err = xsd.Parse(e.a, e.b)
		must(err)
	}
	if o.needs == "definition" && e.def == nil {
		e.def, err = wsdl.Parse(e.service)
		must(err)
	}
	if o.needs == "code" && e.code == nil {
		cfg := new(xsdgen.Config)
		cfg.Option(xsdgen.DefaultOptions...)
		e.code, err = cfg.GenCode(e.a, e.b)
		must(err)
	}
}

type op struct {
	name, class string
	needs       string
	standard    bool
	once        bool // not at the same time as one of its kind
	run         func(e *env) string
}

func dump(el *xmltree.Element) string {
	var b strings.Builder
	var rec func(el *xmltree.Element, depth int)
	rec = func(el *xmltree.Element, depth int) {
		fmt.Fprintf(&b, "%*s%v %q %d %v\n", depth, "", el.StartElement, el.Content, len(el.Children), el.Scope)
		for i := range el.Children {
			rec(&el.Children[i], depth+1)
		}
	}
	rec(el, 0)
	return b.String()
}

func names(list []*xmltree.Element) string {
	var b strings.Builder
	for _, el := range list {
		fmt.Fprintf(&b, "%v %q;", el.Name, el.Content)
	}
	return b.String()
}

func failed(err error) string { return "failed: " + err.Error() }

// show describes a type, two levels deep.
func show(t xsd.Type, depth int) string {
	if t == nil {
		return "nil"
	}
	n := fmt.Sprintf("%v", xsd.XMLName(t))
	if depth == 0 {
		return n
	}
	switch t := t.(type) {
	case *xsd.SimpleType:
		s := fmt.Sprintf("%s simple %q list=%v anonymous=%v base=%s union=%d ", n, t.Doc, t.List, t.Anonymous, show(t.Base, depth-1), len(t.Union))
		r := t.Restriction
		return s + fmt.Sprintf("%v %v %v %d %d %d %v", r.Enum, r.Min, r.Max, r.Length, r.MinLength, r.MaxLength, r.Pattern)
	case *xsd.ComplexType:
		s := fmt.Sprintf("%s complex %q mixed=%v abstract=%v extends=%v base=%s", n, t.Doc, t.Mixed, t.Abstract, t.Extends, show(t.Base, depth-1))
		for _, el := range t.Elements {
			s += fmt.Sprintf("\n  %v %s %v %v %v %q %v", el.Name, show(el.Type, depth-1), el.Plural, el.Optional, el.Nillable, el.Default, el.Attr)
		}
		for _, a := range t.Attributes {
			s += fmt.Sprintf("\n  @%v %s %v %q %v", a.Name, show(a.Type, depth-1), a.Optional, a.Default, a.Attr)
		}
		return s
	}
	return n + " builtin"
}

func showSchemas(list []xsd.Schema) string {
	var out []string
	for _, s := range list {
		for name, t := range s.Types {
			out = append(out, fmt.Sprintf("%s %v: %s", s.TargetNS, name, show(t, 2)))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func source(file *ast.File, err error) string {
	if err != nil {
		return failed(err)
	}
	var b bytes.Buffer
	if err := printer.Fprint(&b, token.NewFileSet(), file); err != nil {
		return failed(err)
	}
	return b.String()
}

func generate(docs [][]byte, cfg *xsdgen.Config) string {
	code, err := cfg.GenCode(docs...)
	if err != nil {
		return failed(err)
	}
	s := source(code.GenAST())
	for _, n := range []string{"code", "item", "sub", "_self", "t"} {
		for _, ns := range []string{"urn:a", "urn:b", "urn:o"} {
			s += "\n" + code.NameOf(xml.Name{Space: ns, Local: n})
		}
	}
	return s
}

func config(opts ...xsdgen.Option) *xsdgen.Config {
	cfg := new(xsdgen.Config)
	cfg.Option(opts...)
	return cfg
}

var qnames = []string{"a:x", "b:y", "e:z", "x", "xml:lang", "nope:x", ":x", "a:b:c", ""}
var someNames = []xml.Name{{Space: "urn:a", Local: "x"}, {Space: "urn:b", Local: "x"}, {Space: "urn:c", Local: "x"}, {Space: "urn:d", Local: "x"}, {Space: "", Local: "x"}, {Space: "urn:none", Local: "x"}, {Space: "http://www.w3.org/XML/1998/namespace", Local: "lang"}}

type failingWriter struct{ n int }

func (w *failingWriter) Write(p []byte) (int, error) {
	if w.n -= len(p); w.n < 0 {
		return 0, fmt.Errorf("full")
	}
	return len(p), nil
}

var ops []op

func init() {
	tree := func(name string, f func(e *env) string) { ops = append(ops, op{name: name, class: "tree", run: f}) }
	some := func(name string, f func(e *env) string) { ops = append(ops, op{name: name, class: "some", run: f}) }
	heavy := func(name, needs string, f func(e *env) string) {
		ops = append(ops, op{name: name, class: "heavy", needs: needs, run: f})
	}
	// reading a tree
	tree("Search", func(e *env) string {
		return names(e.tree.Search("urn:b", "y")) + names(e.tree.Search("", "y")) + names(e.tree.Search("urn:d", "none"))
	})
	tree("SearchFunc", func(e *env) string {
		return names(e.tree.SearchFunc(func(el *xmltree.Element) bool { return len(el.StartElement.Attr) > 0 })) + names(e.tree.Flatten())
	})
	tree("Marshal", func(e *env) string { return string(xmltree.Marshal(e.tree)) })
	tree("Marshal a part", func(e *env) string {
		return string(xmltree.Marshal(&e.tree.Children[1])) + e.tree.Children[1].Children[0].String()
	})
	tree("MarshalIndent", func(e *env) string { return string(xmltree.MarshalIndent(e.tree, ">", "  ")) })
	tree("Encode", func(e *env) string {
		var b bytes.Buffer
		err := xmltree.Encode(&b, e.tree)
		return fmt.Sprint(b.String(), err, xmltree.Encode(&failingWriter{40}, e.tree))
	})
	tree("Equal", func(e *env) string {
		return fmt.Sprint(xmltree.Equal(e.tree, e.tree2), xmltree.Equal(&e.tree.Children[0], &e.tree2.Children[1]), xmltree.Equal(e.tree, e.tree))
	})
	tree("Attr", func(e *env) string {
		return strings.Join([]string{e.tree.Attr("", "k"), e.tree.Attr("urn:a", "k"), e.tree.Children[1].Attr("urn:c", "m"), e.tree.Attr("", "no")}, ",")
	})
	tree("Resolve", func(e *env) string {
		s := ""
		for _, el := range []*xmltree.Element{e.tree, &e.tree.Children[1], &e.tree.Children[2]} {
			for _, q := range qnames {
				n, ok := el.ResolveNS(q)
				s += fmt.Sprint(el.Resolve(q), n, ok, el.ResolveDefault(q, "urn:def"))
			}
		}
		return s
	})
	tree("Prefix", func(e *env) string {
		s := ""
		for _, el := range []*xmltree.Element{e.tree, &e.tree.Children[1], &e.tree.Children[2]} {
			for _, n := range someNames {
				s += el.Prefix(n) + " "
			}
		}
		return s
	})
	tree("JoinScope", func(e *env) string {
		s := ""
		for i, el := range e.tree.Children {
			joined := e.tree.JoinScope(&el.Scope)
			again := e.scope.JoinScope(&e.tree.Children[(i+1)%3].Scope)
			for _, q := range qnames {
				s += fmt.Sprint(joined.Resolve(q), again.Resolve(q))
			}
			for _, n := range someNames {
				s += joined.Prefix(n) + again.Prefix(n)
			}
		}
		return s
	})
	tree("JoinScope the other way", func(e *env) string {
		j := e.tree.Children[1].JoinScope(&e.tree.Children[0].Scope)
		k := e.scope.JoinScope(&e.tree.Children[1].Scope).JoinScope(&e.tree.Scope)
		return fmt.Sprint(*j, *k)
	})
	tree("Unmarshal", func(e *env) string {
		var v struct {
			K string `xml:"k,attr"`
			X struct {
				Q    string `xml:"q,attr"`
				Text string `xml:",chardata"`
			} `xml:"urn:a x"`
			Y []struct {
				M string `xml:"urn:c m,attr"`
			} `xml:"y"`
		}
		err := xmltree.Unmarshal(e.tree, &v)
		return fmt.Sprint(v, err)
	})
	tree("read the fields", func(e *env) string { return dump(e.tree) })
	// trees of their own
	tree("Parse", func(e *env) string {
		el, err := xmltree.Parse(e.doc)
		if err != nil {
			return failed(err)
		}
		return dump(el)
	})
	tree("Parse something else", func(e *env) string {
		el, err := xmltree.Parse(e.latin)
		if err != nil {
			return failed(err)
		}
		_, err = xmltree.Parse(e.doc[:150])
		return dump(el) + string(xmltree.Marshal(el)) + fmt.Sprint(err)
	})
	tree("Parse and change", func(e *env) string {
		el, err := xmltree.Parse(e.doc)
		if err != nil {
			return failed(err)
		}
		el.SetAttr("urn:a", "k", "changed")
		el.SetAttr("urn:new", "n", "new")
		el.Children[1].SetAttr("", "m", "changed")
		el.Children[0].Content = []byte("changed")
		el.Children = append(el.Children[:1], el.Children[2:]...)
		el.Children = append(el.Children, xmltree.Element{StartElement: xml.StartElement{Name: xml.Name{Space: "urn:x", Local: "x"}}, Scope: el.Scope})
		return string(xmltree.Marshal(el)) + dump(el)
	})
	tree("make a tree", func(e *env) string {
		el := xmltree.Element{StartElement: xml.StartElement{Name: xml.Name{Space: "urn:a", Local: "own"}}, Scope: e.tree.Children[1].Scope}
		el.SetAttr("urn:b", "b", "1")
		el.SetAttr("urn:n", "n", "2")
		el.Children = []xmltree.Element{{StartElement: xml.StartElement{Name: xml.Name{Space: "urn:q", Local: "q"}}, Scope: *el.JoinScope(&e.tree.Scope), Content: []byte("t")}}
		return string(xmltree.Marshal(&el)) + dump(&el)
	})
	// the other packages, on small inputs
	some("Imports", func(e *env) string {
		r, err := xsd.Imports(e.a)
		r2, err2 := xsd.Imports(e.service)
		return fmt.Sprint(r, err, r2, err2)
	})
	some("Normalize", func(e *env) string {
		list, err := xsd.Normalize(e.a, e.b)
		if err != nil {
			return failed(err)
		}
		s := ""
		for _, el := range list {
			s += dump(el)
		}
		return s
	})
	some("wsdl.Parse", func(e *env) string {
		def, err := wsdl.Parse(e.service)
		return fmt.Sprintf("%+v %v", def, err)
	})
	some("Marshal again", func(e *env) string { return string(xmltree.Marshal(e.tree)) })
	some("Parse again", func(e *env) string {
		el, err := xmltree.Parse(e.doc)
		if err != nil {
			return failed(err)
		}
		el.SetAttr("urn:a", "k", "changed")
		return dump(el)
	})
	heavy("xsd.Parse", "", func(e *env) string {
		list, err := xsd.Parse(e.a, e.b)
		if err != nil {
			return failed(err)
		}
		return showSchemas(list)
	})
	heavy("xsd.Parse something wrong", "", func(e *env) string {
		_, err := xsd.Parse(e.a, []byte(strings.Replace(schemaB, "b:t", "b:missing", 1)))
		_, err2 := xsd.Parse([]byte(strings.Replace(schemaB, `value="1"`, `value="x"`, 1)))
		return fmt.Sprint(err, err2)
	})
	heavy("read a Schema", "schemas", func(e *env) string {
		s := showSchemas(e.schemas)
		for _, sc := range e.schemas {
			for _, n := range []string{"item", "sub", "t", "none"} {
				s += show(sc.FindType(xml.Name{Space: sc.TargetNS, Local: n}), 1)
				if t := sc.FindType(xml.Name{Space: "urn:a", Local: n}); t != nil {
					s += show(xsd.Base(t), 1)
				}
			}
		}
		return s
	})
	heavy("generate with the default options", "", func(e *env) string {
		return generate([][]byte{e.a, e.b}, config(xsdgen.DefaultOptions...))
	})
	heavy("generate with shared options", "", func(e *env) string {
		return generate([][]byte{e.o}, config(e.options...))
	})
	heavy("generate with options of its own", "", func(e *env) string {
		cfg := config(xsdgen.DefaultOptions...)
		cfg.Option(xsdgen.IgnoreElements("when"), xsdgen.IgnoreAttributes("s", "k"), xsdgen.Replace("item", "entry"), xsdgen.PackageName("own"), xsdgen.UseFieldNames(), xsdgen.OnlyTypes("item", "sub", "e.*"))
		return generate([][]byte{e.o, e.a, e.b}, cfg)
	})
	heavy("generate without options", "", func(e *env) string { return generate([][]byte{e.o}, new(xsdgen.Config)) })
	heavy("read Code", "code", func(e *env) string {
		t, ok := e.code.DocType("urn:a")
		return fmt.Sprint(e.code.NameOf(xml.Name{Space: "urn:a", Local: "sub"}), e.code.NameOf(xml.Name{Space: "urn:b", Local: "t"}), ok) + show(t, 1)
	})
	heavy("wsdlgen", "", func(e *env) string {
		cfg := new(wsdlgen.Config)
		cfg.Option(wsdlgen.DefaultOptions...)
		return source(cfg.GenAST(file("s.wsdl")))
	})
	heavy("wsdlgen with options", "", func(e *env) string {
		cfg := new(wsdlgen.Config)
		cfg.Option(wsdlgen.DefaultOptions...)
		cfg.Option(wsdlgen.InputThreshold(1), wsdlgen.OutputThreshold(1), wsdlgen.OnlyPorts("P"), wsdlgen.PackageName("own"), wsdlgen.PackageComment("Own."))
		cfg.XSDOption(xsdgen.Replace("thing", "object"))
		return source(cfg.GenAST(file("s.wsdl")))
	})
	heavy("read a Definition", "definition", func(e *env) string { return e.def.String() + fmt.Sprint(reflect.ValueOf(*e.def).NumField()) })
	// sharing a Config: one after another only
	later := func(name string, f func(e *env) string) { ops = append(ops, op{name: name, class: "later", run: f}) }
	later("generate with the same Config", func(e *env) string { return generate([][]byte{e.a, e.b}, e.cfg) })
	later("generate something else with the same Config", func(e *env) string { return generate([][]byte{e.o}, e.cfg) })
	later("fail with the same Config", func(e *env) string { return generate([][]byte{e.o[:len(e.o)-30]}, e.cfg) })
	later("wsdlgen with the same Config", func(e *env) string { return source(e.wcfg.GenAST(file("s.wsdl"))) })
	later("formatted source", func(e *env) string {
		s, err := config(xsdgen.DefaultOptions...).GenSource(file("a.xsd"), file("b.xsd"))
		return fmt.Sprint(string(s), err)
	})
	later("formatted source, following imports", func(e *env) string {
		cfg := config(xsdgen.DefaultOptions...)
		cfg.Option(xsdgen.FollowImports(true))
		s, err := cfg.GenSource(file("a.xsd"))
		return fmt.Sprint(string(s), err)
	})
	// with the bundled schemas
	std := func(name string, f func(e *env) string) {
		ops = append(ops, op{name: name, class: "standard", standard: true, run: f})
	}
	std("xsd.Parse with the bundled schemas", func(e *env) string {
		list, err := xsd.Parse(e.o)
		if err != nil {
			return failed(err)
		}
		return showSchemas(list)
	})
	std("generate with the bundled schemas", func(e *env) string {
		return generate([][]byte{e.a, e.b}, config(xsdgen.DefaultOptions...))
	})
	// parts of one list of documents: the rest of its array is not theirs
	std("xsd.Parse of the first of a list of documents", func(e *env) string {
		list, err := xsd.Parse(e.list[:1]...)
		if err != nil {
			return failed(err)
		}
		return showSchemas(list)
	})
	std("generate from the rest of a list of documents", func(e *env) string {
		return generate(e.list[1:3], config(xsdgen.DefaultOptions...))
	})
}
