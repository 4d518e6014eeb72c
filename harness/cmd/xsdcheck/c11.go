package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"aqwari.net/xml/verif/mc"
	. "aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xmltree"
	"aqwari.net/xml/xsd"
)

// attrOf reads an attribute without help from the package under test.
func attrOf(el *xmltree.Element, local string) (string, bool) {
	for _, a := range el.StartElement.Attr {
		if a.Name.Space == "" && a.Name.Local == local {
			return a.Value, true
		}
	}
	return "", false
}

// canonical checks the form that Normalize promises.
func canonical(roots []*xmltree.Element) (problem string, n int) {
	fail := func(f string, v ...interface{}) {
		if problem == "" {
			problem = fmt.Sprintf(f, v...)
		}
	}
	types := map[xml.Name]bool{}
	for _, root := range roots {
		tns, _ := attrOf(root, "targetNamespace")
		if root.Name != X("schema") {
			fail("a result is called %v", root.Name)
		}
		for i := range root.Children {
			el := &root.Children[i]
			if el.Name == X("complexType") || el.Name == X("simpleType") {
				name, _ := attrOf(el, "name")
				q := xml.Name{Space: tns, Local: name}
				if name == "" {
					fail("a top-level type has no name")
				}
				if types[q] {
					fail("two types are called %v", q)
				}
				types[q] = true
			}
		}
	}
	ref := func(el *xmltree.Element, attr string) {
		v, ok := attrOf(el, attr)
		if !ok || v == "" {
			fail("%v has no %s: %v", el.Name.Local, attr, el.StartElement.Attr)
			return
		}
		for _, f := range strings.Fields(v) {
			q, ok := el.ResolveNS(f)
			if i := strings.IndexByte(f, ':'); i >= 0 && !ok {
				fail("%s %q has an unknown prefix", attr, f)
			}
			if types[q] {
				continue
			}
			if _, err := xsd.ParseBuiltin(q); err != nil {
				fail("%s of %s leads to %v, which is no type", attr, el.Name.Local, q)
			}
		}
	}
	var visit func(el *xmltree.Element, depth int, inType, inChoice bool)
	visit = func(el *xmltree.Element, depth int, inType, inChoice bool) {
		n++
		if el.Name.Space != XS {
			return
		}
		if v, ok := attrOf(el, "ref"); ok {
			fail("a reference to %s is left", v)
		}
		switch el.Name.Local {
		case "annotation":
			return
		case "complexType", "simpleType":
			if depth != 1 {
				name, _ := attrOf(el, "name")
				fail("type %q is not at the top level", name)
			}
			inType = true
			if el.Name.Local == "complexType" {
				k := 0
				for i := range el.Children {
					switch c := el.Children[i]; {
					case c.Name == X("simpleContent") || c.Name == X("complexContent"):
						k++
					case c.Name.Space == XS && c.Name.Local != "annotation":
						fail("complexType holds %s directly", c.Name.Local)
					}
				}
				if k != 1 {
					fail("a complexType has %d kinds of content", k)
				}
			}
		case "group", "attributeGroup":
			if inType {
				fail("a type holds a %s", el.Name.Local)
			}
		case "element", "attribute":
			if v, _ := attrOf(el, "name"); v == "" {
				fail("a declaration has no name")
			}
			ref(el, "type")
			if v, _ := attrOf(el, "minOccurs"); inChoice && inType && el.Name.Local == "element" && strings.TrimSpace(v) != "0" {
				name, _ := attrOf(el, "name")
				fail("element %s is an alternative of a choice, but not optional", name)
			}
		case "list":
			ref(el, "itemType")
		case "restriction", "extension":
			ref(el, "base")
		case "union":
			ref(el, "memberTypes")
		}
		for i := range el.Children {
			visit(&el.Children[i], depth+1, inType, inChoice || el.Name.Local == "choice")
		}
	}
	for _, root := range roots {
		visit(root, 0, false, false)
	}
	return problem, n
}

func checkNormal(t *mc.T, set *Set, p *Pres) {
	docs := set.Docs(p)
	keep := clone(docs)
	text := Text(docs)
	t.Input(text)
	t.Step()
	std := 0
	xsd.StandardSchema = nil
	if full {
		xsd.StandardSchema = standard
		std = len(standard)
	}
	keepStd := clone(xsd.StandardSchema)
	// room behind the slice must not be written to
	args := make([][]byte, len(docs), len(docs)+8)
	copy(args, docs)
	roots, err := xsd.Normalize(args...)
	if err != nil {
		t.Fail("Normalize refuses a valid schema: %v\n%s", err, text)
	}
	for i := range docs {
		if !bytes.Equal(docs[i], keep[i]) || &args[i][0] != &docs[i][0] {
			t.Fail("Normalize changed its input\n%s", text)
		}
	}
	if len(xsd.StandardSchema) != len(keepStd) {
		t.Fail("Normalize changed the list of standard schemas")
	}
	for i := range keepStd {
		if !bytes.Equal(xsd.StandardSchema[i], keepStd[i]) {
			t.Fail("Normalize changed a standard schema")
		}
	}
	// one result per schema element, in order
	want := 0
	for _, d := range docs {
		want += strings.Count(string(decode(d)), "targetNamespace=") // every rendered schema with a namespace
	}
	noNS := false
	for _, s := range set.Schemas {
		noNS = noNS || s.NS == ""
	}
	if !noNS && len(roots) != want+std {
		t.Fail("%d schemas, but Normalize returns %d\n%s", want, len(roots), text)
	}
	problem, n := canonical(roots)
	t.Compared(n)
	show := func(roots []*xmltree.Element) string {
		s := ""
		for i, r := range roots {
			if i >= len(roots)-std {
				break
			}
			s += string(xmltree.Marshal(r)) + "\n"
		}
		return s
	}
	if problem != "" {
		t.Fail("%s\nresult:\n%s\ninput:\n%s", problem, show(roots), text)
	}
	var again [][]byte
	indented := t.Bool("indented")
	for i, r := range roots {
		if i < len(roots)-std {
			text := xmltree.Marshal(r)
			if indented {
				text = xmltree.MarshalIndent(r, "", "  ")
			}
			again = append(again, text)
		}
	}
	schemas, err := parse(t, again)
	if err != nil {
		t.Fail("Parse refuses the normalised schema: %v\nresult:\n%s\ninput:\n%s", err, show(roots), text)
	}
	compareSet(t, set, schemas, "normalised:\n"+show(roots)+"\ninput:\n"+text)
	xsd.StandardSchema = nil
	if full {
		xsd.StandardSchema = standard
	}
	twice, err := xsd.Normalize(again...)
	if err != nil {
		t.Fail("Normalize refuses a normalised schema: %v\nresult:\n%s\ninput:\n%s", err, show(roots), text)
	}
	if problem, _ := canonical(twice); problem != "" {
		t.Fail("the second time: %s\nresult:\n%s\ninput:\n%s", problem, show(twice), text)
	}
	var third [][]byte
	for i, r := range twice {
		if i < len(twice)-std {
			third = append(third, xmltree.Marshal(r))
		}
	}
	schemas, err = parse(t, third)
	if err != nil {
		t.Fail("Parse refuses the schema normalised twice: %v\nresult:\n%s\ninput:\n%s", err, show(twice), text)
	}
	compareSet(t, set, schemas, "normalised twice:\n"+show(twice)+"\ninput:\n"+text)
}

// decode gives the text of a rendered document in any of the encodings used.
func decode(d []byte) []byte { return bytes.ReplaceAll(d, []byte{0}, nil) }

func c11() mc.Property {
	return mc.Property{
		ID: "C11", Quick: 60, Thorough: 400,
		Before: func(scratch string, thorough bool) (map[string]interface{}, error) {
			cmd := exec.Command("go", "build", "-o", filepath.Join(scratch, "xsdparse"), "./cmd/xsdparse")
			cmd.Dir = os.Getenv("VERIF_REPO")
			cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
			if out, err := cmd.CombinedOutput(); err != nil {
				return nil, fmt.Errorf("cannot build xsdparse: %v\n%s", err, out)
			}
			return map[string]interface{}{"program": "cmd/xsdparse, built from the working tree"}, nil
		},
		Assumptions: []string{"supported subset: what smodel generates, without anyAttribute, redefine, substitution groups and identity constraints"},
		Harnesses: []mc.Harness{
			{Name: "program", Bounds: [2]int{2, 3}, Weight: 0.5,
				About: "the program xsdparse on the 7 schema sets in files of every presentation, with and without -ns; oracle: what Parse reads from its output, as the content of one document, is what the model declares",
				Run:   xsdparse},
			{Name: "attributes", Bounds: [2]int{3, 5}, Weight: 2,
				About: "a type with up to 3 attribute uses (local with named or in-line type, references, attribute groups, nested ones), with or without simple content; oracle as above",
				Run: func(t *mc.T) {
					g := NewGen(t)
					c := &Complex{Name: "T"}
					if t.FreeBool("simple content") {
						c.Derive, c.Base = SExtends, X("int")
					}
					names := []string{"p", "q", "r"}
					for i := 0; i < 3 && (i == 0 || t.Bool("another")); i++ {
						c.Attrs = append(c.Attrs, g.AttrUse(g.A, names[i]))
					}
					g.A.Add(Item{Complex: c})
					if g.Set.DupTypes() {
						t.Skip()
					}
					checkNormal(t, g.Set, &Pres{XS: "xs", NS: map[string]string{NSA: "a", NSB: "b"}})
				}},
			{Name: "bundled", Bounds: [2]int{0, 1}, Weight: 1,
				About: "the 7 sets with the bundled standard schemas present, which must not change either",
				Run: func(t *mc.T) {
					full = true
					defer func() { full = false }()
					set := library(t, t.Free("set", librarySize))
					checkNormal(t, set, PresGen(t, set))
				}},
			{Name: "library", Bounds: [2]int{3, 4}, Weight: 2,
				About: "8 schema sets (references, groups, in-line types, recursion, two namespaces, none) in combinations of 2 (thorough 4) presentation features; oracle: the promised form, checked on the tree; inputs unchanged; what Parse reads from the serialised result, normalised once and twice, is what the model declares",
				Run: func(t *mc.T) {
					set := library(t, t.Free("set", librarySize))
					checkNormal(t, set, PresGen(t, set))
				}},
			{Name: "content", Bounds: [2]int{3, 4}, Weight: 3,
				About: "a type with every content model of up to 3 (thorough 4) particles nested up to 2 (3) deep, each a local element with in-line or named type, a reference, a group or a wildcard; oracle as above",
				Run: func(t *mc.T) {
					g := NewGen(t)
					kids, depth := 3, 2
					if t.Thorough {
						kids, depth = 4, 3
					}
					names := []string{"x", "y", "z", "w"}
					c := &Complex{Name: "T", Mixed: t.Bool("mixed"), Content: g.Shape(g.A, kids, depth, func(i int) *Particle { return g.LeafParticle(g.A, names[i%len(names)]) })}
					g.A.Add(Item{Complex: c})
					if g.Set.DupTypes() {
						t.Skip()
					}
					checkNormal(t, g.Set, &Pres{XS: "xs", NS: map[string]string{NSA: "a", NSB: "b"}, Split: t.Choose("split", 2), SplitNS: NSA})
				}},
		},
	}
}

// xsdparse runs the program that prints normalised schemas.
func xsdparse(t *mc.T) {
	set := library(t, t.Free("set", librarySize))
	for _, s := range set.Schemas {
		if s.NS == "" {
			t.Skip() // printed like those of any other namespace, but not one of its own
		}
	}
	docs := set.Docs(PresGen(t, set))
	dir, err := os.MkdirTemp(os.Getenv("MC_SCRATCH"), "p")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var args []string
	ns := t.Free("namespace", 3)
	if ns > 0 {
		args = append(args, "-ns", []string{"", NSA, "http://www.w3.org/1999/xlink"}[ns])
	}
	text := ""
	for i, d := range docs {
		name := fmt.Sprintf("%d.xsd", i)
		if err := os.WriteFile(filepath.Join(dir, name), d, 0666); err != nil {
			panic(err)
		}
		args = append(args, name)
		text += string(d) + "\n"
	}
	t.Input(fmt.Sprint(args, text))
	t.Step()
	cmd := exec.Command(filepath.Join(os.Getenv("MC_SCRATCH"), "xsdparse"), args...)
	cmd.Dir = dir
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Run(); err != nil || stderr.Len() > 0 {
		t.Fail("xsdparse %q: %v: %s\n%s", args, err, stderr.String(), text)
	}
	out := stdout.String()
	roots, err := xmltree.Parse([]byte("<all>" + out + "</all>"))
	if err != nil {
		t.Fail("xsdparse %q prints what is not XML: %v\n%s\ninput:\n%s", args, err, out, text)
	}
	xlink := 0
	for i := range roots.Children {
		if roots.Children[i].Attr("", "targetNamespace") == "http://www.w3.org/1999/xlink" {
			xlink++
		}
	}
	if want := map[bool]int{true: 1}[ns == 2]; xlink != want {
		t.Fail("xsdparse %q prints %d schemas for xlink, not %d", args, xlink, want)
	}
	if ns == 1 && !strings.Contains(out, "targetNamespace=\""+NSA+"\"") {
		t.Fail("xsdparse %q does not print the schema of %s\n%s", args, NSA, text)
	}
	if ns != 0 { // whether others are printed is not documented
		return
	}
	got, err := parse(t, [][]byte{[]byte("<all>" + out + "</all>")})
	if err != nil {
		t.Fail("Parse refuses what xsdparse %q prints: %v\nresult:\n%s\ninput:\n%s", args, err, out, text)
	}
	compareSet(t, set, got, "printed by xsdparse:\n"+out+"\ninput:\n"+text)
	var trees []*xmltree.Element
	for i := range roots.Children {
		trees = append(trees, &roots.Children[i])
	}
	if problem, _ := canonical(trees); problem != "" {
		t.Fail("xsdparse %q: %s\nresult:\n%s\ninput:\n%s", args, problem, out, text)
	}
}
