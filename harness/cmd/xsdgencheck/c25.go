package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"aqwari.net/xml/internal/gen"
	"aqwari.net/xml/verif/mc"
	. "aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/wsdlgen"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

// sandbox is a directory with files in it, and the current one.
type sandbox struct {
	dir string
	all []string
	t   *mc.T
}

var (
	scratch string
	boxes   int
)

// box runs f in a fresh directory.
func box(t *mc.T, f func(b *sandbox)) {
	if scratch == "" {
		base := os.Getenv("MC_SCRATCH")
		d, err := ioutil.TempDir(base, "c25-")
		if err != nil {
			panic(err)
		}
		if d, err = filepath.EvalSymlinks(d); err != nil {
			panic(err)
		}
		scratch = d
	}
	boxes++
	b := &sandbox{dir: filepath.Join(scratch, fmt.Sprint(boxes)), t: t}
	if err := os.MkdirAll(b.dir, 0777); err != nil {
		panic(err)
	}
	defer func() {
		os.Chdir(scratch)
		os.RemoveAll(b.dir)
	}()
	b.chdir(".")
	f(b)
}

func (b *sandbox) chdir(dir string) {
	if err := os.Chdir(filepath.Join(b.dir, dir)); err != nil {
		panic(err)
	}
}

func (b *sandbox) mkdir(dir string) {
	if err := os.MkdirAll(filepath.Join(b.dir, dir), 0777); err != nil {
		panic(err)
	}
}

func (b *sandbox) write(name, text string) {
	b.mkdir(filepath.Dir(name))
	if err := ioutil.WriteFile(filepath.Join(b.dir, name), []byte(text), 0666); err != nil {
		panic(err)
	}
	b.all = append(b.all, name)
}

// tree lists everything in the directory with its content.
func (b *sandbox) tree() map[string]string {
	m := make(map[string]string)
	filepath.Walk(b.dir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			panic(err)
		}
		rel, _ := filepath.Rel(b.dir, path)
		if info.IsDir() {
			m[rel+"/"] = ""
			return nil
		}
		data, err := ioutil.ReadFile(path)
		if err != nil {
			panic(err)
		}
		m[rel] = string(data)
		return nil
	})
	return m
}

// unchanged fails when anything but the named file is not as it was.
func (b *sandbox) unchanged(before map[string]string, but, text string) {
	after := b.tree()
	for name, data := range before {
		if got, ok := after[name]; name != but && (!ok || got != data) {
			b.t.Fail("the generator changes the file %s\n%s", name, text)
		}
	}
	for name := range after {
		if _, ok := before[name]; name != but && !ok {
			b.t.Fail("the generator writes the file %s\n%s", name, text)
		}
	}
	b.t.Compared(1)
}

func useSchemas(complete bool) {
	xsd.StandardSchema = nil
	if complete {
		xsd.StandardSchema = standard
	}
}

// generated is what the library generates for documents.
func generated(cfg *xsdgen.Config, docs [][]byte, out string) ([]byte, error) {
	code, err := cfg.GenCode(docs...)
	if err != nil {
		return nil, err
	}
	file, err := code.GenAST()
	if err != nil {
		return nil, err
	}
	return gen.FormattedSource(file, out)
}

func quote(args []string) string { return fmt.Sprintf("%q", args) }

const xsHead = `<?xml version="1.0"?><xs:schema xmlns:xs="` + XS + `"`

// graphs: files that import each other.
func graphs(t *mc.T, n int) {
	arrangement := []string{"flat", "deep", "apart"}[t.Choose("arrangement", 3)]
	place := map[string][]string{
		"flat":  {"f0.xsd", "f1.xsd", "f2.xsd", "f3.xsd"},
		"deep":  {"f0.xsd", "sub/f1.xsd", "sub/deep/f2.xsd", "f3.xsd"},
		"apart": {"a/f0.xsd", "b/f0.xsd", "c d/f0.xsd", "a/b/f0.xsd"}, // same base names
	}[arrangement]
	edges := make([][]int, n)
	for i := range edges {
		for j := 0; j < n; j++ {
			if t.FreeBool("imports") {
				edges[i] = append(edges[i], j)
			}
		}
	}
	rootLists := []string{"0", "0 1", "1 0", "all", "0 0", "1", "0 again"}
	roots := rootLists[t.Choose("files on the command line", len(rootLists))]
	style := t.Pick("location", "relative", "dot", "up", "absolute")
	named := t.Pick("command line", "relative", "dot", "up", "absolute", "elsewhere")
	extra := t.Pick("more", "nothing", "twice", "no location", "no location last", "include", "without following", "wsdl", "reversed")
	follow := extra != "without following"
	entry := t.Pick("entry", "GenCLI", "GenSource")
	box(t, func(b *sandbox) {
		for _, d := range []string{"a", "b", "c d", "a/b", "sub/deep", "x", "elsewhere"} {
			b.mkdir(d)
		}
		texts := make([]string, n)
		ns := func(i int) string {
			if extra == "include" && i == 1 {
				i = 0
			}
			return fmt.Sprintf("urn:f%d", i)
		}
		locate := func(from, to int) string {
			switch style {
			case "absolute":
				return filepath.Join(b.dir, place[to])
			}
			rel, err := filepath.Rel(filepath.Dir(place[from]), place[to])
			if err != nil {
				panic(err)
			}
			switch style {
			case "dot":
				rel = "./" + rel
			case "up":
				// through a directory that is there
				up, _ := filepath.Rel(filepath.Dir(place[from]), ".")
				rel = up + "/x/../" + place[to]
			}
			return filepath.ToSlash(rel)
		}
		for i := range texts {
			var s, body strings.Builder
			s.WriteString(xsHead)
			for j := 0; j < n; j++ {
				fmt.Fprintf(&s, ` xmlns:p%d="%s"`, j, ns(j))
			}
			fmt.Fprintf(&s, ` targetNamespace="%s">`, ns(i))
			if extra == "no location" {
				s.WriteString(`<xs:import namespace="urn:unknown"/>`)
			}
			for _, j := range edges[i] {
				// the schema for schemas does not allow a schema to import its own namespace
				if ns(i) == ns(j) {
					fmt.Fprintf(&s, `<xs:include schemaLocation="%s"/>`, locate(i, j))
				} else {
					fmt.Fprintf(&s, `<xs:import namespace="%s" schemaLocation="%s"/>`, ns(j), locate(i, j))
				}
				if extra == "twice" {
					fmt.Fprintf(&s, `<xs:import namespace="%s" schemaLocation="%s"/>`, ns(j), locate(i, j))
				}
			}
			if extra == "no location last" {
				s.WriteString(`<xs:import/>`)
			}
			for _, j := range edges[i] {
				if follow {
					fmt.Fprintf(&body, `<xs:element name="of%d" type="p%d:T%d"/>`, j, j, j)
				}
			}
			if extra != "include" {
				fmt.Fprintf(&body, `<xs:element name="in"><xs:complexType><xs:attribute name="a%d" type="xs:int"/></xs:complexType></xs:element>`, i)
			}
			fmt.Fprintf(&s, `<xs:complexType name="T%d"><xs:sequence>%s</xs:sequence></xs:complexType></xs:schema>`, i, body.String())
			texts[i] = s.String()
			if extra == "wsdl" && i == 0 {
				texts[i] = `<w:definitions xmlns:w="http://schemas.xmlsoap.org/wsdl/"><w:types>` + strings.TrimPrefix(texts[i], `<?xml version="1.0"?>`) + `</w:types></w:definitions>`
			}
			b.write(place[i], texts[i])
		}
		var given []int
		switch roots {
		case "0":
			given = []int{0}
		case "1":
			given = []int{1}
		case "0 1":
			given = []int{0, 1}
		case "1 0":
			given = []int{1, 0}
		case "0 0", "0 again":
			given = []int{0, 0}
		default:
			for i := n - 1; i >= 0; i-- {
				given = append(given, i)
			}
		}
		// what has to be read
		var docs [][]byte
		seen := make([]bool, n)
		var visit func(i int)
		visit = func(i int) {
			if follow && seen[i] {
				return
			}
			seen[i] = true
			if follow {
				for _, j := range edges[i] {
					visit(j)
				}
			}
			docs = append(docs, []byte(texts[i]))
		}
		for _, i := range given {
			visit(i)
		}
		if named == "elsewhere" {
			b.chdir("elsewhere")
		}
		var args []string
		for k, i := range given {
			p := place[i]
			switch {
			case named == "elsewhere":
				p = "../" + p
			case named == "absolute" || (roots == "0 again" && k == 1):
				p = filepath.Join(b.dir, p)
			case named == "dot":
				p = "./" + p
			case named == "up":
				p = "x/../" + p
			}
			args = append(args, p)
		}
		if extra == "reversed" {
			// the rest of the files are there, and nobody asks for them
			b.write("unrelated.xsd", "not a schema")
		}
		before := b.tree()
		text := fmt.Sprintf("files %q\nimports %v\narguments %s", place[:n], edges, quote(args))
		for _, s := range texts {
			text += "\n" + s
		}
		t.Input(fmt.Sprint(arrangement, edges, given, style, named, extra, entry))
		useSchemas(false)
		t.Step()
		want, err := generated(fresh(xsdgen.DefaultOptions...), docs, "out.go")
		if err != nil {
			t.Fail("the generator refuses valid schemas: %v\n%s", err, text)
		}
		cfg := fresh(xsdgen.DefaultOptions...)
		var got []byte
		if entry == "GenSource" {
			cfg.Option(xsdgen.FollowImports(follow))
			got, err = cfg.GenSource(args...)
			if err != nil {
				t.Fail("GenSource: %v\n%s", err, text)
			}
			b.unchanged(before, "", text)
		} else {
			cl := []string{"-o", filepath.Join(b.dir, "out.go")}
			if follow {
				cl = append(cl, "-f")
			}
			if err := cfg.GenCLI(append(cl, args...)...); err != nil {
				t.Fail("GenCLI: %v\n%s", err, text)
			}
			got, err = ioutil.ReadFile(filepath.Join(b.dir, "out.go"))
			if err != nil {
				t.Fail("GenCLI does not write the output file: %v\n%s", err, text)
			}
			b.unchanged(before, "out.go", text)
		}
		t.Compared(1)
		if !bytes.Equal(got, want) {
			t.Fail("%s does not generate what the documents give: %s\n%s\n%s", entry, firstDiff(want, got), text, got)
		}
		t.State(string(got))
	})
}

// ladder: documents that can be reached on many ways.
func ladder(t *mc.T) {
	levels := []int{4, 30}[t.Free("levels", 2)]
	back := t.FreeBool("back to the start")
	t.Input(fmt.Sprint(levels, back))
	box(t, func(b *sandbox) {
		var docs [][]byte
		name := func(l, k int) string { return fmt.Sprintf("l%d-%d.xsd", l, k) }
		for l := levels - 1; l >= 0; l-- {
			for k := 0; k < 2; k++ {
				s := fmt.Sprintf(`%s targetNamespace="urn:l%d-%d">`, xsHead, l, k)
				for j := 0; j < 2; j++ {
					if l+1 < levels {
						s += fmt.Sprintf(`<xs:import namespace="urn:l%d-%d" schemaLocation="%s"/>`, l+1, j, name(l+1, j))
					} else if back {
						s += fmt.Sprintf(`<xs:import namespace="urn:l0-%d" schemaLocation="%s"/>`, j, name(0, j))
					}
				}
				s += fmt.Sprintf(`<xs:complexType name="T%dx%d"><xs:attribute name="a" type="xs:int"/></xs:complexType></xs:schema>`, l, k)
				b.write(name(l, k), s)
				docs = append(docs, []byte(s))
			}
		}
		useSchemas(false)
		want, err := generated(fresh(xsdgen.DefaultOptions...), docs, "o.go")
		if err != nil {
			t.Fail("the generator refuses valid schemas: %v", err)
		}
		t.Step()
		if err := fresh(xsdgen.DefaultOptions...).GenCLI("-f", "-o", "o.go", name(0, 0), name(0, 1)); err != nil {
			t.Fail("GenCLI: %v", err)
		}
		got, _ := ioutil.ReadFile("o.go")
		t.Compared(1)
		if !bytes.Equal(got, want) {
			t.Fail("a ladder of %d levels: %s", levels, firstDiff(want, got))
		}
	})
}

// counter counts the messages that are logged.
// many: sets of many files.
func many(t *mc.T) {
	counts := []int{9, 17, 33, 65}
	if t.Thorough {
		counts = append(counts, 130, 257)
	}
	n := counts[t.Free("files", len(counts))]
	shape := t.FreePick("shape", "chain", "star", "ring", "tree", "chain from star", "down", "given", "backwards")
	entry := t.FreePick("entry", "GenCLI", "GenSource")
	t.Input(fmt.Sprint(n, shape, entry))
	box(t, func(b *sandbox) {
		edges := make([][]int, n)
		place := make([]string, n)
		for i := range edges {
			place[i] = fmt.Sprintf("f%d.xsd", i)
			switch shape {
			case "star":
				if i > 0 {
					edges[0] = append(edges[0], i)
				}
			case "tree":
				for _, j := range []int{2*i + 1, 2*i + 2} {
					if j < n {
						edges[i] = append(edges[i], j)
					}
				}
			case "ring":
				edges[i] = []int{(i + 1) % n}
			case "chain from star":
				if i > 0 {
					edges[0] = append(edges[0], i)
				}
				if i > 1 {
					edges[i] = []int{i - 1}
				}
			case "given", "backwards":
			default:
				if i+1 < n {
					edges[i] = []int{i + 1}
				}
			}
			if shape == "down" {
				// every file in a directory of the directory before
				d := strings.Repeat("d/", i%40)
				if d != "" {
					b.mkdir(d)
				}
				place[i] = fmt.Sprintf("%sf%d.xsd", d, i)
			}
		}
		texts := make([]string, n)
		for i := range texts {
			s := fmt.Sprintf(`%s targetNamespace="urn:m%d">`, xsHead, i)
			for _, j := range edges[i] {
				rel, err := filepath.Rel(filepath.Dir(place[i]), place[j])
				if err != nil {
					panic(err)
				}
				s += fmt.Sprintf(`<xs:import namespace="urn:m%d" schemaLocation="%s"/>`, j, filepath.ToSlash(rel))
			}
			body := ""
			for _, j := range edges[i] {
				body += fmt.Sprintf(`<xs:element name="of%d" xmlns:p="urn:m%d" type="p:T%d"/>`, j, j, j)
			}
			s += fmt.Sprintf(`<xs:complexType name="T%d"><xs:sequence>%s</xs:sequence><xs:attribute name="a%d" type="xs:int"/></xs:complexType></xs:schema>`, i, body, i)
			texts[i] = s
			b.write(place[i], s)
		}
		var docs [][]byte
		seen := make([]bool, n)
		var visit func(i int)
		visit = func(i int) {
			if !seen[i] {
				seen[i] = true
				for _, j := range edges[i] {
					visit(j)
				}
				docs = append(docs, []byte(texts[i]))
			}
		}
		args := []string{place[0]}
		switch shape {
		case "given":
			args = append([]string(nil), place...)
		case "backwards":
			args = nil
			for i := n - 1; i > 0; i-- {
				args = append(args, place[i])
				visit(i)
			}
			args = append(args, place[0])
		}
		visit(0)
		if shape == "given" {
			for i := range texts {
				visit(i)
			}
		}
		useSchemas(false)
		want, err := generated(fresh(xsdgen.DefaultOptions...), docs, "o.go")
		if err != nil {
			t.Fail("the generator refuses valid schemas: %v", err)
		}
		for i := range texts {
			if !bytes.Contains(want, []byte(fmt.Sprintf("type T%d struct", i))) {
				t.Fail("no type for file %d of %d", i, n)
			}
		}
		t.Step()
		cfg := fresh(xsdgen.DefaultOptions...)
		var got []byte
		if entry == "GenCLI" {
			if err := cfg.GenCLI(append([]string{"-f", "-o", "o.go"}, args...)...); err != nil {
				t.Fail("GenCLI: %v", err)
			}
			got, _ = ioutil.ReadFile("o.go")
		} else {
			cfg.Option(xsdgen.FollowImports(true))
			if got, err = cfg.GenSource(args...); err != nil {
				t.Fail("GenSource: %v", err)
			}
		}
		t.Compared(1)
		if !bytes.Equal(got, want) {
			t.Fail("%d files, %s: %s", n, shape, firstDiff(want, got))
		}
		t.State(fmt.Sprint(n, shape, len(got)))
	})
}

type counter struct{ n int }

func (c *counter) Printf(string, ...interface{}) { c.n++ }

var (
	fileA = xsHead + ` xmlns:a="urn:a" xmlns:b="urn:b" targetNamespace="urn:a"><xs:complexType name="one_two"><xs:sequence><xs:element name="x" type="xs:int"/><xs:element name="d" type="xs:date"/></xs:sequence></xs:complexType><xs:simpleType name="three"><xs:list itemType="xs:int"/></xs:simpleType></xs:schema>`
	fileB = xsHead + ` xmlns:a="urn:a" xmlns:b="urn:b" targetNamespace="urn:b"><xs:complexType name="four_one"><xs:sequence><xs:element name="y" type="xs:string"/></xs:sequence></xs:complexType></xs:schema>`
	fileC = xsHead + ` xmlns:a="urn:a" xmlns:b="urn:b" targetNamespace="urn:c"><xs:import namespace="urn:a" schemaLocation="a.xsd"/><xs:complexType name="five"><xs:sequence><xs:element name="z" type="a:three"/><xs:element name="w" type="a:one_two"/></xs:sequence></xs:complexType></xs:schema>`
)

// spell writes a flag in one of the ways that package flag documents.
func spell(t *mc.T, name, value string) []string {
	switch t.Choose("spelling of -"+name, 4) {
	case 1:
		return []string{"-" + name + "=" + value}
	case 2:
		return []string{"--" + name, value}
	case 3:
		return []string{"--" + name + "=" + value}
	}
	return []string{"-" + name, value}
}

// flags: every way to say on the command line what the library does.
func flags(t *mc.T) {
	files := [][]string{{"a.xsd"}, {"a.xsd", "b.xsd"}, {"b.xsd", "a.xsd"}, {"c.xsd"}, {"c.xsd", "b.xsd"}}[t.Choose("files", 5)]
	type preset struct {
		name string
		opts func() []xsdgen.Option
	}
	none := func() []xsdgen.Option { return nil }
	presets := []preset{
		{"", none},
		{"package", func() []xsdgen.Option { return []xsdgen.Option{xsdgen.PackageName("preset")} }},
		{"namespace", func() []xsdgen.Option { return []xsdgen.Option{xsdgen.Namespaces("urn:a")} }},
		{"imports", func() []xsdgen.Option { return []xsdgen.Option{xsdgen.FollowImports(true)} }},
		{"rule", func() []xsdgen.Option { return []xsdgen.Option{xsdgen.Replace("one", "two")} }},
		{"names", func() []xsdgen.Option { return []xsdgen.Option{xsdgen.UseFieldNames()} }},
	}
	pre := presets[t.Choose("options set before", len(presets))]
	bare := t.Bool("no default options")
	var opts []xsdgen.Option
	if !bare {
		opts = append(opts, xsdgen.DefaultOptions...)
	}
	opts = append(opts, pre.opts()...)
	var parts [][]string
	follows := pre.name == "imports"
	if pkg := t.Pick("pkg", "", "p", "main"); pkg != "" {
		parts = append(parts, spell(t, "pkg", pkg))
		opts = append(opts, xsdgen.PackageName(pkg))
	}
	out := t.Pick("o", "xsdgen_output.go", "out.go", "sub/x.go", "absolute", "there.go", "noext")
	relative := out
	follow := t.Pick("f", "", "-f", "--f", "-f=true", "-f=false")
	if follow != "" {
		parts = append(parts, []string{follow})
		// -f=false is the default, which says nothing
		follows = follows || follow != "-f=false"
	}
	verbose := t.Pick("verbosity", "", "-v", "-vv", "-v -vv")
	if verbose != "" {
		parts = append(parts, strings.Fields(verbose))
	}
	for _, r := range [][]string{nil, {"one -> uno"}, {"one->uno", "uno -> un"}, {"uno -> un", "one->uno"}, {"^(.*)(T.*)$ -> ${2}Of$1"}, {"one ->"}, {"t -> a -> b"}}[t.Choose("r", 7)] {
		parts = append(parts, spell(t, "r", r))
		i := strings.Index(r, "->")
		opts = append(opts, xsdgen.Replace(strings.TrimSpace(r[:i]), strings.TrimSpace(r[i+2:])))
	}
	var wanted []string
	for _, ns := range [][]string{nil, {"urn:a"}, {"urn:b"}, {"urn:b", "urn:a"}, {"urn:c"}, {"urn:missing"}, {"urn:a", "urn:missing"}}[t.Choose("ns", 7)] {
		parts = append(parts, spell(t, "ns", ns))
		wanted = append(wanted, ns)
	}
	if wanted != nil {
		opts = append(opts, xsdgen.Namespaces(wanted...))
	}
	reverse := t.Bool("flags the other way round")
	dashes := t.Bool("--")
	box(t, func(b *sandbox) {
		b.mkdir("sub")
		b.write("a.xsd", fileA)
		b.write("b.xsd", fileB)
		b.write("c.xsd", fileC)
		b.write("there.go", "package old // longer than what replaces it\n"+strings.Repeat("// x\n", 1000))
		if out != "xsdgen_output.go" {
			if out == "absolute" {
				relative = "sub/abs.go"
				out = filepath.Join(b.dir, relative)
			}
			parts = append(parts, spell(t, "o", out))
		}
		var args []string
		if reverse {
			// rules act in the order in which they are given
			var rest, rules []string
			for i := len(parts) - 1; i >= 0; i-- {
				if strings.HasPrefix(strings.TrimLeft(parts[i][0], "-"), "r") {
					rules = append(append([]string{}, parts[i]...), rules...)
				} else {
					rest = append(rest, parts[i]...)
				}
			}
			args = append(rest, rules...)
		} else {
			for _, p := range parts {
				args = append(args, p...)
			}
		}
		if dashes {
			args = append(args, "--")
		}
		args = append(args, files...)
		text := fmt.Sprintf("arguments %s, options set before: %q, no defaults: %v", quote(args), pre.name, bare)
		t.Input(fmt.Sprint(pre.name, bare, strings.ReplaceAll(quote(args), b.dir, "")))
		var docs [][]byte
		content := map[string]string{"a.xsd": fileA, "b.xsd": fileB, "c.xsd": fileC}
		for _, f := range files {
			if f == "c.xsd" && follows {
				docs = append(docs, []byte(fileA))
			}
			docs = append(docs, []byte(content[f]))
		}
		before := b.tree()
		useSchemas(false)
		t.Step()
		want, wantErr := generated(fresh(opts...), docs, relative)
		var log counter
		cfg := new(xsdgen.Config)
		if !bare {
			cfg.Option(xsdgen.DefaultOptions...)
		}
		cfg.Option(pre.opts()...)
		cfg.Option(xsdgen.LogOutput(&log))
		err := cfg.GenCLI(args...)
		t.Outcome(fmt.Sprint(err != nil))
		if (err != nil) != (wantErr != nil) {
			t.Fail("GenCLI gives the error %v, the library %v\n%s", err, wantErr, text)
		}
		if err != nil {
			b.unchanged(before, "", text)
			return
		}
		b.unchanged(before, relative, text)
		got, err := ioutil.ReadFile(filepath.Join(b.dir, relative))
		if err != nil {
			t.Fail("GenCLI does not write the output file: %v\n%s", err, text)
		}
		if !bytes.Equal(got, want) {
			t.Fail("GenCLI does not write what the library gives: %s\n%s\n%s", firstDiff(want, got), text, got)
		}
		if verbose == "" && log.n > 0 {
			t.Fail("GenCLI logs %d messages without being asked to\n%s", log.n, text)
		}
		if strings.Contains(verbose, "-vv") && log.n == 0 {
			t.Fail("GenCLI logs nothing in spite of %s\n%s", verbose, text)
		}
		t.State(string(got))
	})
}

// fault puts something that cannot be read or parsed in the place of a file.
func fault(b *sandbox, name, what, good string, at int) {
	path := filepath.Join(b.dir, name)
	os.Remove(path)
	var err error
	switch what {
	case "missing":
	case "directory":
		err = os.Mkdir(path, 0777)
	case "dangling link":
		err = os.Symlink(filepath.Join(b.dir, "nothing"), path)
	case "link to itself":
		err = os.Symlink(path, path)
	case "cut":
		err = ioutil.WriteFile(path, []byte(good[:at]), 0666)
	case "garbage":
		err = ioutil.WriteFile(path, []byte("\x00\xff garbage"), 0666)
	case "unbalanced":
		err = ioutil.WriteFile(path, []byte(strings.Replace(good, "</xs:schema>", "</xs:schem>", 1)), 0666)
	case "bad reference":
		err = ioutil.WriteFile(path, []byte(strings.Replace(good, "xs:int", "xs:nothing", 1)), 0666)
	case "undefined entity":
		err = ioutil.WriteFile(path, []byte(strings.Replace(good, "</xs:schema>", "&x;</xs:schema>", 1)), 0666)
	default:
		panic(what)
	}
	if err != nil {
		panic(err)
	}
}

var faultKinds = []string{"missing", "directory", "dangling link", "link to itself", "cut", "garbage", "unbalanced", "bad reference", "undefined entity"}

// faults: files that cannot be read.
func faults(t *mc.T) {
	chain := map[string]string{}
	names := []string{"f0.xsd", "sub/f1.xsd", "sub/f2.xsd", "g.xsd"}
	link := map[int]string{0: "sub/f1.xsd", 1: "f2.xsd"}
	for i, n := range names {
		imports, el := "", `<xs:element name="e" type="xs:int"/>`
		if l := link[i]; l != "" {
			imports = fmt.Sprintf(`<xs:import namespace="urn:f%d" schemaLocation="%s"/>`, i+1, l)
		}
		chain[n] = fmt.Sprintf(`%s targetNamespace="urn:f%d">%s<xs:complexType name="T%d"><xs:sequence>%s</xs:sequence></xs:complexType></xs:schema>`, xsHead, i, imports, i, el)
	}
	tool := t.FreePick("entry", "GenCLI", "GenSource", "wsdlgen")
	var order []string
	follow := false
	switch t.Free("files", 4) {
	case 0:
		order = []string{"f0.xsd"}
		follow = true
	case 1:
		order = []string{"g.xsd", "f0.xsd"}
		follow = true
	case 2:
		order = []string{"f0.xsd", "g.xsd"}
		follow = true
	case 3:
		order = []string{"f0.xsd", "sub/f1.xsd", "g.xsd"}
	}
	if tool == "wsdlgen" {
		// it does not follow imports
		follow = false
		order = append([]string{"s.wsdl"}, order...)
		names = append(names, "s.wsdl")
		chain["s.wsdl"] = `<w:definitions xmlns:w="http://schemas.xmlsoap.org/wsdl/" targetNamespace="urn:w"><w:types>` + strings.Replace(strings.TrimPrefix(chain["g.xsd"], `<?xml version="1.0"?>`), "urn:f3", "urn:w", 1) + `</w:types></w:definitions>`
	}
	where := names[t.Free("file with the fault", len(names))]
	what := faultKinds[t.Free("fault", len(faultKinds))]
	good := chain[where]
	at := 0
	if what == "cut" {
		at = t.Free("cut", len(good))
	}
	existing := t.FreeBool("the output file exists")
	t.Input(fmt.Sprint(tool, order, follow, where, what, at, existing))
	box(t, func(b *sandbox) {
		for _, n := range names {
			b.write(n, chain[n])
		}
		if existing {
			b.write("out.go", "package precious\n")
		}
		fault(b, where, what, good, at)
		reached := false
		for _, o := range order {
			if o == where || (follow && o == "f0.xsd" && strings.HasPrefix(where, "sub/")) {
				reached = true
			}
		}
		text := fmt.Sprintf("%s of %q, following imports: %v; %s: %s (at %d)", tool, order, follow, where, what, at)
		before := map[string]string{}
		if what != "directory" && what != "dangling link" && what != "link to itself" {
			before = b.tree()
		}
		useSchemas(false)
		t.Step()
		var err error
		var src []byte
		switch tool {
		case "GenCLI":
			args := []string{"-o", "out.go"}
			if follow {
				args = append(args, "-f")
			}
			err = fresh(xsdgen.DefaultOptions...).GenCLI(append(args, order...)...)
		case "GenSource":
			cfg := fresh(xsdgen.DefaultOptions...)
			cfg.Option(xsdgen.FollowImports(follow))
			src, err = cfg.GenSource(order...)
		case "wsdlgen":
			err = freshW().GenCLI(append([]string{"-o", "out.go"}, order...)...)
		}
		t.Outcome(fmt.Sprint(err != nil))
		t.Compared(1)
		if (err != nil) != reached {
			t.Fail("error %v, want one: %v\n%s\n%s", err, reached, text, src)
		}
		if err != nil && src != nil {
			t.Fail("source in spite of the error %v\n%s", err, text)
		}
		got, readErr := ioutil.ReadFile("out.go")
		switch {
		case err == nil:
			if tool != "GenSource" && (readErr != nil || !strings.Contains(string(got), "package ws")) {
				t.Fail("no output: %v %s\n%s", readErr, got, text)
			}
		case existing:
			if string(got) != "package precious\n" {
				t.Fail("the output file is changed although %v\n%s", err, text)
			}
		case readErr == nil:
			t.Fail("an output file is written although %v\n%s", err, text)
		}
		if err != nil && len(before) > 0 {
			b.unchanged(before, "", text)
		}
	})
}

// outputs that cannot be written, and command lines without files.
func outputs(t *mc.T) {
	tool := t.FreePick("entry", "xsdgen", "wsdlgen")
	out := t.FreePick("output", "nowhere/out.go", "dir", "a.xsd/out.go", "")
	files := [][]string{{"a.xsd"}, nil, {"--"}}[t.Free("files", 3)]
	t.Input(fmt.Sprint(tool, out, files))
	box(t, func(b *sandbox) {
		b.mkdir("dir")
		a := fileA
		if tool == "wsdlgen" {
			a = serviceWSDL
		}
		b.write("a.xsd", a)
		before := b.tree()
		args := []string{"-pkg", "p"}
		if out != "" {
			args = append(args, "-o", out)
		}
		args = append(args, files...)
		useSchemas(false)
		t.Step()
		var err error
		if tool == "xsdgen" {
			err = fresh(xsdgen.DefaultOptions...).GenCLI(args...)
		} else {
			err = freshW().GenCLI(args...)
		}
		t.Compared(1)
		want := out != "" || len(files) == 0 || files[0] == "--"
		if (err != nil) != want {
			t.Fail("%s %s: error %v, want one: %v", tool, quote(args), err, want)
		}
		but := ""
		if !want {
			but = tool + "_output.go"
		}
		b.unchanged(before, but, quote(args))
	})
}

const serviceWSDL = `<?xml version="1.0"?>
<w:definitions xmlns:w="http://schemas.xmlsoap.org/wsdl/" xmlns:soap="http://schemas.xmlsoap.org/wsdl/soap/" xmlns:xs="` + XS + `" xmlns:s="urn:s" targetNamespace="urn:s">
<w:types><xs:schema targetNamespace="urn:s"><xs:complexType name="one_two"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence></xs:complexType></xs:schema></w:types>
<w:message name="In"><w:part name="a" type="xs:string"/><w:part name="b" type="s:one_two"/></w:message>
<w:message name="Out"><w:part name="r" type="xs:int"/></w:message>
<w:portType name="PT"><w:operation name="Call"><w:input message="s:In"/><w:output message="s:Out"/></w:operation></w:portType>
<w:portType name="PU"><w:operation name="Other"><w:input message="s:In"/><w:output message="s:Out"/></w:operation></w:portType>
<w:binding name="B" type="s:PT"><soap:binding style="rpc" transport="http://schemas.xmlsoap.org/soap/http"/><w:operation name="Call"><soap:operation soapAction="urn:s#Call"/></w:operation></w:binding>
<w:binding name="BU" type="s:PU"><soap:binding style="rpc" transport="http://schemas.xmlsoap.org/soap/http"/><w:operation name="Other"><soap:operation soapAction="urn:s#Other"/></w:operation></w:binding>
<w:service name="S"><w:documentation>Service text.</w:documentation><w:port name="P" binding="s:B"><soap:address location="http://127.0.0.1/p"/></w:port><w:port name="U" binding="s:BU"><soap:address location="http://127.0.0.1/u"/></w:port></w:service>
</w:definitions>`

func freshW() *wsdlgen.Config {
	cfg := new(wsdlgen.Config)
	cfg.Option(wsdlgen.DefaultOptions...)
	cfg.XSDOption(xsdgen.DefaultOptions...)
	return cfg
}

// wsdlFlags is flags for the other generator.
func wsdlFlags(t *mc.T) {
	var parts [][]string
	want, cfg := freshW(), freshW()
	switch t.Choose("options set before", 4) {
	case 1:
		for _, c := range []*wsdlgen.Config{want, cfg} {
			c.Option(wsdlgen.PackageName("preset"))
			c.XSDOption(xsdgen.PackageName("preset"))
		}
	case 2:
		want.Option(wsdlgen.PackageComment("Preset."))
		cfg.Option(wsdlgen.PackageComment("Preset."))
	case 3:
		for _, c := range []*wsdlgen.Config{want, cfg} {
			c.Option(wsdlgen.OnlyPorts("P"), wsdlgen.InputThreshold(1))
			c.XSDOption(xsdgen.Replace("one", "two"))
		}
	}
	if pkg := t.Pick("pkg", "", "p", "main"); pkg != "" {
		parts = append(parts, spell(t, "pkg", pkg))
		want.Option(wsdlgen.PackageName(pkg))
		want.XSDOption(xsdgen.PackageName(pkg))
	}
	if c := t.Pick("c", "", "Package text.", "one\ntwo"); c != "" {
		parts = append(parts, spell(t, "c", c))
		want.Option(wsdlgen.PackageComment(c))
	}
	verbose := t.Pick("verbosity", "", "-v", "-vv", "-vv -v")
	if verbose != "" {
		parts = append(parts, strings.Fields(verbose))
	}
	for _, r := range [][]string{nil, {"one -> uno"}, {"one->uno", "uno -> un"}, {"uno -> un", "one->uno"}, {"Call->Ring"}, {"one ->"}}[t.Choose("r", 6)] {
		parts = append(parts, spell(t, "r", r))
		i := strings.Index(r, "->")
		want.XSDOption(xsdgen.Replace(strings.TrimSpace(r[:i]), strings.TrimSpace(r[i+2:])))
	}
	var ports []string
	for _, p := range [][]string{nil, {"P"}, {"U"}, {"U", "P"}, {"missing"}}[t.Choose("port", 5)] {
		parts = append(parts, spell(t, "port", p))
		ports = append(ports, p)
	}
	if ports != nil {
		want.Option(wsdlgen.OnlyPorts(ports...))
	}
	out := t.Pick("o", "wsdlgen_output.go", "out.go", "sub/x.go", "there.go")
	files := [][]string{{"s.wsdl"}, {"s.wsdl", "b.xsd"}, {"b.xsd", "s.wsdl"}}[t.Choose("files", 3)]
	box(t, func(b *sandbox) {
		b.mkdir("sub")
		b.write("s.wsdl", serviceWSDL)
		b.write("b.xsd", fileB)
		b.write("there.go", "package old // longer than what replaces it\n"+strings.Repeat("// x\n", 5000))
		if out != "wsdlgen_output.go" {
			parts = append(parts, spell(t, "o", out))
		}
		var args []string
		for _, p := range parts {
			args = append(args, p...)
		}
		args = append(args, files...)
		text := "arguments " + quote(args)
		t.Input(text)
		before := b.tree()
		useSchemas(false)
		t.Step()
		file, err := want.GenAST(files...)
		if err != nil {
			t.Fail("the generator refuses a valid service: %v\n%s", err, text)
		}
		wantSrc, err := gen.FormattedSource(file, out)
		if err != nil {
			t.Fail("the generator refuses a valid service: %v\n%s", err, text)
		}
		var log counter
		cfg.Option(wsdlgen.LogOutput(&log))
		if err := cfg.GenCLI(args...); err != nil {
			t.Fail("GenCLI: %v\n%s", err, text)
		}
		b.unchanged(before, out, text)
		got, err := ioutil.ReadFile(filepath.Join(b.dir, out))
		if err != nil {
			t.Fail("GenCLI does not write the output file: %v\n%s", err, text)
		}
		if !bytes.Equal(got, wantSrc) {
			t.Fail("GenCLI does not write what the library gives: %s\n%s\n%s", firstDiff(wantSrc, got), text, got)
		}
		if verbose == "" && log.n > 0 {
			t.Fail("GenCLI logs %d messages without being asked to\n%s", log.n, text)
		}
		if verbose != "" && log.n == 0 {
			t.Fail("GenCLI logs nothing in spite of %s\n%s", verbose, text)
		}
		t.State(string(got))
	})
}

// commands runs the programs themselves.
func commands(t *mc.T) {
	type run struct {
		name string
		args []string
		ok   bool
		out  string // the file that is written
	}
	runs := map[string][]run{
		"xsdgen": {
			{"plain", []string{"a.xsd"}, true, "xsdgen_output.go"},
			{"package", []string{"-pkg", "p", "-o", "out.go", "a.xsd", "b.xsd"}, true, "out.go"},
			{"follow", []string{"-f", "-o", "out.go", "c.xsd"}, true, "out.go"},
			{"no imports", []string{"-o", "out.go", "c.xsd"}, false, ""},
			{"no files", []string{"-o", "out.go"}, false, ""},
			{"nothing", nil, false, ""},
			{"missing", []string{"-o", "out.go", "a.xsd", "missing.xsd"}, false, ""},
			{"malformed", []string{"-o", "out.go", "bad.xsd"}, false, ""},
			{"malformed import", []string{"-f", "-o", "out.go", "worse.xsd"}, false, ""},
			{"unknown flag", []string{"-nothing", "-o", "out.go", "a.xsd"}, false, ""},
			{"bad rule", []string{"-r", "no arrow", "-o", "out.go", "a.xsd"}, false, ""},
			{"bad pattern", []string{"-r", "( -> x", "-o", "out.go", "a.xsd"}, false, ""},
			{"missing namespace", []string{"-ns", "urn:x", "-o", "out.go", "a.xsd"}, false, ""},
			{"bad output", []string{"-o", "nowhere/out.go", "a.xsd"}, false, ""},
			{"verbose", []string{"-v", "-vv", "-ns", "urn:b", "-o", "out.go", "a.xsd", "b.xsd"}, true, "out.go"},
			{"rules", []string{"-r", "one->uno", "-r", "uno -> un", "-o", "out.go", "a.xsd"}, true, "out.go"},
		},
		"wsdlgen": {
			{"plain", []string{"s.wsdl"}, true, "wsdlgen_output.go"},
			{"flags", []string{"-pkg", "p", "-c", "Text.", "-o", "out.go", "-r", "one -> uno", "-port", "P", "-vv", "s.wsdl"}, true, "out.go"},
			{"nothing", nil, false, ""},
			{"missing", []string{"-o", "out.go", "missing.wsdl"}, false, ""},
			{"second missing", []string{"-o", "out.go", "s.wsdl", "missing.xsd"}, false, ""},
			{"malformed", []string{"-o", "out.go", "bad.xsd"}, false, ""},
			{"unknown flag", []string{"-f", "-o", "out.go", "s.wsdl"}, false, ""},
			{"bad rule", []string{"-r", "no arrow", "-o", "out.go", "s.wsdl"}, false, ""},
			{"bad output", []string{"-o", "nowhere/out.go", "s.wsdl"}, false, ""},
		},
	}
	tool := t.FreePick("program", "xsdgen", "wsdlgen")
	r := runs[tool][t.Free("run", len(runs[tool]))]
	t.Input(tool + " " + r.name)
	box(t, func(b *sandbox) {
		b.write("a.xsd", fileA)
		b.write("b.xsd", fileB)
		b.write("c.xsd", fileC)
		b.write("s.wsdl", serviceWSDL)
		b.write("bad.xsd", fileB[:len(fileB)-4])
		b.write("worse.xsd", strings.Replace(fileC, "a.xsd", "bad.xsd", 1))
		before := b.tree()
		cmd := exec.Command(filepath.Join(os.Getenv("MC_SCRATCH"), "commands", tool), r.args...)
		cmd.Dir = b.dir
		msg, err := cmd.CombinedOutput()
		text := fmt.Sprintf("%s %s: %v\n%s", tool, quote(r.args), err, msg)
		t.Step()
		if _, is := err.(*exec.ExitError); err != nil && !is {
			panic(err)
		}
		t.Compared(2)
		if (err == nil) != r.ok {
			t.Fail("the exit status is wrong\n%s", text)
		}
		if strings.Contains(string(msg), "goroutine ") {
			t.Fail("the program crashes\n%s", text)
		}
		if !r.ok && len(msg) == 0 {
			t.Fail("the program fails without a message\n%s", text)
		}
		b.unchanged(before, r.out, text)
		if !r.ok {
			return
		}
		// The same arguments in the library. Only the name of the program is
		// something else.
		got, err := ioutil.ReadFile(filepath.Join(b.dir, r.out))
		if err != nil {
			t.Fail("%v\n%s", err, text)
		}
		first := "// Code generated by " + tool + ". DO NOT EDIT.\n"
		if !strings.HasPrefix(string(got), first) {
			t.Fail("the source does not start with %q\n%s\n%s", first, text, got)
		}
		useSchemas(true)
		if tool == "xsdgen" {
			err = fresh(xsdgen.DefaultOptions...).GenCLI(r.args...)
		} else {
			err = freshW().GenCLI(r.args...)
		}
		if err != nil {
			t.Fail("the library gives the error %v\n%s", err, text)
		}
		want, err := ioutil.ReadFile(filepath.Join(b.dir, r.out))
		if err != nil {
			t.Fail("%v\n%s", err, text)
		}
		cut := func(b []byte) []byte { return b[bytes.IndexByte(b, '\n'):] }
		if !bytes.Equal(cut(got), cut(want)) {
			t.Fail("the program and the library disagree: %s\n%s", firstDiff(cut(want), cut(got)), text)
		}
	})
}

func c25() mc.Property {
	return mc.Property{ID: "C25", Quick: 100, Thorough: 800,
		Assumptions: []string{"the library gives the right source for documents and options (C20 to C24 decide that)", "the names made up for anonymous types do not depend on the order of documents in different namespaces"},
		Before: func(scratch string, thorough bool) (map[string]interface{}, error) {
			dir := filepath.Join(scratch, "commands")
			if err := os.MkdirAll(dir, 0777); err != nil {
				return nil, err
			}
			for _, p := range []string{"xsdgen", "wsdlgen"} {
				cmd := exec.Command("go", "build", "-o", filepath.Join(dir, p), "./cmd/"+p)
				cmd.Dir = os.Getenv("VERIF_REPO")
				cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
				if out, err := cmd.CombinedOutput(); err != nil {
					return nil, fmt.Errorf("cannot build %s: %v\n%s", p, err, out)
				}
			}
			return map[string]interface{}{"programs": "cmd/xsdgen and cmd/wsdlgen, built from the working tree"}, nil
		},
		Harnesses: []mc.Harness{
			{Name: "graphs of two files", About: "every way in which two files import each other and themselves, however they are located and named", Bounds: [2]int{3, 4}, Weight: 3, Run: func(t *mc.T) { graphs(t, 2) }},
			{Name: "graphs of three files", About: "every way in which three files import each other and themselves", Bounds: [2]int{1, 2}, Weight: 5, Run: func(t *mc.T) { graphs(t, 3) }},
			{Name: "graphs of four files", About: "every way in which four files import each other and themselves", Bounds: [2]int{0, 0}, Weight: 4, ThoroughOnly: true, Run: func(t *mc.T) { graphs(t, 4) }},
			{Name: "ladder", About: "documents that can be reached on exponentially many ways", Bounds: [2]int{0, 0}, Weight: 1, Run: ladder},
			{Name: "many files", About: "chains, stars, rings and trees of many files", Bounds: [2]int{0, 0}, Weight: 1, Run: many},
			{Name: "flags", About: "combinations of flags of xsdgen, of their spellings, and of options set before", Bounds: [2]int{3, 4}, Weight: 3, Run: flags},
			{Name: "flags of wsdlgen", About: "combinations of flags of wsdlgen, of their spellings, and of options set before", Bounds: [2]int{2, 3}, Weight: 2, Run: wsdlFlags},
			{Name: "faults", About: "every kind of fault, every place at which a file can be cut off, in every file", Bounds: [2]int{0, 0}, Weight: 3, Run: faults},
			{Name: "outputs", About: "outputs that cannot be written and command lines without files", Bounds: [2]int{0, 0}, Weight: 1, Run: outputs},
			{Name: "commands", About: "the programs themselves", Bounds: [2]int{0, 0}, Weight: 1, Run: commands},
		}}
}
