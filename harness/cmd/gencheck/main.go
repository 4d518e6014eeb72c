// Command gencheck decides the properties of the helper packages gen (C41)
// and commandline (C42).
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/constant"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"aqwari.net/xml/internal/commandline"
	"aqwari.net/xml/internal/gen"
	"aqwari.net/xml/verif/mc"
)

// Pieces of text that need care in Go source.
var nasty = []string{"a", `"`, "`", `\`, "\n", "\r", "\x00", "\xff", "\ufeff", "é", " ", "\t", "'", "*/", "/*", "//", "\u2028", "%s", "\xe2\x80", "${", "\n\n", "-> ", "world"}

func text(t *mc.T, label string, max, alphabet int) string {
	var b strings.Builder
	for i := 0; i < max; i++ {
		k := t.Free(label, alphabet+1)
		if k == 0 {
			break
		}
		b.WriteString(nasty[k-1])
	}
	return b.String()
}

// compile type-checks a file that needs no imports.
func compile(src string) (*ast.File, *types.Package, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	conf := types.Config{}
	pkg, err := conf.Check("p", fset, []*ast.File{f}, nil)
	return f, pkg, err
}

func render(decls ...ast.Decl) string {
	var b bytes.Buffer
	f := &ast.File{Name: ast.NewIdent("p"), Decls: decls}
	if err := printer.Fprint(&b, token.NewFileSet(), f); err != nil {
		return "printing: " + err.Error()
	}
	return b.String()
}

func literal(t *mc.T, s string) {
	t.Input(strconv.Quote(s))
	t.Step()
	lit := gen.String(s)
	src, err := gen.ToString(lit)
	if err != nil {
		t.Fail("ToString(String(%q)): %v", s, err)
	}
	for _, src := range []string{src, gen.ExprString(lit)} {
		_, pkg, err := compile("package p\nconst x = " + src + "\n")
		if err != nil {
			t.Fail("String(%q) is %s: %v", s, src, err)
		}
		v := pkg.Scope().Lookup("x").(*types.Const).Val()
		t.Compared(1)
		if v.Kind() != constant.String || constant.StringVal(v) != s {
			t.Fail("String(%q) is %s, which means %v", s, src, v)
		}
	}
	// inside a declaration
	out := render(gen.TypeDecl(ast.NewIdent("T"), gen.Struct(ast.NewIdent("F"), gen.SimpleType("int"), lit)))
	_, pkg, err := compile(out)
	if err != nil {
		t.Fail("as a struct tag, String(%q) does not compile: %v\n%s", s, err, out)
	}
	st := pkg.Scope().Lookup("T").Type().Underlying().(*types.Struct)
	if st.NumFields() != 1 || st.Field(0).Name() != "F" || st.Tag(0) != s {
		t.Fail("the struct tag %q became %q", s, st.Tag(0))
	}
	out = render(gen.ConstString("A", "", s, "B", "string", "x"+s))
	_, pkg, err = compile(out)
	if err != nil {
		t.Fail("ConstString(%q) does not compile: %v\n%s", s, err, out)
	}
	for name, want := range map[string]string{"A": s, "B": "x" + s} {
		if c, ok := pkg.Scope().Lookup(name).(*types.Const); !ok || constant.StringVal(c.Val()) != want {
			t.Fail("constant %s is %v, not %q", name, c, want)
		}
	}
	if len(pkg.Scope().Names()) != 2 {
		t.Fail("ConstString(%q) declares %v", s, pkg.Scope().Names())
	}
	t.Outcome(lit.Value)
}

// words is what must be kept of a comment: the printable text, whatever
// happens to white space and to characters that Go does not allow.
func words(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r == '(' || r == ')' || r == '\'' || r == '`' || r == '“' || r == '”' || r == '"': // gofmt makes “ of `` and ” of ''
			return -1
		case r == 0xFEFF || r == 0xFFFD || r < 0x20 || r == ' ' || r == 0x85 || r == 0xA0 || r == 0x2028:
			return -1
		}
		return r
	}, strings.ToValidUTF8(s, ""))
}

func commentWords(l []*ast.CommentGroup) string {
	s := ""
	for _, g := range l {
		if g == nil {
			continue
		}
		for _, c := range g.List {
			s += strings.TrimPrefix(c.Text, "//")
		}
	}
	return words(s)
}

func comments(t *mc.T, parts []string) {
	t.Input(fmt.Sprintf("%q", parts))
	t.Step()
	joined := words(strings.Join(parts, "\n"))
	group := gen.CommentGroup(parts...)
	for _, c := range group.List {
		if !strings.HasPrefix(c.Text, "//") || strings.Contains(c.Text, "\n") {
			t.Fail("CommentGroup(%q) holds %q", parts, c.Text)
		}
	}
	// on a declaration
	d := gen.TypeDecl(ast.NewIdent("T"), gen.SimpleType("int"))
	d.Doc = group
	if len(group.List) == 0 {
		d.Doc = nil
	}
	out := render(d)
	f, pkg, err := compile(out)
	if err != nil {
		t.Fail("a declaration with the comment %q does not compile: %v\n%s", parts, err, out)
	}
	if names := pkg.Scope().Names(); len(names) != 1 || names[0] != "T" || len(f.Decls) != 1 {
		t.Fail("the comment %q changes what is declared: %v\n%s", parts, names, out)
	}
	t.Compared(1)
	if got := commentWords(f.Comments); got != joined {
		t.Fail("the comment %q became %q\n%s", parts, got, out)
	}
	// on a package
	file := gen.PackageDoc(&ast.File{Name: ast.NewIdent("p"), Decls: []ast.Decl{gen.TypeDecl(ast.NewIdent("T"), gen.SimpleType("int"))}}, parts...)
	src, err := gen.FormattedSource(file, "x.go")
	if err != nil {
		t.Fail("a package with the comment %q does not compile: %v", parts, err)
	}
	f, pkg, err = compile(string(src))
	if err != nil {
		t.Fail("a package with the comment %q does not compile: %v\n%s", parts, err, src)
	}
	if names := pkg.Scope().Names(); len(names) != 1 || names[0] != "T" || f.Name.Name != "p" {
		t.Fail("the package comment %q changes what is declared\n%s", parts, src)
	}
	got := commentWords(f.Comments)
	if !strings.HasSuffix(got, joined) || !strings.HasPrefix(got, "Codegeneratedby") {
		t.Fail("the package comment %q became %q\n%s", parts, got, src)
	}
	for _, g := range f.Comments {
		for _, c := range g.List {
			if constraint.IsGoBuild(c.Text) || constraint.IsPlusBuild(c.Text) || strings.HasPrefix(c.Text, "//go:") || strings.HasPrefix(c.Text, "//line ") || strings.HasPrefix(c.Text, "//export ") {
				t.Fail("the package comment %q became an instruction, %q\n%s", parts, c.Text, src)
			}
		}
	}
	// on a function
	fn, err := gen.Func("F").Comment(strings.Join(parts, "\n")).Body("return").Decl()
	if err != nil {
		t.Fail("Comment(%q): %v", parts, err)
	}
	out = render(fn)
	f, pkg, err = compile(out)
	if err != nil {
		t.Fail("a function with the comment %q does not compile: %v\n%s", parts, err, out)
	}
	if names := pkg.Scope().Names(); len(names) != 1 || names[0] != "F" {
		t.Fail("the comment %q of a function changes what is declared: %v\n%s", parts, names, out)
	}
	if got := commentWords(f.Comments); got != joined {
		t.Fail("the comment %q of a function became %q\n%s", parts, got, out)
	}
	t.Outcome(got)
}

var keywords = []string{"break", "default", "func", "interface", "select", "case", "defer", "go", "map", "struct", "chan", "else", "goto", "package", "switch",
	"const", "fallthrough", "if", "range", "type", "continue", "for", "import", "return", "var"}

func identifiers(t *mc.T) {
	forms := []string{"foo", "Foo", "_x", "x1", "é", "fo", "ifx", "Type", "GO", "any", "error", "nil", "x_", "string", "typ", "func_"}
	k := t.Free("identifier", len(keywords)+len(forms))
	var name string
	if k < len(keywords) {
		name = keywords[k]
	} else {
		name = forms[k-len(keywords)]
	}
	t.Input(name)
	t.Step()
	got := gen.Sanitize(name)
	if !token.IsIdentifier(got) {
		t.Fail("Sanitize(%q) = %q, which is not an identifier", name, got)
	}
	if k >= len(keywords) && got != name {
		t.Fail("Sanitize(%q) = %q", name, got)
	}
	if gen.Sanitize(got) != got {
		t.Fail("Sanitize(%q) = %q", got, gen.Sanitize(got))
	}
	pub := gen.Public(name)
	if !token.IsIdentifier(pub.Name) || name[0] != '_' && !pub.IsExported() || !strings.EqualFold(pub.Name, name) {
		t.Fail("Public(%q) = %q", name, pub.Name)
	}
	t.Outcome(got)
}

var argTypes = []string{"int", "*T", "[]byte", "func(a, b int) (string, error)", "map[string]*T", "chan<- int", "interface{ M() }", "[2]struct{ A, B int }"}

func functions(t *mc.T) {
	var args, returns []string
	names := []string{"a", "b", "c"}
	for i := 0; i < 3 && t.FreeBool("argument"); i++ {
		ty := argTypes[t.Choose("argument type", len(argTypes))]
		args = append(args, names[i]+" "+ty)
	}
	named := t.FreeBool("named results")
	for i := 0; i < 2 && t.FreeBool("result"); i++ {
		ty := argTypes[t.Choose("result type", len(argTypes))]
		if named {
			returns = append(returns, []string{"r", "s"}[i]+" "+ty)
		} else {
			returns = append(returns, ty)
		}
	}
	recv := t.FreePick("receiver", "", "t *T", "t T", "T")
	doc := t.FreePick("comment", "", "F does.", "two\nlines")
	body := t.FreePick("body", `panic("x")`, "var x int; _ = x\nfor { }", "for {\n\tpanic(%d)\n}\npanic(`%%}`)", "")
	tmpl := t.FreeBool("as a template")
	name := t.FreePick("name", "F", "g", "")
	fn := gen.Func(name).Args(args...).Returns(returns...).Receiver(recv).Comment(doc)
	want := strings.NewReplacer("%d", "7", "%%", "%").Replace(body)
	if tmpl {
		fn = fn.BodyTmpl(strings.NewReplacer("%d", "{{.N}}", "%%", "%").Replace(body), struct{ N int }{7})
	} else if strings.Contains(body, "%d") {
		fn = fn.Body(body, 7)
	} else {
		fn = fn.Body(strings.Replace(body, "%%", "%", -1))
	}
	if strings.Contains(want, "}`") {
		want = "for {\n\tpanic(7)\n}\npanic(`%}`)"
	}
	desc := fmt.Sprintf("Func(%q).Args(%q).Returns(%q).Receiver(%q).Comment(%q).Body(%q)", name, args, returns, recv, doc, want)
	t.Input(desc)
	t.Step()
	if fn.Name() != name {
		t.Fail("Name() = %q\n%s", fn.Name(), desc)
	}
	decl, err := fn.Decl()
	if name == "" || body == "" {
		if err == nil {
			t.Fail("Decl accepts a function without name or body\n%s", desc)
		}
		t.Outcome("refused")
		return
	}
	if err != nil {
		t.Fail("Decl: %v\n%s", err, desc)
	}
	out := render(decl) + "\n"
	expect := "package p\nfunc "
	if recv != "" {
		expect += "(" + recv + ") "
	}
	expect += name + "(" + strings.Join(args, ", ") + ") (" + strings.Join(returns, ", ") + ") {\n" + want + "\n}\ntype T struct{}\n"
	ef, epkg, err := compile(expect)
	if err != nil {
		t.Fail("harness: %v\n%s", err, expect)
	}
	f, pkg, err := compile(out + "\ntype T struct{}\n")
	if err != nil {
		t.Fail("the function does not compile: %v\n%s\n%s", err, out, desc)
	}
	sig := func(p *types.Package) string {
		q := func(*types.Package) string { return "" }
		if recv == "" {
			return types.ObjectString(p.Scope().Lookup(name), q)
		}
		n := p.Scope().Lookup("T").Type().(*types.Named)
		if n.NumMethods() != 1 {
			return "no method"
		}
		return types.ObjectString(n.Method(0), q)
	}
	t.Compared(2)
	if sig(pkg) != sig(epkg) {
		t.Fail("the function is %s, not %s\n%s", sig(pkg), sig(epkg), desc)
	}
	bodyText := func(f *ast.File) string {
		for _, d := range f.Decls {
			if d, ok := d.(*ast.FuncDecl); ok {
				var b bytes.Buffer
				for _, s := range d.Body.List {
					printer.Fprint(&b, token.NewFileSet(), s)
					b.WriteString("\n")
				}
				return strings.Join(strings.Fields(b.String()), " ")
			}
		}
		return ""
	}
	if bodyText(f) != bodyText(ef) {
		t.Fail("the body is\n%s\nnot\n%s\n%s", bodyText(f), bodyText(ef), desc)
	}
	if got := commentWords(f.Comments); got != words(doc) {
		t.Fail("the comment is %q\n%s", got, desc)
	}
	t.Outcome(out)
}

func structs(t *mc.T) {
	var args []ast.Expr
	type field struct{ name, typ, tag string }
	var want []field
	n := t.Free("fields", 4)
	for i := 0; i < n; i++ {
		f := field{name: string(rune('A' + i)), typ: t.Pick("type", "int", "[]byte", "*T", "string", "map[string]int"),
			tag: t.Pick("tag", "", `xml:"a,attr"`, `xml:"u\"rn:a b" json:"x"`, "xml:\"`\"", `other:"y" xml:",any"`, `json:"z"`)}
		embedded := t.Bool("embedded")
		if embedded {
			f.typ = []string{"E", "G", "H"}[i]
			f.name = f.typ
		}
		want = append(want, f)
		te, err := parser.ParseExpr(f.typ)
		if err != nil {
			t.Fail("harness: %v", err)
		}
		if embedded {
			args = append(args, nil, te)
		} else {
			args = append(args, ast.NewIdent(f.name), te)
		}
		if f.tag == "" {
			args = append(args, nil)
		} else {
			args = append(args, gen.String(f.tag))
		}
	}
	t.Input(fmt.Sprint(want))
	t.Step()
	st := gen.Struct(args...)
	out := render(gen.TypeDecl(ast.NewIdent("T"), st)) + "\ntype E int\ntype G int\ntype H int\n"
	_, pkg, err := compile(out)
	if err != nil {
		t.Fail("%v\n%s", err, out)
	}
	s := pkg.Scope().Lookup("T").Type().Underlying().(*types.Struct)
	if s.NumFields() != len(want) {
		t.Fail("%d fields, not %d\n%s", s.NumFields(), len(want), out)
	}
	for i, w := range want {
		f := s.Field(i)
		if f.Name() != w.name || types.TypeString(f.Type(), func(*types.Package) string { return "" }) != w.typ || s.Tag(i) != w.tag {
			t.Fail("field %d is %v with tag %q, want %v\n%s", i, f, s.Tag(i), w, out)
		}
		for _, key := range []string{"xml", "json", "none"} {
			t.Compared(1)
			if got := gen.TagKey(st.Fields.List[i], key); got != reflect.StructTag(w.tag).Get(key) {
				t.Fail("TagKey(%q, %q) = %q", w.tag, key, got)
			}
		}
	}
	t.Outcome(fmt.Sprint(want))
}

func constants(t *mc.T) {
	n := 1 + t.Free("constants", 3)
	kind := t.FreePick("kind", "int", "float", "char", "imaginary")
	typed := t.FreeBool("typed")
	vals := map[string][]string{"int": {"0", "42", "-7", "9223372036854775807"}, "float": {"1.5", "0.1", "1e10"}, "char": {"'a'", `'\n'`, "'é'"}, "imaginary": {"1i", "0.5i"}}[kind]
	var args []string
	var want []string
	for i := 0; i < n; i++ {
		v := vals[t.Free("value", len(vals))]
		typ := ""
		if typed {
			typ = "T"
		}
		args = append(args, string(rune('A'+i)), typ, v)
		want = append(want, v)
	}
	t.Input(fmt.Sprint(args))
	t.Step()
	var d *ast.GenDecl
	under := kind
	switch kind {
	case "int":
		d = gen.ConstInt(args...)
	case "float":
		d, under = gen.ConstFloat(args...), "float64"
	case "char":
		d, under = gen.ConstChar(args...), "rune"
	case "imaginary":
		d, under = gen.ConstImaginary(args...), "complex128"
	}
	out := render(d) + "\ntype T " + under + "\n"
	_, pkg, err := compile(out)
	if err != nil {
		t.Fail("%v\n%s", err, out)
	}
	for i, v := range want {
		c, ok := pkg.Scope().Lookup(string(rune('A' + i))).(*types.Const)
		if typed {
			v = under + "(" + v + ")"
		}
		tv, err := types.Eval(token.NewFileSet(), nil, token.NoPos, v)
		if !ok || err != nil || !constant.Compare(constant.ToComplex(c.Val()), token.EQL, constant.ToComplex(tv.Value)) {
			t.Fail("constant %d is %v, not %s\n%s", i, c, v, out)
		}
		if typed != strings.HasSuffix(c.Type().String(), ".T") {
			t.Fail("constant %d has type %v\n%s", i, c.Type(), out)
		}
	}
	t.Outcome(out)
}

// snippets: templates become the declarations they say, in order.
func snippets(t *mc.T) {
	pool := []string{
		"type {{.}} int", "var {{.}}1, {{.}}2 string", "func {{.}}F(x int) int { return x }\n", "// About {{.}}.\nconst {{.}}C = `{{title .}}`", "",
		"import \"fmt\"\nvar {{.}}P = fmt.Sprint(1)", "type {{.}} struct {", "x := 1", "var {{.", "{{nope .}}",
	}
	names := [][]string{{"T"}, {"T1", "T2"}, {"TF"}, {"TC"}, {}, {"TP"}}
	n := t.Free("snippets", 4)
	var list, want []string
	bad := false
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		k := t.Free("snippet", len(pool))
		if used[k] {
			t.Skip()
		}
		used[k] = true
		list = append(list, pool[k])
		if k < len(names) {
			want = append(want, names[k]...)
		} else {
			bad = true
		}
	}
	t.Input(fmt.Sprintf("%q", list))
	t.Step()
	decls, err := gen.Snippets("T", list...)
	if bad || err != nil {
		if bad != (err != nil) {
			t.Fail("Snippets(%q): error %v", list, err)
		}
		return
	}
	var got []string
	for _, d := range decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			got = append(got, d.Name.Name)
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					got = append(got, s.Name.Name)
				case *ast.ValueSpec:
					for _, n := range s.Names {
						got = append(got, n.Name)
					}
				}
			}
		}
	}
	t.Compared(1)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fail("Snippets(%q) declares %q, want %q", list, got, want)
	}
	t.Outcome(fmt.Sprint(got))
}

func main() {
	c41 := mc.Property{
		ID: "C41", Quick: 40, Thorough: 400,
		Assumptions: []string{"the types and bodies handed to the builders are Go source, as their documentation says"},
		Harnesses: []mc.Harness{
			{Name: "literals", Bounds: [2]int{0, 0}, Weight: 3,
				About: "every string of up to 3 (thorough 4) of 23 pieces (quotes, back-quotes, backslashes, line breaks, control characters, invalid UTF-8, byte order mark, comment marks), as literal, struct tag and constant; oracle: the Go compiler's front end evaluates it to the same string",
				Run: func(t *mc.T) {
					n := 3
					if t.Thorough {
						n = 4
					}
					literal(t, text(t, "piece", n, len(nasty)))
				}},
			{Name: "bytes", Bounds: [2]int{0, 0}, Weight: 1,
				About: "every string of one byte, and every pair with a quote, a back-quote or both",
				Run: func(t *mc.T) {
					b := string([]byte{byte(t.Free("byte", 256))})
					literal(t, t.FreePick("before", "", `"`, "`", "\"`")+b+t.FreePick("after", "", `"`, "`"))
				}},
			{Name: "comments", Bounds: [2]int{0, 0}, Weight: 3,
				About: "comments of one or two strings of up to 2 (thorough 3) pieces on a type, a package and a function; oracle: the file declares the same and its comments hold the same words",
				Run: func(t *mc.T) {
					n := 2
					if t.Thorough {
						n = 3
					}
					parts := []string{text(t, "piece", n, len(nasty))}
					if t.FreeBool("second string") {
						if len(parts[0]) > 3 && !t.Thorough {
							t.Skip()
						}
						parts = append(parts, text(t, "piece", 1, len(nasty)))
					}
					comments(t, parts)
				}},
			{Name: "directives", Bounds: [2]int{0, 0}, Weight: 1,
				About: "comments that look like build constraints, compiler directives and cgo markers, alone and after other lines; oracle: as for comments, and no comment of the formatted file is a directive",
				Run: func(t *mc.T) {
					d := t.FreePick("directive", "+build x", "go:build x", "+build !linux,386 x", "go:embed x", "go:generate rm x", "line x:1", "export T", "line x.go:7:3", "nolint", "+build", "go:linkname a b", "cgo CFLAGS: x", "\t+build x")
					before := t.FreePick("before", "", " ", "\n", "a\n", "\n\n", "//", "\ufeff")
					after := t.FreePick("after", "", "\n", "\nb", "\n\nb", " ")
					comments(t, []string{before + d + after})
				}},
			{Name: "long", Bounds: [2]int{0, 0}, Weight: 1,
				About: "comments with lines of up to 200000 characters and up to 5000 lines",
				Run: func(t *mc.T) {
					w := []int{1, 80, 5000, 65535, 65536, 65537, 200000}[t.Free("width", 7)]
					lines := []int{1, 2, 5000}[t.Free("lines", 3)]
					if w*lines > 400000 {
						t.Skip()
					}
					comments(t, []string{"start\n" + strings.Repeat(strings.Repeat("x", w)+"\n", lines) + "end"})
				}},
			{Name: "many", Bounds: [2]int{0, 0}, Weight: 1,
				About: "structs, functions, constants, snippets and texts with up to 130 (thorough 5000) parts",
				Run:   many},
			{Name: "refused", Bounds: [2]int{0, 0}, Weight: 1,
				About: "functions with parts that are not Go: an error, and no declaration; everything else gives a declaration that is Go",
				Run:   refused},
			{Name: "identifiers", Bounds: [2]int{0, 0}, Weight: 1,
				About: "every Go keyword and look-alike through Sanitize and Public",
				Run:   identifiers},
			{Name: "functions", Bounds: [2]int{1, 3}, Weight: 2,
				About: "functions with up to 3 arguments and 2 results of 8 types (1, thorough 3, deviations), 4 receivers, 3 comments, 4 bodies; oracle: the signature and body of the function written by hand",
				Run:   functions},
			{Name: "structs", Bounds: [2]int{3, 6}, Weight: 1,
				About: "structs of up to 3 fields with 5 types, 6 tags, embedded or not; oracle: fields, types, tags; TagKey against reflect",
				Run:   structs},
			{Name: "snippets", Bounds: [2]int{0, 0}, Weight: 0.5,
				About: "lists of up to 3 of 10 templates, well-formed and not",
				Run:   snippets},
			{Name: "constants", Bounds: [2]int{0, 0}, Weight: 1,
				About: "constant declarations of 3 kinds, typed and not",
				Run:   constants},
		},
	}
	mc.Main(c41, c42())
}

// --- commandline

var pieces = []string{"a", "->", " ", "-", ">", "(", "x*", "$1", "\t", "\n", "[", ",", `\d`, "é", "%", "%d", `"`, `\`}

func c42() mc.Property {
	arg := func(t *mc.T, max int) string {
		s := ""
		for i := 0; i < max; i++ {
			k := t.Free("piece", len(pieces)+1)
			if k == 0 {
				break
			}
			s += pieces[k-1]
		}
		return s
	}
	// rule says what a rule means: the text before the first arrow, the text
	// after it, neither with white space around it.
	rule := func(s string) (from, to string, ok bool) {
		i := strings.Index(s, "->")
		if i < 0 {
			return "", "", false
		}
		from, to = strings.TrimSpace(s[:i]), strings.TrimSpace(s[i+2:])
		_, err := regexp.Compile(from)
		return from, to, err == nil
	}
	return mc.Property{
		ID: "C42", Quick: 20, Thorough: 200,
		Harnesses: []mc.Harness{
			{Name: "rule", Bounds: [2]int{0, 0}, Weight: 2,
				About: "every argument of up to 5 (thorough 6) of 18 pieces (arrows, parts of arrows, white space, regular expression syntax, per cent signs, quotes); oracle: split at the first arrow, trimmed, compiled; or an error and no rule",
				Run: func(t *mc.T) {
					n := 5
					if t.Thorough {
						n = 6
					}
					s := arg(t, n)
					t.Input(strconv.Quote(s))
					t.Step()
					var l commandline.ReplaceRuleList
					err := l.Set(s)
					from, to, ok := rule(s)
					if (err == nil) != ok {
						t.Fail("Set(%q): %v", s, err)
					}
					if !ok {
						if len(l) != 0 {
							t.Fail("Set(%q) fails but adds a rule", s)
						}
						t.Outcome("refused")
						return
					}
					if len(l) != 1 || l[0].From.String() != from || l[0].To != to {
						t.Fail("Set(%q) adds %v, want %q and %q", s, l, from, to)
					}
					if p := l.String(); !strings.Contains(p, from+" -> "+to) {
						t.Fail("after Set(%q), String() = %q", s, p)
					}
					t.Outcome(from + "|" + to)
				}},
			{Name: "many", Bounds: [2]int{0, 0}, Weight: 1,
				About: "up to 1030 rules and strings, malformed ones among them, of up to 2000 characters; oracle: a list",
				Run:   manyFlags},
			{Name: "rules", Bounds: [2]int{0, 0}, Weight: 2,
				About: "every sequence of up to 4 (thorough 5) of 9 rules, good and bad; oracle: a list model; earlier rules never change, and printing does not change anything",
				Run: func(t *mc.T) {
					all := []string{"a->b", " (x+) -> $1 ", "a->c->d", "->", "bad", "[->x", "a ->", "-> b", "%d->%s"}
					n := 4
					if t.Thorough {
						n = 5
					}
					var l commandline.ReplaceRuleList
					var model [][2]string
					hist := ""
					for i := 0; i < n; i++ {
						k := t.Free("rule", len(all)+1)
						if k == 0 {
							break
						}
						s := all[k-1]
						hist += fmt.Sprintf("%q ", s)
						t.Step()
						err := l.Set(s)
						if from, to, ok := rule(s); ok {
							model = append(model, [2]string{from, to})
						} else if err == nil {
							t.Fail("Set(%q) is accepted", s)
						}
						p := l.String()
						want := ""
						if len(l) != len(model) {
							t.Fail("after %s: %d rules, want %d", hist, len(l), len(model))
						}
						for i, m := range model {
							t.Compared(1)
							if l[i].From.String() != m[0] || l[i].To != m[1] {
								t.Fail("after %s: rule %d is %v, want %v", hist, i, l[i], m)
							}
							want += m[0] + " -> " + m[1] + "\n"
						}
						if strings.Join(strings.Fields(p), " ") != strings.Join(strings.Fields(want), " ") {
							t.Fail("after %s: String() = %q", hist, p)
						}
					}
					t.Input(hist)
					t.Outcome(fmt.Sprint(model))
				}},
			{Name: "strings", Bounds: [2]int{0, 0}, Weight: 1,
				About: "every sequence of up to 4 of 6 strings; oracle: a list model",
				Run: func(t *mc.T) {
					all := []string{"", "a", "a,b", " ", "b\n", "%d"}
					var l commandline.Strings
					var model []string
					for i := 0; i < 4; i++ {
						k := t.Free("value", len(all)+1)
						if k == 0 {
							break
						}
						t.Step()
						if err := l.Set(all[k-1]); err != nil {
							t.Fail("Set(%q): %v", all[k-1], err)
						}
						model = append(model, all[k-1])
						if fmt.Sprintf("%q", []string(l)) != fmt.Sprintf("%q", model) {
							t.Fail("%q, want %q", l, model)
						}
						if l.String() != strings.Join(model, ",") {
							t.Fail("String() = %q of %q", l.String(), model)
						}
					}
					t.Input(fmt.Sprintf("%q", model))
					t.Outcome(fmt.Sprint(model))
				}},
		},
	}
}
