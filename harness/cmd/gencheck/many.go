package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"

	"aqwari.net/xml/internal/commandline"
	"aqwari.net/xml/internal/gen"
	"aqwari.net/xml/verif/mc"
)

// many: declarations with many parts.
func many(t *mc.T) {
	lengths := []int{5, 9, 17, 33, 65, 130}
	if t.Thorough {
		lengths = append(lengths, 257, 1030, 5000)
	}
	n := lengths[t.Free("how many", len(lengths))]
	what := t.FreePick("of what", "fields", "parameters", "results", "statements", "constants", "snippets", "text", "quotes", "template")
	pieces := []string{"int", "[]byte", "map[string]int", "func(a, b int) (c error)", "*T", "struct{ A, B int }", "chan<- int"}
	name := func(i int) string { return fmt.Sprintf("N%d", i) }
	t.Input(fmt.Sprint(n, what))
	t.Step()
	plain := func(x types.Type) string { return types.TypeString(x, func(*types.Package) string { return "" }) }
	want := func(i int) string {
		return strings.NewReplacer("struct{ A, B int }", "struct{A int; B int}", "a, b int", "a int, b int").Replace(pieces[i%len(pieces)])
	}
	check := func(out string) *types.Package {
		t.Compared(1)
		_, pkg, err := compile(out)
		if err != nil {
			t.Fail("%d %s: %v\n%.2000s", n, what, err, out)
		}
		return pkg
	}
	switch what {
	case "fields":
		var args []ast.Expr
		for i := 0; i < n; i++ {
			var tag ast.Expr
			if i%3 > 0 {
				tag = gen.String(fmt.Sprintf(`xml:"n%d"`, i))
			}
			l, err := gen.FieldList(name(i) + " " + pieces[i%len(pieces)])
			if err != nil || len(l.List) != 1 {
				t.Fail("FieldList: %v", err)
			}
			args = append(args, ast.NewIdent(name(i)), l.List[0].Type, tag)
			if tag == nil {
				args[len(args)-1] = nil
			}
		}
		s := check(render(gen.TypeDecl(ast.NewIdent("T"), gen.Struct(args...)))).Scope().Lookup("T").Type().Underlying().(*types.Struct)
		if s.NumFields() != n {
			t.Fail("%d fields, not %d", s.NumFields(), n)
		}
		for i := 0; i < n; i++ {
			tag := ""
			if i%3 > 0 {
				tag = fmt.Sprintf(`xml:"n%d"`, i)
			}
			if f := s.Field(i); f.Name() != name(i) || plain(f.Type()) != want(i) || s.Tag(i) != tag {
				t.Fail("field %d of %d is %v %q", i, n, f, s.Tag(i))
			}
		}
	case "parameters", "results":
		var list []string
		for i := 0; i < n; i++ {
			list = append(list, name(i)+" "+pieces[i%len(pieces)])
		}
		f := gen.Func("F").Body("return")
		if what == "parameters" {
			f = f.Args(list...)
		} else {
			f = f.Returns(list...)
		}
		d, err := f.Decl()
		if err != nil {
			t.Fail("%d %s: %v", n, what, err)
		}
		sig := check(render(d) + "\ntype T int\n").Scope().Lookup("F").Type().(*types.Signature)
		got := sig.Params()
		if what == "results" {
			got = sig.Results()
		}
		if got.Len() != n || sig.Params().Len()+sig.Results().Len() != n {
			t.Fail("%d %s, not %d", got.Len(), what, n)
		}
		for i := 0; i < n; i++ {
			if v := got.At(i); v.Name() != name(i) || plain(v.Type()) != want(i) {
				t.Fail("number %d of the %d %s is %v", i, n, what, v)
			}
		}
	case "statements", "template":
		var body, expect []string
		for i := 0; i < n; i++ {
			body = append(body, fmt.Sprintf("x[%d] = \"%%s {{ %d\"", i, i))
			expect = append(expect, fmt.Sprintf("x[%d] = \"%%s {{ %d\"", i, i))
		}
		f := gen.Func("F").Args("x []string")
		if what == "template" {
			f = f.BodyTmpl("{{range .}}{{.}}\n{{end}}", body)
		} else {
			f = f.Body("%s", strings.Join(body, "\n"))
		}
		d, err := f.Decl()
		if err != nil {
			t.Fail("%d %s: %v", n, what, err)
		}
		out := render(d)
		check(out)
		if len(d.Body.List) != n {
			t.Fail("%d statements, not %d", len(d.Body.List), n)
		}
		at := 0
		for _, e := range expect {
			k := strings.Index(out[at:], e)
			if k < 0 {
				t.Fail("no %q in order\n%.2000s", e, out)
			}
			at += k + len(e)
		}
	case "constants":
		var args []string
		for i := 0; i < n; i++ {
			args = append(args, name(i), "", fmt.Sprintf("text %d \"`\\", i))
		}
		p := check(render(gen.ConstString(args...)))
		if len(p.Scope().Names()) != n {
			t.Fail("%d constants, not %d", len(p.Scope().Names()), n)
		}
		for i := 0; i < n; i++ {
			c := p.Scope().Lookup(name(i)).(*types.Const)
			if got, w := c.Val().ExactString(), fmt.Sprintf("%q", fmt.Sprintf("text %d \"`\\", i)); got != w {
				t.Fail("constant %d is %s", i, got)
			}
		}
	case "snippets":
		var list []string
		for i := 0; i < n; i++ {
			list = append(list, fmt.Sprintf("type {{.}}%d %s\n", i, pieces[i%len(pieces)]))
		}
		decls, err := gen.Snippets("N", list...)
		if err != nil || len(decls) != n {
			t.Fail("Snippets: %d declarations of %d, %v", len(decls), n, err)
		}
		var out []string
		for _, d := range decls {
			out = append(out, render(d))
		}
		src := "package p\ntype T int\n"
		for _, o := range out {
			src += strings.TrimPrefix(o, "package p\n") + "\n"
		}
		p := check(src)
		for i := 0; i < n; i++ {
			if o := p.Scope().Lookup(name(i)); o == nil || plain(o.Type().Underlying()) != want(i) && want(i) != "*T" {
				t.Fail("number %d is %v", i, o)
			}
		}
	case "text":
		for _, unit := range []string{"a", "\"", "`", "\n", "\\", "é", "\x00"} {
			literal(t, strings.Repeat(unit+"bc", n))
		}
	case "quotes":
		for _, unit := range []string{"\"`", "``", "*/", "//", "/*", "\\\"", "{{"} {
			literal(t, strings.Repeat(unit, n))
			comments(t, []string{strings.Repeat(unit, n)})
		}
	}
	t.State(fmt.Sprint(n, what))
}

// refused: what is not Go gives an error, and nothing else.
func refused(t *mc.T) {
	f := gen.Func("F").Body("return")
	bad := false
	try := func(label string, values []string, from int, set func(s string)) {
		if k := t.Free(label, len(values)+1); k > 0 {
			set(values[k-1])
			bad = bad || k-1 >= from
		}
	}
	try("body", []string{"return", "x := 1; _ = x", "return (", "}", "} func g() {", "if {", "x :=", "\"", "/*", "for i := range"}, 2, func(s string) { f = f.Body("%s", s) })
	try("template", []string{"return", "_ = {{.}}", "{{", "{{.X}}", "{{nope .}}", "{{end}}", "{{range .}}", "{{template \"none\"}}"}, 2, func(s string) { f = f.BodyTmpl(s, 7) })
	try("argument", []string{"a int", "int", "a", "a [", "a {", "a int)", ""}, 3, func(s string) { f = f.Args(s) })
	try("result", []string{"a int", "int", "a [", "a int)", ""}, 2, func(s string) { f = f.Returns(s) })
	try("receiver", []string{"a *T", "T", "a [", "a *T)"}, 2, func(s string) { f = f.Receiver(s) })
	t.Step()
	t.Compared(1)
	d, err := f.Decl()
	if err == nil {
		if bad {
			// a later body replaces an earlier one
			t.Outcome("accepted")
		}
		if d == nil {
			t.Fail("neither a declaration nor an error")
		}
		out := render(d)
		if _, _, perr := compile(strings.Replace(out, "func (", "type T int\nfunc (", 1)); perr != nil && strings.Contains(perr.Error(), "expected") {
			t.Fail("Decl accepts what is not Go: %v\n%s", perr, out)
		}
		return
	}
	if !bad {
		t.Fail("Decl: %v", err)
	}
	if d != nil {
		t.Fail("a declaration and an error, %v", err)
	}
	t.Outcome("refused")
	defer func() {
		if e := recover(); e == nil {
			t.Fail("MustDecl does not panic")
		} else if _, ok := e.(error); !ok {
			panic(e)
		}
	}()
	f.MustDecl()
}

// manyFlags: many flags.
func manyFlags(t *mc.T) {
	lengths := []int{9, 17, 33, 65, 130, 1030}
	n := lengths[t.Free("flags", len(lengths))]
	every := []int{0, 2, 7}[t.Free("malformed", 3)]
	long := []int{0, 100, 1000}[t.Free("length", 3)]
	t.Input(fmt.Sprint(n, every, long))
	t.Step()
	var rules commandline.ReplaceRuleList
	var strs commandline.Strings
	var from, to []string
	for i := 0; i < n; i++ {
		a, b := fmt.Sprintf("a%d%s", i, strings.Repeat("x", long)), fmt.Sprintf("b%d%s", i, strings.Repeat("$1", long))
		if every > 0 && i%every == 1 {
			if rules.Set("["+a+"->"+b) == nil {
				t.Fail("a malformed rule is accepted")
			}
		} else {
			if err := rules.Set(a + " -> " + b); err != nil {
				t.Fail("Set: %v", err)
			}
			from, to = append(from, a), append(to, b)
		}
		if err := strs.Set(a); err != nil {
			t.Fail("Set: %v", err)
		}
		t.Compared(1)
		if len(rules) != len(from) || len(strs) != i+1 || strs[i] != a {
			t.Fail("after %d flags: %d rules, not %d; %d strings", i+1, len(rules), len(from), len(strs))
		}
	}
	for i := range from {
		if rules[i].From.String() != from[i] || rules[i].To != to[i] {
			t.Fail("rule %d of %d is %.100v", i, n, rules[i])
		}
	}
	if s := strs.String(); len(strings.Split(s, ",")) != n {
		t.Fail("String() = %.300s", s)
	}
	want := ""
	for i := range from {
		want += from[i] + " -> " + to[i] + " "
	}
	if got := strings.Join(strings.Fields(rules.String()), " "); got != strings.TrimSpace(want) {
		t.Fail("String() = %.300s", got)
	}
	t.State(fmt.Sprint(n, every, long))
}
