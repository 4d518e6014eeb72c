package main

import (
	"aqwari.net/xml/verif/mc"
	. "aqwari.net/xml/verif/smodel"
)

func run(t *mc.T, sc scen) (output, string) {
	docs := sc.raw
	if docs == nil {
		docs = sc.docs()
	}
	text := Text(docs)
	t.Input(text)
	full = sc.full
	out := generate(t, text, docs, sc.opts...)
	t.State(out.Src)
	return out, text
}

func c20() mc.Property {
	p := mc.Property{ID: "C20", Quick: 200, Thorough: 880,
		Assumptions: []string{"the compiler's front end (go/parser, go/types) stands for compilation; C22 builds and runs generated packages with the real compiler"}}
	for _, b := range builders() {
		b := b
		p.Harnesses = append(p.Harnesses, mc.Harness{Name: b.Name, About: b.About + "; oracle: the source is accepted by the Go compiler's front end with only the standard library, and is formatted", Bounds: b.Bounds, Weight: b.Weight,
			Run: func(t *mc.T) {
				sc := b.Build(t)
				sc.finish(t)
				run(t, sc)
			}})
	}
	return p
}

func c21() mc.Property {
	p := mc.Property{ID: "C21", Quick: 200, Thorough: 880,
		Assumptions: []string{"the elements that a restriction does not mention may or may not have fields, and attributes keep their local names only unless they are declared qualified"}}
	for _, b := range builders() {
		b := b
		p.Harnesses = append(p.Harnesses, mc.Harness{Name: b.Name, About: b.About + "; oracle: the declarations are compared with the reference model of the schema", Bounds: b.Bounds, Weight: b.Weight,
			Run: func(t *mc.T) {
				sc := b.Build(t)
				sc.finish(t)
				out, text := run(t, sc)
				if sc.check != nil {
					sc.check(t, out)
					return
				}
				m := newMatcher(t, out, sc.set, text, sc.ignore...)
				m.slices = sc.slices
				m.all(sc.only...)
			}})
	}
	return p
}
