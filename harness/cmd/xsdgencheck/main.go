// Command xsdgencheck decides the properties of package xsdgen (C20-C25).
package main

import (
	"fmt"
	"go/types"
	"strings"

	"aqwari.net/xml/internal/gen"
	"aqwari.net/xml/verif/gocheck"
	"aqwari.net/xml/verif/mapsched"
	"aqwari.net/xml/verif/mc"
	. "aqwari.net/xml/verif/smodel"
	"aqwari.net/xml/xsd"
	"aqwari.net/xml/xsdgen"
)

func main() {
	mapsched.Sorted()
	mc.Main(c20(), c21(), c22(), c23(), c24(), c25())
}

// Most executions leave out the bundled schemas, which make up most of the
// work of every run.
var (
	standard = xsd.StandardSchema
	full     = false
)

// output is the result of one run of the generator.
type output struct {
	*gocheck.Package
	Code *xsdgen.Code
	Cfg  *xsdgen.Config
}

func source(docs [][]byte, opts ...xsdgen.Option) ([]byte, *xsdgen.Code, *xsdgen.Config, error) {
	xsd.StandardSchema = nil
	if full {
		xsd.StandardSchema = standard
	}
	cfg := new(xsdgen.Config)
	cfg.Option(opts...)
	code, err := cfg.GenCode(docs...)
	if err != nil {
		return nil, nil, nil, err
	}
	file, err := code.GenAST()
	if err != nil {
		return nil, nil, nil, err
	}
	src, err := gen.FormattedSource(file, "x.go")
	return src, code, cfg, err
}

// generate runs the generator and compiles what it wrote.
func generate(t *mc.T, text string, docs [][]byte, opts ...xsdgen.Option) output {
	t.Step()
	src, code, cfg, err := source(docs, opts...)
	if err != nil {
		t.Fail("the generator refuses a valid schema: %v\n%s", err, text)
	}
	p, err := gocheck.Check(src)
	if err != nil {
		t.Fail("%v\n%s\n%s", err, text, src)
	}
	return output{p, code, cfg}
}

var defaults = xsdgen.DefaultOptions

type (
	optionT = xsdgen.Option
	codeT   = *xsdgen.Code
	cfgT    = *xsdgen.Config
)

// identical tells whether a Go type is what an expression says.
func goType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Path() == "x" {
			return ""
		}
		return p.Name()
	})
}

// builtinGo is the Go type that stands for each built-in type.
var builtinGo = map[string]string{
	"anyType": "string", "anySimpleType": "string", "ENTITIES": "[]string", "ENTITY": "string", "ID": "string", "IDREF": "string", "IDREFS": "[]string",
	"NCName": "string", "NMTOKEN": "string", "NMTOKENS": "[]string", "NOTATION": "string", "Name": "string", "QName": "xml.Name", "anyURI": "string",
	"base64Binary": "[]byte", "boolean": "bool", "byte": "int8", "date": "time.Time", "dateTime": "time.Time", "decimal": "float64", "double": "float64",
	"duration": "string", "float": "float32", "gDay": "time.Time", "gMonth": "time.Time", "gMonthDay": "time.Time", "gYear": "time.Time", "gYearMonth": "time.Time",
	"hexBinary": "[]byte", "int": "int", "integer": "int", "language": "string", "long": "int64", "negativeInteger": "int", "nonNegativeInteger": "int",
	"normalizedString": "string", "nonPositiveInteger": "int", "positiveInteger": "int", "short": "int", "string": "string", "time": "time.Time", "token": "string",
	"unsignedByte": "byte", "unsignedInt": "uint", "unsignedLong": "uint64", "unsignedShort": "uint",
}

func leaf(e *Elem) *Particle { return &Particle{Kind: Leaf, Elem: e} }

func seq(kids ...*Particle) *Particle { return &Particle{Kind: Seq, Kids: kids} }

func joinLines(l ...string) string { return strings.Join(l, "\n") }

var _ = fmt.Sprint
