package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"

	"aqwari.net/xml/verif/mc"
	"aqwari.net/xml/verif/xmodel"
	"aqwari.net/xml/xmltree"
)

type decl = xmodel.Decl
type attr = xmodel.Attr

var docDecls = [][]decl{
	nil, {{"", "urn:u1"}}, {{"p", "urn:u1"}}, {{"p", "urn:u2"}}, {{"", ""}}, {{"p", "urn:u2"}, {"", "urn:u1"}},
	{{"q", "urn:u1"}, {"p", "urn:u1"}},
}

var docAttrs = [][]attr{
	nil,
	{{Local: "x", Raw: "1", Value: "1"}},
	{{Prefix: "p", Local: "x", Raw: "1", Value: "1"}},
	{{Local: "x", Raw: "&lt;&amp;&quot;&#65;'", Value: "<&\"A'"}},
	{{Local: "z", Raw: "p:v", Value: "p:v"}, {Prefix: "p", Local: "z", Raw: "", Value: ""}, {Local: "a", Raw: "é€", Value: "é€"}},
	{{Prefix: "xml", Local: "lang", Raw: "en", Value: "en"}, {Local: "x", Raw: "say \"hi\"", Value: "say \"hi\"", Quote: '\''}},
	{{Prefix: "p", Local: "xmlns", Raw: "no", Value: "no"}, {Local: "x", Raw: "2", Value: "2"}},
}

var docRaw = []string{
	"text", " \n\t", "é€\U0001F600", "a &lt;b&gt; &amp; &#x43;", "<!-- c <x> -->", "<![CDATA[<a>&]]>", "<?pi <b> ?>", "line\r\nline\r", "]] >",
	"<!---->", "<![CDATA[]]>",
}

func parse(doc string) (*xmltree.Element, error) { return xmltree.Parse([]byte(doc)) }

// mustParse parses a document that is valid by construction.
func mustParse(t *mc.T, doc string) *xmltree.Element {
	el, err := xmltree.Parse([]byte(doc))
	if err != nil {
		t.Fail("a well-formed document was refused: %v\n%s", err, doc)
	}
	return el
}

var encodings = []struct {
	label string
	enc   encoding.Encoding
	text  string
}{
	{"ISO-8859-1", charmap.ISO8859_1, "àéîõü"},
	{"iso-8859-15", charmap.ISO8859_15, "€Šé"},
	{"windows-1252", charmap.Windows1252, "“é€”"},
	{"windows-1251", charmap.Windows1251, "Привет"},
	{"KOI8-R", charmap.KOI8R, "Привет"},
	{"ISO-8859-2", charmap.ISO8859_2, "łąŽ"},
	{"Shift_JIS", japanese.ShiftJIS, "日本語ｶﾅ"},
	{"EUC-JP", japanese.EUCJP, "日本語"},
	{"GBK", simplifiedchinese.GBK, "中文字"},
	{"gb18030", simplifiedchinese.GB18030, "中文é字"},
	{"Big5", traditionalchinese.Big5, "中文字"},
	{"EUC-KR", korean.EUCKR, "한국어"},
	{"UTF-8", encoding.Nop, "é中\U0001F600"},
	{"utf-8", encoding.Nop, "é中\U0001F600"},
	{"US-ASCII", charmap.ISO8859_1, "abc"},
}

// checkTwice parses doc twice from one buffer and checks that the buffer is
// left alone.
func checkTwice(t *mc.T, doc []byte, n *xmodel.Node) *xmltree.Element {
	orig := append([]byte{}, doc...)
	// The slice has spare capacity filled with a pattern, so that writes
	// past its end are noticed too.
	buf := make([]byte, len(doc)+64)
	copy(buf, doc)
	for i := len(doc); i < len(buf); i++ {
		buf[i] = 0xA5
	}
	in := buf[:len(doc)]
	var last *xmltree.Element
	for round := 1; round <= 2; round++ {
		el, err := xmltree.Parse(in)
		if err != nil {
			t.Fail("parse %d of a well-formed document failed: %v\n%.2000q", round, err, orig)
		}
		if d := xmodel.Diff(n, el, true); d != "" {
			t.Fail("parse %d: %s\ndocument: %.2000q", round, d, orig)
		}
		if !bytes.Equal(in, orig) {
			t.Fail("parse %d changed the caller's bytes\nbefore: %.1000q\nafter:  %.1000q", round, orig, in)
		}
		for i := len(doc); i < len(buf); i++ {
			if buf[i] != 0xA5 {
				t.Fail("parse %d wrote beyond the caller's slice", round)
			}
		}
		last = el
	}
	return last
}

func c01() mc.Property {
	return mc.Property{
		ID: "C01", Quick: 30, Thorough: 900,
		Assumptions: []string{
			"documents are namespace-well-formed and use the XML 1.0 subset understood by encoding/xml (no DTD entities, no UTF-16)",
			"content longer than the explored lengths behaves like the explored ones around the 4096-byte read boundary",
		},
		Harnesses: []mc.Harness{
			{Name: "structure", Bounds: [2]int{4, 5}, Weight: 5,
				About: "all tree shapes up to 4 elements, with up to the bound of deviations in names, declarations, attributes, raw markup between and inside elements, prolog; oracle: model tree known by construction, compared node by node including content bytes; parsed twice from one buffer",
				Run: func(t *mc.T) {
					max := 3
					if t.Thorough {
						max = 4
					}
					n := xmodel.Gen(t, xmodel.Options{MaxNodes: max, Shapes: true,
						Names: []string{"a", "b", "p:a", "q:b"}, Decls: docDecls, Attrs: docAttrs, Raw: docRaw})
					if n == nil {
						t.Skip()
					}
					pro := t.Pick("prolog", "", `<?xml version="1.0"?>`, `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>`+"\n<!-- c --><?pi x?>\r\n", "\ufeff", "<!DOCTYPE a [<!ELEMENT a ANY>]>\n", " \n ")
					epi := t.Pick("epilog", "", "\n", "<!-- end --> <?pi?>")
					if t.Bool("declslast") {
						for _, e := range n.All() {
							e.DeclsLast = true
						}
					}
					if t.Bool("endspace") {
						for _, e := range n.All() {
							e.EndSpace = true
						}
					}
					if t.Bool("openempty") {
						for _, e := range n.All() {
							e.SelfClose = false
						}
					}
					doc := pro + n.Doc() + epi
					t.Input(doc)
					t.Outcome(fmt.Sprint(len(n.All()), len(doc)))
					checkTwice(t, []byte(doc), n)
				}},
			{Name: "encodings", Bounds: [2]int{2, 3}, Weight: 2,
				About: "all supported 8-bit and multi-byte encodings (free) with content lengths around the reader's 4096-byte blocks, in leaf, attribute and between siblings; oracle: model tree in UTF-8",
				Run: func(t *mc.T) {
					e := encodings[t.Free("encoding", len(encodings))]
					reps := []int{1, 0, 3, 700, 1364, 1365, 1366, 2048, 4090, 5000}[t.Choose("repeat", 10)]
					pad := t.Choose("pad", 6)
					text := e.text
					leaf := &xmodel.Node{Local: "b", Items: []xmodel.Item{{Raw: strings.Repeat("x", pad) + strings.Repeat(text, reps)}}}
					last := &xmodel.Node{Local: "c", SelfClose: true, Attrs: []attr{{Local: "v", Raw: text, Value: text}}}
					root := &xmodel.Node{Local: "a", Items: []xmodel.Item{{El: leaf}, {Raw: t.Pick("between", "\n", "", text, "<!-- "+text+" -->", "<![CDATA["+text+"]]>")}, {El: last}}}
					if t.Bool("ns") {
						root.Decls = []decl{{"", "urn:" + text}}
					}
					if t.Bool("leafroot") {
						root = leaf
					}
					quote := t.Pick("quote", "\"", "'")
					after := t.Pick("after", "", "\n", "\r\n  ", "<!-- "+text+" -->")
					head := `<?xml version="1.0" encoding=` + quote + e.label + quote + t.Pick("standalone", "", ` standalone="yes"`) + t.Pick("sp", "", " ") + `?>`
					doc := head + after + root.Doc()
					raw, err := e.enc.NewEncoder().Bytes([]byte(doc))
					if err != nil {
						panic(err)
					}
					t.Input(fmt.Sprintf("%s x%d pad%d %q", e.label, reps, pad, trim(doc)))
					t.Outcome(fmt.Sprint(len(doc), len(raw)))
					el := checkTwice(t, raw, root)
					for _, x := range append(el.Flatten(), el) {
						if !utf8.Valid(x.Content) {
							t.Fail("content of <%s> is not UTF-8", x.Name.Local)
						}
					}
				}},
			{Name: "malformed", Bounds: [2]int{2, 3}, Weight: 2,
				About: "every truncation point of every generated document, every end tag renamed or dropped, bad references, unquoted attributes, illegal characters, undeclared or unknown encodings: must give an error and a nil tree, never a panic",
				Run: func(t *mc.T) {
					n := xmodel.Gen(t, xmodel.Options{MaxNodes: 3, Shapes: true, Names: []string{"a", "p:b"}, Decls: [][]decl{{{"p", "urn:p"}}, nil}, Attrs: docAttrs[:4], Raw: docRaw})
					if n == nil {
						t.Skip()
					}
					doc := n.Doc()
					head := t.Pick("head", "", `<?xml version="1.0" encoding="ISO-8859-1"?>`, "<!-- x -->")
					if strings.Contains(head, "8859") {
						doc = strings.NewReplacer("é", "\xe9", "€", "?", "\U0001F600", "?").Replace(doc)
					}
					full := head + doc
					t.Input(full)
					bad := func(what, s string) {
						t.Compared(1)
						in := []byte(s)
						el, err := xmltree.Parse(in)
						if err == nil {
							t.FailKey(what+" "+s, "%s was accepted (tree %v): %q", what, el != nil, s)
						}
						if el != nil {
							t.FailKey(what+" "+s, "%s: a tree was returned together with the error: %q", what, s)
						}
						if string(in) != s {
							t.FailKey(what+" "+s, "%s: input bytes changed: %q", what, s)
						}
					}
					for i := 0; i < len(full); i++ {
						bad("truncated document", full[:i])
					}
					if !n.SelfClose {
						bad("renamed end tag", full[:len(full)-1]+"z>")
						bad("unknown entity", head+strings.Replace(doc, ">", ">&nosuch;", 1))
						bad("control character", head+strings.Replace(doc, ">", ">\x01", 1))
						bad("bare ampersand", head+strings.Replace(doc, ">", ">& ", 1))
						bad("double hyphen in comment", head+strings.Replace(doc, ">", "><!-- a -- b -->", 1))
					}
					bad("unquoted attribute", "<a x=1>"+doc+"</a>")
					bad("attribute without value", "<a x>"+doc+"</a>")
					bad("wrong nesting", "<w><v>"+doc+"</w></v>")
					bad("unknown encoding", `<?xml version="1.0" encoding="x-nosuch-9"?>`+doc)
					bad("CDATA end in text", "<w>]]>"+doc+"</w>")
					if head == "" {
						bad("invalid UTF-8", "<w>\xff"+doc+"</w>")
					}
					t.Outcome(fmt.Sprint(len(full)))
				}},
			bigParse(),
			{Name: "depth", Bounds: [2]int{0, 0}, Weight: 1,
				About: "documents nested 1..20000 deep, around the recursion limit: either the exact tree or an error, never a crash",
				Run: func(t *mc.T) {
					depths := []int{1, 2, 10, 500, 999, 1000, 1001, 1500, 2000, 2900, 3200, 5000, 20000, 100000}
					d := depths[t.Free("depth", len(depths))]
					leaf := t.Free("leaf", 3)
					mid := []string{"", "x", "<!-- -->"}[leaf]
					doc := strings.Repeat("<a>", d) + mid + strings.Repeat("</a>", d)
					t.Input(fmt.Sprintf("depth %d leaf %q", d, mid))
					el, err := xmltree.Parse([]byte(doc))
					if d >= 3200 {
						if err == nil {
							t.Fail("nesting of %d was accepted", d)
						}
						if el != nil {
							t.Fail("a tree was returned together with error %v", err)
						}
						return
					}
					if err != nil {
						t.Fail("nesting of %d: %v", d, err)
					}
					for i := 0; i < d; i++ {
						want := doc[3*(i+1) : len(doc)-4*(i+1)]
						if string(el.Content) != want || el.Name.Local != "a" {
							t.Fail("depth %d of %d: wrong content or name", i, d)
						}
						if i < d-1 {
							if len(el.Children) != 1 {
								t.Fail("depth %d of %d: %d children", i, d, len(el.Children))
							}
							el = &el.Children[0]
						} else if len(el.Children) != 0 {
							t.Fail("leaf has children")
						}
					}
				}},
			{Name: "noise", Bounds: [2]int{0, 0}, Weight: 3,
				About: "every string over a 13-token alphabet of XML fragments up to length 6 (thorough 7): parsing never panics, and agrees with an independent encoding/xml pass on acceptance of the first root element",
				Run: func(t *mc.T) {
					toks := []string{"", "<a>", "</a>", "<b/>", "</b>", "<b x='1'>", "t", "&lt;", "&", "<", ">", "<!--", "-->", "<?xml version='1.0' encoding='latin1'?>"}
					n := 5
					if t.Thorough {
						n = 6
					}
					var b strings.Builder
					for i := 0; i < n; i++ {
						k := t.Free(fmt.Sprint("tok", i), len(toks))
						if k == 0 {
							break
						}
						b.WriteString(toks[k])
					}
					s := b.String()
					t.Input(s)
					in := []byte(s)
					el, err := xmltree.Parse(in)
					if string(in) != s {
						t.Fail("input changed: %q -> %q", s, in)
					}
					want := wellFormedRoot(s)
					t.Outcome(fmt.Sprint(err == nil, want))
					if (err == nil) != want {
						t.Fail("Parse(%q): error %v, but a token-by-token check says well-formed=%v", s, err, want)
					}
					if (el != nil) != (err == nil) {
						t.Fail("Parse(%q): tree %v with error %v", s, el != nil, err)
					}
				}},
		},
	}
}

func trim(s string) string {
	if len(s) > 200 {
		return s[:200]
	}
	return s
}

// wellFormedRoot is an independent check of the first root element.
func wellFormedRoot(s string) bool {
	d := xml.NewDecoder(strings.NewReader(s))
	d.CharsetReader = func(label string, r io.Reader) (io.Reader, error) { return r, nil }
	depth := 0
	for {
		tok, err := d.Token()
		if err != nil {
			return false
		}
		switch tok.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			depth--
			if depth == 0 {
				return true
			}
		}
	}
}
