H='package main\n\nimport (\n\t"fmt"\n\t"os"\n%s)\n\nfunc fail(f string, v ...interface{}) {\n\tfmt.Printf(f+"\\n", v...)\n\tos.Exit(1)\n}\n\n'
seed("content-last-child","C01",
 [("xmltree/xmltree.go","""		}
		end = scanner.InputOffset()
	}
	return scanner.err""","""		}
		if _, ok := scanner.tok.(xml.Comment); !ok || len(el.Children) == 0 {
			end = scanner.InputOffset()
		}
	}
	return scanner.err""")],
 "an element whose last child element is followed by a comment that ends the content",
 "Content stops before a trailing comment, so the bytes between the tags are not what the document has",
 H%'\n\t"aqwari.net/xml/xmltree"\n'+'''func main() {
	el, err := xmltree.Parse([]byte("<a><b/>x<!-- c --></a>"))
	if err != nil {
		fail("%v", err)
	}
	if string(el.Content) != "<b/>x<!-- c -->" {
		fail("content is %q", el.Content)
	}
}
''')
seed("setattr-default-namespace","C05",
 [("xmltree/xmltree.go","""		if space == "" || a.Name.Space == space {
			el.StartElement.Attr[i].Value = value""","""		if space == "" || a.Name.Space == space || el.Resolve(a.Name.Space+":").Space == space {
			el.StartElement.Attr[i].Value = value""")],
 "SetAttr with a namespace that is what the default namespace of the element is, when an unqualified attribute of the same name exists",
 "a qualified attribute overwrites the unqualified one of the same name",
 H%'\n\t"aqwari.net/xml/xmltree"\n'+'''func main() {
	el, err := xmltree.Parse([]byte(`<a xmlns:p="urn:x" xmlns="urn:x" href="1"/>`))
	if err != nil {
		fail("%v", err)
	}
	el.SetAttr("urn:x", "href", "2")
	n := 0
	for _, a := range el.StartElement.Attr {
		if a.Name.Space == "" && a.Name.Local == "href" && a.Value == "1" {
			n++
		}
	}
	if n != 1 {
		fail("%v", el.StartElement.Attr)
	}
}
''')
seed("graph-skip-visited-once","C40",
 [("internal/dependency/graph.go","""		if !visited[tgt] {
			visited[tgt] = true
			g.flatten(walk, g.nodes[tgt], visited)
			walk(tgt)
		}
	}
}

func""","""		if !visited[tgt] {
			visited[tgt] = true
			g.flatten(walk, g.nodes[tgt], visited)
			if deps := g.nodes[tgt]; len(deps) == 1 && deps[0] == tgt {
				continue
			}
			walk(tgt)
		}
	}
}

func""")],
 "a node whose only dependency is itself, and which nothing else depends on before it",
 "such a node is never visited",
 H%'\n\t"aqwari.net/xml/internal/dependency"\n'+'''func main() {
	var g dependency.Graph
	g.Add(1, 1)
	g.Add(2, 3)
	n := 0
	g.Flatten(func(int) { n++ })
	if n != 3 {
		fail("%d nodes visited", n)
	}
}
''')
seed("rule-last-arrow","C42",
 [("internal/commandline/cli.go","strings.SplitN(s, \"->\", 2)","strings.SplitN(strings.TrimSuffix(s, \"->\"), \"->\", 2)")],
 "a rule whose replacement ends in an arrow",
 "the arrow at the end of the replacement is lost",
 H%'\n\t"aqwari.net/xml/internal/commandline"\n'+'''func main() {
	var l commandline.ReplaceRuleList
	if err := l.Set("a -> b->"); err != nil {
		fail("%v", err)
	}
	if l[0].To != "b->" {
		fail("%q", l[0].To)
	}
}
''')
