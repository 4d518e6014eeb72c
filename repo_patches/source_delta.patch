From 00df0397094818c400fc0337a8f52e21ee1bd757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:48 +0000
Subject: [PATCH 01/80] fix: xmltree: do not overwrite the input or lose a byte
 in documents that are not UTF-8

---
 xmltree/xmltree.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 47567f4..5aee451 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -214,7 +214,7 @@ func Parse(doc []byte) (*Element, error) {
 	// stream. If the source document is not utf8, the position may be
 	// incorrect and cause invalid data or a run-time panic. So we copy
 	// the utf8 conversion to an internal buffer.
-	utf8buf := bytes.NewBuffer(doc[:0])
+	data := doc
 	d.CharsetReader = func(label string, r io.Reader) (io.Reader, error) {
 		utf8input, err := charset.NewReaderLabel(label, r)
 		if err != nil {
@@ -224,13 +224,14 @@ func Parse(doc []byte) (*Element, error) {
 		// parsed the <?xml?> header. To be able to index
 		// into the document, we need to account for this.
 		padding := make([]byte, int(d.InputOffset()))
-		utf8buf.Write(padding)
+		utf8buf := bytes.NewBuffer(padding)
 
 		_, err = io.Copy(utf8buf, utf8input)
 		if err != nil {
 			return nil, err
 		}
-		return bytes.NewReader(utf8buf.Bytes()[len(padding)+1:]), nil
+		data = utf8buf.Bytes()
+		return bytes.NewReader(data[len(padding):]), nil
 	}
 	scanner := scanner{Decoder: d}
 	root := new(Element)
@@ -244,7 +245,7 @@ func Parse(doc []byte) (*Element, error) {
 	if scanner.err != nil {
 		return nil, scanner.err
 	}
-	if err := root.parse(&scanner, utf8buf.Bytes(), 0); err != nil {
+	if err := root.parse(&scanner, data, 0); err != nil {
 		return nil, err
 	}
 	return root, nil
-- 
2.43.0


From 14bbd89f5d48ae1ab918ce501b469b1b5c000389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:48 +0000
Subject: [PATCH 02/80] fix: xmltree: JoinScope must not share its backing
 array with the outer scope

---
 xmltree/xmltree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 5aee451..3bf1359 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -71,7 +71,7 @@ func (el *Element) Attr(space, local string) string {
 // prefixes using the returned scope, the prefix list in the argument
 // Scope is searched before that of the receiver Scope.
 func (outer *Scope) JoinScope(inner *Scope) *Scope {
-	return &Scope{append(outer.ns, inner.ns...)}
+	return &Scope{append(outer.ns[:len(outer.ns):len(outer.ns)], inner.ns...)}
 }
 
 // Unmarshal parses the XML encoding of the Element and stores the result
-- 
2.43.0


From 820c45e784df9b884e9b8f6bd574ff6bff8351f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:48 +0000
Subject: [PATCH 03/80] fix: xmltree: a prefixed attribute named xmlns is not a
 namespace declaration

---
 xmltree/xmltree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 3bf1359..381184a 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -167,7 +167,7 @@ func (scope *Scope) pushNS(tag xml.StartElement) []xml.Attr {
 	for _, attr := range tag.Attr {
 		if attr.Name.Space == "xmlns" {
 			ns = append(ns, xml.Name{attr.Value, attr.Name.Local})
-		} else if attr.Name.Local == "xmlns" {
+		} else if attr.Name.Space == "" && attr.Name.Local == "xmlns" {
 			ns = append(ns, xml.Name{attr.Value, ""})
 		} else {
 			newAttrs = append(newAttrs, attr)
-- 
2.43.0


From ce16bcba10a2c4f2c506b06bc6533a05def85965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:48 +0000
Subject: [PATCH 04/80] fix: xmltree: Prefix must ignore shadowed prefixes and
 return unqualified names

---
 xmltree/xmltree.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 381184a..580ff24 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -149,6 +149,9 @@ func (scope *Scope) Prefix(name xml.Name) (qname string) {
 	}
 	for i := len(scope.ns) - 1; i >= 0; i-- {
 		if scope.ns[i].Space == name.Space {
+			if scope.shadowed(i) {
+				continue
+			}
 			if scope.ns[i].Local == "" {
 				// Favor default NS if there is an extra
 				// qualified NS declaration
@@ -158,9 +161,23 @@ func (scope *Scope) Prefix(name xml.Name) (qname string) {
 			}
 		}
 	}
+	if len(qname) == 0 {
+		return name.Local
+	}
 	return qname
 }
 
+// shadowed returns true if the prefix of the i'th namespace declaration
+// is declared again, closer to the element the scope belongs to.
+func (scope *Scope) shadowed(i int) bool {
+	for _, ns := range scope.ns[i+1:] {
+		if ns.Local == scope.ns[i].Local {
+			return true
+		}
+	}
+	return false
+}
+
 func (scope *Scope) pushNS(tag xml.StartElement) []xml.Attr {
 	var ns []xml.Name
 	var newAttrs []xml.Attr
-- 
2.43.0


From f98ec946f22f8a87bf2a7417b42a8cbab4ad375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:31 +0000
Subject: [PATCH 05/80] fix: xmltree: serialised names, attributes and
 namespace declarations must parse back to the same tree

---
 xmltree/marshal.go | 128 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 97 insertions(+), 31 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index ca949fe..385edda 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -3,6 +3,7 @@ package xmltree
 import (
 	"bytes"
 	"encoding/xml"
+	"fmt"
 	"io"
 	"text/template"
 )
@@ -11,16 +12,28 @@ import (
 // prefixes in attribute names. Therefore we add .Name.Space verbatim
 // instead of trying to resolve it. One consequence is this is that we cannot
 // rename prefixes without some work.
-var tagTmpl = template.Must(template.New("Marshal XML tags").Parse(
+var tagTmpl = template.Must(template.New("Marshal XML tags").Funcs(tagFuncs).Parse(
 	`{{define "start" -}}
 	<{{.Scope.Prefix .Name -}}
-	{{range .StartElement.Attr}} {{$.Scope.Prefix .Name -}}="{{.Value}}"{{end -}}
-	{{range .NS }} xmlns{{ if .Local }}:{{ .Local }}{{end}}="{{ .Space }}"{{end -}}
+	{{range .StartElement.Attr}} {{attrName $.Scope .Name -}}="{{.Value | escape}}"{{end -}}
+	{{range .NS }} xmlns{{ if .Local }}:{{ .Local }}{{end}}="{{ .Space | escape }}"{{end -}}
 	{{if or .Children .Content}}>{{else}} />{{end}}
 	{{- end}}
 
 	{{define "end" -}}
-	</{{.Prefix .Name}}>{{end}}`))
+	</{{.Scope.Prefix .Name}}>{{end}}`))
+
+var tagFuncs = template.FuncMap{
+	"escape":   escape,
+	"attrName": (*Scope).attrPrefix,
+}
+
+// escape escapes a string for use as an attribute value.
+func escape(s string) (string, error) {
+	var buf bytes.Buffer
+	err := xml.EscapeText(&buf, []byte(s))
+	return buf.String(), err
+}
 
 // Marshal produces the XML encoding of an Element as a self-contained
 // document. The xmltree package may adjust the declarations of XML
@@ -50,7 +63,7 @@ func MarshalIndent(el *Element, prefix, indent string) []byte {
 		indent: indent,
 		pretty: true,
 	}
-	if err := enc.encode(el, nil, make(map[*Element]struct{})); err != nil {
+	if err := enc.encode(el, new(Scope), make(map[*Element]struct{})); err != nil {
 		panic(err)
 	}
 	return buf.Bytes()
@@ -60,7 +73,7 @@ func MarshalIndent(el *Element, prefix, indent string) []byte {
 // Encode returns any errors encountered writing to w.
 func Encode(w io.Writer, el *Element) error {
 	enc := encoder{w: w}
-	return enc.encode(el, nil, make(map[*Element]struct{}))
+	return enc.encode(el, new(Scope), make(map[*Element]struct{}))
 }
 
 // String returns the XML encoding of an Element
@@ -80,7 +93,7 @@ type encoder struct {
 // be "pulled" in, so they can be resolved properly. This is trickier than
 // just defining everything at the top level because there may be conflicts
 // introduced by the modifications.
-func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) error {
+func (e *encoder) encode(el *Element, outer *Scope, visited map[*Element]struct{}) error {
 	if len(visited) > recursionLimit {
 		// We only return I/O errors
 		return nil
@@ -90,8 +103,8 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 		e.w.Write([]byte("<!-- cycle detected -->"))
 		return nil
 	}
-	scope := diffScope(parent, el)
-	if err := e.encodeOpenTag(el, scope, len(visited)); err != nil {
+	scope := contentScope(outer, el)
+	if err := e.encodeOpenTag(el, scope, diffScope(outer, scope), len(visited)); err != nil {
 		return err
 	}
 	if len(el.Children) == 0 {
@@ -103,37 +116,85 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 	}
 	for i := range el.Children {
 		visited[el] = struct{}{}
-		if err := e.encode(&el.Children[i], el, visited); err != nil {
+		if err := e.encode(&el.Children[i], scope, visited); err != nil {
 			return err
 		}
 		delete(visited, el)
 	}
-	if err := e.encodeCloseTag(el, len(visited)); err != nil {
+	if err := e.encodeCloseTag(el, scope, len(visited)); err != nil {
 		return err
 	}
 	return nil
 }
 
-// diffScope returns the Scope of the child element, minus any
-// identical namespace declaration in the parent's scope.
-func diffScope(parent, child *Element) Scope {
-	if parent == nil { // root element
-		return child.Scope
-	}
-	childScope := child.Scope
-	parentScope := parent.Scope
-	for len(parentScope.ns) > 0 && len(childScope.ns) > 0 {
-		if childScope.ns[0] == parentScope.ns[0] {
-			childScope.ns = childScope.ns[1:]
-			parentScope.ns = parentScope.ns[1:]
-		} else {
-			break
+// contentScope returns the Scope that is in effect within the tags of el,
+// in a document where outer is in effect around it. It is the Scope of
+// el, plus declarations for any namespace used in the name or attributes
+// of el that its Scope does not have a usable prefix for.
+func contentScope(outer *Scope, el *Element) *Scope {
+	scope := &el.Scope
+	declare := func(prefix, space string) {
+		scope = scope.JoinScope(&Scope{[]xml.Name{{Space: space, Local: prefix}}})
+	}
+	declareNew := func(space string) {
+		for n := 0; ; n++ {
+			prefix := fmt.Sprintf("ns%d", n)
+			if _, ok := scope.ResolveNS(prefix + ":"); !ok {
+				declare(prefix, space)
+				return
+			}
+		}
+	}
+	if el.Name.Space == "" && scope.Resolve("").Space != "" {
+		declare("", "")
+	} else if scope.Resolve(scope.Prefix(el.Name)) != el.Name {
+		declareNew(el.Name.Space)
+	}
+	for _, attr := range el.StartElement.Attr {
+		if attr.Name.Space != "" && scope.attrPrefix(attr.Name) == attr.Name.Local {
+			declareNew(attr.Name.Space)
+		}
+	}
+	if outer.Resolve("").Space != "" {
+		if _, ok := scope.ResolveNS(""); !ok {
+			declare("", "")
 		}
 	}
-	return childScope
+	return scope
 }
 
-func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
+// diffScope returns the namespace declarations of the inner Scope that
+// are not shadowed or already in effect in the outer Scope.
+func diffScope(outer, inner *Scope) Scope {
+	var diff Scope
+	for i, ns := range inner.ns {
+		if inner.shadowed(i) {
+			continue
+		}
+		if name, ok := outer.ResolveNS(ns.Local + ":"); ok && name.Space == ns.Space {
+			continue
+		}
+		diff.ns = append(diff.ns, ns)
+	}
+	return diff
+}
+
+// attrPrefix is like Prefix, but for the name of an attribute. The default
+// namespace does not apply to attributes.
+func (scope *Scope) attrPrefix(name xml.Name) (qname string) {
+	switch name.Space {
+	case "", xmlLangURI, xmlNamespaceURI:
+		return scope.Prefix(name)
+	}
+	for i := len(scope.ns) - 1; i >= 0; i-- {
+		if scope.ns[i].Space == name.Space && scope.ns[i].Local != "" && !scope.shadowed(i) {
+			return scope.ns[i].Local + ":" + name.Local
+		}
+	}
+	return name.Local
+}
+
+func (e *encoder) encodeOpenTag(el *Element, scope *Scope, diff Scope, depth int) error {
 	if e.pretty {
 		for i := 0; i < depth; i++ {
 			io.WriteString(e.w, e.indent)
@@ -141,8 +202,9 @@ func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 	}
 	var tag = struct {
 		*Element
-		NS []xml.Name
-	}{Element: el, NS: scope.ns}
+		Scope *Scope
+		NS    []xml.Name
+	}{Element: el, Scope: scope, NS: diff.ns}
 	if err := tagTmpl.ExecuteTemplate(e.w, "start", tag); err != nil {
 		return err
 	}
@@ -154,7 +216,7 @@ func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 	return nil
 }
 
-func (e *encoder) encodeCloseTag(el *Element, depth int) error {
+func (e *encoder) encodeCloseTag(el *Element, scope *Scope, depth int) error {
 	if e.pretty {
 		for i := 0; i < depth; i++ {
 			if len(el.Children) > 0 {
@@ -162,7 +224,11 @@ func (e *encoder) encodeCloseTag(el *Element, depth int) error {
 			}
 		}
 	}
-	if err := tagTmpl.ExecuteTemplate(e.w, "end", el); err != nil {
+	var tag = struct {
+		*Element
+		Scope *Scope
+	}{Element: el, Scope: scope}
+	if err := tagTmpl.ExecuteTemplate(e.w, "end", tag); err != nil {
 		return err
 	}
 	if e.pretty {
-- 
2.43.0


From 2613eaf6f907823df0f7492b518e8067c3784b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 06/80] fix: xmltree: Encode must report every error of the
 writer

---
 xmltree/marshal.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index 385edda..1d130c2 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -72,8 +72,31 @@ func MarshalIndent(el *Element, prefix, indent string) []byte {
 // Encode writes the XML encoding of the Element to w.
 // Encode returns any errors encountered writing to w.
 func Encode(w io.Writer, el *Element) error {
-	enc := encoder{w: w}
-	return enc.encode(el, new(Scope), make(map[*Element]struct{}))
+	ew := &errWriter{w: w}
+	enc := encoder{w: ew}
+	if err := enc.encode(el, new(Scope), make(map[*Element]struct{})); err != nil {
+		return err
+	}
+	return ew.err
+}
+
+// An errWriter remembers the first error of the underlying Writer,
+// and writes nothing more after it.
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (ew *errWriter) Write(p []byte) (int, error) {
+	if ew.err != nil {
+		return 0, ew.err
+	}
+	n, err := ew.w.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	ew.err = err
+	return n, err
 }
 
 // String returns the XML encoding of an Element
-- 
2.43.0


From 094eb8c34d7974fb0ce7da69f0b183bfe660f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:33 +0000
Subject: [PATCH 07/80] fix: xmltree: MarshalIndent must begin each line with
 the prefix

---
 xmltree/marshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index 1d130c2..6aac27e 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -219,6 +219,7 @@ func (scope *Scope) attrPrefix(name xml.Name) (qname string) {
 
 func (e *encoder) encodeOpenTag(el *Element, scope *Scope, diff Scope, depth int) error {
 	if e.pretty {
+		io.WriteString(e.w, e.prefix)
 		for i := 0; i < depth; i++ {
 			io.WriteString(e.w, e.indent)
 		}
@@ -241,6 +242,9 @@ func (e *encoder) encodeOpenTag(el *Element, scope *Scope, diff Scope, depth int
 
 func (e *encoder) encodeCloseTag(el *Element, scope *Scope, depth int) error {
 	if e.pretty {
+		if len(el.Children) > 0 {
+			io.WriteString(e.w, e.prefix)
+		}
 		for i := 0; i < depth; i++ {
 			if len(el.Children) > 0 {
 				io.WriteString(e.w, e.indent)
-- 
2.43.0


From 165d538f74572018274c31ff097d1afc2ec696ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:34 +0000
Subject: [PATCH 08/80] fix: xmltree: Equal must not reorder its arguments and
 must ignore the order of like-named elements

---
 xmltree/compare.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/xmltree/compare.go b/xmltree/compare.go
index 4e31dbd..bd86db5 100644
--- a/xmltree/compare.go
+++ b/xmltree/compare.go
@@ -3,7 +3,6 @@ package xmltree
 import (
 	"bytes"
 	"encoding/xml"
-	"sort"
 )
 
 // Equal returns true if two xmltree.Elements are equal, ignoring
@@ -12,16 +11,8 @@ func Equal(a, b *Element) bool {
 	return equal(a, b, 0)
 }
 
-type byName []Element
-
-func (l byName) Len() int { return len(l) }
-func (l byName) Less(i, j int) bool {
-	return l[i].Name.Space+l[i].Name.Local < l[j].Name.Space+l[j].Name.Local
-}
-func (l byName) Swap(i, j int) { l[i], l[j] = l[j], l[i] }
-
 func equal(a, b *Element, depth int) bool {
-	const maxDepth = 1000
+	const maxDepth = recursionLimit
 	if depth > maxDepth {
 		return false
 	}
@@ -34,12 +25,18 @@ func equal(a, b *Element, depth int) bool {
 	if len(a.Children) == 0 {
 		return bytes.Equal(bytes.TrimSpace(a.Content), bytes.TrimSpace(b.Content))
 	}
-	sort.Sort(byName(a.Children))
-	sort.Sort(byName(b.Children))
+	// Equality is transitive, so it does not matter which of several
+	// equal children are paired up.
+	matched := make([]bool, len(b.Children))
+match:
 	for i := range a.Children {
-		if !equal(&a.Children[i], &b.Children[i], depth+1) {
-			return false
+		for j := range b.Children {
+			if !matched[j] && equal(&a.Children[i], &b.Children[j], depth+1) {
+				matched[j] = true
+				continue match
+			}
 		}
+		return false
 	}
 	return true
 }
-- 
2.43.0


From d3f261a08d5e77da22d7c964f4899a5cb6d62915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 09/80] fix: xmltree: Equal must notice attributes that only
 its first argument has

---
 xmltree/compare.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xmltree/compare.go b/xmltree/compare.go
index bd86db5..5433514 100644
--- a/xmltree/compare.go
+++ b/xmltree/compare.go
@@ -47,19 +47,20 @@ func equalElement(a, b *Element) bool {
 	}
 	attrs := make(map[xml.Name]string)
 	for _, a := range a.StartElement.Attr {
-		if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
+		if a.Name.Space == "xmlns" || (a.Name.Space == "" && a.Name.Local == "xmlns") {
 			continue
 		}
 		attrs[a.Name] = a.Value
 	}
 
 	for _, a := range b.StartElement.Attr {
-		if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
+		if a.Name.Space == "xmlns" || (a.Name.Space == "" && a.Name.Local == "xmlns") {
 			continue
 		}
 		if v, ok := attrs[a.Name]; !ok || v != a.Value {
 			return false
 		}
+		delete(attrs, a.Name)
 	}
-	return true
+	return len(attrs) == 0
 }
-- 
2.43.0


From 2810b9301e330a9410a2f4ffe9af9f888a7adf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 10/80] fix: xsd: an element or attribute that is a reference
 has the type of what it refers to

---
 xsd/parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 0e1ac4f..e397c24 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -582,9 +582,10 @@ func attributeDefaultType(root *xmltree.Element) {
 	var (
 		isAttr    = isElem(schemaNS, "attribute")
 		hasNoType = hasAttrValue("", "type", "")
+		isDecl    = hasAttrValue("", "ref", "")
 		anyType   = xml.Name{Space: schemaNS, Local: "anySimpleType"}
 	)
-	for _, el := range root.SearchFunc(and(isAttr, hasNoType)) {
+	for _, el := range root.SearchFunc(and(isAttr, isDecl, hasNoType)) {
 		el.SetAttr("", "type", el.Prefix(anyType))
 	}
 }
@@ -598,9 +599,10 @@ func elementDefaultType(root *xmltree.Element) {
 	var (
 		isElement = isElem(schemaNS, "element")
 		hasNoType = hasAttrValue("", "type", "")
+		isDecl    = hasAttrValue("", "ref", "")
 		anyType   = xml.Name{Space: schemaNS, Local: "anyType"}
 	)
-	for _, el := range root.SearchFunc(and(isElement, hasNoType)) {
+	for _, el := range root.SearchFunc(and(isElement, isDecl, hasNoType)) {
 		el.SetAttr("", "type", el.Prefix(anyType))
 	}
 }
-- 
2.43.0


From fd89016b6ed12f8660892610776f63d287e89630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:34 +0000
Subject: [PATCH 11/80] fix: xsd: name and move every in-line type, and refer
 to it by a name that resolves

---
 xsd/parse.go | 146 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 112 insertions(+), 34 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index e397c24..b0a13ec 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -1,6 +1,7 @@
 package xsd
 
 import (
+	"bytes"
 	"encoding/xml"
 	"fmt"
 	"regexp"
@@ -107,8 +108,8 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 	for _, root := range result {
 		attributeDefaultType(root)
 		elementDefaultType(root)
-		copyEltNamesToAnonTypes(root)
 	}
+	copyEltNamesToAnonTypes(result)
 	typeCounter := 0
 	for _, root := range result {
 		if err := nameAnonymousTypes(root, &typeCounter); err != nil {
@@ -202,13 +203,14 @@ to
   </complexType>
 </element>
 */
-func copyEltNamesToAnonTypes(root *xmltree.Element) {
+func copyEltNamesToAnonTypes(schema []*xmltree.Element) {
 	used := make(map[xml.Name]struct{})
-	tns := root.Attr("", "targetNamespace")
-
 	namedTypes := and(isType, hasAttr("", "name"))
-	for _, el := range root.SearchFunc(namedTypes) {
-		used[el.ResolveDefault(el.Attr("", "name"), tns)] = struct{}{}
+	for _, root := range schema {
+		tns := root.Attr("", "targetNamespace")
+		for _, el := range root.SearchFunc(namedTypes) {
+			used[declaredName(el, tns)] = struct{}{}
+		}
 	}
 
 	eltWithAnonType := and(
@@ -216,26 +218,102 @@ func copyEltNamesToAnonTypes(root *xmltree.Element) {
 		hasAttr("", "name"),
 		hasAnonymousType)
 
-	for _, el := range root.SearchFunc(eltWithAnonType) {
-		// Make sure we can use this element's name
-		xmlname := el.ResolveDefault(el.Attr("", "name"), tns)
-		if _, ok := used[xmlname]; ok {
-			continue
-		}
-		used[xmlname] = struct{}{}
-		for i, t := range el.Children {
-			if !isAnonymousType(&t) {
+	for _, root := range schema {
+		tns := root.Attr("", "targetNamespace")
+		for _, el := range root.SearchFunc(eltWithAnonType) {
+			// Make sure we can use this element's name
+			xmlname := declaredName(el, tns)
+			if _, ok := used[xmlname]; ok {
 				continue
 			}
-			t.SetAttr("", "name", el.Attr("", "name"))
-			el.SetAttr("", "type", el.Prefix(xmlname))
+			used[xmlname] = struct{}{}
+			for i := range el.Children {
+				if t := &el.Children[i]; isAnonymousType(t) {
+					t.SetAttr("", "name", xmlname.Local)
+					setQName(el, "type", xmlname)
+					break
+				}
+			}
+		}
+	}
+}
+
+// hoistTypes moves all types to the top level of a schema. They must be
+// named already.
+func hoistTypes(root *xmltree.Element) {
+	var types []xmltree.Element
+	for i := range root.Children {
+		types = takeTypes(&root.Children[i], types)
+	}
+	root.Children = append(root.Children, types...)
+}
 
-			el.Children = append(el.Children[:i], el.Children[i+1:]...)
-			el.Content = nil
-			root.Children = append(root.Children, t)
+// takeTypes removes all types from the descendants of el, and adds
+// them to types.
+func takeTypes(el *xmltree.Element, types []xmltree.Element) []xmltree.Element {
+	var rest []xmltree.Element
+	for i := range el.Children {
+		child := &el.Children[i]
+		types = takeTypes(child, types)
+		if isType(child) {
+			types = append(types, *child)
+		} else {
+			rest = append(rest, *child)
+		}
+	}
+	if len(rest) < len(el.Children) {
+		el.Children = rest
+		el.Content = nil
+	}
+	return types
+}
+
+// declaredName returns the canonical name of a schema component. Unless it
+// has a prefix, the name of a component is in the target namespace.
+func declaredName(el *xmltree.Element, targetNS string) xml.Name {
+	name := el.Attr("", "name")
+	if strings.Contains(name, ":") {
+		return el.Resolve(name)
+	}
+	return xml.Name{Space: targetNS, Local: name}
+}
+
+// setQName sets an attribute to a list of names, written so that they can
+// be resolved in the scope of the element. If there is no prefix for the
+// namespace of a name, one is declared.
+func setQName(el *xmltree.Element, attr string, names ...xml.Name) {
+	qnames := make([]string, 0, len(names))
+	// Names without a namespace can take away the default namespace from
+	// other names, so every name is looked at twice.
+	for _, name := range append(names, names...) {
+		if el.Resolve(el.Prefix(name)) != name {
+			el.Scope = *el.JoinScope(declareNS(&el.Scope, name.Space))
+		}
+	}
+	for _, name := range names {
+		qnames = append(qnames, el.Prefix(name))
+	}
+	el.SetAttr("", attr, strings.Join(qnames, " "))
+}
+
+// declareNS returns a Scope with a single declaration for a namespace,
+// using a prefix that has no meaning in scope.
+func declareNS(scope *xmltree.Scope, space string) *xmltree.Scope {
+	var buf bytes.Buffer
+	xml.EscapeText(&buf, []byte(space))
+	xmlns := "xmlns"
+	for i := 0; space != ""; i++ {
+		prefix := fmt.Sprintf("_ns%d", i)
+		if _, ok := scope.ResolveNS(prefix + ":"); !ok {
+			xmlns = "xmlns:" + prefix
 			break
 		}
 	}
+	el, err := xmltree.Parse([]byte(fmt.Sprintf("<x %s=\"%s\"/>", xmlns, buf.Bytes())))
+	if err != nil {
+		panic("bug declaring namespace " + space + ": " + err.Error())
+	}
+	return &el.Scope
 }
 
 // Inside a <xs:choice>, set all children to optional
@@ -315,31 +393,31 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 			return fmt.Errorf("Did not expect <%s> to have an anonymous type",
 				el.Prefix(el.Name))
 		}
-		for i := 0; i < len(el.Children); i++ {
-			t := el.Children[i]
+		var names []xml.Name
+		if accum {
+			for _, qname := range strings.Fields(el.Attr("", updateAttr)) {
+				names = append(names, el.Resolve(qname))
+			}
+		}
+		for i := range el.Children {
+			t := &el.Children[i]
 
-			if !isAnonymousType(&t) {
+			if !isAnonymousType(t) {
 				continue
 			}
 			*typeCounter++
 
 			name := anonTypeName(*typeCounter, targetNS)
-			qname := el.Prefix(name)
-
+			names = append(names, name)
 			t.SetAttr("", "name", name.Local)
 			t.SetAttr("", "_isAnonymous", "true")
-			if accum {
-				qname = el.Attr("", updateAttr) + " " + qname
-			}
-			el.SetAttr("", updateAttr, qname)
-			el.Children = append(el.Children[:i], el.Children[i+1:]...)
-			el.Content = nil
-			root.Children = append(root.Children, t)
 			if !accum {
 				break
 			}
 		}
+		setQName(el, updateAttr, names...)
 	}
+	hoistTypes(root)
 	return nil
 }
 
@@ -586,7 +664,7 @@ func attributeDefaultType(root *xmltree.Element) {
 		anyType   = xml.Name{Space: schemaNS, Local: "anySimpleType"}
 	)
 	for _, el := range root.SearchFunc(and(isAttr, isDecl, hasNoType)) {
-		el.SetAttr("", "type", el.Prefix(anyType))
+		setQName(el, "type", anyType)
 	}
 }
 
@@ -603,7 +681,7 @@ func elementDefaultType(root *xmltree.Element) {
 		anyType   = xml.Name{Space: schemaNS, Local: "anyType"}
 	)
 	for _, el := range root.SearchFunc(and(isElement, isDecl, hasNoType)) {
-		el.SetAttr("", "type", el.Prefix(anyType))
+		setQName(el, "type", anyType)
 	}
 }
 
-- 
2.43.0


From 7d3f7815801998b4e20b05d08e9f696e8d89561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 12/80] fix: xsd: components of a schema without target
 namespace are in no namespace

---
 xsd/index.go | 4 ++--
 xsd/parse.go | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/xsd/index.go b/xsd/index.go
index 1fa8b08..266049f 100644
--- a/xsd/index.go
+++ b/xsd/index.go
@@ -38,8 +38,8 @@ func indexSchema(schema []*xmltree.Element) *schemaIndex {
 		for _, el := range root.Flatten() {
 			id := len(index.eltByID)
 			index.eltByID = append(index.eltByID, el)
-			if name := el.Attr("", "name"); name != "" {
-				xmlname := el.ResolveDefault(name, tns)
+			if el.Attr("", "name") != "" {
+				xmlname := declaredName(el, tns)
 				index.idByName[elementKey{xmlname, el.Name}] = id
 			}
 		}
diff --git a/xsd/parse.go b/xsd/parse.go
index b0a13ec..15c6436 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -583,7 +583,7 @@ func (s *Schema) addElementTypeAliases(root *xmltree.Element, types map[xml.Name
 		if (el.Name != xml.Name{schemaNS, "element"}) {
 			continue
 		}
-		name := el.ResolveDefault(el.Attr("", "name"), s.TargetNS)
+		name := declaredName(&el, s.TargetNS)
 		ref := el.Resolve(el.Attr("", "type"))
 		if ref.Local == "" || name.Local == "" {
 			continue
@@ -726,7 +726,7 @@ func (s *Schema) parseSelfType(root *xmltree.Element) *ComplexType {
 func (s *Schema) parseComplexType(root *xmltree.Element) *ComplexType {
 	var t ComplexType
 	var doc annotation
-	t.Name = root.ResolveDefault(root.Attr("", "name"), s.TargetNS)
+	t.Name = declaredName(root, s.TargetNS)
 	t.Abstract = parseBool(root.Attr("", "abstract"))
 	t.Mixed = parseBool(root.Attr("", "mixed"))
 
@@ -897,7 +897,7 @@ func parseAnyElement(ns string, el *xmltree.Element) Element {
 func parseElement(ns string, el *xmltree.Element) Element {
 	var doc annotation
 	e := Element{
-		Name:     el.ResolveDefault(el.Attr("", "name"), ns),
+		Name:     declaredName(el, ns),
 		Type:     parseType(el.Resolve(el.Attr("", "type"))),
 		Default:  el.Attr("", "default"),
 		Abstract: parseBool(el.Attr("", "abstract")),
@@ -958,7 +958,7 @@ func (s *Schema) parseSimpleType(root *xmltree.Element) *SimpleType {
 	var t SimpleType
 	var doc annotation
 
-	t.Name = root.ResolveDefault(root.Attr("", "name"), s.TargetNS)
+	t.Name = declaredName(root, s.TargetNS)
 	t.Anonymous = (root.Attr("", "_isAnonymous") == "true")
 	walk(root, func(el *xmltree.Element) {
 		switch el.Name.Local {
-- 
2.43.0


From 152f01933950f33f1d5dde355524813c23d7b362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:01 +0000
Subject: [PATCH 13/80] fix: xsd: references inside groups are flattened too,
 find only top-level components, and keep the namespace of the declaration

---
 xsd/index.go |  36 +++++++----
 xsd/parse.go | 170 ++++++++++++++++++++++++++++++---------------------
 2 files changed, 123 insertions(+), 83 deletions(-)

diff --git a/xsd/index.go b/xsd/index.go
index 266049f..2b5b250 100644
--- a/xsd/index.go
+++ b/xsd/index.go
@@ -12,18 +12,17 @@ type elementKey struct {
 
 type schemaIndex struct {
 	eltByID []*xmltree.Element
-	// name indices can collide since different element
-	// types can have the same node.
+	// The target namespace of the schema of each element.
+	nsByID []string
+	// The number of descendants of each element, which have the
+	// IDs following that of the element.
+	sizeByID []int
+	// Only the children of <schema> elements can be referred to by
+	// name. Name indices can collide since different element
+	// types can have the same name.
 	idByName map[elementKey]int
 }
 
-func (idx *schemaIndex) ByName(name, typ xml.Name) (*xmltree.Element, bool) {
-	if id, ok := idx.idByName[elementKey{name, typ}]; ok {
-		return idx.eltByID[id], true
-	}
-	return nil, false
-}
-
 func (idx *schemaIndex) ElementID(name, typ xml.Name) (int, bool) {
 	id, ok := idx.idByName[elementKey{name, typ}]
 	return id, ok
@@ -35,14 +34,25 @@ func indexSchema(schema []*xmltree.Element) *schemaIndex {
 	}
 	for _, root := range schema {
 		tns := root.Attr("", "targetNamespace")
-		for _, el := range root.Flatten() {
-			id := len(index.eltByID)
-			index.eltByID = append(index.eltByID, el)
+		for i := range root.Children {
+			el := &root.Children[i]
 			if el.Attr("", "name") != "" {
 				xmlname := declaredName(el, tns)
-				index.idByName[elementKey{xmlname, el.Name}] = id
+				index.idByName[elementKey{xmlname, el.Name}] = len(index.eltByID)
 			}
+			index.add(el, tns)
 		}
 	}
 	return index
 }
+
+func (idx *schemaIndex) add(el *xmltree.Element, tns string) {
+	id := len(idx.eltByID)
+	idx.eltByID = append(idx.eltByID, el)
+	idx.nsByID = append(idx.nsByID, tns)
+	idx.sizeByID = append(idx.sizeByID, 0)
+	for i := range el.Children {
+		idx.add(&el.Children[i], tns)
+	}
+	idx.sizeByID[id] = len(idx.eltByID) - id - 1
+}
diff --git a/xsd/parse.go b/xsd/parse.go
index 15c6436..9e07731 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -13,25 +13,6 @@ import (
 	"aqwari.net/xml/xmltree"
 )
 
-func hasCycle(root *xmltree.Element, visited map[*xmltree.Element]struct{}) bool {
-	if visited == nil {
-		visited = make(map[*xmltree.Element]struct{})
-	}
-	visited[root] = struct{}{}
-	for i := range root.Children {
-		el := &root.Children[i]
-		if _, ok := visited[el]; ok {
-			return true
-		}
-		visited[el] = struct{}{}
-		if hasCycle(el, visited) {
-			return true
-		}
-	}
-	delete(visited, root)
-	return false
-}
-
 // A Ref contains the canonical namespace of a schema document, and
 // possibly a URI to retrieve the document from. It is not required
 // for XML Schema documents to provide the location of schema that
@@ -125,6 +106,9 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 	if err := flattenRef(result); err != nil {
 		return nil, err
 	}
+	for _, root := range result {
+		unpackGroups(root)
+	}
 	return result, nil
 }
 
@@ -275,6 +259,9 @@ func declaredName(el *xmltree.Element, targetNS string) xml.Name {
 	if strings.Contains(name, ":") {
 		return el.Resolve(name)
 	}
+	if ns, ok := declaredNS(el); ok {
+		targetNS = ns
+	}
 	return xml.Name{Space: targetNS, Local: name}
 }
 
@@ -441,36 +428,47 @@ func flattenRef(schema []*xmltree.Element) error {
 	var (
 		depends = new(dependency.Graph)
 		index   = indexSchema(schema)
+		target  = make(map[int]int)
 	)
+	isRef := func(id int) bool {
+		el := index.eltByID[id]
+		return el.Name.Space == schemaNS && el.Attr("", "ref") != ""
+	}
 	for id, el := range index.eltByID {
-		if el.Attr("", "ref") == "" {
+		if !isRef(id) {
 			continue
 		}
 		name := el.Resolve(el.Attr("", "ref"))
-		if dep, ok := index.ElementID(name, el.Name); !ok {
+		dep, ok := index.ElementID(name, el.Name)
+		if !ok {
 			return fmt.Errorf("could not find ref %s in %s",
 				el.Attr("", "ref"), el)
-		} else {
-			depends.Add(id, dep)
+		}
+		target[id] = dep
+		depends.Add(id, dep)
+		// References within the definition must be flattened
+		// before the definition is copied.
+		for sub := dep; sub <= dep+index.sizeByID[dep]; sub++ {
+			if sub != id && isRef(sub) {
+				depends.Add(id, sub)
+			}
 		}
 	}
 	depends.Flatten(func(id int) {
-		el := index.eltByID[id]
-		if el.Attr("", "ref") == "" {
-			return
-		}
-		ref := el.Resolve(el.Attr("", "ref"))
-		real, ok := index.ByName(ref, el.Name)
+		dep, ok := target[id]
 		if !ok {
-			panic("bug building dep tree; missing " + el.Attr("", "ref"))
+			return
 		}
-		*el = *deref(el, real)
+		el := index.eltByID[id]
+		*el = *deref(el, index.eltByID[dep], index.nsByID[id], index.nsByID[dep])
 	})
-	for ns, doc := range schema {
-		unpackGroups(doc)
-		if hasCycle(doc, nil) {
-			return fmt.Errorf("cycle detected after flattening references "+
-				"in schema %d:\n%s", ns, xmltree.MarshalIndent(doc, "", "  "))
+	// Only definitions that contain themselves have any references left.
+	for n, doc := range schema {
+		for _, el := range doc.SearchFunc(hasAttr("", "ref")) {
+			if el.Name.Space == schemaNS {
+				return fmt.Errorf("cycle detected after flattening references "+
+					"in schema %d:\n%s", n, el)
+			}
 		}
 	}
 	return nil
@@ -478,32 +476,27 @@ func flattenRef(schema []*xmltree.Element) error {
 
 // Flatten a reference to an XML element, returning the full XML
 // object.
-func deref(ref, real *xmltree.Element) *xmltree.Element {
-	el := new(xmltree.Element)
+func deref(ref, real *xmltree.Element, refNS, realNS string) *xmltree.Element {
+	el := copyTree(real)
 	el.Scope = ref.Scope
-	el.Name = real.Name
-	el.StartElement.Attr = append([]xml.Attr{}, real.StartElement.Attr...)
-	el.Content = append([]byte{}, real.Content...)
-	el.Children = append([]xmltree.Element{}, real.Children...)
 
-	// Some attributes can contain a qname, and must be converted to use the
-	// xmlns prefixes in ref's scope.
-	hasQName := map[xml.Name]bool{
-		xml.Name{"", "type"}: true,
-	}
-	for i, attr := range el.StartElement.Attr {
-		if hasQName[attr.Name] {
-			xmlname := real.Resolve(attr.Value)
-			attr.Value = ref.Prefix(xmlname)
-			el.StartElement.Attr[i] = attr
-		}
+	// Declarations keep the namespace they were made in.
+	if refNS != realNS {
+		setDeclaredNS(el, realNS)
 	}
+
 	// If there are child elements, rather than checking all children
 	// for xmlns conversion, we can just import the xmlns prefixes
 	if len(el.Children) > 0 {
 		el.Scope = *real.JoinScope(&ref.Scope)
 	}
 
+	// Some attributes can contain a qname, and must be converted to use the
+	// xmlns prefixes in ref's scope.
+	if qname := real.Attr("", "type"); qname != "" {
+		setQName(el, "type", real.Resolve(qname))
+	}
+
 	// Attributes added to the reference overwrite attributes in the
 	// referenced element.
 	for _, attr := range ref.StartElement.Attr {
@@ -515,23 +508,66 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 	return el
 }
 
+// copyTree makes a copy of an XML element that shares nothing with
+// the original.
+func copyTree(el *xmltree.Element) *xmltree.Element {
+	dup := *el
+	dup.StartElement.Attr = append([]xml.Attr{}, el.StartElement.Attr...)
+	dup.Content = append([]byte{}, el.Content...)
+	dup.Children = make([]xmltree.Element, 0, len(el.Children))
+	for i := range el.Children {
+		dup.Children = append(dup.Children, *copyTree(&el.Children[i]))
+	}
+	return &dup
+}
+
+// setDeclaredNS adds a special attribute to all element and attribute
+// declarations in a tree, giving the target namespace of the schema
+// that contains them.
+func setDeclaredNS(el *xmltree.Element, ns string) {
+	if _, ok := declaredNS(el); !ok && el.Attr("", "name") != "" {
+		el.SetAttr("", "_targetNamespace", ns)
+	}
+	for i := range el.Children {
+		setDeclaredNS(&el.Children[i], ns)
+	}
+}
+
+func declaredNS(el *xmltree.Element) (ns string, ok bool) {
+	for _, attr := range el.StartElement.Attr {
+		if (attr.Name == xml.Name{"", "_targetNamespace"}) {
+			return attr.Value, true
+		}
+	}
+	return "", false
+}
+
 // After dereferencing groups and attributeGroups, we need to
 // unpack them within their parent elements.
 func unpackGroups(doc *xmltree.Element) {
+	for i := range doc.Children {
+		unpackGroup(&doc.Children[i])
+	}
+}
+
+func unpackGroup(el *xmltree.Element) {
 	isGroup := or(isElem(schemaNS, "group"), isElem(schemaNS, "attributeGroup"))
-	hasGroups := hasChild(isGroup)
 
-	for _, el := range doc.SearchFunc(hasGroups) {
-		children := make([]xmltree.Element, 0, len(el.Children))
-		for _, c := range el.Children {
-			if isGroup(&c) {
-				children = append(children, c.Children...)
-			} else {
-				children = append(children, c)
+	children := make([]xmltree.Element, 0, len(el.Children))
+	for i := range el.Children {
+		c := &el.Children[i]
+		unpackGroup(c)
+		if isGroup(c) {
+			for _, el := range c.Children {
+				if (el.Name != xml.Name{schemaNS, "annotation"}) {
+					children = append(children, el)
+				}
 			}
+		} else {
+			children = append(children, *c)
 		}
-		el.Children = children
 	}
+	el.Children = children
 }
 
 // a complex type defined without any simpleContent or
@@ -919,7 +955,7 @@ func parseElement(ns string, el *xmltree.Element) Element {
 		}
 	})
 	t, ok := e.Type.(linkedType)
-	if ok {
+	if _, known := declaredNS(el); ok && !known {
 		e.Name.Space = t.Space
 	}
 	e.Doc = string(doc)
@@ -930,13 +966,7 @@ func parseElement(ns string, el *xmltree.Element) Element {
 func parseAttribute(ns string, el *xmltree.Element) Attribute {
 	var a Attribute
 	var doc annotation
-	// Non-QName xml attributes explicitly do *not* have a namespace.
-	if name := el.Attr("", "name"); strings.Contains(name, ":") {
-		a.Name = el.Resolve(el.Attr("", "name"))
-	} else {
-		a.Name.Local = name
-	}
-	a.Name.Space = ns
+	a.Name = declaredName(el, ns)
 	a.Type = parseType(el.Resolve(el.Attr("", "type")))
 	a.Default = el.Attr("", "default")
 	a.Scope = el.Scope
-- 
2.43.0


From 55dc1be52d88683baba6486b0dd502120893658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:26 +0000
Subject: [PATCH 14/80] fix: xsd: the occurrence limits of groups apply to the
 elements in them

---
 xsd/parse.go | 52 +++++++++++++++++++++++++++++-----------------------
 xsd/walk.go  |  6 +++++-
 2 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 9e07731..3a07908 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -96,9 +96,6 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 		if err := nameAnonymousTypes(root, &typeCounter); err != nil {
 			return nil, err
 		}
-		if err := setChoicesOptional(root); err != nil {
-			return nil, err
-		}
 	}
 	for _, root := range result {
 		expandComplexShorthand(root)
@@ -107,6 +104,9 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 		return nil, err
 	}
 	for _, root := range result {
+		if err := flattenOccurs(root); err != nil {
+			return nil, err
+		}
 		unpackGroups(root)
 	}
 	return result, nil
@@ -303,29 +303,35 @@ func declareNS(scope *xmltree.Scope, space string) *xmltree.Scope {
 	return &el.Scope
 }
 
-// Inside a <xs:choice>, set all children to optional
-// If child is a <xs:sequence> set its children to optional
-func setChoicesOptional(root *xmltree.Element) error {
-
-	for _, el := range root.SearchFunc(isElem(schemaNS, "choice")) {
-		for i := 0; i < len(el.Children); i++ {
-			t := el.Children[i]
+// Elements and wildcards are optional if they are an alternative in an
+// <xs:choice>, or part of a group that may be left out. They may occur more
+// than once if any group they are part of may. Put this information on the
+// elements themselves.
+func flattenOccurs(root *xmltree.Element) (err error) {
+	defer catchParseError(&err)
+	flattenParticles(root, false, false)
+	return err
+}
 
-			if t.Name.Space == schemaNS && t.Name.Local == "sequence" {
-				for j := 0; j < len(t.Children); j++ {
-					t2 := t.Children[j]
-					t2.SetAttr("", "minOccurs", "0")
-					t.Children[j] = t2
-				}
-			} else {
-				t.SetAttr("", "minOccurs", "0")
+func flattenParticles(root *xmltree.Element, optional, plural bool) {
+	walk(root, func(el *xmltree.Element) {
+		switch el.Name.Local {
+		case "element", "any":
+			if optional {
+				el.SetAttr("", "minOccurs", "0")
 			}
-
-			el.Children[i] = t
+			if plural && !parsePlural(el) {
+				el.SetAttr("", "maxOccurs", "unbounded")
+			}
+		case "sequence", "choice", "all", "group":
+			min := el.Attr("", "minOccurs")
+			isOptional := optional || el.Name.Local == "choice" ||
+				(min != "" && parseInt(min) == 0)
+			flattenParticles(el, isOptional, plural || parsePlural(el))
+		default:
+			flattenParticles(el, false, false)
 		}
-	}
-
-	return nil
+	})
 }
 
 /*
diff --git a/xsd/walk.go b/xsd/walk.go
index c5f77b0..da7b96d 100644
--- a/xsd/walk.go
+++ b/xsd/walk.go
@@ -55,6 +55,10 @@ func walk(root *xmltree.Element, fn func(*xmltree.Element)) {
 // defer catchParseError(&err)
 func catchParseError(err *error) {
 	if r := recover(); r != nil {
-		*err = r.(parseError)
+		perr, ok := r.(parseError)
+		if !ok {
+			panic(r)
+		}
+		*err = perr
 	}
 }
-- 
2.43.0


From 726d44e8e5e11e7e812908119836f135c2ce7384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 15/80] fix: xsd: an element that is declared twice in a
 sequence may occur twice

---
 xsd/parse.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index 3a07908..2ad2659 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -835,14 +835,21 @@ func (t *ComplexType) parseComplexContent(ns string, root *xmltree.Element) {
 			}
 
 			usedElt := make(map[xml.Name]int)
+			decls := make(map[xml.Name][]*xmltree.Element)
 			for _, v := range el.Search(schemaNS, "element") {
 				elt := parseElement(ns, v)
 				if existing, ok := usedElt[elt.Name]; !ok {
 					usedElt[elt.Name] = len(t.Elements)
 					t.Elements = append(t.Elements, elt)
 				} else {
+					for _, prev := range decls[elt.Name] {
+						if !isAlternative(el, prev, v) {
+							elt.Plural = true
+						}
+					}
 					t.Elements[existing] = joinElem(t.Elements[existing], elt)
 				}
+				decls[elt.Name] = append(decls[elt.Name], v)
 			}
 
 			for _, v := range el.Search(schemaNS, "attribute") {
@@ -857,6 +864,26 @@ func (t *ComplexType) parseComplexContent(ns string, root *xmltree.Element) {
 	t.Doc += string(doc)
 }
 
+// isAlternative returns true if a and b, which are descendants of root,
+// cannot occur together because an <xs:choice> separates them.
+func isAlternative(root, a, b *xmltree.Element) bool {
+	var hasA, hasB bool
+	for i := range root.Children {
+		el := &root.Children[i]
+		inA, inB := el == a, el == b
+		for _, v := range el.Flatten() {
+			inA = inA || v == a
+			inB = inB || v == b
+		}
+		if inA && inB {
+			return isAlternative(el, a, b)
+		}
+		hasA = hasA || inA
+		hasB = hasB || inB
+	}
+	return hasA && hasB && root.Name == xml.Name{schemaNS, "choice"}
+}
+
 func joinElem(a, b Element) Element {
 	if a.Doc != "" {
 		a.Doc += "\n"
-- 
2.43.0


From 9e1168a73911923d31294c4a31abeaec015ea0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:07 +0000
Subject: [PATCH 16/80] fix: xsd: restrictions of simple content may declare
 attributes

---
 xsd/parse.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 2ad2659..40fb888 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -801,11 +801,11 @@ func (t *ComplexType) parseSimpleContent(ns string, root *xmltree.Element) {
 		switch el.Name.Local {
 		case "annotation":
 			doc = doc.append(parseAnnotation(el))
-		case "restriction":
-			t.Base = parseType(el.Resolve(el.Attr("", "base")))
 		case "extension":
-			t.Base = parseType(el.Resolve(el.Attr("", "base")))
 			t.Extends = true
+			fallthrough
+		case "restriction":
+			t.Base = parseType(el.Resolve(el.Attr("", "base")))
 			for _, v := range el.Search(schemaNS, "attribute") {
 				t.Attributes = append(t.Attributes, parseAttribute(ns, v))
 			}
-- 
2.43.0


From 5498af7ae7cdb8a19b4869ed8b7504bfc79ae90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 17/80] fix: xsd: accept all dates and times in facets, and no
 malformed lengths and limits

---
 xsd/parse.go | 85 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 49 insertions(+), 36 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 40fb888..24eb2f7 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -916,6 +916,15 @@ func parseInt(s string) int {
 	return n
 }
 
+// For facets that have a non-negative number as their value.
+func parseCount(el *xmltree.Element) int {
+	n, err := strconv.Atoi(strings.TrimSpace(el.Attr("", "value")))
+	if err != nil || n < 0 {
+		stop("Invalid " + el.Name.Local + " value " + el.Attr("", "value"))
+	}
+	return n
+}
+
 // https://www.w3.org/TR/xmlschema-2/#decimal
 func parseDecimal(s string) float64 {
 	s = strings.TrimSpace(s)
@@ -1069,11 +1078,11 @@ func parseSimpleRestriction(root *xmltree.Element, base Type) Restriction {
 		case "maxExclusive", "maxInclusive":
 			r.MaxDate, r.Max = parseMinMaxRestriction(el, base)
 		case "length":
-			r.Length = parseInt(el.Attr("", "value"))
+			r.Length = parseCount(el)
 		case "maxLength":
-			r.MaxLength = parseInt(el.Attr("", "value"))
+			r.MaxLength = parseCount(el)
 		case "minLength":
-			r.MinLength = parseInt(el.Attr("", "value"))
+			r.MinLength = parseCount(el)
 		case "pattern":
 			// We don't fully implement XML Schema's pattern language, and
 			// we don't want to stop a parse because of this. Instead, if we
@@ -1092,14 +1101,11 @@ func parseSimpleRestriction(root *xmltree.Element, base Type) Restriction {
 		case "whiteSpace":
 			break // TODO(droyo)
 		case "fractionDigits":
-			r.Precision = parseInt(el.Attr("", "value"))
-			if r.Precision < 0 {
-				stop("Invalid fractionDigits value " + el.Attr("", "value"))
-			}
+			r.Precision = parseCount(el)
 		case "annotation":
 			doc = doc.append(parseAnnotation(el))
 		case "totalDigits":
-			r.TotalDigits = parseInt(el.Attr("", "value"))
+			r.TotalDigits = parseCount(el)
 		}
 	})
 	r.Doc = string(doc)
@@ -1107,41 +1113,48 @@ func parseSimpleRestriction(root *xmltree.Element, base Type) Restriction {
 }
 
 // For minInclusive, minExclusive, maxInclusive and maxExclusive restrictions
-func parseMinMaxRestriction(el *xmltree.Element, base Type) (time.Time, float64) {
-	var date time.Time
-	var decimal float64
-	if v, ok := base.(Builtin); ok {
-		var format string
-		if v == Date {
-			format = "2006-01-02"
-		} else if v == DateTime {
-			format = time.RFC3339
-		}
-
-		if format != "" {
-			d, err := time.Parse(format, el.Attr("", "value"))
+func parseMinMaxRestriction(el *xmltree.Element, base Type) (date time.Time, decimal float64) {
+	value := strings.TrimSpace(el.Attr("", "value"))
+	if value == "" {
+		stop("Missing value for " + el.Name.Local)
+	}
+	switch base := base.(type) {
+	case Builtin:
+		switch base {
+		case Date, DateTime:
+			date, err := parseDate(value)
 			if err != nil {
 				stop(err.Error())
 			}
-			date = d
-		} else {
-			decimal = parseDecimal(el.Attr("", "value"))
+			return date, 0
+		case Time, Duration, GDay, GMonth, GMonthDay, GYear, GYearMonth:
+			// There is no way to record these limits, except for
+			// plain years.
+			decimal, _ = strconv.ParseFloat(value, 64)
+			return date, decimal
 		}
-	} else if _, ok := base.(linkedType); ok {
+	case linkedType:
 		// The base of the linked type is unknown, try to parse dates and decimals
-		d, err := time.Parse("2006-01-02", el.Attr("", "value"))
-		if err != nil {
-			d, err := time.Parse(time.RFC3339, el.Attr("", "value"))
-			if err != nil {
-				decimal = parseDecimal(el.Attr("", "value"))
-			}
-			date = d
+		if date, err := parseDate(value); err == nil {
+			return date, 0
+		}
+	}
+	return date, parseDecimal(value)
+}
+
+// The time zone is optional in dates.
+//
+// https://www.w3.org/TR/xmlschema-2/#dateTime
+func parseDate(s string) (date time.Time, err error) {
+	for _, format := range []string{
+		"2006-01-02", "2006-01-02Z07:00",
+		"2006-01-02T15:04:05", time.RFC3339,
+	} {
+		if date, err = time.Parse(format, s); err == nil {
+			break
 		}
-		date = d
-	} else {
-		decimal = parseDecimal(el.Attr("", "value"))
 	}
-	return date, decimal
+	return date, err
 }
 
 // XML Schema defines its own flavor of regular expressions here:
-- 
2.43.0


From 73f820fff517dfb0acca04b79b200e5717f9242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:41 +0000
Subject: [PATCH 18/80] fix: xsd: the order of patterns must not matter when
 one of them cannot be compiled

---
 xsd/parse.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 24eb2f7..53b34ee 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -1064,6 +1064,8 @@ func parseAnnotation(el *xmltree.Element) (doc annotation) {
 func parseSimpleRestriction(root *xmltree.Element, base Type) Restriction {
 	var r Restriction
 	var doc annotation
+	var pat string
+	var patterns int
 	// Most of the restrictions on a simpleType are suited for
 	// validating input. This package is not a validator; we assume
 	// that the server sends valid data, and that it will tell us if
@@ -1088,10 +1090,11 @@ func parseSimpleRestriction(root *xmltree.Element, base Type) Restriction {
 			// we don't want to stop a parse because of this. Instead, if we
 			// cannot compile a regex, we'll add the error msg to the annotation
 			// for this restriction.
-			pat := el.Attr("", "value")
-			if r.Pattern != nil {
-				pat = r.Pattern.String() + "|" + pat
+			if patterns > 0 {
+				pat += "|"
 			}
+			patterns++
+			pat += el.Attr("", "value")
 			reg, err := parsePattern(pat)
 			if err != nil {
 				msg := fmt.Sprintf("This type must conform to the pattern %q, but the XSD library could not parse the regular expression. (%v)", pat, err)
-- 
2.43.0


From 0156f2509ca5e7643b9d02a9fbcc99138a56ab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:17 +0000
Subject: [PATCH 19/80] fix: xsd: several schema elements can have the same
 target namespace

---
 xsd/parse.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 53b34ee..dbf5445 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -131,7 +131,12 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 
 	for _, root := range schema {
 		tns := root.Attr("", "targetNamespace")
-		s := Schema{TargetNS: tns, Types: make(map[xml.Name]Type)}
+		// The types of a namespace can be declared in any number of
+		// <schema> elements.
+		s, ok := parsed[tns]
+		if !ok {
+			s = Schema{TargetNS: tns, Types: make(map[xml.Name]Type)}
+		}
 		if err := s.parse(root); err != nil {
 			return nil, err
 		}
@@ -733,7 +738,6 @@ func (s *Schema) parse(root *xmltree.Element) error {
 
 func (s *Schema) parseTypes(root *xmltree.Element) (err error) {
 	defer catchParseError(&err)
-	tns := root.Attr("", "targetNamespace")
 
 	for _, el := range root.Search(schemaNS, "complexType") {
 		t := s.parseComplexType(el)
@@ -743,7 +747,11 @@ func (s *Schema) parseTypes(root *xmltree.Element) (err error) {
 		t := s.parseSimpleType(el)
 		s.Types[t.Name] = t
 	}
-	s.Types[xml.Name{tns, "_self"}] = s.parseSelfType(root)
+	self := s.parseSelfType(root)
+	if prev, ok := s.Types[self.Name].(*ComplexType); ok {
+		self.Elements = append(prev.Elements, self.Elements...)
+	}
+	s.Types[self.Name] = self
 	return err
 }
 
-- 
2.43.0


From b081a2632a74c47ff5b070e7f36d559460c8a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:36 +0000
Subject: [PATCH 20/80] fix: xsd: white space around names, numbers and
 booleans is not significant

---
 xsd/parse.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index dbf5445..ee56f8e 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -87,6 +87,7 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 		}
 	}
 	for _, root := range result {
+		collapseAttributes(root)
 		attributeDefaultType(root)
 		elementDefaultType(root)
 	}
@@ -698,6 +699,28 @@ func propagateMixedAttr(t, b Type, depth int) {
 	}
 }
 
+// White space around names, numbers and booleans is not significant. It
+// is part of the value in facets and default values.
+//
+// https://www.w3.org/TR/xmlschema-2/#rf-whiteSpace
+func collapseAttributes(root *xmltree.Element) {
+	for _, el := range append(root.Flatten(), root) {
+		if el.Name.Space != schemaNS {
+			continue
+		}
+		for i, attr := range el.StartElement.Attr {
+			if attr.Name.Space != "" {
+				continue
+			}
+			switch attr.Name.Local {
+			case "value", "default", "fixed":
+			default:
+				el.StartElement.Attr[i].Value = strings.TrimSpace(attr.Value)
+			}
+		}
+	}
+}
+
 // 3.2.2 XML Representation of Attribute Declaration Schema Components
 //
 // Specifies that attributes without a type default to anySimpleType.
-- 
2.43.0


From 58239984eda1aa89fb4f400fa96402200a32bed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:46 +0000
Subject: [PATCH 21/80] fix: xsd: an appinfo must not hide the documentation
 after it

---
 xsd/xsd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd/xsd.go b/xsd/xsd.go
index fb84c36..fc09481 100644
--- a/xsd/xsd.go
+++ b/xsd/xsd.go
@@ -273,6 +273,7 @@ Loop:
 				if err := d.Skip(); err != nil {
 					return err
 				}
+				continue
 			}
 			var frag []byte
 			if err := d.DecodeElement(&frag, &tok); err != nil {
-- 
2.43.0


From ee11538c7d832cc71cbf1599c7238c34fd615c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:47 +0000
Subject: [PATCH 22/80] fix: xsd: resolve the types of all schemas before
 looking at the base types of one

---
 xsd/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index ee56f8e..4482b77 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -159,9 +159,12 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		if err != nil {
 			return nil, err
 		}
-		s.propagateMixedAttr()
 		result = append(result, s)
 	}
+	// All types must be resolved before looking at base types.
+	for _, s := range result {
+		s.propagateMixedAttr()
+	}
 	result = append(result, builtinSchema)
 	return result, nil
 }
-- 
2.43.0


From f84d19c2fd60239eb92cc5e99e7531c12b4b43ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:30 +0000
Subject: [PATCH 23/80] fix: xsd: report types that are derived from themselves

---
 xsd/parse.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index 4482b77..5b77d74 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -162,6 +162,11 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		result = append(result, s)
 	}
 	// All types must be resolved before looking at base types.
+	for _, s := range result {
+		if err := s.checkDerivation(); err != nil {
+			return nil, err
+		}
+	}
 	for _, s := range result {
 		s.propagateMixedAttr()
 	}
@@ -1290,6 +1295,40 @@ func (s *Schema) resolvePartialTypes(types map[xml.Name]Type) error {
 	return nil
 }
 
+// checkDerivation returns an error if a type is derived from itself.
+func (s *Schema) checkDerivation() error {
+	var derives func(t Type) bool
+	checked := make(map[Type]bool)
+	derives = func(t Type) bool {
+		if t == nil {
+			return false
+		}
+		if done, ok := checked[t]; ok {
+			return !done
+		}
+		checked[t] = false
+		if derives(Base(t)) {
+			return true
+		}
+		if t, ok := t.(*SimpleType); ok {
+			for _, member := range t.Union {
+				if derives(member) {
+					return true
+				}
+			}
+		}
+		checked[t] = true
+		return false
+	}
+	for _, t := range s.Types {
+		if derives(t) {
+			return fmt.Errorf("type %s in namespace %s is derived from itself",
+				XMLName(t).Local, XMLName(t).Space)
+		}
+	}
+	return nil
+}
+
 func (s *Schema) lookupType(name linkedType, ext map[xml.Name]Type) (Type, bool) {
 	if b, err := ParseBuiltin(xml.Name(name)); err == nil {
 		return b, true
-- 
2.43.0


From f085660aaf59f1f23fab4e5de2d5fcdfd7407904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:16 +0000
Subject: [PATCH 24/80] fix: xsd: every type has a base type

---
 xsd/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 5b77d74..f5d12b4 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -811,6 +811,9 @@ func (s *Schema) parseComplexType(root *xmltree.Element) *ComplexType {
 	t.Abstract = parseBool(root.Attr("", "abstract"))
 	t.Mixed = parseBool(root.Attr("", "mixed"))
 
+	// The base types of any type end in a built-in type.
+	t.Base = AnyType
+
 	// We set this special attribute in a pre-processing step.
 	t.Anonymous = (root.Attr("", "_isAnonymous") == "true")
 
@@ -1070,6 +1073,7 @@ func (s *Schema) parseSimpleType(root *xmltree.Element) *SimpleType {
 	var doc annotation
 
 	t.Name = declaredName(root, s.TargetNS)
+	t.Base = AnySimpleType
 	t.Anonymous = (root.Attr("", "_isAnonymous") == "true")
 	walk(root, func(el *xmltree.Element) {
 		switch el.Name.Local {
@@ -1083,7 +1087,6 @@ func (s *Schema) parseSimpleType(root *xmltree.Element) *SimpleType {
 			for _, name := range strings.Fields(el.Attr("", "memberTypes")) {
 				type_ := parseType(el.Resolve(name))
 				t.Union = append(t.Union, type_)
-				t.Base = AnySimpleType
 			}
 		case "annotation":
 			doc = doc.append(parseAnnotation(el))
-- 
2.43.0


From d71caab1dabae6c475e9f80d8b0dfcd0c4491245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:28 +0000
Subject: [PATCH 25/80] fix: xsd: the schema of built-in types must have all of
 them

---
 xsd/standard-schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd/standard-schema.go b/xsd/standard-schema.go
index 1955850..71bd9c2 100644
--- a/xsd/standard-schema.go
+++ b/xsd/standard-schema.go
@@ -1416,8 +1416,8 @@ var builtinSchema = Schema{
 }
 
 func init() {
-	builtinSchema.Types = make(map[xml.Name]Type, int(UnsignedShort))
-	for i := AnyType; i < UnsignedShort; i++ {
+	builtinSchema.Types = make(map[xml.Name]Type, int(AnySimpleType)+1)
+	for i := AnyType; i <= AnySimpleType; i++ {
 		builtinSchema.Types[i.Name()] = i
 	}
 }
-- 
2.43.0


From b428ad97629ba6f089788ab504b8d141eaa40a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:56 +0000
Subject: [PATCH 26/80] fix: gen: do not put characters in back-quotes that a
 raw string cannot hold

---
 internal/gen/gen.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index e0ecd90..a1c4d78 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -120,9 +120,10 @@ func FieldList(fields ...string) (*ast.FieldList, error) {
 }
 
 // String generates a literal string. If the string contains a double
-// quote, backticks are used for quoting instead.
+// quote, backticks are used for quoting instead, unless that would
+// change the string.
 func String(s string) *ast.BasicLit {
-	if strings.Contains(s, "\"") && !strings.Contains(s, "`") {
+	if strings.Contains(s, "\"") && strconv.CanBackquote(s) {
 		return &ast.BasicLit{Kind: token.STRING, Value: "`" + s + "`"}
 	}
 	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)}
-- 
2.43.0


From 6ea0f183568211608ddab5d7c49032309bf5ad76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:56 +0000
Subject: [PATCH 27/80] fix: gen: TagKey must look at the tags of fields that
 have one

---
 internal/gen/gen.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index a1c4d78..140fc61 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -419,10 +419,14 @@ func ExprString(expr ast.Expr) string {
 // TagKey gets the struct tag item with the
 // given key.
 func TagKey(field *ast.Field, key string) string {
-	if field.Tag != nil {
+	if field.Tag == nil {
 		return ""
 	}
-	return reflect.StructTag(field.Tag.Value).Get(key)
+	tag, err := strconv.Unquote(field.Tag.Value)
+	if err != nil {
+		return ""
+	}
+	return reflect.StructTag(tag).Get(key)
 }
 
 // FormattedSource converts an abstract syntax tree to
-- 
2.43.0


From 33e00f5f24591de3b351115611d00edb34bc869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:08 +0000
Subject: [PATCH 28/80] fix: gen: keep long comment lines, and no characters
 that Go refuses in comments

---
 internal/gen/gen.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index 140fc61..800ba25 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -5,7 +5,6 @@
 package gen // import "aqwari.net/xml/internal/gen"
 
 import (
-	"bufio"
 	"bytes"
 	"errors"
 	"fmt"
@@ -21,6 +20,7 @@ import (
 	"strconv"
 	"strings"
 	"text/template"
+	"unicode/utf8"
 
 	"golang.org/x/tools/imports"
 )
@@ -216,16 +216,30 @@ func PackageDoc(file *ast.File, comments ...string) *ast.File {
 func CommentGroup(comments ...string) *ast.CommentGroup {
 	var group ast.CommentGroup
 	for _, v := range comments {
-		line := bufio.NewScanner(strings.NewReader(v))
-		for line.Scan() {
+		if v == "" {
+			continue
+		}
+		for _, line := range strings.Split(strings.TrimSuffix(v, "\n"), "\n") {
 			group.List = append(group.List, &ast.Comment{
-				Text: "// " + strings.TrimSpace(line.Text()),
+				Text: "// " + strings.TrimSpace(commentText(line)),
 			})
 		}
 	}
 	return &group
 }
 
+// commentText removes the characters which must not appear in a
+// Go comment.
+func commentText(s string) string {
+	return strings.Map(func(r rune) rune {
+		switch r {
+		case 0, '\r', '\uFEFF', utf8.RuneError:
+			return -1
+		}
+		return r
+	}, s)
+}
+
 type Function struct {
 	name, receiver, godoc string
 	args, returns         []string
@@ -262,7 +276,7 @@ func (fn *Function) Decl() (*ast.FuncDecl, error) {
 		comments = &ast.CommentGroup{List: []*ast.Comment{}}
 		for _, line := range strings.Split(fn.godoc, "\n") {
 			comments.List = append(comments.List, &ast.Comment{
-				Text: "// " + line + "\n",
+				Text: "// " + commentText(line) + "\n",
 			})
 		}
 	}
-- 
2.43.0


From 3e6265744d1bda1587020372ba83f8558f9fcacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:02 +0000
Subject: [PATCH 29/80] fix: gen: a field without a name may have a type with
 spaces

---
 internal/gen/gen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index 800ba25..df81376 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -103,6 +103,10 @@ func FieldList(fields ...string) (*ast.FieldList, error) {
 		if len(parts) == 0 {
 			return nil, fmt.Errorf("empty field list item %q", s)
 		}
+		if !token.IsIdentifier(parts[0]) {
+			// no name, but a type with a space in it
+			parts = []string{s}
+		}
 		var names []*ast.Ident
 		typeExpr, err := parser.ParseExpr(parts[len(parts)-1])
 		if err != nil {
-- 
2.43.0


From 301fd69589cd8e5775b346b2c086f76e1d3707ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:46 +0000
Subject: [PATCH 30/80] fix: xsdgen: xs:byte is signed and xs:NOTATION is one
 name

---
 xsdgen/builtin.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index 1b968e2..1b9dffd 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -7,7 +7,7 @@ import (
 )
 
 func builtinExpr(b xsd.Builtin) ast.Expr {
-	if int(b) > len(builtinTbl) || b < 0 {
+	if int(b) >= len(builtinTbl) || b < 0 {
 		return nil
 	}
 	return builtinTbl[b]
@@ -41,13 +41,13 @@ var builtinTbl = []ast.Expr{
 	xsd.NCName:        &ast.Ident{Name: "string"},
 	xsd.NMTOKEN:       &ast.Ident{Name: "string"},
 	xsd.NMTOKENS:      &ast.ArrayType{Elt: &ast.Ident{Name: "string"}},
-	xsd.NOTATION:      &ast.ArrayType{Elt: &ast.Ident{Name: "string"}},
+	xsd.NOTATION:      &ast.Ident{Name: "string"},
 	xsd.Name:          &ast.Ident{Name: "string"},
 	xsd.QName:         &ast.Ident{Name: "xml.Name"},
 	xsd.AnyURI:        &ast.Ident{Name: "string"},
 	xsd.Base64Binary:  &ast.ArrayType{Elt: &ast.Ident{Name: "byte"}},
 	xsd.Boolean:       &ast.Ident{Name: "bool"},
-	xsd.Byte:          &ast.Ident{Name: "byte"},
+	xsd.Byte:          &ast.Ident{Name: "int8"},
 	xsd.Date:          &ast.Ident{Name: "time.Time"},
 	xsd.DateTime:      &ast.Ident{Name: "time.Time"},
 	xsd.Decimal:       &ast.Ident{Name: "float64"},
-- 
2.43.0


From 4f5ad6cb9921a7b27a5d9a650682b5b5375ecf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:08 +0000
Subject: [PATCH 31/80] fix: xsdgen: the methods of list types must compile for
 every item type

---
 xsdgen/xsdgen.go | 150 +++++++++++++++++++++--------------------------
 1 file changed, 68 insertions(+), 82 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 0604c4d..47b0d32 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -940,14 +940,20 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 	if err != nil {
 		return nil, err
 	}
+	if t.Base == xsd.QName {
+		// An item's prefix cannot be resolved from the text of the
+		// list alone, so items are kept as they were written.
+		expr = builtinExpr(xsd.String)
+	}
 	expr = &ast.ArrayType{Elt: expr}
 	s := spec{
+		doc:     t.Doc,
 		name:    cfg.public(t.Name),
 		expr:    expr,
 		xsdType: t,
 	}
 	marshalFn := gen.Func("MarshalText").
-		Receiver("x *"+s.name).
+		Receiver("x "+s.name).
 		Returns("[]byte", "error")
 	unmarshalFn := gen.Func("UnmarshalText").
 		Receiver("x *" + s.name).
@@ -960,10 +966,10 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 	}
 
 	switch base.(xsd.Builtin) {
-	case xsd.ID, xsd.NCName, xsd.NMTOKEN, xsd.Name, xsd.QName, xsd.ENTITY, xsd.AnyURI, xsd.Language, xsd.String, xsd.Token, xsd.XMLLang, xsd.XMLSpace, xsd.XMLBase, xsd.XMLId, xsd.Duration, xsd.NormalizedString, xsd.AnySimpleType:
+	case xsd.ID, xsd.IDREF, xsd.NCName, xsd.NMTOKEN, xsd.NOTATION, xsd.Name, xsd.QName, xsd.ENTITY, xsd.AnyURI, xsd.Language, xsd.String, xsd.Token, xsd.XMLLang, xsd.XMLSpace, xsd.XMLBase, xsd.XMLId, xsd.Duration, xsd.NormalizedString, xsd.AnySimpleType:
 		marshalFn = marshalFn.Body(`
-			result := make([][]byte, 0, len(*x))
-			for _, v := range *x {
+			result := make([][]byte, 0, len(x))
+			for _, v := range x {
 				result = append(result, []byte(v))
 			}
 			return bytes.Join(result, []byte(" ")), nil
@@ -974,130 +980,110 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			}
 			return nil
 		`)
-	case xsd.Date, xsd.DateTime, xsd.GDay, xsd.GMonth, xsd.GMonthDay, xsd.GYear, xsd.GYearMonth, xsd.Time:
+	case xsd.Date, xsd.DateTime, xsd.GDay, xsd.GMonth, xsd.GMonthDay, xsd.GYear, xsd.GYearMonth, xsd.Time, xsd.HexBinary, xsd.Base64Binary:
+		h, ok := cfg.helperTypes[xsd.XMLName(base)]
+		if !ok {
+			return nil, fmt.Errorf("no helper type for %v", base)
+		}
+		s.helperTypes = append(s.helperTypes, xsd.XMLName(h.xsdType))
 		marshalFn = marshalFn.Body(`
-			result := make([][]byte, 0, len(*x))
-			for _, v := range *x {
-				if b, err := v.MarshalText(); err != nil {
-					return result, err
+			result := make([][]byte, 0, len(x))
+			for _, v := range x {
+				if b, err := %s(v).MarshalText(); err != nil {
+					return nil, err
 				} else {
 					result = append(result, b)
 				}
 			}
-			return bytes.Join(result, []byte(" "))
-		`)
-		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range bytes.Fields(text) {
-				var t %s
-				if err := t.UnmarshalText(v); err != nil {
-					return err
-				}
-				*x = append(*x, t)
-			}
-		`, builtinExpr(base.(xsd.Builtin)).(*ast.Ident).Name)
-	case xsd.Long:
-		marshalFn = marshalFn.Body(`
-			result := make([][]byte, 0, len(*x))
-			for _, v := range *x {
-				result = append(result, []byte(strconv.FormatInt(v, 10)))
-			}
-			return bytes.Join(result, []byte(" ")), nil
-		`)
-		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range strings.Fields(string(text)) {
-				if i, err := strconv.ParseInt(v, 10, 64); err != nil {
-					return err
-				} else {
-					*x = append(*x, i)
-				}
-			}
-			return nil
-		`)
-	case xsd.Decimal, xsd.Double:
-		marshalFn = marshalFn.Body(`
-			result := make([][]byte, 0, len(*x))
-			for _, v := range *x {
-				s := strconv.FormatFloat(v, 'g', -1, 64)
-				result = append(result, []byte(s))
-			}
 			return bytes.Join(result, []byte(" ")), nil
-		`)
+		`, h.name)
 		unmarshalFn = unmarshalFn.Body(`
-			for _, v := range strings.Fields(string(text)) {
-				if f, err := strconv.ParseFloat(v, 64); err != nil {
+			for _, v := range bytes.Fields(text) {
+				var item %s
+				if err := item.UnmarshalText(v); err != nil {
 					return err
-				} else {
-					*x = append(*x, f)
 				}
+				*x = append(*x, %s(item))
 			}
 			return nil
-		`)
-	case xsd.Int, xsd.Integer, xsd.NegativeInteger, xsd.NonNegativeInteger, xsd.NonPositiveInteger, xsd.Short:
+		`, h.name, cfg.exprString(base))
+	case xsd.Byte, xsd.Short, xsd.Int, xsd.Integer, xsd.Long, xsd.NegativeInteger, xsd.NonNegativeInteger, xsd.NonPositiveInteger, xsd.PositiveInteger:
+		bits := 0 // the size of an int
+		switch base {
+		case xsd.Byte:
+			bits = 8
+		case xsd.Long:
+			bits = 64
+		}
 		marshalFn = marshalFn.Body(`
-			result := make([][]byte, 0, len(*x))
-			for _, v := range *x {
-				result = append(result, []byte(strconv.Itoa(v)))
+			result := make([][]byte, 0, len(x))
+			for _, v := range x {
+				result = append(result, []byte(strconv.FormatInt(int64(v), 10)))
 			}
 			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
 			for _, v := range strings.Fields(string(text)) {
-				if i, err := strconv.Atoi(v); err != nil {
+				if i, err := strconv.ParseInt(v, 10, %d); err != nil {
 					return err
 				} else {
-					*x = append(*x, i)
+					*x = append(*x, %s(i))
 				}
 			}
 			return nil
-		`)
-	case xsd.UnsignedInt, xsd.UnsignedShort:
+		`, bits, cfg.exprString(base))
+	case xsd.UnsignedByte, xsd.UnsignedInt, xsd.UnsignedShort, xsd.UnsignedLong:
+		bits := 64
+		switch base {
+		case xsd.UnsignedByte:
+			bits = 8
+		case xsd.UnsignedInt, xsd.UnsignedShort:
+			bits = 32
+		}
 		marshalFn = marshalFn.Body(`
-			result := make([][]byte, 0, len(*x))
-			for _, v := range *x {
+			result := make([][]byte, 0, len(x))
+			for _, v := range x {
 				result = append(result, []byte(strconv.FormatUint(uint64(v), 10)))
 			}
 			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
 			for _, v := range strings.Fields(string(text)) {
-				if i, err := strconv.ParseUint(v, 10, 32); err != nil {
+				if i, err := strconv.ParseUint(v, 10, %d); err != nil {
 					return err
 				} else {
-					*x = append(*x, uint(i))
+					*x = append(*x, %s(i))
 				}
 			}
 			return nil
-		`)
-	case xsd.UnsignedLong:
+		`, bits, cfg.exprString(base))
+	case xsd.Float, xsd.Decimal, xsd.Double:
+		bits := 64
+		if base == xsd.Float {
+			bits = 32
+		}
 		marshalFn = marshalFn.Body(`
-			result := make([][]byte, 0, len(*x))
-			for _, v := range *x {
-				result = append(result, []byte(strconv.FormatUInt(v, 10)))
+			result := make([][]byte, 0, len(x))
+			for _, v := range x {
+				s := strconv.FormatFloat(float64(v), 'g', -1, %d)
+				result = append(result, []byte(s))
 			}
 			return bytes.Join(result, []byte(" ")), nil
-		`)
+		`, bits)
 		unmarshalFn = unmarshalFn.Body(`
 			for _, v := range strings.Fields(string(text)) {
-				if i, err := strconv.ParseInt(v, 10, 64); err != nil {
+				if f, err := strconv.ParseFloat(v, %d); err != nil {
 					return err
 				} else {
-					*x = append(*x, i)
+					*x = append(*x, %s(f))
 				}
 			}
 			return nil
-		`)
-	case xsd.Byte, xsd.UnsignedByte:
-		marshalFn = marshalFn.Body(`
-			return []byte(*x), nil
-		`)
-		unmarshalFn = unmarshalFn.Body(`
-			*x = %s(text)
-			return nil
-		`, s.name)
+		`, bits, cfg.exprString(base))
 	case xsd.Boolean:
 		marshalFn = marshalFn.Body(`
-			result := make([][]byte
-			for _, b := range *x {
+			result := make([][]byte, 0, len(x))
+			for _, b := range x {
 				if b {
 					result = append(result, []byte("1"))
 				} else {
-- 
2.43.0


From e4deb7852ab30fcfd32a4ab0ba84c8f683e1dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:25 +0000
Subject: [PATCH 32/80] fix: xsdgen: a restriction of a list or union type is
 one too

---
 xsdgen/xsdgen.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 47b0d32..256123f 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -414,7 +414,16 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type
 			base, builtin xsd.Type
 			ok            bool
 		)
-		// TODO: handle list/union types
+		// A restriction of a list or union type is a list or
+		// union type itself.
+		if !t.List && len(t.Union) == 0 {
+			for b, ok := t.Base.(*xsd.SimpleType); ok; b, ok = b.Base.(*xsd.SimpleType) {
+				if b.List || len(b.Union) > 0 {
+					t.List, t.Union, t.Base = b.List, b.Union, b.Base
+					break
+				}
+			}
+		}
 		for base = xsd.Base(t); base != nil; base = xsd.Base(base) {
 			if builtin, ok = base.(xsd.Builtin); ok {
 				break
-- 
2.43.0


From b6488c97f3c3eb10047221830c04c8f8f54abf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:35 +0000
Subject: [PATCH 33/80] fix: xsdgen: keep the documentation of simple types,
 and see their length

---
 xsdgen/xsdgen.go | 50 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 256123f..85684a5 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -456,20 +456,7 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type
 		if nonTrivialBuiltin(t.Base) {
 			return t
 		}
-		if len(t.Restriction.Enum) > 0 {
-			t.Doc = "May be one of " + strings.Join(t.Restriction.Enum, ", ")
-			return t
-		}
-		if t.Restriction.Pattern != nil {
-			t.Doc = "Must match the pattern " + t.Restriction.Pattern.String()
-			return t
-		}
-		if t.Restriction.MaxLength != 0 {
-			t.Doc = "May be no more than " + strconv.Itoa(t.Restriction.MaxLength) + " items long"
-			return t
-		}
-		if t.Restriction.MinLength != 0 {
-			t.Doc = "Must be at least " + strconv.Itoa(t.Restriction.MinLength) + " items long"
+		if restrictionDoc(t) != "" {
 			return t
 		}
 		return t.Base
@@ -531,6 +518,35 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type
 	panic(fmt.Errorf("unexpected %T(%s %s)", t, xsd.XMLName(t).Space, xsd.XMLName(t).Local))
 }
 
+// Describes the restrictions that a simple type puts on its base type, if any.
+func restrictionDoc(t *xsd.SimpleType) string {
+	r := t.Restriction
+	maxLength := r.MaxLength
+	if maxLength == 0 {
+		maxLength = r.Length
+	}
+	switch {
+	case len(r.Enum) > 0:
+		return "May be one of " + strings.Join(r.Enum, ", ")
+	case r.Pattern != nil:
+		return "Must match the pattern " + r.Pattern.String()
+	case maxLength != 0:
+		return "May be no more than " + strconv.Itoa(maxLength) + " items long"
+	case r.MinLength != 0:
+		return "Must be at least " + strconv.Itoa(r.MinLength) + " items long"
+	}
+	return ""
+}
+
+// Returns the documentation for a simple type's declaration.
+func simpleTypeDoc(t *xsd.SimpleType) string {
+	doc := restrictionDoc(t)
+	if t.Doc == "" || doc == "" {
+		return t.Doc + doc
+	}
+	return t.Doc + "\n\n" + doc
+}
+
 func (cfg *Config) genTypeSpec(t xsd.Type) (result []spec, err error) {
 	var s []spec
 	cfg.debugf("generating type spec for %q", xsd.XMLName(t).Local)
@@ -885,7 +901,7 @@ func (cfg *Config) genSimpleType(t *xsd.SimpleType) ([]spec, error) {
 		// the value would be too complex. Need a use case
 		// first.
 		result = append(result, spec{
-			doc:     t.Doc,
+			doc:     simpleTypeDoc(t),
 			name:    cfg.public(t.Name),
 			expr:    builtinExpr(xsd.String),
 			xsdType: t,
@@ -899,7 +915,7 @@ func (cfg *Config) genSimpleType(t *xsd.SimpleType) ([]spec, error) {
 	}
 
 	spec, err := cfg.addSpecMethods(spec{
-		doc:     t.Doc,
+		doc:     simpleTypeDoc(t),
 		name:    cfg.public(t.Name),
 		expr:    base,
 		xsdType: t,
@@ -956,7 +972,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 	}
 	expr = &ast.ArrayType{Elt: expr}
 	s := spec{
-		doc:     t.Doc,
+		doc:     simpleTypeDoc(t),
 		name:    cfg.public(t.Name),
 		expr:    expr,
 		xsdType: t,
-- 
2.43.0


From cc642a3a265810db9c2096769b780ab51feffb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 34/80] fix: xsdgen: visit every complex type once

---
 xsdgen/xsdgen.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 85684a5..0ae0820 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -110,7 +110,7 @@ func (c *Code) NameOf(name xml.Name) string {
 		return "NOTFOUND" + name.Local
 	}
 
-	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, 0).(type) {
+	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, make(map[*xsd.ComplexType]bool)).(type) {
 	case xsd.Builtin:
 		return c.NameOf(b.Name())
 	}
@@ -371,6 +371,7 @@ func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 	push := func(t xsd.Type) {
 		result = append(result, t)
 	}
+	seen := make(map[*xsd.ComplexType]bool)
 	for _, t := range types {
 		if xsd.XMLName(t).Local == "_self" {
 			continue
@@ -384,7 +385,7 @@ func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 				continue
 			}
 		}
-		if t := cfg.flatten1(t, push, 0); t != nil {
+		if t := cfg.flatten1(t, push, seen); t != nil {
 			push(t)
 		}
 	}
@@ -402,11 +403,9 @@ func dedup(types []xsd.Type) (unique []xsd.Type) {
 	return unique
 }
 
-func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type {
-	const maxDepth = 1000
-	if depth > maxDepth {
-		return t
-	}
+// A type may contain itself, and may be reached in many ways from other types;
+// the complex types in seen have been flattened before or are being flattened.
+func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), seen map[*xsd.ComplexType]bool) xsd.Type {
 	switch t := t.(type) {
 	case *xsd.SimpleType:
 		var (
@@ -476,28 +475,33 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type
 				case xsd.Builtin:
 					return b
 				case *xsd.SimpleType:
-					return cfg.flatten1(t.Base, push, depth+1)
+					return cfg.flatten1(t.Base, push, seen)
 				}
 			}
 		}
+		if seen[t] {
+			return t
+		}
+		seen[t] = true
+
 		// We can flatten a struct field if its type does not
 		// need additional methods for unmarshalling.
 		for i, el := range t.Elements {
-			el.Type = cfg.flatten1(el.Type, push, depth+1)
+			el.Type = cfg.flatten1(el.Type, push, seen)
 			t.Elements[i] = el
 			push(el.Type)
 			cfg.debugf("element %s %T(%s): %v", el.Name.Local, t,
 				xsd.XMLName(t).Local, xsd.XMLName(el.Type))
 		}
 		for i, attr := range t.Attributes {
-			attr.Type = cfg.flatten1(attr.Type, push, depth+1)
+			attr.Type = cfg.flatten1(attr.Type, push, seen)
 			t.Attributes[i] = attr
 			push(attr.Type)
 			cfg.debugf("attribute %s %T(%s): %v", attr.Name.Local, t,
 				xsd.XMLName(t).Local, xsd.XMLName(attr.Type))
 		}
 
-		t.Base = cfg.flatten1(t.Base, push, depth+1)
+		t.Base = cfg.flatten1(t.Base, push, seen)
 
 		// We expand all complexTypes to merge all of the fields from
 		// their ancestors, so generated code has no dependencies
-- 
2.43.0


From b1d3166bb225583059ede2575e38f4e672cb3e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:53 +0000
Subject: [PATCH 35/80] fix: xsdgen: identifiers must be valid, and those of
 fields exported, for every XML name

---
 xsdgen/config.go | 27 ++++++++++++++++++++++++++-
 xsdgen/xsdgen.go |  4 ++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index a2bf601..8789ce0 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -8,6 +8,8 @@ import (
 	"go/format"
 	"regexp"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"aqwari.net/xml/internal/gen"
 	"aqwari.net/xml/xsd"
@@ -474,7 +476,30 @@ func (cfg *Config) public(name xml.Name) string {
 	if cfg.nameTransform != nil {
 		name = cfg.nameTransform(name)
 	}
-	return strings.Title(name.Local)
+	return identifier(strings.Title(name.Local))
+}
+
+// XML names may contain characters that Go identifiers may not.
+func identifier(name string) string {
+	name = strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return -1
+	}, name)
+	if r, _ := utf8.DecodeRuneInString(name); r != '_' && !unicode.IsLetter(r) {
+		return "X" + name
+	}
+	return name
+}
+
+// The encoding/xml package ignores fields that are not exported.
+func (cfg *Config) fieldName(name xml.Name) string {
+	id := cfg.public(name)
+	if !ast.IsExported(id) {
+		return "X" + id
+	}
+	return id
 }
 
 //
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 0ae0820..3424759 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -601,7 +601,7 @@ func (gen *nameGenerator) unique(name string) ast.Expr {
 }
 
 func (gen *nameGenerator) attribute(base xml.Name) ast.Expr {
-	name := gen.cfg.public(base)
+	name := gen.cfg.fieldName(base)
 	if _, ok := gen.taken[name]; !ok {
 		gen.taken[name] = struct{}{}
 		return ast.NewIdent(name)
@@ -610,7 +610,7 @@ func (gen *nameGenerator) attribute(base xml.Name) ast.Expr {
 }
 
 func (gen *nameGenerator) element(base xml.Name) ast.Expr {
-	name := gen.cfg.public(base)
+	name := gen.cfg.fieldName(base)
 	if _, ok := gen.taken[name]; !ok {
 		gen.taken[name] = struct{}{}
 		return ast.NewIdent(name)
-- 
2.43.0


From 770a082f07a580c38f819083813f18590f4bb7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:56 +0000
Subject: [PATCH 36/80] fix: xsdgen: no two fields of a struct may have the
 same name

---
 xsdgen/xsdgen.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 3424759..c56bb4f 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -624,7 +624,13 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 	var overrides []fieldOverride
 	var helperTypes []xml.Name
 
-	namegen := nameGenerator{cfg, make(map[string]struct{})}
+	// The generated methods, and a field that encoding/xml treats
+	// specially, also have names.
+	namegen := nameGenerator{cfg, map[string]struct{}{
+		"XMLName":      struct{}{},
+		"MarshalXML":   struct{}{},
+		"UnmarshalXML": struct{}{},
+	}}
 
 	if t.Mixed {
 		// For complex types with mixed content models, we must drill
@@ -646,7 +652,8 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		case *xsd.SimpleType:
 			cfg.debugf("complexType %[1]s extends simpleType %[2]s. Naming"+
 				" the chardata struct field after %[2]s", t.Name.Local, b.Name.Local)
-			fields = append(fields, expr, expr, gen.String(`xml:",chardata"`))
+			name := namegen.unique(cfg.fieldName(b.Name))
+			fields = append(fields, name, expr, gen.String(`xml:",chardata"`))
 		case xsd.Builtin:
 			if b == xsd.AnyType {
 				// extending anyType doesn't really make sense, but
@@ -658,7 +665,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 			// Name the field after the xsd type name.
 			cfg.debugf("complexType %[1]s extends %[2]s, naming chardata struct field %[2]s",
 				t.Name.Local, b)
-			name := "Value"
+			name := namegen.unique("Value")
 			tag := `xml:",chardata"`
 			if nonTrivialBuiltin(b) {
 				h, ok := cfg.helperTypes[xsd.XMLName(b)]
@@ -667,14 +674,14 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 				}
 				helperTypes = append(helperTypes, xsd.XMLName(h.xsdType))
 				overrides = append(overrides, fieldOverride{
-					FieldName: name,
+					FieldName: name.(*ast.Ident).Name,
 					FromType:  cfg.exprString(b),
 					Tag:       tag,
 					ToType:    h.name,
 					Type:      b,
 				})
 			}
-			fields = append(fields, namegen.unique(name), expr, gen.String(tag))
+			fields = append(fields, name, expr, gen.String(tag))
 		default:
 			panic(fmt.Errorf("%s does not derive from a builtin type", t.Name.Local))
 		}
@@ -718,13 +725,15 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		if err != nil {
 			return nil, fmt.Errorf("%s element %s: %v", t.Name.Local, el.Name.Local, err)
 		}
-		name := namegen.element(el.Name)
-		if el.Wildcard {
+		var name ast.Expr
+		if !el.Wildcard {
+			name = namegen.element(el.Name)
+		} else {
 			tag = `xml:",any"`
 			if el.Plural {
-				name = ast.NewIdent("Items")
+				name = namegen.unique("Items")
 			} else {
-				name = ast.NewIdent("Item")
+				name = namegen.unique("Item")
 			}
 			if b, ok := el.Type.(xsd.Builtin); ok && b == xsd.AnyType {
 				cfg.debugf("complexType %s: defaulting wildcard element to []string", t.Name.Local)
-- 
2.43.0


From 87805f914a1bac60480e518a1ee2dbd9cadd28d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:22 +0000
Subject: [PATCH 37/80] fix: xsdgen: the methods of structs must compile for
 repeated dates and bytes, and whatever names and defaults there are

---
 xsdgen/xsdgen.go | 68 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 55 insertions(+), 13 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index c56bb4f..f2c6df9 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -577,6 +577,7 @@ type fieldOverride struct {
 	DefaultValue     string
 	Type             xsd.Type
 	Tag              string
+	Plural           bool
 }
 
 type nameGenerator struct {
@@ -744,7 +745,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 			base = &ast.ArrayType{Elt: base}
 		}
 		fields = append(fields, name, base, gen.String(tag))
-		if el.Default != "" || nonTrivialBuiltin(el.Type) {
+		if (el.Default != "" && !el.Plural) || nonTrivialBuiltin(el.Type) {
 			typeName := cfg.exprString(el.Type)
 			if nonTrivialBuiltin(el.Type) {
 				h, ok := cfg.helperTypes[xsd.XMLName(el.Type)]
@@ -761,6 +762,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 				Tag:          tag,
 				ToType:       typeName,
 				Type:         el.Type,
+				Plural:       el.Plural,
 			})
 		}
 	}
@@ -833,35 +835,69 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 	return result, nil
 }
 
+// Returns a name for a type that is local to the methods of another type, and
+// different from the names used there.
+func aliasName(typ string, overrides []fieldOverride) string {
+	taken := map[string]bool{typ: true}
+	for _, v := range overrides {
+		taken[v.FieldName] = true
+		taken[v.ToType] = true
+	}
+	name := "T"
+	for i := 0; taken[name]; i++ {
+		name = "T" + strconv.Itoa(i)
+	}
+	return name
+}
+
 func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOverride) (marshal, unmarshal *ast.FuncDecl, err error) {
 	var data struct {
 		Overrides []fieldOverride
 		Type      string
+		Alias     string
+		Plural    bool
 	}
 	data.Overrides = overrides
 	data.Type = cfg.public(t.Name)
+	data.Alias = aliasName(data.Type, overrides)
+	for _, v := range overrides {
+		data.Plural = data.Plural || v.Plural
+	}
 
 	unmarshal, err = gen.Func("UnmarshalXML").
 		Receiver("t *"+data.Type).
 		Args("d *xml.Decoder", "start xml.StartElement").
 		Returns("error").
 		BodyTmpl(`
-			type T {{.Type}}
+			type {{.Alias}} {{.Type}}
 			var overlay struct{
-				*T
+				*{{.Alias}}
 				{{range .Overrides}}
-				{{.FieldName}} *{{.ToType}} `+"`{{.Tag}}`"+`
+				{{.FieldName}} {{if .Plural}}[]{{else}}*{{end}}{{.ToType}} `+"`{{.Tag}}`"+`
 				{{end}}
 			}
-			overlay.T = (*T)(t)
+			overlay.{{.Alias}} = (*{{.Alias}})(t)
 			{{range .Overrides}}
-			overlay.{{.FieldName}} = (*{{.ToType}})(&overlay.T.{{.FieldName}})
+			{{if not .Plural -}}
+			overlay.{{.FieldName}} = (*{{.ToType}})(&overlay.{{$.Alias}}.{{.FieldName}})
+			{{end -}}
 			{{if .DefaultValue -}}
-			// overlay.{{.FieldName}} = {{.DefaultValue}}
+			// overlay.{{.FieldName}} = {{printf "%q" .DefaultValue}}
 			{{end -}}
 			{{end}}
-
+			{{if .Plural}}
+			if err := d.DecodeElement(&overlay, &start); err != nil {
+				return err
+			}
+			{{range .Overrides}}{{if .Plural}}
+			for _, v := range overlay.{{.FieldName}} {
+				t.{{.FieldName}} = append(t.{{.FieldName}}, {{.FromType}}(v))
+			}
+			{{end}}{{end}}
+			return nil
+			{{else}}
 			return d.DecodeElement(&overlay, &start)
+			{{end}}
 		`, data).Decl()
 	if err != nil {
 		return nil, nil, err
@@ -886,16 +922,22 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 		Args("e *xml.Encoder", "start xml.StartElement").
 		Returns("error").
 		BodyTmpl(`
-			type T {{.Type}}
+			type {{.Alias}} {{.Type}}
 			var layout struct{
-				*T
+				*{{.Alias}}
 				{{- range .Overrides}}
-				{{.FieldName}} *{{.ToType}}`+"`{{.Tag}}`"+`
+				{{.FieldName}} {{if .Plural}}[]{{else}}*{{end}}{{.ToType}}`+"`{{.Tag}}`"+`
 				{{end -}}
 			}
-			layout.T = (*T)(t)
+			layout.{{.Alias}} = (*{{.Alias}})(t)
 			{{- range .Overrides}}
-			layout.{{.FieldName}} = (*{{.ToType}})(&layout.T.{{.FieldName}})
+			{{if .Plural -}}
+			for _, v := range t.{{.FieldName}} {
+				layout.{{.FieldName}} = append(layout.{{.FieldName}}, {{.ToType}}(v))
+			}
+			{{else -}}
+			layout.{{.FieldName}} = (*{{.ToType}})(&layout.{{$.Alias}}.{{.FieldName}})
+			{{end -}}
 			{{end -}}
 
 			return e.EncodeElement(layout, start)
-- 
2.43.0


From ab71adea03226dfebedf2d4ad6818825b4df2388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:45 +0000
Subject: [PATCH 38/80] fix: xsdgen: quote namespaces in struct tags

---
 xsdgen/xsdgen.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index f2c6df9..623979d 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -677,7 +677,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 				overrides = append(overrides, fieldOverride{
 					FieldName: name.(*ast.Ident).Name,
 					FromType:  cfg.exprString(b),
-					Tag:       tag,
+					Tag:       gen.String(tag).Value,
 					ToType:    h.name,
 					Type:      b,
 				})
@@ -721,7 +721,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		if el.Nillable || el.Optional {
 			options = ",omitempty"
 		}
-		tag := fmt.Sprintf(`xml:"%s %s%s"`, el.Name.Space, el.Name.Local, options)
+		tag := fmt.Sprintf(`xml:%q`, el.Name.Space+" "+el.Name.Local+options)
 		base, err := cfg.expr(el.Type)
 		if err != nil {
 			return nil, fmt.Errorf("%s element %s: %v", t.Name.Local, el.Name.Local, err)
@@ -759,7 +759,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 				DefaultValue: el.Default,
 				FieldName:    name.(*ast.Ident).Name,
 				FromType:     cfg.exprString(el.Type),
-				Tag:          tag,
+				Tag:          gen.String(tag).Value,
 				ToType:       typeName,
 				Type:         el.Type,
 				Plural:       el.Plural,
@@ -779,7 +779,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		}
 		var tag string
 		if qualified {
-			tag = fmt.Sprintf(`xml:"%s %s,attr%s"`, attr.Name.Space, attr.Name.Local, options)
+			tag = fmt.Sprintf(`xml:%q`, attr.Name.Space+" "+attr.Name.Local+",attr"+options)
 		} else {
 			tag = fmt.Sprintf(`xml:"%s,attr%s"`, attr.Name.Local, options)
 		}
@@ -804,7 +804,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 				DefaultValue: attr.Default,
 				FieldName:    name.(*ast.Ident).Name,
 				FromType:     cfg.exprString(attr.Type),
-				Tag:          tag,
+				Tag:          gen.String(tag).Value,
 				ToType:       typeName,
 				Type:         attr.Type,
 			})
@@ -873,7 +873,7 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 			var overlay struct{
 				*{{.Alias}}
 				{{range .Overrides}}
-				{{.FieldName}} {{if .Plural}}[]{{else}}*{{end}}{{.ToType}} `+"`{{.Tag}}`"+`
+				{{.FieldName}} {{if .Plural}}[]{{else}}*{{end}}{{.ToType}} `+"{{.Tag}}"+`
 				{{end}}
 			}
 			overlay.{{.Alias}} = (*{{.Alias}})(t)
@@ -926,7 +926,7 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 			var layout struct{
 				*{{.Alias}}
 				{{- range .Overrides}}
-				{{.FieldName}} {{if .Plural}}[]{{else}}*{{end}}{{.ToType}}`+"`{{.Tag}}`"+`
+				{{.FieldName}} {{if .Plural}}[]{{else}}*{{end}}{{.ToType}}`+"{{.Tag}}"+`
 				{{end -}}
 			}
 			layout.{{.Alias}} = (*{{.Alias}})(t)
-- 
2.43.0


From b9d72241a9ed5cd89f7c0d68780e13b4f3d75667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:22 +0000
Subject: [PATCH 39/80] fix: xsdgen: different types must have different
 identifiers

---
 xsdgen/config.go |  6 +++-
 xsdgen/xsdgen.go | 86 ++++++++++++++++++++++++++++++++++++++----------
 2 files changed, 74 insertions(+), 18 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index 8789ce0..2c2b9a4 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -41,6 +41,10 @@ type Config struct {
 	// Transform for names
 	nameTransform func(xml.Name) xml.Name
 
+	// The Go identifiers for types, and those that are in use.
+	typeNames  map[xml.Name]string
+	takenNames map[string]bool
+
 	// if populated, only types that are true in this map
 	// will be selected.
 	allowTypes map[xml.Name]bool
@@ -449,7 +453,7 @@ func (cfg *Config) expr(t xsd.Type) (ast.Expr, error) {
 		}
 		return ex, nil
 	}
-	return ast.NewIdent(cfg.public(xsd.XMLName(t))), nil
+	return ast.NewIdent(cfg.typeName(xsd.XMLName(t))), nil
 }
 
 func (cfg *Config) exprString(t xsd.Type) string {
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 623979d..07c336b 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -172,20 +172,22 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 		}
 	}
 
+	var types []xsd.Type
 	for _, primary := range primaries {
 		cfg.debugf("flattening type hierarchy for schema %q", primary.TargetNS)
-		types := cfg.flatten(primary.Types)
-		types = cfg.expandComplexTypes(types)
-		for _, t := range types {
-			specs, err := cfg.genTypeSpec(t)
-			if err != nil {
-				errList = append(errList, fmt.Errorf("gen type %q: %v",
-					xsd.XMLName(t).Local, err))
-			} else {
-				for _, s := range specs {
-					code.names[xsd.XMLName(s.xsdType)] = s.name
-					code.decls[s.name] = s
-				}
+		types = append(types, cfg.expandComplexTypes(cfg.flatten(primary.Types))...)
+	}
+	types = dedup(types)
+	cfg.nameTypes(primaries, types)
+	for _, t := range types {
+		specs, err := cfg.genTypeSpec(t)
+		if err != nil {
+			errList = append(errList, fmt.Errorf("gen type %q: %v",
+				xsd.XMLName(t).Local, err))
+		} else {
+			for _, s := range specs {
+				code.names[xsd.XMLName(s.xsdType)] = s.name
+				code.decls[s.name] = s
 			}
 		}
 	}
@@ -392,6 +394,56 @@ func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 	return dedup(result)
 }
 
+// Chooses the Go identifiers for types. Different types must have different
+// identifiers, even if their names only differ in their case, or in their
+// namespace, or become equal by the substitutions that the user asks for. If
+// that requires one of them to change, types of the primary namespaces go first.
+func (cfg *Config) nameTypes(primaries []xsd.Schema, types []xsd.Type) {
+	isPrimary := make(map[string]bool)
+	for _, s := range primaries {
+		isPrimary[s.TargetNS] = true
+	}
+	sort.SliceStable(types, func(i, j int) bool {
+		a, b := xsd.XMLName(types[i]), xsd.XMLName(types[j])
+		if isPrimary[a.Space] != isPrimary[b.Space] {
+			return isPrimary[a.Space]
+		}
+		if a.Space != b.Space {
+			return a.Space < b.Space
+		}
+		return a.Local < b.Local
+	})
+	cfg.typeNames = make(map[xml.Name]string)
+	cfg.takenNames = map[string]bool{"_": true}
+	for name := range cfg.helperFuncs {
+		cfg.takenNames[name] = true
+	}
+	for _, h := range cfg.helperTypes {
+		cfg.takenNames[h.name] = true
+	}
+	for _, t := range types {
+		if _, ok := t.(xsd.Builtin); !ok {
+			cfg.typeName(xsd.XMLName(t))
+		}
+	}
+}
+
+// Returns the Go identifier for the type with the given name.
+func (cfg *Config) typeName(name xml.Name) string {
+	if id, ok := cfg.typeNames[name]; ok {
+		return id
+	}
+	id := cfg.public(name)
+	for i := 0; cfg.takenNames[id]; i++ {
+		id = cfg.public(name) + strconv.Itoa(i)
+	}
+	if cfg.typeNames != nil {
+		cfg.typeNames[name] = id
+		cfg.takenNames[id] = true
+	}
+	return id
+}
+
 func dedup(types []xsd.Type) (unique []xsd.Type) {
 	seen := make(map[xml.Name]bool)
 	for _, v := range types {
@@ -813,7 +865,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 	expr := gen.Struct(fields...)
 	s := spec{
 		doc:         t.Doc,
-		name:        cfg.public(t.Name),
+		name:        cfg.typeName(t.Name),
 		expr:        expr,
 		xsdType:     t,
 		helperTypes: helperTypes,
@@ -858,7 +910,7 @@ func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOv
 		Plural    bool
 	}
 	data.Overrides = overrides
-	data.Type = cfg.public(t.Name)
+	data.Type = cfg.typeName(t.Name)
 	data.Alias = aliasName(data.Type, overrides)
 	for _, v := range overrides {
 		data.Plural = data.Plural || v.Plural
@@ -957,7 +1009,7 @@ func (cfg *Config) genSimpleType(t *xsd.SimpleType) ([]spec, error) {
 		// first.
 		result = append(result, spec{
 			doc:     simpleTypeDoc(t),
-			name:    cfg.public(t.Name),
+			name:    cfg.typeName(t.Name),
 			expr:    builtinExpr(xsd.String),
 			xsdType: t,
 		})
@@ -971,7 +1023,7 @@ func (cfg *Config) genSimpleType(t *xsd.SimpleType) ([]spec, error) {
 
 	spec, err := cfg.addSpecMethods(spec{
 		doc:     simpleTypeDoc(t),
-		name:    cfg.public(t.Name),
+		name:    cfg.typeName(t.Name),
 		expr:    base,
 		xsdType: t,
 	})
@@ -1028,7 +1080,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 	expr = &ast.ArrayType{Elt: expr}
 	s := spec{
 		doc:     simpleTypeDoc(t),
-		name:    cfg.public(t.Name),
+		name:    cfg.typeName(t.Name),
 		expr:    expr,
 		xsdType: t,
 	}
-- 
2.43.0


From b13b93b97e76745caf6fab05a6b5b4eb0ae04d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:44 +0000
Subject: [PATCH 40/80] fix: xsdgen: preprocess types in the same order every
 time

---
 xsdgen/xsdgen.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 07c336b..26d013f 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -160,8 +160,20 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 			prev := primary.Types
 			primary.Types = all
 
-			for name, t := range prev {
-				if t := cfg.preprocessType(primary, t); t != nil {
+			// The functions may look at the names that they have
+			// given to other types.
+			names := make([]xml.Name, 0, len(prev))
+			for name := range prev {
+				names = append(names, name)
+			}
+			sort.Slice(names, func(i, j int) bool {
+				if names[i].Space != names[j].Space {
+					return names[i].Space < names[j].Space
+				}
+				return names[i].Local < names[j].Local
+			})
+			for _, name := range names {
+				if t := cfg.preprocessType(primary, prev[name]); t != nil {
 					prev[name] = t
 				}
 			}
-- 
2.43.0


From e396ab49a41dbf68f9de6a1284b51d00c923090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:47 +0000
Subject: [PATCH 41/80] fix: xsdgen: do not name a type after a field if
 another type has that name

---
 xsdgen/config.go | 44 +++++++++++++++++---------------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index 2c2b9a4..de69550 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -320,40 +320,30 @@ func useFieldNames(s xsd.Schema, t xsd.Type) xsd.Type {
 	if !ok {
 		return t
 	}
-	for _, el := range c.Elements {
-		switch base := el.Type.(type) {
+	rename := func(t xsd.Type, name xml.Name) {
+		if _, inuse := used[name]; inuse {
+			return
+		}
+		switch t := t.(type) {
 		case *xsd.SimpleType:
-			if !base.Anonymous {
-				break
+			if t.Anonymous {
+				t.Name = name
+				t.Anonymous = false
+				used[name] = struct{}{}
 			}
-			base.Name = el.Name
-			base.Anonymous = false
 		case *xsd.ComplexType:
-			if !base.Anonymous {
-				break
-			}
-			if _, inuse := used[el.Name]; inuse {
-				break
+			if t.Anonymous {
+				t.Name = name
+				t.Anonymous = false
+				used[name] = struct{}{}
 			}
-			base.Name = el.Name
-			base.Anonymous = false
 		}
 	}
+	for _, el := range c.Elements {
+		rename(el.Type, el.Name)
+	}
 	for _, attr := range c.Attributes {
-		switch base := attr.Type.(type) {
-		case *xsd.SimpleType:
-			if !base.Anonymous {
-				break
-			}
-			base.Name = attr.Name
-			base.Anonymous = false
-		case *xsd.ComplexType:
-			if !base.Anonymous {
-				break
-			}
-			base.Name = attr.Name
-			base.Anonymous = false
-		}
+		rename(attr.Type, attr.Name)
 	}
 	return t
 }
-- 
2.43.0


From b90ee6747b9b974544d708ed778c8c3285ede276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:04 +0000
Subject: [PATCH 42/80] fix: xsdgen: a struct cannot contain itself

---
 xsdgen/xsdgen.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 26d013f..ebd71d2 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -807,6 +807,9 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		}
 		if el.Plural {
 			base = &ast.ArrayType{Elt: base}
+		} else if cfg.contains(el.Type, t, make(map[xml.Name]bool)) {
+			// A struct cannot contain itself
+			base = &ast.StarExpr{X: base}
 		}
 		fields = append(fields, name, base, gen.String(tag))
 		if (el.Default != "" && !el.Plural) || nonTrivialBuiltin(el.Type) {
@@ -914,6 +917,26 @@ func aliasName(typ string, overrides []fieldOverride) string {
 	return name
 }
 
+// Reports whether a value of the Go type generated for t holds a value of
+// the target type, other than by way of a slice.
+func (cfg *Config) contains(t xsd.Type, target *xsd.ComplexType, seen map[xml.Name]bool) bool {
+	c, ok := t.(*xsd.ComplexType)
+	if !ok || seen[c.Name] {
+		return false
+	}
+	if c.Name == target.Name {
+		return true
+	}
+	seen[c.Name] = true
+	_, elements := cfg.filterFields(c)
+	for _, el := range elements {
+		if !el.Plural && cfg.contains(el.Type, target, seen) {
+			return true
+		}
+	}
+	return false
+}
+
 func (cfg *Config) genComplexTypeMethods(t *xsd.ComplexType, overrides []fieldOverride) (marshal, unmarshal *ast.FuncDecl, err error) {
 	var data struct {
 		Overrides []fieldOverride
-- 
2.43.0


From 5e9100a60782da30cea47981df686a8ef292951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:28 +0000
Subject: [PATCH 43/80] fix: xsdgen: SOAP arrays of dates or bytes must
 compile, and bytes may have white space around them

---
 xsdgen/config.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index de69550..f447cea 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -708,7 +708,7 @@ func (cfg *Config) addStandardHelpers() {
 				Args("text []byte").
 				Returns("err error").
 				Body(`
-					*b, err = hex.DecodeString(string(text))
+					*b, err = hex.DecodeString(string(bytes.TrimSpace(text)))
 					return
 				`).MustDecl(),
 			gen.Func("MarshalText").
@@ -734,6 +734,7 @@ func (cfg *Config) addStandardHelpers() {
 				Args("text []byte").
 				Returns("err error").
 				Body(`
+					text = bytes.Join(bytes.Fields(text), nil)
 					*b, err = base64.StdEncoding.DecodeString(string(text))
 					return
 				`).MustDecl(),
@@ -802,7 +803,22 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 		}
 	}
 
+	// Some items have to be converted to types that know how to
+	// read and write them, as the methods of the struct would do.
 	itemType := gen.ExprString(slice.Elt)
+	xmlType, item := itemType, "item"
+	toXML := fmt.Sprintf("output.Items = []%s(a)", itemType)
+	for _, el := range complex.Elements {
+		if el.Wildcard && nonTrivialBuiltin(el.Type) {
+			xmlType = cfg.helperTypes[xsd.XMLName(el.Type)].name
+			item = itemType + "(item)"
+			toXML = fmt.Sprintf(`
+			for _, v := range a {
+				output.Items = append(output.Items, %s(v))
+			}`, xmlType)
+			s.methods = nil
+		}
+	}
 	unmarshalFn := gen.Func("UnmarshalXML").
 		Receiver("a *"+s.name).
 		Args("d *xml.Decoder", "start xml.StartElement").
@@ -815,7 +831,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 				if tok, ok := tok.(xml.StartElement); ok {
 					var item %s
 					if err = d.DecodeElement(&item, &tok); err == nil {
-						*a = append(*a, item)
+						*a = append(*a, %s)
 					}
 				}
 				if _, ok := tok.(xml.EndElement); ok {
@@ -823,7 +839,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 				}
 			}
 			return err
-		`, itemType)
+		`, xmlType, item)
 	} else {
 		unmarshalFn = unmarshalFn.Body(`
 			var tok xml.Token
@@ -837,7 +853,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 						continue
 					}
 					if err = d.DecodeElement(&item, &tok); err == nil {
-						*a = append(*a, item)
+						*a = append(*a, %s)
 					}
 				}
 				if _, ok := tok.(xml.EndElement); ok {
@@ -845,7 +861,7 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 				}
 			}
 			return err
-		`, xmltag.Space, xmltag.Local, itemType)
+		`, xmltag.Space, xmltag.Local, xmlType, item)
 	}
 	unmarshal, err := unmarshalFn.Decl()
 	if err != nil {
@@ -865,14 +881,14 @@ func (cfg *Config) soapArrayToSlice(s spec) spec {
 				ArrayType string `+"`xml:\"http://schemas.xmlsoap.org/wsdl/ arrayType,attr\"`"+`
 				Items []%[1]s `+"`xml:\"%[2]s %[3]s\"`"+`
 			}
-			output.Items = []%[1]s(a)
+			%[6]s
 			start.Attr = append(start.Attr, xml.Attr {
 				Name: xml.Name{"", "xmlns:ns1"},
 				Value: %[4]q,
 			})
 			output.ArrayType = "ns1:%[5]s[]"
 			return e.EncodeElement(&output, start)
-		`, itemType, xmltag.Space, xmltag.Local, baseType.Space, baseType.Local).Decl()
+		`, xmlType, xmltag.Space, xmltag.Local, baseType.Space, baseType.Local, toXML).Decl()
 	if err != nil {
 		cfg.logf("error generating MarshalXML method of %s: %v", s.name, err)
 		return s
-- 
2.43.0


From 51c00923b0bdacde7e0ac735f1f105baf26bdfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:48 +0000
Subject: [PATCH 44/80] fix: xsdgen: the Go name of a type that adds nothing to
 another is the name of that one

---
 xsdgen/xsdgen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index ebd71d2..e9e62d6 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -110,9 +110,9 @@ func (c *Code) NameOf(name xml.Name) string {
 		return "NOTFOUND" + name.Local
 	}
 
-	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, make(map[*xsd.ComplexType]bool)).(type) {
-	case xsd.Builtin:
-		return c.NameOf(b.Name())
+	// The type that is used instead, if this one adds nothing to it.
+	if used := xsd.XMLName(c.cfg.flatten1(t, func(xsd.Type) {}, make(map[*xsd.ComplexType]bool))); used != name {
+		return c.NameOf(used)
 	}
 
 	specs, err := c.cfg.genTypeSpec(t)
-- 
2.43.0


From 807513916b96f8a500cfe3f7c8cc394cca1c264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:44 +0000
Subject: [PATCH 45/80] fix: xsdgen: a SOAP array may declare attributes after
 arrayType

---
 xsdgen/config.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index f447cea..f1c5d34 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -538,7 +538,6 @@ func (cfg *Config) parseSOAPArrayType(s xsd.Schema, t xsd.Type) xsd.Type {
 			itemType = v.Resolve(a.Value)
 			break
 		}
-		break
 	}
 	if itemType.Local == "" {
 		return c
-- 
2.43.0


From 89e3cb020c9d1466ebd7c786b0b65eeebb61eb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:57 +0000
Subject: [PATCH 46/80] fix: gen: a comment must not become a build constraint

---
 internal/gen/gen.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index df81376..586dd60 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -233,15 +233,19 @@ func CommentGroup(comments ...string) *ast.CommentGroup {
 }
 
 // commentText removes the characters which must not appear in a
-// Go comment.
+// Go comment, and keeps a line from becoming a build constraint.
 func commentText(s string) string {
-	return strings.Map(func(r rune) rune {
+	s = strings.Map(func(r rune) rune {
 		switch r {
 		case 0, '\r', '\uFEFF', utf8.RuneError:
 			return -1
 		}
 		return r
 	}, s)
+	if text := strings.TrimSpace(s); strings.HasPrefix(text, "+build") {
+		return "(" + text + ")"
+	}
+	return s
 }
 
 type Function struct {
-- 
2.43.0


From 7302ebcdf2d474a631e4568ca3b9c1c4229a4a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:36 +0000
Subject: [PATCH 47/80] fix: xsdgen: treat ENTITIES, IDREFS and NMTOKENS as
 lists

Content of these types made encoding/xml panic, and the items of elements
and attributes were not separated.
---
 xsdgen/builtin.go |  3 ++-
 xsdgen/config.go  | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index 1b9dffd..1690737 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -23,7 +23,8 @@ func nonTrivialBuiltin(t xsd.Type) bool {
 	switch b {
 	case xsd.Base64Binary, xsd.HexBinary,
 		xsd.Date, xsd.Time, xsd.DateTime,
-		xsd.GDay, xsd.GMonth, xsd.GMonthDay, xsd.GYear, xsd.GYearMonth:
+		xsd.GDay, xsd.GMonth, xsd.GMonthDay, xsd.GYear, xsd.GYearMonth,
+		xsd.ENTITIES, xsd.IDREFS, xsd.NMTOKENS:
 		return true
 	}
 	return false
diff --git a/xsdgen/config.go b/xsdgen/config.go
index f1c5d34..87b66d3 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -696,6 +696,53 @@ func (cfg *Config) addStandardHelpers() {
 		}
 	}
 
+	for _, listType := range []xsd.Builtin{xsd.ENTITIES, xsd.IDREFS, xsd.NMTOKENS} {
+		name := "xsd" + listType.String()
+		cfg.helperTypes[xsd.XMLName(listType)] = spec{
+			name:    name,
+			expr:    builtinExpr(listType),
+			private: true,
+			xsdType: listType,
+			methods: []*ast.FuncDecl{
+				gen.Func("UnmarshalText").
+					Receiver("x *" + name).
+					Args("text []byte").
+					Returns("error").
+					Body(`
+						*x = strings.Fields(string(text))
+						return nil
+					`).MustDecl(),
+				gen.Func("MarshalText").
+					Receiver("x "+name).
+					Returns("[]byte", "error").
+					Body(`
+						return []byte(strings.Join(x, " ")), nil
+					`).MustDecl(),
+				// the list cannot be empty
+				gen.Func("MarshalXML").
+					Receiver("x "+name).
+					Args("e *xml.Encoder", "start xml.StartElement").
+					Returns("error").
+					Body(`
+						if len(x) == 0 {
+							return nil
+						}
+						return e.EncodeElement(strings.Join(x, " "), start)
+					`).MustDecl(),
+				gen.Func("MarshalXMLAttr").
+					Receiver("x "+name).
+					Args("name xml.Name").
+					Returns("xml.Attr", "error").
+					Body(`
+						if len(x) == 0 {
+							return xml.Attr{}, nil
+						}
+						return xml.Attr{Name: name, Value: strings.Join(x, " ")}, nil
+					`).MustDecl(),
+			},
+		}
+	}
+
 	cfg.helperTypes[xsd.XMLName(xsd.HexBinary)] = spec{
 		name:    "xsd" + xsd.HexBinary.String(),
 		expr:    builtinExpr(xsd.HexBinary),
-- 
2.43.0


From 656dd3c4479f8a5dcbdd8a53259c299e010b0df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:55 +0000
Subject: [PATCH 48/80] fix: xsdgen: do not drop the empty or zero items of a
 repeated element

---
 xsdgen/xsdgen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index e9e62d6..1a0fac5 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -782,7 +782,8 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 
 	for _, el := range elements {
 		options := ""
-		if el.Nillable || el.Optional {
+		// encoding/xml omits the empty items of a slice, too
+		if (el.Nillable || el.Optional) && !el.Plural {
 			options = ",omitempty"
 		}
 		tag := fmt.Sprintf(`xml:%q`, el.Name.Space+" "+el.Name.Local+options)
-- 
2.43.0


From bf2d0e4e64e536efcf1c6557f54abcd9cf578b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:51 +0000
Subject: [PATCH 49/80] fix: xsdgen: an extension has the elements of its base
 and its own

---
 xsdgen/xsdgen.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 1a0fac5..cc2ba93 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -338,15 +338,23 @@ func (cfg *Config) expandComplexTypes(types []xsd.Type) []xsd.Type {
 		}
 
 		elements := []xsd.Element{}
+		repeated := make(map[xml.Name]bool)
 		for _, el := range b.Elements {
 			if _, ok := shadowedElements[el.Name]; !ok {
 				elements = append(elements, el)
 			} else {
 				cfg.debugf("complexType %s: extended element %s is overrided",
 					c.Name.Local, el.Name.Local)
+				repeated[el.Name] = c.Extends
 			}
 		}
 		c.Elements = append(elements, c.Elements...)
+		for i, el := range c.Elements {
+			// An extension has the elements of its base and its own
+			if repeated[el.Name] {
+				c.Elements[i].Plural = true
+			}
+		}
 		for _, attr := range b.Attributes {
 			if _, ok := shadowedAttributes[attr.Name]; !ok {
 				c.Attributes = append(c.Attributes, attr)
-- 
2.43.0


From 664390446c425e89d089fe03ea2e46acd35b9c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:31 +0000
Subject: [PATCH 50/80] fix: xsd: attributeFormDefault is the form of
 attributes without one

---
 xsd/parse.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index f5d12b4..db18a81 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -88,6 +88,7 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 	}
 	for _, root := range result {
 		collapseAttributes(root)
+		attributeDefaultForm(root)
 		attributeDefaultType(root)
 		elementDefaultType(root)
 	}
@@ -746,6 +747,29 @@ func attributeDefaultType(root *xmltree.Element) {
 	}
 }
 
+// 3.2.2 XML Representation of Attribute Declaration Schema Components
+//
+// The attributeFormDefault of a schema is the form of all attributes
+// declared within a type or attribute group.
+//
+// http://www.w3.org/TR/xmlschema-1/#cAttribute_Declarations
+func attributeDefaultForm(root *xmltree.Element) {
+	var (
+		isAttr    = isElem(schemaNS, "attribute")
+		hasNoForm = hasAttrValue("", "form", "")
+		isDecl    = hasAttrValue("", "ref", "")
+	)
+	form := root.Attr("", "attributeFormDefault")
+	if form == "" {
+		return
+	}
+	for i := range root.Children {
+		for _, el := range root.Children[i].SearchFunc(and(isAttr, isDecl, hasNoForm)) {
+			el.SetAttr("", "form", form)
+		}
+	}
+}
+
 // 3.3.2 XML Representation of Element Declaration Schema Components
 //
 // Elements types default to anyType
-- 
2.43.0


From 6613b1e272017615877e13d5053824ecc2b76cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:59 +0000
Subject: [PATCH 51/80] fix: xsdgen: a Config does not keep the namespaces of
 the documents it was used for

---
 xsdgen/cli.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 0274086..ad893dd 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -17,30 +17,31 @@ import (
 // data. If succesful, the returned *Code value can be used to
 // lookup identifiers and generate Go code.
 func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
-	if len(cfg.namespaces) == 0 {
-		cfg.Option(Namespaces(lookupTargetNS(data...)...))
-		cfg.debugf("setting namespaces to %q", cfg.namespaces)
+	namespaces := cfg.namespaces
+	if len(namespaces) == 0 {
+		namespaces = lookupTargetNS(data...)
+		cfg.debugf("setting namespaces to %q", namespaces)
 	}
 	deps, err := xsd.Parse(data...)
 	if err != nil {
 		return nil, err
 	}
-	primaries := make([]xsd.Schema, 0, len(cfg.namespaces))
+	primaries := make([]xsd.Schema, 0, len(namespaces))
 	for _, s := range deps {
-		for _, ns := range cfg.namespaces {
+		for _, ns := range namespaces {
 			if s.TargetNS == ns {
 				primaries = append(primaries, s)
 				break
 			}
 		}
 	}
-	if len(primaries) < len(cfg.namespaces) {
-		missing := make([]string, 0, len(cfg.namespaces)-len(primaries))
+	if len(primaries) < len(namespaces) {
+		missing := make([]string, 0, len(namespaces)-len(primaries))
 		have := make(map[string]bool)
 		for _, schema := range primaries {
 			have[schema.TargetNS] = true
 		}
-		for _, ns := range cfg.namespaces {
+		for _, ns := range namespaces {
 			if !have[ns] {
 				missing = append(missing, ns)
 			}
-- 
2.43.0


From 45af6c3fe9f88785fde83d1993995e41f06bdad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:52 +0000
Subject: [PATCH 52/80] fix: xsdgen: reverting AllowType restores the previous
 set of types

---
 xsdgen/config.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index 87b66d3..787de2b 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -205,14 +205,20 @@ func OnlyTypes(patterns ...string) Option {
 // dependent types, will be generated.
 func AllowType(name xml.Name) Option {
 	return func(cfg *Config) Option {
-		if cfg.allowTypes == nil {
-			cfg.allowTypes = make(map[xml.Name]bool)
-		}
-		cfg.allowTypes[name] = true
-		return func(cfg *Config) Option {
-			delete(cfg.allowTypes, name)
-			return AllowType(name)
+		allow := make(map[xml.Name]bool)
+		for k := range cfg.allowTypes {
+			allow[k] = true
 		}
+		allow[name] = true
+		return replaceAllowTypes(allow)(cfg)
+	}
+}
+
+func replaceAllowTypes(types map[xml.Name]bool) Option {
+	return func(cfg *Config) Option {
+		prev := cfg.allowTypes
+		cfg.allowTypes = types
+		return replaceAllowTypes(prev)
 	}
 }
 
-- 
2.43.0


From 521b7e3ac85c0b636ad046a4a1e6c5eb23941d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:58 +0000
Subject: [PATCH 53/80] fix: xsdgen: a missing namespace is an error however
 many documents and namespaces there are

---
 xsdgen/cli.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index ad893dd..ae94678 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -35,17 +35,17 @@ func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
 			}
 		}
 	}
-	if len(primaries) < len(namespaces) {
-		missing := make([]string, 0, len(namespaces)-len(primaries))
-		have := make(map[string]bool)
-		for _, schema := range primaries {
-			have[schema.TargetNS] = true
-		}
-		for _, ns := range namespaces {
-			if !have[ns] {
-				missing = append(missing, ns)
-			}
+	var missing []string
+	have := make(map[string]bool)
+	for _, schema := range primaries {
+		have[schema.TargetNS] = true
+	}
+	for _, ns := range namespaces {
+		if !have[ns] {
+			missing = append(missing, ns)
 		}
+	}
+	if len(missing) > 0 {
 		return nil, fmt.Errorf("could not find schema for %q", strings.Join(missing, ", "))
 	}
 	cfg.addStandardHelpers()
-- 
2.43.0


From d68f802ddfc75a6c9b91ce20d31d10ab0b07443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:35 +0000
Subject: [PATCH 54/80] fix: xsdgen: use the types that ProcessTypes functions
 return everywhere, and call the functions once per type

---
 xsdgen/xsdgen.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index cc2ba93..62c67cb 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -155,7 +155,16 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 	code.types = all
 	if cfg.preprocessType != nil {
 		cfg.debugf("running user-defined pre-processing functions")
+		replaced := make(map[xsd.Type]xsd.Type)
+		done := make(map[string]bool)
 		for i, primary := range primaries {
+			// The types of a namespace are shared by all of
+			// the schema that declare some of them.
+			if done[primary.TargetNS] {
+				continue
+			}
+			done[primary.TargetNS] = true
+
 			// So user code has visibility into all types
 			prev := primary.Types
 			primary.Types = all
@@ -174,7 +183,11 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 			})
 			for _, name := range names {
 				if t := cfg.preprocessType(primary, prev[name]); t != nil {
+					if t != prev[name] {
+						replaced[prev[name]] = t
+					}
 					prev[name] = t
+					all[name] = t
 				}
 			}
 
@@ -182,6 +195,7 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 			// unused dependencies
 			primaries[i].Types = prev
 		}
+		replaceTypes(all, replaced)
 	}
 
 	var types []xsd.Type
@@ -238,6 +252,37 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 	return code, nil
 }
 
+// Makes types refer to the types that pre-processing functions have returned
+// in the place of others.
+func replaceTypes(types map[xml.Name]xsd.Type, replaced map[xsd.Type]xsd.Type) {
+	if len(replaced) == 0 {
+		return
+	}
+	current := func(t xsd.Type) xsd.Type {
+		if r, ok := replaced[t]; ok {
+			return r
+		}
+		return t
+	}
+	for _, t := range types {
+		switch t := t.(type) {
+		case *xsd.SimpleType:
+			t.Base = current(t.Base)
+			for i := range t.Union {
+				t.Union[i] = current(t.Union[i])
+			}
+		case *xsd.ComplexType:
+			t.Base = current(t.Base)
+			for i := range t.Elements {
+				t.Elements[i].Type = current(t.Elements[i].Type)
+			}
+			for i := range t.Attributes {
+				t.Attributes[i].Type = current(t.Attributes[i].Type)
+			}
+		}
+	}
+}
+
 // GenAST generates a Go abstract syntax tree with
 // the type declarations contained in the xml schema document.
 func (code *Code) GenAST() (*ast.File, error) {
-- 
2.43.0


From 5e5328c4ebfe4e16980bdb69b9b09fc5d8dc14c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:01 +0000
Subject: [PATCH 55/80] fix: xsdgen: report files that cannot be read

---
 xsdgen/cli.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index ae94678..6ce85fa 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -56,6 +56,9 @@ func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
 // associated methods based on a set of XML schema.
 func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	data, err := cfg.readFiles(files...)
+	if err != nil {
+		return nil, err
+	}
 	code, err := cfg.GenCode(data...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 3bc9300f028dfe33d5a4110b47096e894504feca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:03 +0000
Subject: [PATCH 56/80] fix: xsdgen: follow imports that have a location, and
 each file once

---
 xsdgen/cli.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 6ce85fa..d88fe8e 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"go/ast"
 	"io/ioutil"
+	"path/filepath"
 	"strings"
 
 	"aqwari.net/xml/internal/commandline"
@@ -66,9 +67,25 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	return code.GenAST()
 }
 
-func (cfg *Config) readFiles(files ...string) ([][]byte,error) {
+// Reads the named files. If following imports, the files that a file refers to
+// go before it, and no file is read again.
+func (cfg *Config) readFiles(files ...string) ([][]byte, error) {
+	return cfg.readUnseen(make(map[string]bool), files...)
+}
+
+func (cfg *Config) readUnseen(seen map[string]bool, files ...string) ([][]byte, error) {
 	data := make([][]byte, 0, len(files))
 	for _, filename := range files {
+		if cfg.followImports {
+			path, err := filepath.Abs(filename)
+			if err != nil {
+				return nil, err
+			}
+			if seen[path] {
+				continue
+			}
+			seen[path] = true
+		}
 		b, err := ioutil.ReadFile(filename)
 		if err != nil {
 			return nil, err
@@ -81,9 +98,13 @@ func (cfg *Config) readFiles(files ...string) ([][]byte,error) {
 			}
 			importedFiles := make([]string, 0, len(importedRefs))
 			for _, r := range importedRefs {
+				// The location is optional
+				if r.Location == "" {
+					continue
+				}
 				importedFiles = append(importedFiles, r.Location)
 			}
-			referencedData, err := cfg.readFiles(importedFiles...)
+			referencedData, err := cfg.readUnseen(seen, importedFiles...)
 			if err != nil {
 				return nil, fmt.Errorf("error reading imported files: %v", err)
 			}
-- 
2.43.0


From ef940953a181d0c3b5072ed05e37df3a35139eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:06 +0000
Subject: [PATCH 57/80] fix: xsdgen: imports are relative to the file that has
 them

---
 xsdgen/cli.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index d88fe8e..9a61b74 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -68,7 +68,8 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 }
 
 // Reads the named files. If following imports, the files that a file refers to
-// go before it, and no file is read again.
+// go before it. They are looked up relative to that file, and no file is read
+// again.
 func (cfg *Config) readFiles(files ...string) ([][]byte, error) {
 	return cfg.readUnseen(make(map[string]bool), files...)
 }
@@ -102,7 +103,11 @@ func (cfg *Config) readUnseen(seen map[string]bool, files ...string) ([][]byte,
 				if r.Location == "" {
 					continue
 				}
-				importedFiles = append(importedFiles, r.Location)
+				location := filepath.FromSlash(r.Location)
+				if !filepath.IsAbs(location) {
+					location = filepath.Join(filepath.Dir(filename), location)
+				}
+				importedFiles = append(importedFiles, location)
 			}
 			referencedData, err := cfg.readUnseen(seen, importedFiles...)
 			if err != nil {
-- 
2.43.0


From a9945489a5d0bc9b0bd4162f05502f59046c5a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:08 +0000
Subject: [PATCH 58/80] fix: xsdgen: GenCLI does not undo options that its
 flags are not about

---
 xsdgen/cli.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 9a61b74..1992675 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -164,8 +164,12 @@ func (cfg *Config) GenCLI(arguments ...string) error {
 	} else if *verbose {
 		cfg.Option(LogLevel(1))
 	}
-	cfg.Option(Namespaces(xmlns...))
-	cfg.Option(FollowImports(*followImports))
+	if len(xmlns) > 0 {
+		cfg.Option(Namespaces(xmlns...))
+	}
+	if *followImports {
+		cfg.Option(FollowImports(true))
+	}
 	for _, r := range replaceRules {
 		cfg.Option(replaceAllNamesRegex(r.From, r.To))
 	}
-- 
2.43.0


From 662c53643f7a97b8ca57c71513aeeacf23f87f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:10 +0000
Subject: [PATCH 59/80] fix: wsdlgen: a Config does not keep the package
 comment made up for an earlier package name

---
 wsdlgen/wsdlgen.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 2dc8b2d..73fc9e0 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -91,12 +91,6 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	if len(files) == 0 {
 		return nil, errors.New("must provide at least one file name")
 	}
-	if cfg.pkgName == "" {
-		cfg.pkgName = "ws"
-	}
-	if cfg.pkgHeader == "" {
-		cfg.pkgHeader = fmt.Sprintf("Package %s", cfg.pkgName)
-	}
 	docs := make([][]byte, 0, len(files))
 	for _, filename := range files {
 		if data, err := ioutil.ReadFile(filename); err != nil {
@@ -128,8 +122,15 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 	if err != nil {
 		return nil, err
 	}
-	file.Name = ast.NewIdent(cfg.pkgName)
-	file = gen.PackageDoc(file, cfg.pkgHeader, "\n", def.Doc)
+	pkgName, pkgHeader := cfg.pkgName, cfg.pkgHeader
+	if pkgName == "" {
+		pkgName = "ws"
+	}
+	if pkgHeader == "" {
+		pkgHeader = fmt.Sprintf("Package %s", pkgName)
+	}
+	file.Name = ast.NewIdent(pkgName)
+	file = gen.PackageDoc(file, pkgHeader, "\n", def.Doc)
 	p := &printer{
 		Config: cfg,
 		wsdl:   def,
-- 
2.43.0


From 2596d2c3aa71fa6d983f9026ffb6ad1eb7c6ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:09 +0000
Subject: [PATCH 60/80] fix: wsdl: documentation elements of other namespaces
 are extensions

---
 wsdl/wsdl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index 0f5de91..bc56560 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -89,7 +89,7 @@ type Port struct {
 func documentation(el *xmltree.Element) string {
 	var docs [][]byte
 	for _, doc := range el.Children {
-		if doc.Name.Local != "documentation" {
+		if (doc.Name != xml.Name{wsdlNS, "documentation"}) {
 			continue
 		}
 		docs = append(docs, doc.Content)
-- 
2.43.0


From 75858128b095b974396c0534c89458107c21ee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:09 +0000
Subject: [PATCH 61/80] fix: wsdl: read the address of a port with an HTTP
 binding

---
 wsdl/wsdl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index bc56560..7210aa7 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -126,6 +126,9 @@ func parsePorts(targetNS string, root, svc *xmltree.Element) []Port {
 		for _, addr := range port.Search(soap12NS, "address") {
 			p.Address = addr.Attr("", "location")
 		}
+		for _, addr := range port.Search(httpNS, "address") {
+			p.Address = addr.Attr("", "location")
+		}
 		p.Method = "POST"
 		p.Method = parseMethod(targetNS, root, port)
 		p.Operations = parseOperations(targetNS, root, port)
-- 
2.43.0


From d68a9be743e0e3fc73aa60cc2af50e3a8afddf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:09 +0000
Subject: [PATCH 62/80] fix: wsdl: read the action of operations bound to SOAP
 1.2

---
 wsdl/wsdl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index 7210aa7..3ecfe4d 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -191,6 +191,9 @@ func parseOperations(targetNS string, root, port *xmltree.Element) []Operation {
 					for _, soapOp := range el.Search(soapNS, "operation") {
 						oper.SOAPAction = soapOp.Attr("", "soapAction")
 					}
+					for _, soapOp := range el.Search(soap12NS, "operation") {
+						oper.SOAPAction = soapOp.Attr("", "soapAction")
+					}
 				}
 				ops = append(ops, oper)
 			}
-- 
2.43.0


From 944d066742ccef3cd05806a6e7cd05900b8022ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:09 +0000
Subject: [PATCH 63/80] fix: wsdl: read the ports of all services

---
 wsdl/wsdl.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index 3ecfe4d..caf3bd9 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -213,9 +213,13 @@ func Parse(data []byte) (*Definition, error) {
 	def.TargetNS = root.Attr("", "targetNamespace")
 	def.Message = parseMessages(def.TargetNS, root)
 
-	for _, svc := range root.Search(wsdlNS, "service") {
-		def.Doc = documentation(svc)
-		def.Ports = parsePorts(def.TargetNS, root, svc)
+	for i, svc := range root.Search(wsdlNS, "service") {
+		doc := documentation(svc)
+		if i > 0 && def.Doc != "" && doc != "" {
+			def.Doc += "\n"
+		}
+		def.Doc += doc
+		def.Ports = append(def.Ports, parsePorts(def.TargetNS, root, svc)...)
 	}
 	return &def, nil
 }
-- 
2.43.0


From 2a713754e53042df3ed92444e21b0078bf673ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:17 +0000
Subject: [PATCH 64/80] fix: wsdlgen: OnlyPorts selects ports, and can be
 undone

---
 wsdlgen/config.go  | 13 ++++++++++---
 wsdlgen/wsdlgen.go |  3 +++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/wsdlgen/config.go b/wsdlgen/config.go
index d05bf2c..6a38a6c 100644
--- a/wsdlgen/config.go
+++ b/wsdlgen/config.go
@@ -69,15 +69,22 @@ var DefaultOptions = []Option{
 // the generated output.
 func OnlyPorts(ports ...string) Option {
 	return func(cfg *Config) Option {
-		cfg.portFilter = func(p wsdl.Port) bool {
+		return filterPorts(func(p wsdl.Port) bool {
 			for _, name := range ports {
 				if name == p.Name {
 					return true
 				}
 			}
 			return false
-		}
-		return OnlyPorts()
+		})(cfg)
+	}
+}
+
+func filterPorts(filter func(wsdl.Port) bool) Option {
+	return func(cfg *Config) Option {
+		prev := cfg.portFilter
+		cfg.portFilter = filter
+		return filterPorts(prev)
 	}
 }
 
diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 73fc9e0..f2d265a 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -143,6 +143,9 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 func (p *printer) genAST() (*ast.File, error) {
 	p.addHelpers()
 	for _, port := range p.wsdl.Ports {
+		if p.portFilter != nil && !p.portFilter(port) {
+			continue
+		}
 		if err := p.port(port); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 7c6efb4d02c7c15dadd4ef673fe4161f51c7d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:19 +0000
Subject: [PATCH 65/80] fix: wsdlgen: generate methods for one-way operations

---
 wsdlgen/wsdlgen.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index f2d265a..3d54b8a 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -163,12 +163,13 @@ func (p *printer) port(port wsdl.Port) error {
 }
 
 func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
+	// An operation may do without input or output
 	input, ok := p.wsdl.Message[op.Input]
-	if !ok {
+	if !ok && op.Input.Local != "" {
 		return fmt.Errorf("unknown input message type %s", op.Input.Local)
 	}
 	output, ok := p.wsdl.Message[op.Output]
-	if !ok {
+	if !ok && op.Output.Local != "" {
 		return fmt.Errorf("unknown output message type %s", op.Output.Local)
 	}
 	params, err := p.opArgs(port.Address, port.Method, op, input, output)
-- 
2.43.0


From f78e24f5a58354c44b145135d76a685141b632ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:21 +0000
Subject: [PATCH 66/80] fix: wsdlgen: return the struct that holds more results
 than OutputThreshold

---
 wsdlgen/wsdlgen.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 3d54b8a..4bc9c0b 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -233,14 +233,14 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 			
 			err := c.do(ctx, {{.Method|printf "%q"}}, {{.Address|printf "%q"}}, {{.SOAPAction|printf "%q"}}, &input, &output)
 			
-			{{ if .OutputFields -}}
-			return {{ range .OutputFields }}{{.Type}}(output.Args.{{.Name}}), {{ end }} err
-			{{- else if .ReturnType -}}
+			{{ if .ReturnType -}}
 			var result {{ .ReturnType }}
 			{{ range .ReturnFields -}}
 			result.{{.Name}} = {{.Type}}(output.Args.{{.InputArg}})
 			{{ end -}}
 			return result, err
+			{{- else if .OutputFields -}}
+			return {{ range .OutputFields }}{{.PublicType}}(output.Args.{{.Name}}), {{ end }} err
 			{{- else -}}
 			return err
 			{{- end -}}
@@ -331,9 +331,10 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		outputType := exposeType(typ)
 		args.output = append(args.output, outputType)
 		args.OutputFields = append(args.OutputFields, field{
-			Name:    strings.Title(part.Name),
-			Type:    typ,
-			XMLName: xml.Name{p.wsdl.TargetNS, part.Name},
+			Name:       strings.Title(part.Name),
+			Type:       typ,
+			PublicType: outputType,
+			XMLName:    xml.Name{p.wsdl.TargetNS, part.Name},
 		})
 	}
 	if len(args.output) > p.maxReturns {
-- 
2.43.0


From 709675637aa8d2071f745d9c37f8f4a178211ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:56 +0000
Subject: [PATCH 67/80] fix: wsdlgen: generate distinct and valid names

---
 wsdlgen/wsdlgen.go | 123 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 108 insertions(+), 15 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 4bc9c0b..2b3dbae 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -14,8 +14,11 @@ import (
 	"errors"
 	"fmt"
 	"go/ast"
+	"go/types"
 	"io/ioutil"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"aqwari.net/xml/internal/gen"
 	"aqwari.net/xml/wsdl"
@@ -34,6 +37,11 @@ type printer struct {
 	code *xsdgen.Code
 	wsdl *wsdl.Definition
 	file *ast.File
+
+	// names that are taken in the package and among the fields and
+	// methods of the client, and the types made for messages
+	idents, methods map[string]bool
+	wrappers        map[xml.Name]string
 }
 
 // Provides aspects about an RPC call to the template for the function
@@ -142,6 +150,26 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 
 func (p *printer) genAST() (*ast.File, error) {
 	p.addHelpers()
+	p.idents = make(map[string]bool)
+	p.methods = make(map[string]bool)
+	p.wrappers = make(map[xml.Name]string)
+	for _, decl := range p.file.Decls {
+		switch decl := decl.(type) {
+		case *ast.FuncDecl:
+			if decl.Recv == nil {
+				p.idents[decl.Name.Name] = true
+			}
+		case *ast.GenDecl:
+			for _, spec := range decl.Specs {
+				if t, ok := spec.(*ast.TypeSpec); ok {
+					p.idents[t.Name.Name] = true
+				}
+			}
+		}
+	}
+	for _, name := range []string{"HTTPClient", "RequestHook", "ResponseHook", "do"} {
+		p.methods[name] = true
+	}
 	for _, port := range p.wsdl.Ports {
 		if p.portFilter != nil && !p.portFilter(port) {
 			continue
@@ -177,7 +205,7 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 		return err
 	}
 
-	if params.InputType != "" {
+	if params.InputType != "" && p.newWrapper(&params.InputType, input.Name) {
 		decls, err := gen.Snippets(params, `
 			type {{.InputType}} struct {
 			{{ range .InputFields -}}
@@ -190,7 +218,7 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 		}
 		p.file.Decls = append(p.file.Decls, decls...)
 	}
-	if params.ReturnType != "" {
+	if params.ReturnType != "" && p.newWrapper(&params.ReturnType, output.Name) {
 		decls, err := gen.Snippets(params, `
 			type {{.ReturnType}} struct {
 			{{ range .ReturnFields -}}
@@ -203,8 +231,20 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 		}
 		p.file.Decls = append(p.file.Decls, decls...)
 	}
+	if params.InputType != "" {
+		params.input = []string{"v " + params.InputType}
+	}
+	if params.ReturnType != "" {
+		params.output = []string{params.ReturnType, "error"}
+	}
 	args := append([]string{"ctx context.Context"}, params.input...)
-	fn := gen.Func(p.xsdgen.NameOf(op.Name)).
+	// More than one port can have the operation
+	method := identifier(p.xsdgen.NameOf(op.Name))
+	if p.methods[method] {
+		method += identifier(port.Name)
+	}
+	method = unused(p.methods, method)
+	fn := gen.Func(method).
 		Comment(op.Doc).
 		Receiver("c *Client").
 		Args(args...).
@@ -254,6 +294,58 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 	return nil
 }
 
+// Chooses the name of the struct for the parts of a message. It is false if
+// the struct was declared before.
+func (p *printer) newWrapper(name *string, message xml.Name) bool {
+	if prev, ok := p.wrappers[message]; ok {
+		*name = prev
+		return false
+	}
+	if p.idents[*name] {
+		*name += "Message"
+	}
+	*name = unused(p.idents, *name)
+	p.wrappers[message] = *name
+	return true
+}
+
+// Takes a name that is not in the set, and adds it.
+func unused(set map[string]bool, name string) string {
+	for set[name] {
+		name += "_"
+	}
+	set[name] = true
+	return name
+}
+
+// Makes an exported Go identifier of an XML name.
+func identifier(name string) string {
+	name = strings.Title(strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return -1
+	}, name))
+	if !ast.IsExported(name) {
+		name = "X" + name
+	}
+	return name
+}
+
+// Makes the name of a parameter. It must not hide the identifiers that the
+// body of a method uses.
+func (p *printer) paramName(name string, taken map[string]bool) string {
+	name = gen.Sanitize(strings.TrimPrefix(identifier("X"+name), "X"))
+	if r, _ := utf8.DecodeRuneInString(name); r != '_' && !unicode.IsLetter(r) || name == "_" {
+		name = "x" + name
+	}
+	for p.idents[name] || types.Universe.Lookup(name) != nil || taken[name] {
+		name += "_"
+	}
+	taken[name] = true
+	return name
+}
+
 // The xsdgen package generates private types for some builtin
 // types. These types should be hidden from the user and converted
 // on the fly.
@@ -296,19 +388,21 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 	args.SOAPAction = op.SOAPAction
 	args.MsgName = op.Name
 	args.InputName = input.Name
+	taken := make(map[string]bool)
+	for _, name := range []string{"c", "ctx", "input", "output", "err", "result", "xml", "time"} {
+		taken[name] = true
+	}
+	fields := make(map[string]bool)
 	for _, part := range input.Parts {
 		typ, err := p.getPartType(part)
 		if err != nil {
 			return args, err
 		}
 		inputType := exposeType(typ)
-		vname := gen.Sanitize(part.Name)
-		if vname == typ {
-			vname += "_"
-		}
+		vname := p.paramName(part.Name, taken)
 		args.input = append(args.input, vname+" "+inputType)
 		args.InputFields = append(args.InputFields, field{
-			Name:       strings.Title(part.Name),
+			Name:       unused(fields, identifier(part.Name)),
 			Type:       typ,
 			PublicType: exposeType(typ),
 			XMLName:    xml.Name{p.wsdl.TargetNS, part.Name},
@@ -316,13 +410,13 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		})
 	}
 	if len(args.input) > p.maxArgs {
-		args.InputType = strings.Title(args.InputName.Local)
-		args.input = []string{"v " + args.InputName.Local}
-		for i, v := range input.Parts {
-			args.InputFields[i].InputArg = "v." + strings.Title(v.Name)
+		args.InputType = identifier(args.InputName.Local)
+		for i, v := range args.InputFields {
+			args.InputFields[i].InputArg = "v." + v.Name
 		}
 	}
 	args.OutputName = output.Name
+	fields = make(map[string]bool)
 	for _, part := range output.Parts {
 		typ, err := p.getPartType(part)
 		if err != nil {
@@ -331,14 +425,14 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		outputType := exposeType(typ)
 		args.output = append(args.output, outputType)
 		args.OutputFields = append(args.OutputFields, field{
-			Name:       strings.Title(part.Name),
+			Name:       unused(fields, identifier(part.Name)),
 			Type:       typ,
 			PublicType: outputType,
 			XMLName:    xml.Name{p.wsdl.TargetNS, part.Name},
 		})
 	}
 	if len(args.output) > p.maxReturns {
-		args.ReturnType = strings.Title(args.OutputName.Local)
+		args.ReturnType = identifier(args.OutputName.Local)
 		args.ReturnFields = make([]field, len(args.OutputFields))
 		for i, v := range args.OutputFields {
 			args.ReturnFields[i] = field{
@@ -347,7 +441,6 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 				InputArg: v.Name,
 			}
 		}
-		args.output = []string{args.ReturnType}
 	}
 	// NOTE(droyo) if we decide to name our return values,
 	// we have to change this too.
-- 
2.43.0


From c8c6f3f774bba01896f807064cadc7da3918048b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:49 +0000
Subject: [PATCH 68/80] fix: wsdlgen: send and read the elements that the
 binding describes

---
 wsdl/wsdl.go       | 26 +++++++++++++++++++
 wsdlgen/helper.go  | 51 +++++++++++++++++++++++++++++++++----
 wsdlgen/wsdlgen.go | 63 ++++++++++++++++++++++++++++++++++++++--------
 3 files changed, 125 insertions(+), 15 deletions(-)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index caf3bd9..80625a0 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -77,6 +77,11 @@ type Operation struct {
 	SOAPAction    string
 	Name          xml.Name
 	Input, Output xml.Name
+
+	// Style is "rpc" if the body of a SOAP message has an element for the
+	// operation, in Namespace, with an element for each part. Otherwise it
+	// is "document", and the parts are the elements of the body.
+	Style, Namespace string
 }
 
 // A Port describes a set of RPCs and the address to reach them.
@@ -156,6 +161,11 @@ func parseMethod(targetNS string, root, port *xmltree.Element) string {
 	return "POST"
 }
 
+// Elements of either version of the SOAP binding
+func searchSOAP(el *xmltree.Element, local string) []*xmltree.Element {
+	return append(el.Search(soapNS, local), el.Search(soap12NS, local)...)
+}
+
 func parseOperations(targetNS string, root, port *xmltree.Element) []Operation {
 	var ops []Operation
 	binding := port.Resolve(port.Attr("", "binding"))
@@ -187,7 +197,23 @@ func parseOperations(targetNS string, root, port *xmltree.Element) []Operation {
 					return el.Name == op.Name &&
 						el.Attr("", "name") == op.Attr("", "name")
 				}
+				oper.Style = "document"
+				for _, soapBind := range searchSOAP(bind, "binding") {
+					if style := soapBind.Attr("", "style"); style != "" {
+						oper.Style = style
+					}
+				}
 				for _, el := range bind.SearchFunc(bindingSearch) {
+					for _, soapOp := range searchSOAP(el, "operation") {
+						if style := soapOp.Attr("", "style"); style != "" {
+							oper.Style = style
+						}
+					}
+					for _, input := range el.Search(wsdlNS, "input") {
+						for _, body := range searchSOAP(input, "body") {
+							oper.Namespace = body.Attr("", "namespace")
+						}
+					}
 					for _, soapOp := range el.Search(soapNS, "operation") {
 						oper.SOAPAction = soapOp.Attr("", "soapAction")
 					}
diff --git a/wsdlgen/helper.go b/wsdlgen/helper.go
index 93d36e1..f107bbd 100644
--- a/wsdlgen/helper.go
+++ b/wsdlgen/helper.go
@@ -9,6 +9,10 @@ import "aqwari.net/xml/internal/gen"
 // are playing a balancing game here; the larger the static
 // code base grows, the weaker the argument against external
 // dependencies becomes.
+//
+// A soapMessage is the element in the body of an envelope. A name with no
+// local part stands for any element in a reply, and for none in a request.
+// The reply to a one-way operation may be empty.
 var helpers string = `
 	type Client struct {
 		HTTPClient *http.Client
@@ -20,7 +24,7 @@ var helpers string = `
 		XMLName struct{} ` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Envelope"` + "`" + `
 		Header []byte ` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Header"` + "`" + `
 		Body struct {
-			Message interface{}
+			Message *soapMessage ` + "`xml:\",any\"`" + `
 			Fault *struct {
 				String string ` + "`xml:\"faultstring,omitempty\"`" + `
 				Code string ` + "`xml:\"faultcode,omitempty\"`" + `
@@ -29,7 +33,37 @@ var helpers string = `
 		}` + "`" + `xml:"http://schemas.xmlsoap.org/soap/envelope/ Body"` + "`" + `
 	}
 
-	func (c *Client) do(ctx context.Context, method, uri, action string, in, out interface{}) error {
+	type soapMessage struct {
+		name xml.Name
+		content interface{}
+		seen bool
+	}
+
+	func (m *soapMessage) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+		if m.name.Local == "" {
+			return nil
+		}
+		start = xml.StartElement{Name: xml.Name{Local: m.name.Local}}
+		if m.name.Space != "" {
+			start.Name.Local = "m:" + m.name.Local
+			start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Local: "xmlns:m"}, Value: m.name.Space})
+		}
+		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Local: "xmlns"}})
+		return e.EncodeElement(m.content, start)
+	}
+
+	func (m *soapMessage) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+		if m.seen || m.content == nil {
+			return d.Skip()
+		}
+		if m.name.Local != "" && m.name != start.Name {
+			return fmt.Errorf("reply has element %s in namespace %q, not %s in %q", start.Name.Local, start.Name.Space, m.name.Local, m.name.Space)
+		}
+		m.seen = true
+		return d.DecodeElement(m.content, &start)
+	}
+
+	func (c *Client) do(ctx context.Context, method, uri, action string, in, out *soapMessage) error {
 		var body io.Reader
 		var envelope soapEnvelope
 
@@ -72,12 +106,19 @@ var helpers string = `
 
 		dec := xml.NewDecoder(rsp.Body)
 		envelope.Body.Message = out
-		if err := dec.Decode(&envelope); err != nil {
-			return err
-		}
+		err = dec.Decode(&envelope)
 		if envelope.Body.Fault != nil {
 			return fmt.Errorf("%s: %s", envelope.Body.Fault.Code, envelope.Body.Fault.String)
 		}
+		if err == io.EOF && out.content == nil {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		if out.content != nil && !out.seen {
+			return errors.New("reply has no message")
+		}
 		return nil
 	}
 `
diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 2b3dbae..51aed3a 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -58,8 +58,15 @@ type opArgs struct {
 
 	SOAPAction string
 
-	// Name of the method to call
-	MsgName xml.Name
+	// Name of the element in the body of a request, and of a reply
+	MsgName, ReplyName xml.Name
+
+	// If there is no such element
+	NoInput, NoOutput bool
+
+	// If the element is the only part of the message (document style),
+	// not the parent of the parts (RPC style)
+	InputElement, OutputElement bool
 
 	// if we're returning individual values, these slices
 	// are in an order matching the input/output slices.
@@ -249,29 +256,43 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 		Receiver("c *Client").
 		Args(args...).
 		BodyTmpl(`
+			{{ if not .NoInput -}}
 			var input struct {
-				XMLName struct{} `+"`"+`xml:"{{.MsgName.Space}} {{.MsgName.Local}}"`+"`"+`
 				Args struct {
 					{{ range .InputFields -}}
-					{{.Name}} {{.Type}} `+"`"+`xml:"{{.XMLName.Space}} {{.XMLName.Local}}"`+"`"+`
+					{{.Name}} {{.Type}} `+"`"+`xml:"{{.XMLName.Local}}"`+"`"+`
 					{{ end -}}
-				}`+"`xml:\"{{.InputName.Space}} {{.InputName.Local}}\"`"+`
+				}
 			}
+			{{ end -}}
 			
 			{{- range .InputFields }}
 			input.Args.{{.Name}} = {{.Type}}({{.InputArg}})
 			{{ end }}
 			
+			{{ if not .NoOutput -}}
 			var output struct {
-				XMLName struct{} `+"`"+`xml:"{{.MsgName.Space}} {{.MsgName.Local}}"`+"`"+`
 				Args struct {
 					{{ range .OutputFields -}}
-					{{.Name}} {{.Type}} `+"`"+`xml:"{{.XMLName.Space}} {{.XMLName.Local}}"`+"`"+`
+					{{.Name}} {{.Type}} `+"`"+`xml:"{{.XMLName.Local}}"`+"`"+`
 					{{ end -}}
-				}`+"`xml:\"{{.OutputName.Space}} {{.OutputName.Local}}\"`"+`
+				}
 			}
+			{{ end -}}
 			
-			err := c.do(ctx, {{.Method|printf "%q"}}, {{.Address|printf "%q"}}, {{.SOAPAction|printf "%q"}}, &input, &output)
+			err := c.do(ctx, {{.Method|printf "%q"}}, {{.Address|printf "%q"}}, {{.SOAPAction|printf "%q"}},
+				&soapMessage{
+					{{- if not .NoInput -}}
+					name: xml.Name{Space: {{.MsgName.Space|printf "%q"}}, Local: {{.MsgName.Local|printf "%q" -}} },
+					content: &input.Args {{- if .InputElement}}.{{(index .InputFields 0).Name}}{{end -}},
+					{{- end -}} },
+				&soapMessage{
+					{{- if not .NoOutput -}}
+					{{ if .ReplyName.Local -}}
+					name: xml.Name{Space: {{.ReplyName.Space|printf "%q"}}, Local: {{.ReplyName.Local|printf "%q" -}} },
+					{{ end -}}
+					content: &output.Args {{- if .OutputElement}}.{{(index .OutputFields 0).Name}}{{end -}},
+					{{- end -}} })
 			
 			{{ if .ReturnType -}}
 			var result {{ .ReturnType }}
@@ -381,12 +402,34 @@ func (p *printer) getPartType(part wsdl.Part) (string, error) {
 	return "", fmt.Errorf("part %s has no element or type", part.Name)
 }
 
+// The element that a message in document style consists of
+func messageElement(other xml.Name, msg wsdl.Message, ok *bool) xml.Name {
+	*ok = len(msg.Parts) == 1 && msg.Parts[0].Element.Local != ""
+	if *ok {
+		return msg.Parts[0].Element
+	}
+	return other
+}
+
 func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output wsdl.Message) (opArgs, error) {
 	var args opArgs
 	args.Address = addr
 	args.Method = method
 	args.SOAPAction = op.SOAPAction
-	args.MsgName = op.Name
+	if op.Style == "rpc" {
+		args.MsgName = op.Name
+		if op.Namespace != "" {
+			args.MsgName.Space = op.Namespace
+		}
+		// The name of the reply is up to the server
+		args.NoInput = op.Input.Local == ""
+		args.NoOutput = op.Output.Local == ""
+	} else {
+		args.MsgName = messageElement(op.Name, input, &args.InputElement)
+		args.ReplyName = messageElement(xml.Name{}, output, &args.OutputElement)
+		args.NoInput = len(input.Parts) == 0
+		args.NoOutput = len(output.Parts) == 0
+	}
 	args.InputName = input.Name
 	taken := make(map[string]bool)
 	for _, name := range []string{"c", "ctx", "input", "output", "err", "result", "xml", "time"} {
-- 
2.43.0


From b2788454134e9c1b447ce0224809518192c01ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:51 +0000
Subject: [PATCH 69/80] fix: wsdlgen: clients report HTTP errors

---
 wsdlgen/helper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wsdlgen/helper.go b/wsdlgen/helper.go
index f107bbd..aa73ed7 100644
--- a/wsdlgen/helper.go
+++ b/wsdlgen/helper.go
@@ -110,6 +110,9 @@ var helpers string = `
 		if envelope.Body.Fault != nil {
 			return fmt.Errorf("%s: %s", envelope.Body.Fault.Code, envelope.Body.Fault.String)
 		}
+		if rsp.StatusCode < 200 || rsp.StatusCode > 299 {
+			return fmt.Errorf("unexpected HTTP status %s", rsp.Status)
+		}
 		if err == io.EOF && out.content == nil {
 			return nil
 		}
-- 
2.43.0


From 31477d58b2b4527ffba4a8b76846466fe9f8d72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:53 +0000
Subject: [PATCH 70/80] fix: wsdlgen: clients send the headers that SOAP
 requires

---
 wsdlgen/helper.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wsdlgen/helper.go b/wsdlgen/helper.go
index aa73ed7..2229d24 100644
--- a/wsdlgen/helper.go
+++ b/wsdlgen/helper.go
@@ -83,7 +83,10 @@ var helpers string = `
 		if err != nil {
 			return err
 		}
-		req.Header.Set("SOAPAction", action)
+		req.Header.Set("SOAPAction", "\"" + action + "\"")
+		if body != nil {
+			req.Header.Set("Content-Type", "text/xml; charset=utf-8")
+		}
 		req = req.WithContext(ctx)
 		if c.RequestHook != nil {
 			req = c.RequestHook(req)
-- 
2.43.0


From 929a8816c138d30d044f79d871e2c949c8dd07e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:53 +0000
Subject: [PATCH 71/80] fix: wsdlgen: parameters do not hide the type of the
 result

---
 wsdlgen/wsdlgen.go | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 51aed3a..f54d675 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -42,6 +42,7 @@ type printer struct {
 	// methods of the client, and the types made for messages
 	idents, methods map[string]bool
 	wrappers        map[xml.Name]string
+	declared        map[string]bool
 }
 
 // Provides aspects about an RPC call to the template for the function
@@ -160,6 +161,7 @@ func (p *printer) genAST() (*ast.File, error) {
 	p.idents = make(map[string]bool)
 	p.methods = make(map[string]bool)
 	p.wrappers = make(map[xml.Name]string)
+	p.declared = make(map[string]bool)
 	for _, decl := range p.file.Decls {
 		switch decl := decl.(type) {
 		case *ast.FuncDecl:
@@ -212,7 +214,8 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 		return err
 	}
 
-	if params.InputType != "" && p.newWrapper(&params.InputType, input.Name) {
+	if params.InputType != "" && !p.declared[params.InputType] {
+		p.declared[params.InputType] = true
 		decls, err := gen.Snippets(params, `
 			type {{.InputType}} struct {
 			{{ range .InputFields -}}
@@ -225,7 +228,8 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 		}
 		p.file.Decls = append(p.file.Decls, decls...)
 	}
-	if params.ReturnType != "" && p.newWrapper(&params.ReturnType, output.Name) {
+	if params.ReturnType != "" && !p.declared[params.ReturnType] {
+		p.declared[params.ReturnType] = true
 		decls, err := gen.Snippets(params, `
 			type {{.ReturnType}} struct {
 			{{ range .ReturnFields -}}
@@ -315,19 +319,18 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 	return nil
 }
 
-// Chooses the name of the struct for the parts of a message. It is false if
-// the struct was declared before.
-func (p *printer) newWrapper(name *string, message xml.Name) bool {
-	if prev, ok := p.wrappers[message]; ok {
-		*name = prev
-		return false
+// Chooses the name of the struct for the parts of a message.
+func (p *printer) wrapper(message xml.Name) string {
+	if name, ok := p.wrappers[message]; ok {
+		return name
 	}
-	if p.idents[*name] {
-		*name += "Message"
+	name := identifier(message.Local)
+	if p.idents[name] {
+		name += "Message"
 	}
-	*name = unused(p.idents, *name)
-	p.wrappers[message] = *name
-	return true
+	name = unused(p.idents, name)
+	p.wrappers[message] = name
+	return name
 }
 
 // Takes a name that is not in the set, and adds it.
@@ -435,6 +438,9 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 	for _, name := range []string{"c", "ctx", "input", "output", "err", "result", "xml", "time"} {
 		taken[name] = true
 	}
+	if len(output.Parts) > p.maxReturns {
+		args.ReturnType = p.wrapper(output.Name)
+	}
 	fields := make(map[string]bool)
 	for _, part := range input.Parts {
 		typ, err := p.getPartType(part)
@@ -453,7 +459,7 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 		})
 	}
 	if len(args.input) > p.maxArgs {
-		args.InputType = identifier(args.InputName.Local)
+		args.InputType = p.wrapper(input.Name)
 		for i, v := range args.InputFields {
 			args.InputFields[i].InputArg = "v." + v.Name
 		}
@@ -474,8 +480,7 @@ func (p *printer) opArgs(addr, method string, op wsdl.Operation, input, output w
 			XMLName:    xml.Name{p.wsdl.TargetNS, part.Name},
 		})
 	}
-	if len(args.output) > p.maxReturns {
-		args.ReturnType = identifier(args.OutputName.Local)
+	if args.ReturnType != "" {
 		args.ReturnFields = make([]field, len(args.OutputFields))
 		for i, v := range args.OutputFields {
 			args.ReturnFields[i] = field{
-- 
2.43.0


From d3d77662d0a80eab391e71247f8b98b79087adf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:55 +0000
Subject: [PATCH 72/80] fix: xsd: what annotations contain is not part of the
 schema

Elements within <documentation> or <appinfo>, such as examples, were taken
for types, elements, attributes, references or imports of the schema.
---
 xsd/parse.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index db18a81..bc61346 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -33,6 +33,7 @@ func Imports(data []byte) ([]Ref, error) {
 	if err != nil {
 		return nil, err
 	}
+	hideAnnotations(root)
 
 	for _, v := range root.Search(schemaNS, "import") {
 		s := Ref{v.Attr("", "namespace"), v.Attr("", "schemaLocation")}
@@ -57,6 +58,16 @@ func Imports(data []byte) ([]Ref, error) {
 	return result, nil
 }
 
+// The content of annotations is for people and programs other than this
+// package. It is not part of the schema, even if it contains elements that
+// are declarations elsewhere.
+func hideAnnotations(root *xmltree.Element) {
+	isContent := or(isElem(schemaNS, "documentation"), isElem(schemaNS, "appinfo"))
+	for _, el := range root.SearchFunc(isContent) {
+		el.Children = nil
+	}
+}
+
 // Normalize reads XML schema documents and returns xml trees
 // for each schema with the following properties:
 //
@@ -80,6 +91,7 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 		if err != nil {
 			return nil, err
 		}
+		hideAnnotations(root)
 		if (root.Name == xml.Name{schemaNS, "schema"}) {
 			result = append(result, root)
 		} else {
-- 
2.43.0


From 1a5a0f9f32e22fc2f26abea4116ad51f8d0cdd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:05 +0000
Subject: [PATCH 73/80] fix: xsd: attributes that are lists are plural

The Plural field of an Attribute, which says whether its type is a list, was
never set.
---
 xsd/parse.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index bc61346..f1b38e7 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -182,6 +182,7 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 	}
 	for _, s := range result {
 		s.propagateMixedAttr()
+		s.markListAttributes()
 	}
 	result = append(result, builtinSchema)
 	return result, nil
@@ -669,6 +670,32 @@ func (s *Schema) addElementTypeAliases(root *xmltree.Element, types map[xml.Name
 	return nil
 }
 
+// markListAttributes sets the Plural field of attributes that have lists as
+// their values. All types must be resolved.
+func (s *Schema) markListAttributes() {
+	for _, t := range s.Types {
+		if c, ok := t.(*ComplexType); ok {
+			for i, a := range c.Attributes {
+				c.Attributes[i].Plural = isList(a.Type)
+			}
+		}
+	}
+}
+
+func isList(t Type) bool {
+	for ; t != nil; t = Base(t) {
+		switch t := t.(type) {
+		case *SimpleType:
+			if t.List {
+				return true
+			}
+		case Builtin:
+			return t == ENTITIES || t == IDREFS || t == NMTOKENS
+		}
+	}
+	return false
+}
+
 // Propagate the "mixed" attribute of a type appropriately to
 // all types derived from it.  For the propagation rules, see
 // https://www.w3.org/TR/xmlschema-1/#coss-ct. That Definition is written
-- 
2.43.0


From b2c7eb1816b31019c3f0da04a5d28100ed161063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:12 +0000
Subject: [PATCH 74/80] fix: wsdl: what documentation and types contain is not
 part of the description

Elements of WSDL in the documentation, such as examples, were taken for
messages, services and ports.
---
 wsdl/wsdl.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/wsdl/wsdl.go b/wsdl/wsdl.go
index 80625a0..664c4cb 100644
--- a/wsdl/wsdl.go
+++ b/wsdl/wsdl.go
@@ -102,6 +102,19 @@ func documentation(el *xmltree.Element) string {
 	return string(bytes.Join(docs, []byte{'\n'}))
 }
 
+// What documentation contains is for people, and what types contain is for
+// package xsd. None of it defines messages, ports or services, even if it
+// contains elements that do so elsewhere.
+func hideContent(root *xmltree.Element) {
+	isContent := func(el *xmltree.Element) bool {
+		return el.Name == xml.Name{wsdlNS, "documentation"} ||
+			el.Name == xml.Name{wsdlNS, "types"}
+	}
+	for _, el := range root.SearchFunc(isContent) {
+		el.Children = nil
+	}
+}
+
 func parseMessages(targetNS string, root *xmltree.Element) map[xml.Name]Message {
 	messages := make(map[xml.Name]Message)
 	for _, msg := range root.Search(wsdlNS, "message") {
@@ -236,6 +249,8 @@ func Parse(data []byte) (*Definition, error) {
 		return nil, err
 	}
 
+	hideContent(root)
+
 	def.TargetNS = root.Attr("", "targetNamespace")
 	def.Message = parseMessages(def.TargetNS, root)
 
-- 
2.43.0


From 5513d776f871871397adcdedf6aff6e6bce57ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:32 +0000
Subject: [PATCH 75/80] fix: xsd: attributes called form of other namespaces
 are not the form of an attribute

---
 xsd/parse.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index f1b38e7..52bd980 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -794,17 +794,30 @@ func attributeDefaultType(root *xmltree.Element) {
 // http://www.w3.org/TR/xmlschema-1/#cAttribute_Declarations
 func attributeDefaultForm(root *xmltree.Element) {
 	var (
-		isAttr    = isElem(schemaNS, "attribute")
-		hasNoForm = hasAttrValue("", "form", "")
-		isDecl    = hasAttrValue("", "ref", "")
+		isAttr = isElem(schemaNS, "attribute")
+		isDecl = hasAttrValue("", "ref", "")
 	)
+	// not an attribute of another namespace with that name
+	hasForm := func(el *xmltree.Element) bool {
+		for _, attr := range el.StartElement.Attr {
+			if (attr.Name == xml.Name{"", "form"}) {
+				return true
+			}
+		}
+		return false
+	}
 	form := root.Attr("", "attributeFormDefault")
 	if form == "" {
 		return
 	}
 	for i := range root.Children {
-		for _, el := range root.Children[i].SearchFunc(and(isAttr, isDecl, hasNoForm)) {
-			el.SetAttr("", "form", form)
+		for _, el := range root.Children[i].SearchFunc(and(isAttr, isDecl)) {
+			if !hasForm(el) {
+				el.StartElement.Attr = append(el.StartElement.Attr, xml.Attr{
+					Name:  xml.Name{"", "form"},
+					Value: form,
+				})
+			}
 		}
 	}
 }
-- 
2.43.0


From 833a9e78ab327f6278dac6082f65607b69f2f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:55 +0000
Subject: [PATCH 76/80] fix: xsd: a type with several wildcards takes several
 elements

---
 xsd/parse.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 52bd980..ec99f25 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -947,9 +947,21 @@ func (t *ComplexType) parseComplexContent(ns string, root *xmltree.Element) {
 		case "restriction":
 			t.Base = parseType(el.Resolve(el.Attr("", "base")))
 
-			for _, v := range el.Search(schemaNS, "any") {
-				t.Elements = append(t.Elements, parseAnyElement(ns, v))
-				break
+			// One wildcard stands for all of them.
+			wildcards := el.Search(schemaNS, "any")
+			for i, v := range wildcards {
+				elt := parseAnyElement(ns, v)
+				if i == 0 {
+					t.Elements = append(t.Elements, elt)
+					continue
+				}
+				for _, prev := range wildcards[:i] {
+					if !isAlternative(el, prev, v) {
+						elt.Plural = true
+					}
+				}
+				first := &t.Elements[len(t.Elements)-1]
+				first.Plural = first.Plural || elt.Plural
 			}
 
 			usedElt := make(map[xml.Name]int)
-- 
2.43.0


From f4f9851036e10c6a2fdd1d98a15a5eccd80df212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:54 +0000
Subject: [PATCH 77/80] fix: wsdlgen: a part of an unknown type is an error

---
 wsdlgen/wsdlgen.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index f54d675..234ecbd 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -388,7 +388,12 @@ func exposeType(typ string) string {
 
 func (p *printer) getPartType(part wsdl.Part) (string, error) {
 	if part.Type.Local != "" {
-		return p.code.NameOf(part.Type), nil
+		typ := p.code.NameOf(part.Type)
+		if typ == "NOTFOUND"+part.Type.Local && !p.idents[typ] {
+			return "", fmt.Errorf("part %s: could not lookup type %v",
+				part.Name, part.Type)
+		}
+		return typ, nil
 	}
 	if part.Element.Local != "" {
 		doc, ok := p.code.DocType(part.Element.Space)
-- 
2.43.0


From b036171f9dfeb151e2893944784851f50dec7790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:55 +0000
Subject: [PATCH 78/80] fix: wsdlgen: the comment of a method is not a part of
 the struct before it

---
 wsdlgen/wsdlgen.go | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 234ecbd..05c6a25 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -216,31 +216,23 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 
 	if params.InputType != "" && !p.declared[params.InputType] {
 		p.declared[params.InputType] = true
-		decls, err := gen.Snippets(params, `
-			type {{.InputType}} struct {
-			{{ range .InputFields -}}
-				{{.Name}} {{.PublicType}}
-			{{ end -}}
-			}`,
-		)
-		if err != nil {
+		fields := make([]string, 0, len(params.InputFields))
+		for _, f := range params.InputFields {
+			fields = append(fields, f.Name+" "+f.PublicType)
+		}
+		if err := p.declare(params.InputType, fields...); err != nil {
 			return err
 		}
-		p.file.Decls = append(p.file.Decls, decls...)
 	}
 	if params.ReturnType != "" && !p.declared[params.ReturnType] {
 		p.declared[params.ReturnType] = true
-		decls, err := gen.Snippets(params, `
-			type {{.ReturnType}} struct {
-			{{ range .ReturnFields -}}
-				{{.Name}} {{.Type}}
-			{{ end -}}
-			}`,
-		)
-		if err != nil {
+		fields := make([]string, 0, len(params.ReturnFields))
+		for _, f := range params.ReturnFields {
+			fields = append(fields, f.Name+" "+f.Type)
+		}
+		if err := p.declare(params.ReturnType, fields...); err != nil {
 			return err
 		}
-		p.file.Decls = append(p.file.Decls, decls...)
 	}
 	if params.InputType != "" {
 		params.input = []string{"v " + params.InputType}
@@ -319,6 +311,19 @@ func (p *printer) operation(port wsdl.Port, op wsdl.Operation) error {
 	return nil
 }
 
+// Declares the struct for the parts of a message. If it was parsed
+// from a template, go/printer could print the comment of the method
+// that follows on the last line of the struct.
+func (p *printer) declare(name string, fields ...string) error {
+	list, err := gen.FieldList(fields...)
+	if err != nil {
+		return err
+	}
+	typ := &ast.StructType{Fields: list}
+	p.file.Decls = append(p.file.Decls, gen.TypeDecl(ast.NewIdent(name), typ))
+	return nil
+}
+
 // Chooses the name of the struct for the parts of a message.
 func (p *printer) wrapper(message xml.Name) string {
 	if name, ok := p.wrappers[message]; ok {
-- 
2.43.0


From 228863708d61920bd3e391915757f05e0600c36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:23 +0000
Subject: [PATCH 79/80] fix: xmltree: setting an attribute of an element leaves
 copies of the element alone

---
 xmltree/xmltree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 580ff24..d935056 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -316,6 +316,9 @@ func (el *Element) Flatten() []*Element {
 // SetAttr adds an XML attribute to an Element's existing Attributes.
 // If the attribute already exists, it is replaced.
 func (el *Element) SetAttr(space, local, value string) {
+	// Copies of an Element have the same slice of attributes.
+	attrs := el.StartElement.Attr
+	el.StartElement.Attr = append(make([]xml.Attr, 0, len(attrs)+1), attrs...)
 	for i, a := range el.StartElement.Attr {
 		if a.Name.Local != local {
 			continue
-- 
2.43.0


From 8e29082d90f904a266f79b709a2b6ec64376bde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:23 +0000
Subject: [PATCH 80/80] fix: xsd: documents of the caller after the ones to
 parse are not overwritten

---
 xsd/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index ec99f25..27af7cb 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -83,7 +83,8 @@ func hideAnnotations(root *xmltree.Element) {
 // number of trees returned by Normalize may not equal the
 // number of arguments.
 func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
-	docs = append(docs, StandardSchema...)
+	// The caller may use the rest of the array for other documents.
+	docs = append(docs[:len(docs):len(docs)], StandardSchema...)
 	result := make([]*xmltree.Element, 0, len(docs))
 
 	for _, data := range docs {
-- 
2.43.0

