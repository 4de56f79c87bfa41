From a599c19aebd514d31a76d00de8470855f5dd0ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:10 +0000
Subject: [PATCH 01/28] fix: Scope.Prefix returns names that Resolve maps back

Prefix used declarations that an inner element had redeclared, and
reserved prefixes, so the name it returned could resolve to another
namespace; and it returned an empty string, rather than the unqualified
name, for a namespace that is not declared.
---
 xmltree/xmltree.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 47567f4..175f79b 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -148,19 +148,38 @@ func (scope *Scope) Prefix(name xml.Name) (qname string) {
 		return "xmlns:" + name.Local
 	}
 	for i := len(scope.ns) - 1; i >= 0; i-- {
-		if scope.ns[i].Space == name.Space {
+		if scope.ns[i].Space == name.Space && scope.inForce(i) {
 			if scope.ns[i].Local == "" {
 				// Favor default NS if there is an extra
 				// qualified NS declaration
-				qname = name.Local
+				return name.Local
 			} else if len(qname) == 0 {
 				qname = scope.ns[i].Local + ":" + name.Local
 			}
 		}
 	}
+	if len(qname) == 0 {
+		return name.Local
+	}
 	return qname
 }
 
+// inForce reports whether the i'th declaration in the scope is the one
+// its prefix resolves to; it is not if an inner element declares the same
+// prefix again, or if the prefix is reserved.
+func (scope *Scope) inForce(i int) bool {
+	prefix := scope.ns[i].Local
+	if prefix == "xml" || prefix == "xmlns" {
+		return false
+	}
+	for _, ns := range scope.ns[i+1:] {
+		if ns.Local == prefix {
+			return false
+		}
+	}
+	return true
+}
+
 func (scope *Scope) pushNS(tag xml.StartElement) []xml.Attr {
 	var ns []xml.Name
 	var newAttrs []xml.Attr
-- 
2.43.0


From cae577b58e881f614f670f0969e30c4ea95c3b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:51 +0000
Subject: [PATCH 02/28] fix: JoinScope does not write to the outer scope's
 backing array

---
 xmltree/xmltree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 175f79b..60665b2 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -71,7 +71,9 @@ func (el *Element) Attr(space, local string) string {
 // prefixes using the returned scope, the prefix list in the argument
 // Scope is searched before that of the receiver Scope.
 func (outer *Scope) JoinScope(inner *Scope) *Scope {
-	return &Scope{append(outer.ns, inner.ns...)}
+	// The backing array may be shared with other scopes; do not append
+	// to it in place.
+	return &Scope{append(outer.ns[:len(outer.ns):len(outer.ns)], inner.ns...)}
 }
 
 // Unmarshal parses the XML encoding of the Element and stores the result
-- 
2.43.0


From b580e9e85e7eccb7205e9617200e972dd574571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:53 +0000
Subject: [PATCH 03/28] fix: Parse of documents in other charsets

The conversion to UTF-8 was written over the caller's document, and the
first byte after the XML declaration was dropped, so that Content was
shifted by one byte, and <?xml ...?><root> could not be parsed.
---
 xmltree/xmltree.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 60665b2..6405e14 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -235,7 +235,7 @@ func Parse(doc []byte) (*Element, error) {
 	// stream. If the source document is not utf8, the position may be
 	// incorrect and cause invalid data or a run-time panic. So we copy
 	// the utf8 conversion to an internal buffer.
-	utf8buf := bytes.NewBuffer(doc[:0])
+	data := doc
 	d.CharsetReader = func(label string, r io.Reader) (io.Reader, error) {
 		utf8input, err := charset.NewReaderLabel(label, r)
 		if err != nil {
@@ -245,13 +245,14 @@ func Parse(doc []byte) (*Element, error) {
 		// parsed the <?xml?> header. To be able to index
 		// into the document, we need to account for this.
 		padding := make([]byte, int(d.InputOffset()))
-		utf8buf.Write(padding)
+		utf8buf := bytes.NewBuffer(padding)
 
 		_, err = io.Copy(utf8buf, utf8input)
 		if err != nil {
 			return nil, err
 		}
-		return bytes.NewReader(utf8buf.Bytes()[len(padding)+1:]), nil
+		data = utf8buf.Bytes()
+		return bytes.NewReader(data[len(padding):]), nil
 	}
 	scanner := scanner{Decoder: d}
 	root := new(Element)
@@ -265,7 +266,7 @@ func Parse(doc []byte) (*Element, error) {
 	if scanner.err != nil {
 		return nil, scanner.err
 	}
-	if err := root.parse(&scanner, utf8buf.Bytes(), 0); err != nil {
+	if err := root.parse(&scanner, data, 0); err != nil {
 		return nil, err
 	}
 	return root, nil
-- 
2.43.0


From 9a3786807f81834e7ff9f0b3d3d26513487e6f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:56 +0000
Subject: [PATCH 04/28] fix: Encode returns the errors of all its writes

---
 xmltree/marshal.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index ca949fe..9677c29 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -87,8 +87,8 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 	}
 	if _, ok := visited[el]; ok {
 		// We have a cycle. Leave a comment, but no error
-		e.w.Write([]byte("<!-- cycle detected -->"))
-		return nil
+		_, err := e.w.Write([]byte("<!-- cycle detected -->"))
+		return err
 	}
 	scope := diffScope(parent, el)
 	if err := e.encodeOpenTag(el, scope, len(visited)); err != nil {
@@ -96,7 +96,9 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 	}
 	if len(el.Children) == 0 {
 		if len(el.Content) > 0 {
-			e.w.Write(el.Content)
+			if _, err := e.w.Write(el.Content); err != nil {
+				return err
+			}
 		} else {
 			return nil
 		}
@@ -136,7 +138,9 @@ func diffScope(parent, child *Element) Scope {
 func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 	if e.pretty {
 		for i := 0; i < depth; i++ {
-			io.WriteString(e.w, e.indent)
+			if _, err := io.WriteString(e.w, e.indent); err != nil {
+				return err
+			}
 		}
 	}
 	var tag = struct {
@@ -148,7 +152,9 @@ func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 	}
 	if e.pretty {
 		if len(el.Children) > 0 || len(el.Content) == 0 {
-			io.WriteString(e.w, "\n")
+			if _, err := io.WriteString(e.w, "\n"); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
@@ -158,7 +164,9 @@ func (e *encoder) encodeCloseTag(el *Element, depth int) error {
 	if e.pretty {
 		for i := 0; i < depth; i++ {
 			if len(el.Children) > 0 {
-				io.WriteString(e.w, e.indent)
+				if _, err := io.WriteString(e.w, e.indent); err != nil {
+					return err
+				}
 			}
 		}
 	}
@@ -166,7 +174,9 @@ func (e *encoder) encodeCloseTag(el *Element, depth int) error {
 		return err
 	}
 	if e.pretty {
-		io.WriteString(e.w, "\n")
+		if _, err := io.WriteString(e.w, "\n"); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 5017c2278f3b87fb89022fb17ec2b9942076f790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:58 +0000
Subject: [PATCH 05/28] fix: Marshal escapes attribute values and keeps
 attributes' namespaces

Attribute values and namespace URIs were written without escaping, and
an attribute in a namespace that is also the default one was written
without a prefix, which takes it out of the namespace.
---
 xmltree/marshal.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index 9677c29..1d4a41c 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -7,21 +7,44 @@ import (
 	"text/template"
 )
 
-// NOTE(droyo) As of go1.5.1, the encoding/xml package does not resolve
-// prefixes in attribute names. Therefore we add .Name.Space verbatim
-// instead of trying to resolve it. One consequence is this is that we cannot
-// rename prefixes without some work.
-var tagTmpl = template.Must(template.New("Marshal XML tags").Parse(
+// encoding/xml replaces the prefix in an attribute's name with its
+// namespace, so a prefix has to be found again. Unlike an element, an
+// attribute without a prefix is not in the default namespace.
+var tagTmpl = template.Must(template.New("Marshal XML tags").Funcs(template.FuncMap{
+	"attrName": attrName,
+	"escape":   escapeAttr,
+}).Parse(
 	`{{define "start" -}}
 	<{{.Scope.Prefix .Name -}}
-	{{range .StartElement.Attr}} {{$.Scope.Prefix .Name -}}="{{.Value}}"{{end -}}
-	{{range .NS }} xmlns{{ if .Local }}:{{ .Local }}{{end}}="{{ .Space }}"{{end -}}
+	{{range .StartElement.Attr}} {{attrName $.Scope .Name -}}="{{escape .Value}}"{{end -}}
+	{{range .NS }} xmlns{{ if .Local }}:{{ .Local }}{{end}}="{{ escape .Space }}"{{end -}}
 	{{if or .Children .Content}}>{{else}} />{{end}}
 	{{- end}}
 
 	{{define "end" -}}
 	</{{.Prefix .Name}}>{{end}}`))
 
+// attrName is the QName of an attribute.
+func attrName(scope Scope, name xml.Name) string {
+	switch name.Space {
+	case "", xmlLangURI, xmlNamespaceURI:
+		return scope.Prefix(name)
+	}
+	for i := len(scope.ns) - 1; i >= 0; i-- {
+		if ns := scope.ns[i]; ns.Space == name.Space && ns.Local != "" && scope.inForce(i) {
+			return ns.Local + ":" + name.Local
+		}
+	}
+	return name.Local
+}
+
+// escapeAttr escapes the characters that may not appear in an attribute value.
+func escapeAttr(s string) (string, error) {
+	var buf bytes.Buffer
+	err := xml.EscapeText(&buf, []byte(s))
+	return buf.String(), err
+}
+
 // Marshal produces the XML encoding of an Element as a self-contained
 // document. The xmltree package may adjust the declarations of XML
 // namespaces if the Element has been modified, or is part of a larger scope,
-- 
2.43.0


From 3cc86b8bd2f35de256c8ea039206c5634d1d5063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:00 +0000
Subject: [PATCH 06/28] fix: Marshal declares each prefix once, with the
 meaning it has

An element of a tree whose scope redeclares a prefix was written with
both declarations in one tag, which is not well-formed; and an element
moved below one with other declarations was written without its own.
---
 xmltree/marshal.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index 1d4a41c..16e7f94 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -140,10 +140,12 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 }
 
 // diffScope returns the Scope of the child element, minus any
-// identical namespace declaration in the parent's scope.
+// identical namespace declaration in the parent's scope. Declarations
+// that the child's scope itself overrides are left out, as a prefix can
+// only be declared once in a tag.
 func diffScope(parent, child *Element) Scope {
 	if parent == nil { // root element
-		return child.Scope
+		return child.Scope.withoutOverrides()
 	}
 	childScope := child.Scope
 	parentScope := parent.Scope
@@ -155,7 +157,30 @@ func diffScope(parent, child *Element) Scope {
 			break
 		}
 	}
-	return childScope
+	if len(parentScope.ns) > 0 {
+		// The child comes from somewhere else, and the parent's
+		// declarations may override its own.
+		childScope = child.Scope
+	}
+	return childScope.withoutOverrides()
+}
+
+// withoutOverrides returns the declarations in scope that no later
+// declaration of the same prefix overrides.
+func (scope *Scope) withoutOverrides() Scope {
+	var result Scope
+	for i, ns := range scope.ns {
+		overridden := false
+		for _, later := range scope.ns[i+1:] {
+			if later.Local == ns.Local {
+				overridden = true
+			}
+		}
+		if !overridden {
+			result.ns = append(result.ns, ns)
+		}
+	}
+	return result
 }
 
 func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
-- 
2.43.0


From 37175a54a104721ff8e36814a74c19aea48d83bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:29 +0000
Subject: [PATCH 07/28] fix: Equal is symmetric, compares siblings in any
 order, and leaves its arguments alone

Attributes that only the first element has were ignored, elements with
the same name were compared in whatever order an unstable sort left
them, documents deeper than 1000 elements were not equal to themselves,
and the Children of both arguments were reordered.
---
 xmltree/compare.go | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/xmltree/compare.go b/xmltree/compare.go
index 4e31dbd..e96059c 100644
--- a/xmltree/compare.go
+++ b/xmltree/compare.go
@@ -16,13 +16,15 @@ type byName []Element
 
 func (l byName) Len() int { return len(l) }
 func (l byName) Less(i, j int) bool {
-	return l[i].Name.Space+l[i].Name.Local < l[j].Name.Space+l[j].Name.Local
+	if l[i].Name.Space != l[j].Name.Space {
+		return l[i].Name.Space < l[j].Name.Space
+	}
+	return l[i].Name.Local < l[j].Name.Local
 }
 func (l byName) Swap(i, j int) { l[i], l[j] = l[j], l[i] }
 
 func equal(a, b *Element, depth int) bool {
-	const maxDepth = 1000
-	if depth > maxDepth {
+	if depth > recursionLimit {
 		return false
 	}
 	if !equalElement(a, b) {
@@ -34,20 +36,34 @@ func equal(a, b *Element, depth int) bool {
 	if len(a.Children) == 0 {
 		return bytes.Equal(bytes.TrimSpace(a.Content), bytes.TrimSpace(b.Content))
 	}
-	sort.Sort(byName(a.Children))
-	sort.Sort(byName(b.Children))
-	for i := range a.Children {
-		if !equal(&a.Children[i], &b.Children[i], depth+1) {
+	// Sort copies; the arguments belong to the caller.
+	achildren := append([]Element(nil), a.Children...)
+	bchildren := append([]Element(nil), b.Children...)
+	sort.Stable(byName(achildren))
+	sort.Stable(byName(bchildren))
+	for i := range achildren {
+		// Elements with the same name may be in any order.
+		j := i
+		for j < len(bchildren) && !equal(&achildren[i], &bchildren[j], depth+1) {
+			if bchildren[j].Name != achildren[i].Name {
+				return false
+			}
+			j++
+		}
+		if j == len(bchildren) {
 			return false
 		}
+		bchildren[i], bchildren[j] = bchildren[j], bchildren[i]
 	}
 	return true
 }
 
 func equalElement(a, b *Element) bool {
-	if a.Name != b.Name {
-		return false
-	}
+	return a.Name == b.Name && hasAttrs(a, b) && hasAttrs(b, a)
+}
+
+// hasAttrs returns true if a has all the attributes of b.
+func hasAttrs(a, b *Element) bool {
 	attrs := make(map[xml.Name]string)
 	for _, a := range a.StartElement.Attr {
 		if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
-- 
2.43.0


From ad6db66e60302fd94278575da4914b19fdc4932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:26 +0000
Subject: [PATCH 08/28] fix: schemas with the same target namespace keep their
 own types

---
 xsd/parse.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 0e1ac4f..bca4268 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -135,7 +135,6 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 func Parse(docs ...[]byte) ([]Schema, error) {
 	var (
 		result = make([]Schema, 0, len(docs))
-		parsed = make(map[string]Schema, len(docs))
 		types  = make(map[xml.Name]Type)
 	)
 
@@ -150,17 +149,14 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		if err := s.parse(root); err != nil {
 			return nil, err
 		}
-		parsed[tns] = s
-	}
-
-	for _, s := range parsed {
 		for _, t := range s.Types {
 			types[XMLName(t)] = t
 		}
+		result = append(result, s)
 	}
 
-	for _, root := range schema {
-		s := parsed[root.Attr("", "targetNamespace")]
+	for i, root := range schema {
+		s := result[i]
 		if err := s.resolvePartialTypes(types); err != nil {
 			return nil, err
 		}
@@ -169,7 +165,6 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 			return nil, err
 		}
 		s.propagateMixedAttr()
-		result = append(result, s)
 	}
 	result = append(result, builtinSchema)
 	return result, nil
-- 
2.43.0


From ad8ee66fa167eb728bddd22cb42fc1fa4ce7bf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:30 +0000
Subject: [PATCH 09/28] fix: Parse of types derived across schemas in any order

---
 xsd/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index bca4268..a22a218 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -164,6 +164,10 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		if err != nil {
 			return nil, err
 		}
+	}
+	// A type may be derived from types in any of the schemas, so this
+	// must wait until all of them are resolved.
+	for _, s := range result {
 		s.propagateMixedAttr()
 	}
 	result = append(result, builtinSchema)
-- 
2.43.0


From 22c5c997274f899f42b19a9446010d76b6566d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 10/28] fix: every type's chain of base types ends in a
 built-in type

---
 xsd/parse.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index a22a218..7041937 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -168,6 +168,9 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 	// A type may be derived from types in any of the schemas, so this
 	// must wait until all of them are resolved.
 	for _, s := range result {
+		if err := s.checkDerivation(); err != nil {
+			return nil, err
+		}
 		s.propagateMixedAttr()
 	}
 	result = append(result, builtinSchema)
@@ -521,6 +524,21 @@ func (s *Schema) addElementTypeAliases(root *xmltree.Element, types map[xml.Name
 	return nil
 }
 
+// No type may be derived from itself, directly or not.
+func (s *Schema) checkDerivation() error {
+	for name, t := range s.Types {
+		seen := make(map[Type]bool)
+		for ; t != nil; t = Base(t) {
+			if seen[t] {
+				return fmt.Errorf("type %s in namespace %s is derived from itself",
+					name.Local, name.Space)
+			}
+			seen[t] = true
+		}
+	}
+	return nil
+}
+
 // Propagate the "mixed" attribute of a type appropriately to
 // all types derived from it.  For the propagation rules, see
 // https://www.w3.org/TR/xmlschema-1/#coss-ct. That Definition is written
@@ -664,6 +682,9 @@ func (s *Schema) parseComplexType(root *xmltree.Element) *ComplexType {
 			stop("unexpected element " + el.Name.Local)
 		}
 	})
+	if t.Base == nil {
+		t.Base = AnyType
+	}
 	t.Doc += string(doc)
 	return &t
 }
@@ -897,6 +918,9 @@ func (s *Schema) parseSimpleType(root *xmltree.Element) *SimpleType {
 			doc = doc.append(parseAnnotation(el))
 		}
 	})
+	if t.Base == nil {
+		t.Base = AnySimpleType
+	}
 	t.Doc = string(doc)
 	return &t
 }
-- 
2.43.0


From 64d65d986d55fe5c12d3fac4b55be6fafe976966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:18 +0000
Subject: [PATCH 11/28] fix: elements of sequences nested in a choice's
 sequence are optional

---
 xsd/parse.go | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 7041937..f445de9 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -243,26 +243,21 @@ func copyEltNamesToAnonTypes(root *xmltree.Element) {
 // Inside a <xs:choice>, set all children to optional
 // If child is a <xs:sequence> set its children to optional
 func setChoicesOptional(root *xmltree.Element) error {
-
 	for _, el := range root.SearchFunc(isElem(schemaNS, "choice")) {
-		for i := 0; i < len(el.Children); i++ {
-			t := el.Children[i]
-
-			if t.Name.Space == schemaNS && t.Name.Local == "sequence" {
-				for j := 0; j < len(t.Children); j++ {
-					t2 := t.Children[j]
-					t2.SetAttr("", "minOccurs", "0")
-					t.Children[j] = t2
-				}
-			} else {
-				t.SetAttr("", "minOccurs", "0")
-			}
+		setChildrenOptional(el)
+	}
+	return nil
+}
 
-			el.Children[i] = t
+func setChildrenOptional(el *xmltree.Element) {
+	for i := range el.Children {
+		t := &el.Children[i]
+		if t.Name.Space == schemaNS && t.Name.Local == "sequence" {
+			setChildrenOptional(t)
+		} else {
+			t.SetAttr("", "minOccurs", "0")
 		}
 	}
-
-	return nil
 }
 
 /*
-- 
2.43.0


From b13100fddbda8f3a3edb37031aaa23f74b37fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:34 +0000
Subject: [PATCH 12/28] fix: keep dateTime bounds of types restricted further

---
 xsd/parse.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index f445de9..7d3b940 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -1006,11 +1006,10 @@ func parseMinMaxRestriction(el *xmltree.Element, base Type) (time.Time, float64)
 		// The base of the linked type is unknown, try to parse dates and decimals
 		d, err := time.Parse("2006-01-02", el.Attr("", "value"))
 		if err != nil {
-			d, err := time.Parse(time.RFC3339, el.Attr("", "value"))
+			d, err = time.Parse(time.RFC3339, el.Attr("", "value"))
 			if err != nil {
 				decimal = parseDecimal(el.Attr("", "value"))
 			}
-			date = d
 		}
 		date = d
 	} else {
-- 
2.43.0


From e66c99aa9ef28a55226e9c81b1a625fbaef2d653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:36 +0000
Subject: [PATCH 13/28] fix: a pattern that does not compile does not undo the
 others

---
 xsd/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 7d3b940..05a7711 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -962,8 +962,9 @@ func parseSimpleRestriction(root *xmltree.Element, base Type) Restriction {
 			if err != nil {
 				msg := fmt.Sprintf("This type must conform to the pattern %q, but the XSD library could not parse the regular expression. (%v)", pat, err)
 				doc = doc.append(annotation(msg))
+			} else {
+				r.Pattern = reg
 			}
-			r.Pattern = reg
 		case "whiteSpace":
 			break // TODO(droyo)
 		case "fractionDigits":
-- 
2.43.0


From 00c2db7435e1e29c6a9377acb2e72716c0ccde1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:39 +0000
Subject: [PATCH 14/28] fix: Parse accepts all valid bounds of dates and times

---
 xsd/parse.go | 66 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 05a7711..20d87c5 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -982,41 +982,51 @@ func parseSimpleRestriction(root *xmltree.Element, base Type) Restriction {
 	return r
 }
 
+// The time zone is optional in dates and times.
+func parseDate(s string) (time.Time, error) {
+	if t, err := time.Parse("2006-01-02", s); err == nil {
+		return t, nil
+	}
+	return time.Parse("2006-01-02Z07:00", s)
+}
+
+func parseDateTime(s string) (time.Time, error) {
+	if t, err := time.Parse("2006-01-02T15:04:05", s); err == nil {
+		return t, nil
+	}
+	return time.Parse(time.RFC3339, s)
+}
+
 // For minInclusive, minExclusive, maxInclusive and maxExclusive restrictions
 func parseMinMaxRestriction(el *xmltree.Element, base Type) (time.Time, float64) {
-	var date time.Time
-	var decimal float64
-	if v, ok := base.(Builtin); ok {
-		var format string
-		if v == Date {
-			format = "2006-01-02"
-		} else if v == DateTime {
-			format = time.RFC3339
+	value := strings.TrimSpace(el.Attr("", "value"))
+	if _, ok := base.(linkedType); ok {
+		// The base of the linked type is unknown, try to parse dates and decimals
+		if d, err := parseDate(value); err == nil {
+			return d, 0
 		}
-
-		if format != "" {
-			d, err := time.Parse(format, el.Attr("", "value"))
-			if err != nil {
-				stop(err.Error())
-			}
-			date = d
-		} else {
-			decimal = parseDecimal(el.Attr("", "value"))
+		if d, err := parseDateTime(value); err == nil {
+			return d, 0
 		}
-	} else if _, ok := base.(linkedType); ok {
-		// The base of the linked type is unknown, try to parse dates and decimals
-		d, err := time.Parse("2006-01-02", el.Attr("", "value"))
+		decimal, _ := strconv.ParseFloat(value, 64)
+		return time.Time{}, decimal
+	}
+	switch base {
+	case Date, DateTime:
+		parse := parseDate
+		if base == DateTime {
+			parse = parseDateTime
+		}
+		d, err := parse(value)
 		if err != nil {
-			d, err = time.Parse(time.RFC3339, el.Attr("", "value"))
-			if err != nil {
-				decimal = parseDecimal(el.Attr("", "value"))
-			}
+			stop(err.Error())
 		}
-		date = d
-	} else {
-		decimal = parseDecimal(el.Attr("", "value"))
+		return d, 0
+	case Time, Duration, GDay, GMonth, GMonthDay, GYearMonth:
+		// A Restriction has nowhere to put these.
+		return time.Time{}, 0
 	}
-	return date, decimal
+	return time.Time{}, parseDecimal(value)
 }
 
 // XML Schema defines its own flavor of regular expressions here:
-- 
2.43.0


From 162a59fe89fd629da49c805c06375263c9ce570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:02 +0000
Subject: [PATCH 15/28] fix: documentation after other annotations is kept

---
 xsd/xsd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd/xsd.go b/xsd/xsd.go
index fb84c36..fc09481 100644
--- a/xsd/xsd.go
+++ b/xsd/xsd.go
@@ -273,6 +273,7 @@ Loop:
 				if err := d.Skip(); err != nil {
 					return err
 				}
+				continue
 			}
 			var frag []byte
 			if err := d.DecodeElement(&frag, &tok); err != nil {
-- 
2.43.0


From d89f1bfdb2d6573346ab84a3f9084c9fbb71387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:41 +0000
Subject: [PATCH 16/28] fix: every anonymous type gets a name of its own

Members of a union after the first, elements of a schema after the list
of its children grew, and types whose element's or generated name is that
of a type of another schema of the namespace were lost or mixed up.
---
 xsd/parse.go | 49 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 20d87c5..2747ff3 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -104,14 +104,18 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 			result = append(result, root.Search(schemaNS, "schema")...)
 		}
 	}
+	used := make(map[xml.Name]struct{})
+	for _, root := range result {
+		typeNames(root, used)
+	}
 	for _, root := range result {
 		attributeDefaultType(root)
 		elementDefaultType(root)
-		copyEltNamesToAnonTypes(root)
+		copyEltNamesToAnonTypes(root, used)
 	}
 	typeCounter := 0
 	for _, root := range result {
-		if err := nameAnonymousTypes(root, &typeCounter); err != nil {
+		if err := nameAnonymousTypes(root, used, &typeCounter); err != nil {
 			return nil, err
 		}
 		if err := setChoicesOptional(root); err != nil {
@@ -204,24 +208,21 @@ to
   </complexType>
 </element>
 */
-func copyEltNamesToAnonTypes(root *xmltree.Element) {
-	used := make(map[xml.Name]struct{})
+func copyEltNamesToAnonTypes(root *xmltree.Element, used map[xml.Name]struct{}) {
 	tns := root.Attr("", "targetNamespace")
 
-	namedTypes := and(isType, hasAttr("", "name"))
-	for _, el := range root.SearchFunc(namedTypes) {
-		used[el.ResolveDefault(el.Attr("", "name"), tns)] = struct{}{}
-	}
-
 	eltWithAnonType := and(
 		or(isElem(schemaNS, "element"), isElem(schemaNS, "attribute")),
 		hasAttr("", "name"),
 		hasAnonymousType)
 
+	// Adding to root.Children while el may point into it would leave el
+	// pointing at a copy.
+	var hoisted []xmltree.Element
 	for _, el := range root.SearchFunc(eltWithAnonType) {
 		// Make sure we can use this element's name
 		xmlname := el.ResolveDefault(el.Attr("", "name"), tns)
-		if _, ok := used[xmlname]; ok {
+		if isUsed(used, xmlname) {
 			continue
 		}
 		used[xmlname] = struct{}{}
@@ -234,10 +235,26 @@ func copyEltNamesToAnonTypes(root *xmltree.Element) {
 
 			el.Children = append(el.Children[:i], el.Children[i+1:]...)
 			el.Content = nil
-			root.Children = append(root.Children, t)
+			hoisted = append(hoisted, t)
 			break
 		}
 	}
+	root.Children = append(root.Children, hoisted...)
+}
+
+// typeNames adds the names of the types in a schema to used. Several schemas
+// may have the same target namespace.
+func typeNames(root *xmltree.Element, used map[xml.Name]struct{}) {
+	tns := root.Attr("", "targetNamespace")
+	namedTypes := and(isType, hasAttr("", "name"))
+	for _, el := range root.SearchFunc(namedTypes) {
+		used[el.ResolveDefault(el.Attr("", "name"), tns)] = struct{}{}
+	}
+}
+
+func isUsed(used map[xml.Name]struct{}, name xml.Name) bool {
+	_, ok := used[name]
+	return ok
 }
 
 // Inside a <xs:choice>, set all children to optional
@@ -285,12 +302,13 @@ to
     </xs:sequence>
   </xs:complexType>
 */
-func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
+func nameAnonymousTypes(root *xmltree.Element, used map[xml.Name]struct{}, typeCounter *int) error {
 	var (
 		updateAttr string
 		accum      bool
 	)
 	targetNS := root.Attr("", "targetNamespace")
+	var hoisted []xmltree.Element
 	for _, el := range root.SearchFunc(hasAnonymousType) {
 		if el.Name.Space != schemaNS {
 			continue
@@ -319,6 +337,9 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 				continue
 			}
 			*typeCounter++
+			for isUsed(used, anonTypeName(*typeCounter, targetNS)) {
+				*typeCounter++
+			}
 
 			name := anonTypeName(*typeCounter, targetNS)
 			qname := el.Prefix(name)
@@ -331,12 +352,14 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 			el.SetAttr("", updateAttr, qname)
 			el.Children = append(el.Children[:i], el.Children[i+1:]...)
 			el.Content = nil
-			root.Children = append(root.Children, t)
+			hoisted = append(hoisted, t)
 			if !accum {
 				break
 			}
+			i--
 		}
 	}
+	root.Children = append(root.Children, hoisted...)
 	return nil
 }
 
-- 
2.43.0


From 5c35ef4037a5a7c844684ffe05f3627904265661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:14 +0000
Subject: [PATCH 17/28] fix: GenAST reports files that cannot be read

---
 xsdgen/cli.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 0274086..633704b 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -55,6 +55,9 @@ func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
 // associated methods based on a set of XML schema.
 func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	data, err := cfg.readFiles(files...)
+	if err != nil {
+		return nil, err
+	}
 	code, err := cfg.GenCode(data...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 01c009a2c6f4632e2c66e8accbad981be5c33c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:14 +0000
Subject: [PATCH 18/28] fix: following imports ends when documents import each
 other, and without a location

---
 xsdgen/cli.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 633704b..9263595 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -66,8 +66,18 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 }
 
 func (cfg *Config) readFiles(files ...string) ([][]byte,error) {
+	return cfg.readNewFiles(make(map[string]bool), files...)
+}
+
+// readNewFiles reads the files that are not in seen, and adds them to it:
+// documents may import each other.
+func (cfg *Config) readNewFiles(seen map[string]bool, files ...string) ([][]byte, error) {
 	data := make([][]byte, 0, len(files))
 	for _, filename := range files {
+		if seen[filename] {
+			continue
+		}
+		seen[filename] = true
 		b, err := ioutil.ReadFile(filename)
 		if err != nil {
 			return nil, err
@@ -80,9 +90,12 @@ func (cfg *Config) readFiles(files ...string) ([][]byte,error) {
 			}
 			importedFiles := make([]string, 0, len(importedRefs))
 			for _, r := range importedRefs {
-				importedFiles = append(importedFiles, r.Location)
+				// An import need not say where its schema is.
+				if r.Location != "" {
+					importedFiles = append(importedFiles, r.Location)
+				}
 			}
-			referencedData, err := cfg.readFiles(importedFiles...)
+			referencedData, err := cfg.readNewFiles(seen, importedFiles...)
 			if err != nil {
 				return nil, fmt.Errorf("error reading imported files: %v", err)
 			}
-- 
2.43.0


From 903c4f654d7d371214299c0067b0294d87041d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:45 +0000
Subject: [PATCH 19/28] fix: references among the children of a group are
 replaced before the group is copied

A reference in an attribute group was copied as it was, without a name,
when the reference to the group happened to be replaced before it.
---
 xsd/parse.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index 2747ff3..f5239fb 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -384,6 +384,10 @@ func flattenRef(schema []*xmltree.Element) error {
 		depends = new(dependency.Graph)
 		index   = indexSchema(schema)
 	)
+	ids := make(map[*xmltree.Element]int)
+	for id, el := range index.eltByID {
+		ids[el] = id
+	}
 	for id, el := range index.eltByID {
 		if el.Attr("", "ref") == "" {
 			continue
@@ -394,6 +398,14 @@ func flattenRef(schema []*xmltree.Element) error {
 				el.Attr("", "ref"), el)
 		} else {
 			depends.Add(id, dep)
+			// The children are copied, so references among
+			// them must be replaced first.
+			real := index.eltByID[dep]
+			for i := range real.Children {
+				if child := &real.Children[i]; child.Attr("", "ref") != "" {
+					depends.Add(id, ids[child])
+				}
+			}
 		}
 	}
 	depends.Flatten(func(id int) {
-- 
2.43.0


From daf0e3a1a6887d404b5b3822f8cb4f79d6989158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:45 +0000
Subject: [PATCH 20/28] fix: references keep the type of what they refer to

Attributes and elements without a type get a default type, but those
that refer to another one must not: the default took precedence over
the type of what they refer to.
---
 xsd/parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index f5239fb..bb8d6e9 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -629,9 +629,10 @@ func attributeDefaultType(root *xmltree.Element) {
 	var (
 		isAttr    = isElem(schemaNS, "attribute")
 		hasNoType = hasAttrValue("", "type", "")
+		isNoRef   = hasAttrValue("", "ref", "")
 		anyType   = xml.Name{Space: schemaNS, Local: "anySimpleType"}
 	)
-	for _, el := range root.SearchFunc(and(isAttr, hasNoType)) {
+	for _, el := range root.SearchFunc(and(isAttr, hasNoType, isNoRef)) {
 		el.SetAttr("", "type", el.Prefix(anyType))
 	}
 }
@@ -645,9 +646,10 @@ func elementDefaultType(root *xmltree.Element) {
 	var (
 		isElement = isElem(schemaNS, "element")
 		hasNoType = hasAttrValue("", "type", "")
+		isNoRef   = hasAttrValue("", "ref", "")
 		anyType   = xml.Name{Space: schemaNS, Local: "anyType"}
 	)
-	for _, el := range root.SearchFunc(and(isElement, hasNoType)) {
+	for _, el := range root.SearchFunc(and(isElement, hasNoType, isNoRef)) {
 		el.SetAttr("", "type", el.Prefix(anyType))
 	}
 }
-- 
2.43.0


From 25100325ab66b82b072152767bc62365651d34a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:19 +0000
Subject: [PATCH 21/28] fix: references may lead to types of namespaces that
 their own schema does not name

The type of the element or attribute referred to lost its namespace
when the schema with the reference had no prefix for it.
---
 xsd/parse.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index bb8d6e9..ce0fabf 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -434,29 +434,25 @@ func flattenRef(schema []*xmltree.Element) error {
 // object.
 func deref(ref, real *xmltree.Element) *xmltree.Element {
 	el := new(xmltree.Element)
-	el.Scope = ref.Scope
+	// Names in real may have prefixes that only its own document declares.
+	el.Scope = *real.JoinScope(&ref.Scope)
 	el.Name = real.Name
 	el.StartElement.Attr = append([]xml.Attr{}, real.StartElement.Attr...)
 	el.Content = append([]byte{}, real.Content...)
 	el.Children = append([]xmltree.Element{}, real.Children...)
 
 	// Some attributes can contain a qname, and must be converted to use the
-	// xmlns prefixes in ref's scope.
+	// xmlns prefixes in scope.
 	hasQName := map[xml.Name]bool{
 		xml.Name{"", "type"}: true,
 	}
 	for i, attr := range el.StartElement.Attr {
 		if hasQName[attr.Name] {
 			xmlname := real.Resolve(attr.Value)
-			attr.Value = ref.Prefix(xmlname)
+			attr.Value = el.Prefix(xmlname)
 			el.StartElement.Attr[i] = attr
 		}
 	}
-	// If there are child elements, rather than checking all children
-	// for xmlns conversion, we can just import the xmlns prefixes
-	if len(el.Children) > 0 {
-		el.Scope = *real.JoinScope(&ref.Scope)
-	}
 
 	// Attributes added to the reference overwrite attributes in the
 	// referenced element.
-- 
2.43.0


From bf616635dd6c1f440ddda45dcfdd4f1fbcac57d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:24 +0000
Subject: [PATCH 22/28] fix: references are to what is declared at the top of a
 schema

---
 xsd/index.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xsd/index.go b/xsd/index.go
index 1fa8b08..66d7205 100644
--- a/xsd/index.go
+++ b/xsd/index.go
@@ -35,10 +35,16 @@ func indexSchema(schema []*xmltree.Element) *schemaIndex {
 	}
 	for _, root := range schema {
 		tns := root.Attr("", "targetNamespace")
+		// Only what is declared at the top of a schema can be
+		// referred to.
+		global := make(map[*xmltree.Element]bool)
+		for i := range root.Children {
+			global[&root.Children[i]] = true
+		}
 		for _, el := range root.Flatten() {
 			id := len(index.eltByID)
 			index.eltByID = append(index.eltByID, el)
-			if name := el.Attr("", "name"); name != "" {
+			if name := el.Attr("", "name"); name != "" && global[el] {
 				xmlname := el.ResolveDefault(name, tns)
 				index.idByName[elementKey{xmlname, el.Name}] = id
 			}
-- 
2.43.0


From 067e7652d690f791d43339dde5c1f33b1410e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:49 +0000
Subject: [PATCH 23/28] fix: string literals of text that raw string literals
 cannot hold

---
 internal/gen/gen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index e0ecd90..65d36e7 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -120,9 +120,9 @@ func FieldList(fields ...string) (*ast.FieldList, error) {
 }
 
 // String generates a literal string. If the string contains a double
-// quote, backticks are used for quoting instead.
+// quote, backticks are used for quoting instead, where they can be.
 func String(s string) *ast.BasicLit {
-	if strings.Contains(s, "\"") && !strings.Contains(s, "`") {
+	if strings.Contains(s, "\"") && strconv.CanBackquote(s) {
 		return &ast.BasicLit{Kind: token.STRING, Value: "`" + s + "`"}
 	}
 	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)}
-- 
2.43.0


From fca8d6f78246b03dd6bf19387f477da43757e06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:49 +0000
Subject: [PATCH 24/28] fix: comments with very long lines lost the rest of
 their text

---
 internal/gen/gen.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index 65d36e7..8add8f1 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -5,7 +5,6 @@
 package gen // import "aqwari.net/xml/internal/gen"
 
 import (
-	"bufio"
 	"bytes"
 	"errors"
 	"fmt"
@@ -215,10 +214,12 @@ func PackageDoc(file *ast.File, comments ...string) *ast.File {
 func CommentGroup(comments ...string) *ast.CommentGroup {
 	var group ast.CommentGroup
 	for _, v := range comments {
-		line := bufio.NewScanner(strings.NewReader(v))
-		for line.Scan() {
+		if v == "" {
+			continue
+		}
+		for _, line := range strings.Split(strings.TrimSuffix(v, "\n"), "\n") {
 			group.List = append(group.List, &ast.Comment{
-				Text: "// " + strings.TrimSpace(line.Text()),
+				Text: "// " + strings.TrimSpace(line),
 			})
 		}
 	}
-- 
2.43.0


From bf10743c55bc96e8bf19928cfcfd2c043b48eed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:02 +0000
Subject: [PATCH 25/28] fix: TagKey read the tags of fields without one, and no
 others

---
 internal/gen/gen.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index 8add8f1..5bf6174 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -419,10 +419,14 @@ func ExprString(expr ast.Expr) string {
 // TagKey gets the struct tag item with the
 // given key.
 func TagKey(field *ast.Field, key string) string {
-	if field.Tag != nil {
+	if field.Tag == nil {
 		return ""
 	}
-	return reflect.StructTag(field.Tag.Value).Get(key)
+	tag, err := strconv.Unquote(field.Tag.Value)
+	if err != nil {
+		return ""
+	}
+	return reflect.StructTag(tag).Get(key)
 }
 
 // FormattedSource converts an abstract syntax tree to
-- 
2.43.0


From 6e27eb1035396a68eeb2e884a6758a1423e1e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:13 +0000
Subject: [PATCH 26/28] fix: struct fields with the same name

---
 xsdgen/xsdgen.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 0604c4d..9de55a8 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -556,9 +556,8 @@ type nameGenerator struct {
 }
 
 func (gen *nameGenerator) unique(name string) ast.Expr {
-	const maxDupNames = 1000
 	if _, ok := gen.taken[name]; ok {
-		for i := 0; i < maxDupNames; i++ {
+		for i := 0; ; i++ {
 			unique := name + strconv.Itoa(i)
 			if _, ok := gen.taken[unique]; !ok {
 				gen.taken[unique] = struct{}{}
@@ -617,7 +616,7 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		case *xsd.SimpleType:
 			cfg.debugf("complexType %[1]s extends simpleType %[2]s. Naming"+
 				" the chardata struct field after %[2]s", t.Name.Local, b.Name.Local)
-			fields = append(fields, expr, expr, gen.String(`xml:",chardata"`))
+			fields = append(fields, namegen.element(b.Name), expr, gen.String(`xml:",chardata"`))
 		case xsd.Builtin:
 			if b == xsd.AnyType {
 				// extending anyType doesn't really make sense, but
@@ -689,13 +688,15 @@ func (cfg *Config) genComplexType(t *xsd.ComplexType) ([]spec, error) {
 		if err != nil {
 			return nil, fmt.Errorf("%s element %s: %v", t.Name.Local, el.Name.Local, err)
 		}
-		name := namegen.element(el.Name)
-		if el.Wildcard {
+		var name ast.Expr
+		if !el.Wildcard {
+			name = namegen.element(el.Name)
+		} else {
 			tag = `xml:",any"`
 			if el.Plural {
-				name = ast.NewIdent("Items")
+				name = namegen.unique("Items")
 			} else {
-				name = ast.NewIdent("Item")
+				name = namegen.unique("Item")
 			}
 			if b, ok := el.Type.(xsd.Builtin); ok && b == xsd.AnyType {
 				cfg.debugf("complexType %s: defaulting wildcard element to []string", t.Name.Local)
-- 
2.43.0


From f4abef56909d42e5c5aa32740934df9cffa2046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:01 +0000
Subject: [PATCH 27/28] fix: asking for the Go type of a built-in that does not
 exist could panic

---
 xsdgen/builtin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsdgen/builtin.go b/xsdgen/builtin.go
index 1b968e2..e36443a 100644
--- a/xsdgen/builtin.go
+++ b/xsdgen/builtin.go
@@ -7,7 +7,7 @@ import (
 )
 
 func builtinExpr(b xsd.Builtin) ast.Expr {
-	if int(b) > len(builtinTbl) || b < 0 {
+	if int(b) >= len(builtinTbl) || b < 0 {
 		return nil
 	}
 	return builtinTbl[b]
-- 
2.43.0


From 5c79561acdc9ca4f616b566eec22fb94d0cc1ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:52 +0000
Subject: [PATCH 28/28] fix: generating code for types with several members of
 their own type did not end

---
 xsdgen/xsdgen.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 9de55a8..e8b32a8 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -110,7 +110,7 @@ func (c *Code) NameOf(name xml.Name) string {
 		return "NOTFOUND" + name.Local
 	}
 
-	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, 0).(type) {
+	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, make(map[*xsd.ComplexType]bool)).(type) {
 	case xsd.Builtin:
 		return c.NameOf(b.Name())
 	}
@@ -371,6 +371,7 @@ func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 	push := func(t xsd.Type) {
 		result = append(result, t)
 	}
+	seen := make(map[*xsd.ComplexType]bool)
 	for _, t := range types {
 		if xsd.XMLName(t).Local == "_self" {
 			continue
@@ -384,7 +385,7 @@ func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 				continue
 			}
 		}
-		if t := cfg.flatten1(t, push, 0); t != nil {
+		if t := cfg.flatten1(t, push, seen); t != nil {
 			push(t)
 		}
 	}
@@ -402,11 +403,7 @@ func dedup(types []xsd.Type) (unique []xsd.Type) {
 	return unique
 }
 
-func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type {
-	const maxDepth = 1000
-	if depth > maxDepth {
-		return t
-	}
+func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), seen map[*xsd.ComplexType]bool) xsd.Type {
 	switch t := t.(type) {
 	case *xsd.SimpleType:
 		var (
@@ -480,28 +477,34 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type
 				case xsd.Builtin:
 					return b
 				case *xsd.SimpleType:
-					return cfg.flatten1(t.Base, push, depth+1)
+					return cfg.flatten1(t.Base, push, seen)
 				}
 			}
 		}
+		// Types may refer to each other in circles.
+		if seen[t] {
+			return t
+		}
+		seen[t] = true
+
 		// We can flatten a struct field if its type does not
 		// need additional methods for unmarshalling.
 		for i, el := range t.Elements {
-			el.Type = cfg.flatten1(el.Type, push, depth+1)
+			el.Type = cfg.flatten1(el.Type, push, seen)
 			t.Elements[i] = el
 			push(el.Type)
 			cfg.debugf("element %s %T(%s): %v", el.Name.Local, t,
 				xsd.XMLName(t).Local, xsd.XMLName(el.Type))
 		}
 		for i, attr := range t.Attributes {
-			attr.Type = cfg.flatten1(attr.Type, push, depth+1)
+			attr.Type = cfg.flatten1(attr.Type, push, seen)
 			t.Attributes[i] = attr
 			push(attr.Type)
 			cfg.debugf("attribute %s %T(%s): %v", attr.Name.Local, t,
 				xsd.XMLName(t).Local, xsd.XMLName(attr.Type))
 		}
 
-		t.Base = cfg.flatten1(t.Base, push, depth+1)
+		t.Base = cfg.flatten1(t.Base, push, seen)
 
 		// We expand all complexTypes to merge all of the fields from
 		// their ancestors, so generated code has no dependencies
-- 
2.43.0

