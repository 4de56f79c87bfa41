H = '''package xmltree

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"strings"
	"testing"
)

var _ = bytes.Equal
var _ = errors.New
var _ = fmt.Sprint
var _ = strings.Repeat
var _ xml.Name

func must(t *testing.T, doc string) *Element {
	el, err := Parse([]byte(doc))
	if err != nil {
		t.Fatal(err)
	}
	return el
}
'''
def T(body): return H + "\nfunc TestDemo(t *testing.T) {\n" + body + "\n}\n"
X, M, C = "xmltree/xmltree.go", "xmltree/marshal.go", "xmltree/compare.go"
def bug(id, prop, edits, needs, breaks, demo): return dict(id=id, property=prop, pkg="xmltree", edits=edits, needs=needs, breaks=breaks, demo=T(demo))
BUGS = [
bug("C01-cleared-default", "C01", [(X, "		if scope.ns[i].Local == prefix {\n			return xml.Name{Space: scope.ns[i].Space", "		if scope.ns[i].Local == prefix && scope.ns[i].Space != \"\" {\n			return xml.Name{Space: scope.ns[i].Space")],
 "an inner element that clears the default namespace with xmlns=\"\"", "an unprefixed name in the scope of xmlns=\"\" resolves to the outer default namespace",
 '''	el := must(t, `<a xmlns="urn:1"><b xmlns=""/></a>`)
	if n := el.Children[0].Resolve("x"); n.Space != "" {
		t.Fatalf("got %v", n)
	}'''),
bug("C01-outermost", "C01", [(X, "	for i := len(scope.ns) - 1; i >= 0; i-- {\n		if scope.ns[i].Local == prefix {", "	for i := range scope.ns {\n		if scope.ns[i].Local == prefix {")],
 "a prefix declared again, with another namespace, by an inner element", "the outermost declaration of a prefix wins over the innermost",
 '''	el := must(t, `<a xmlns:p="urn:1"><b xmlns:p="urn:2"/></a>`)
	if n := el.Children[0].Resolve("p:x"); n.Space != "urn:2" {
		t.Fatalf("got %v", n)
	}'''),
bug("C01-resolvedefault", "C01", [(X, 'if defaultns == "" || strings.Contains(qname, ":") {', 'if _, ok := scope.ResolveNS(qname); defaultns == "" || ok {')],
 "an unprefixed name in a scope that has a default namespace, with another default asked for", "the declared default namespace overrides the one the caller asked for",
 '''	el := must(t, `<a xmlns="urn:1"/>`)
	if n := el.ResolveDefault("x", "urn:2"); n.Space != "urn:2" {
		t.Fatalf("got %v", n)
	}'''),
bug("C01-last-colon", "C01", [(X, '''	parts := strings.SplitN(qname, ":", 2)
	if len(parts) == 2 {
		prefix, local = parts[0], parts[1]
	} else {
		prefix, local = "", parts[0]
	}''', '''	if i := strings.LastIndex(qname, ":"); i >= 0 {
		prefix, local = qname[:i], qname[i+1:]
	} else {
		local = qname
	}''')],
 "a name whose local part contains a colon", "the prefix is taken up to the last colon and is not found",
 '''	el := must(t, `<a xmlns:p="urn:1"/>`)
	if n, ok := el.ResolveNS("p:x:y"); !ok || n.Space != "urn:1" || n.Local != "x:y" {
		t.Fatalf("got %v %v", n, ok)
	}'''),
bug("C02-first-declared", "C02", [(X, "			} else if len(qname) == 0 {\n", "			} else if len(qname) == 0 || len(scope.ns[i].Local) < len(qname)-len(name.Local)-len(name.Space) {\n")],
 "-", "-", '''	t.Fatal("not a bug")'''),
bug("C02-default-hidden", "C02", [(X, "	if len(qname) == 0 {\n		return name.Local\n	}\n	return qname", "	if len(qname) == 0 {\n		for _, ns := range scope.ns {\n			if ns.Space == name.Space {\n				return ns.Local + \":\" + name.Local\n			}\n		}\n		return name.Local\n	}\n	return qname")],
 "a namespace whose only prefix is declared again by an inner element", "the qualified name uses a prefix that means another namespace",
 '''	el := must(t, `<a xmlns:p="urn:1"><b xmlns:p="urn:2"/></a>`).Children[0]
	name := xml.Name{Space: "urn:1", Local: "x"}
	if n := el.Resolve(el.Prefix(name)); n.Space == "urn:2" {
		t.Fatalf("%q resolves to %v", el.Prefix(name), n)
	}'''),
bug("C02-xmlns-uri", "C02", [(X, '''	case xmlNamespaceURI:
		return "xmlns:" + name.Local
	}
''', '''	}
''')],
 "a name in the namespace of namespace declarations", "the reserved xmlns namespace is looked up among the declarations and its prefix is lost",
 '''	el := must(t, `<a/>`)
	name := xml.Name{Space: "http://www.w3.org/2000/xmlns/", Local: "x"}
	if n := el.Resolve(el.Prefix(name)); n != name {
		t.Fatalf("%q resolves to %v", el.Prefix(name), n)
	}'''),
bug("C03-spare-capacity", "C03", [(X, "		scope.ns = scope.ns[:len(scope.ns):len(scope.ns)]\n", "")],
 "an element with three or more declarations whose children declare namespaces as well, read after parsing", "siblings share the spare capacity of their parent's scope, and the last to be parsed overwrites the others'",
 '''	el := must(t, `<r xmlns:a="urn:a"><m xmlns:b="urn:b"><n xmlns:c="urn:c"><x xmlns:d="urn:1"/><y xmlns:d="urn:2"/></n></m></r>`)
	n := el.Children[0].Children[0]
	if u := n.Children[0].Resolve("d:z").Space; u != "urn:1" {
		t.Fatalf("got %s", u)
	}'''),
bug("C03-sort-scope", "C03", [(X, "	sort.Sort(byXMLName(ns))\n	if len(ns) > 0 {\n		scope.ns = append(scope.ns, ns...)\n", "	if len(ns) > 0 {\n		scope.ns = append(scope.ns, ns...)\n		sort.Sort(byXMLName(scope.ns))\n")],
 "a prefix declared again by an inner element, the new namespace sorting before the old", "declarations of an element are sorted together with the inherited ones, so that an outer one can override an inner one",
 '''	el := must(t, `<r xmlns:p="urn:z"><m xmlns:p="urn:a"/></r>`)
	if u := el.Children[0].Resolve("p:z").Space; u != "urn:a" {
		t.Fatalf("got %s", u)
	}'''),
bug("C03-attr-local", "C03", [(X, 'attr.Name.Local == "xmlns" {\n			ns = append', 'attr.Name.Local == "xmlns" && attr.Value != "" {\n			ns = append')],
 "an element that clears the default namespace", "xmlns=\"\" is not a declaration any more: it stays among the attributes and the outer default namespace stays in force",
 '''	el := must(t, `<r xmlns="urn:z"><m xmlns=""/></r>`).Children[0]
	if u := el.Resolve("q").Space; u != "" || len(el.StartElement.Attr) != 0 {
		t.Fatalf("got %s %v", u, el.StartElement.Attr)
	}'''),
bug("C04-no-nested", "C04", [(X, "			results = append(results, el)\n		}\n		el.walk(search)", "			results = append(results, el)\n			return\n		}\n		el.walk(search)")],
 "a matching element inside a matching element", "matches below a match are not found",
 '''	el := must(t, `<r><a><a/></a></r>`)
	if n := len(el.Search("", "a")); n != 2 {
		t.Fatalf("found %d", n)
	}'''),
bug("C04-copies", "C04", [(X, "	for i := 0; i < len(el.Children); i++ {\n		fn(&el.Children[i])\n	}", "	for _, child := range el.Children {\n		child := child\n		fn(&child)\n	}")],
 "changing an element through a search result, and looking at the tree", "search results are copies of the elements, not the elements of the tree",
 '''	el := must(t, `<r><a/></r>`)
	if el.Search("", "a")[0] != &el.Children[0] {
		t.Fatal("not the element of the tree")
	}'''),
bug("C04-post-order", "C04", [(X, "		if fn(el) {\n			results = append(results, el)\n		}\n		el.walk(search)", "		matched := fn(el)\n		n := len(results)\n		el.walk(search)\n		if matched {\n			results = append(results, nil)\n			copy(results[n+1:], results[n:])\n			results[len(results)-1] = el\n			if n == len(results)-1 {\n				results[n] = el\n			} else {\n				results[n], results[len(results)-1] = el, results[len(results)-1]\n			}\n		}")],
 "a match with two matches below it", "the order of the results is not document order and one is lost",
 '''	el := must(t, `<r><a><a/><a/></a></r>`)
	got := el.Search("", "a")
	a := &el.Children[0]
	if len(got) != 3 || got[0] != a || got[1] != &a.Children[0] || got[2] != &a.Children[1] {
		t.Fatal(got)
	}'''),
bug("C04-space", "C04", [(X, 'return space == "" || space == el.Name.Space\n', 'return strings.HasPrefix(el.Name.Space, space)\n')],
 "two namespaces one of which is a prefix of the other", "elements of another namespace are found",
 '''	el := must(t, `<r xmlns:p="urn:1" xmlns:q="urn:10"><q:a/><p:a/></r>`)
	if got := el.Search("urn:1", "a"); len(got) != 1 {
		t.Fatal(len(got))
	}'''),
bug("C05-set-unqualified", "C05", [(X, 'if space == "" || a.Name.Space == space {', 'if space == "" || a.Name.Space == "" || a.Name.Space == space {')],
 "setting an attribute in a namespace on an element which has one of the same local name in none", "the wrong attribute is overwritten",
 '''	el := must(t, `<r a="1"/>`)
	el.SetAttr("urn:1", "a", "2")
	if el.StartElement.Attr[0].Value != "1" || el.Attr("urn:1", "a") != "2" {
		t.Fatal(el.StartElement.Attr)
	}'''),
bug("C05-last", "C05", [(X, '''		if space == "" || space == v.Name.Space {
			return v.Value
		}
	}
	return ""''', '''		if space == "" || space == v.Name.Space {
			value = v.Value
		}
	}
	return value'''), (X, "	for _, v := range el.StartElement.Attr {\n		if v.Name.Local != local {", "	var value string\n	for _, v := range el.StartElement.Attr {\n		if v.Name.Local != local {")],
 "two attributes with the same local name in different namespaces", "the last of several matching attributes is returned, not the first, so that setting and looking up no longer agree",
 '''	el := must(t, `<r xmlns:p="urn:1" a="1" p:a="2"/>`)
	el.SetAttr("", "a", "3")
	if el.Attr("", "a") != "3" {
		t.Fatal(el.StartElement.Attr)
	}'''),
bug("C05-space-lost", "C05", [(X, '		Name:  xml.Name{space, local},', '		Name:  el.Resolve(local),')],
 "setting an attribute that is not there, in a namespace", "the new attribute gets the default namespace and is not found again",
 '''	el := must(t, `<r xmlns="urn:9"/>`)
	el.SetAttr("urn:1", "a", "3")
	if el.Attr("urn:1", "a") != "3" {
		t.Fatal(el.StartElement.Attr)
	}'''),
bug("C06-child", "C06", [(M, '''		visited[el] = struct{}{}
		if err := e.encode(&el.Children[i], el, visited); err != nil {
			return err
		}
		delete(visited, el)
	}
	if err := e''', '''		visited[el] = struct{}{}
		err = e.encode(&el.Children[i], el, visited)
		delete(visited, el)
	}
	if err != nil {
		return err
	}
	if err := e'''), (M, "	for i := range el.Children {\n		visited", "	var err error\n	for i := range el.Children {\n		visited")],
 "a writer that fails while a child other than the last is written, and recovers", "only the last child's error is returned",
 '''	el := must(t, `<r><a>x</a><b>y</b></r>`)
	w := &failAt{n: 3}
	err := Encode(w, el)
	for w.n = 0; w.n < 100; w.n++ {
		w.calls, w.failed = 0, false
		err = Encode(w, el)
		if w.failed && err == nil {
			t.Fatalf("write %d failed, but Encode returned nil", w.n)
		}
	}
}

type failAt struct {
	n, calls int
	failed   bool
}

func (w *failAt) Write(p []byte) (int, error) {
	w.calls++
	if w.calls == w.n {
		w.failed = true
		return 0, errors.New("once")
	}
	return len(p), nil'''),
bug("C06-close", "C06", [(M, '''	if err := e.encodeCloseTag(el, len(visited)); err != nil {
		return err
	}
	return nil''', '''	if len(el.Children) > 0 {
		return e.encodeCloseTag(el, len(visited))
	}
	e.encodeCloseTag(el, len(visited))
	return nil''')],
 "a writer that fails at a leaf's closing tag", "the error of writing the closing tag of an element without children is lost",
 '''	el := must(t, `<r>text</r>`)
	n := 0
	for i := 0; i < 50; i++ {
		w := &failFrom{n: i}
		if err := Encode(w, el); err == nil && w.failed {
			t.Fatalf("byte %d", i)
		}
		n++
	}
}

type failFrom struct {
	n      int
	failed bool
}

func (w *failFrom) Write(p []byte) (int, error) {
	if w.n -= len(p); w.n < 0 {
		w.failed = true
		return 0, errors.New("full")
	}
	return len(p), nil'''),
bug("C07-diff-prefix", "C07", [(M, "		if childScope.ns[0] == parentScope.ns[0] {", "		if childScope.ns[0].Space == parentScope.ns[0].Space {")],
 "a subtree moved below a parent which declares the same namespace with another prefix", "a prefix in use is not declared",
 '''	a := must(t, `<r xmlns:p="urn:1"><p:x/></r>`)
	b := must(t, `<r xmlns:q="urn:1"><q:y/></r>`)
	a.Children = append(a.Children, b.Children[0])
	if _, err := Parse(Marshal(a)); err != nil {
		t.Fatal(err)
	}
	got := must(t, string(Marshal(a)))
	if got.Children[1].Name.Space != "urn:1" {
		t.Fatal(got.Children[1].Name)
	}'''),
bug("C07-empty-content", "C07", [(M, '''	if len(el.Children) == 0 {
		if len(el.Content) > 0 {''', '''	if len(el.Children) == 0 {
		if len(bytes.TrimSpace(el.Content)) > 0 {''')],
 "an element that contains only white space", "the opening tag of an element with only white space is never closed",
 '''	el := must(t, `<r><a> </a><b/></r>`)
	if _, err := Parse(Marshal(el)); err != nil {
		t.Fatal(err)
	}'''),
bug("C07-end-scope", "C07", [(M, "	if err := tagTmpl.ExecuteTemplate(e.w, \"end\", el); err != nil {", "	if err := tagTmpl.ExecuteTemplate(e.w, \"end\", struct {\n		Scope\n		Name xml.Name\n	}{Scope{el.ns[:len(el.ns)/2]}, el.Name}); err != nil {")],
 "-", "the closing tag may use another prefix than the opening tag",
 '''	el := must(t, `<r xmlns:p="urn:1" xmlns="urn:1"><a>x</a></r>`)
	if _, err := Parse(Marshal(el)); err != nil {
		t.Fatal(err)
	}
	el = must(t, `<p:r xmlns:p="urn:1"><p:a xmlns="urn:1">x</p:a></p:r>`)
	if _, err := Parse(Marshal(el)); err != nil {
		t.Fatal(err)
	}
	el = must(t, `<p:r xmlns:p="urn:1"><p:a xmlns:b="urn:2"><b:x>s</b:x></p:a></p:r>`)
	if _, err := Parse(Marshal(el)); err != nil {
		t.Fatal(err)
	}'''),
bug("C08-less-children", "C08", [(C, "	if len(a.Children) != len(b.Children) {", "	if len(a.Children) > len(b.Children) {")],
 "a second tree with more children than the first", "a tree equals any tree that extends it, but not the other way round",
 '''	a, b := must(t, `<r><a/></r>`), must(t, `<r><a/><b/></r>`)
	if Equal(a, b) || Equal(b, a) {
		t.Fatal("equal")
	}'''),
bug("C08-text-prefix", "C08", [(C, "		return bytes.Equal(bytes.TrimSpace(a.Content), bytes.TrimSpace(b.Content))", "		return bytes.EqualFold(bytes.TrimSpace(a.Content), bytes.TrimSpace(b.Content))")],
 "text that differs in case", "text is compared without regard to case",
 '''	a, b := must(t, `<r>Abc</r>`), must(t, `<r>aBc</r>`)
	if Equal(a, b) {
		t.Fatal("equal")
	}'''),
bug("C08-deep", "C08", [(C, "	if depth > recursionLimit {\n		return false", "	if depth > recursionLimit/100 {\n		return a.Name == b.Name")],
 "a difference more than 30 levels down", "differences deep in the tree are not seen",
 '''	f := func(s string) *Element {
		return must(t, strings.Repeat("<a>", 60)+s+strings.Repeat("</a>", 60))
	}
	if Equal(f("x"), f("y")) {
		t.Fatal("equal")
	}'''),
bug("C09-end-offset", "C09", [(X, "		end = scanner.InputOffset()\n", "		if _, ok := scanner.tok.(xml.Comment); !ok {\n			end = scanner.InputOffset()\n		}\n")],
 "an element whose last child node is a comment", "a comment before the closing tag is cut off the content",
 '''	el := must(t, `<r>x<!-- c --></r>`)
	if string(el.Content) != "x<!-- c -->" {
		t.Fatalf("%q", el.Content)
	}'''),
bug("C09-depth", "C09", [(X, "child.parse(scanner, data, depth+1)", "child.parse(scanner, data, len(el.Children))")],
 "a document nested deeper than the limit", "the depth limit counts siblings, not depth: deep documents are accepted, and wide ones rejected",
 '''	if _, err := Parse([]byte(strings.Repeat("<a>", 4000) + strings.Repeat("</a>", 4000))); err == nil {
		t.Fatal("no error")
	}'''),
bug("C09-eof", "C09", [(X, "	s.tok, s.err = s.Token()\n	return s.err == nil", "	s.tok, s.err = s.Token()\n	if s.err == io.EOF {\n		s.err = nil\n		return false\n	}\n	return s.err == nil")],
 "input that ends before any element starts", "an empty document parses to a nameless element, with no error",
 '''	if el, err := Parse([]byte("<!-- nothing -->")); err == nil {
		t.Fatal(el)
	}'''),
bug("C09-strict", "C09", [(X, "			if tok.Name != el.Name {\n", "			if tok.Name.Local != el.Name.Local {\n"), (X, "	scanner := scanner{Decoder: d}\n", "	scanner := scanner{Decoder: d}\n	d.Strict = false\n")],
 "an element closed by the tag of another element", "badly nested documents are accepted",
 '''	if el, err := Parse([]byte("<r><a>x</r>")); err == nil {
		t.Fatal(el)
	}'''),
bug("C09-charset", "C09", [(X, "		padding := make([]byte, int(d.InputOffset()))", "		padding := []byte(xml.Header)")],
 "a document in another charset whose declaration is not the usual one", "content slices of documents with a declared charset are displaced",
 '''	el := must(t, "<?xml version='1.0'  encoding='iso-8859-1' ?><r>caf\\xe9</r>")
	if string(el.Content) != "café" {
		t.Fatalf("%q", el.Content)
	}'''),
]
BUGS += [
bug("C04-fold", "C04", [(X, "		if local != el.Name.Local {\n			return false\n		}\n		return space", "		if !strings.EqualFold(local, el.Name.Local) {\n			return false\n		}\n		return space")],
 "two element names that differ only in case", "elements with another name are found",
 '''	el := must(t, `<r><a/><A/></r>`)
	if got := el.Search("", "a"); len(got) != 1 {
		t.Fatal(len(got))
	}'''),
bug("C04-children-first", "C04", [(X, "		if fn(el) {\n			results = append(results, el)\n		}\n		el.walk(search)", "		el.walk(search)\n		if fn(el) {\n			results = append(results, el)\n		}")],
 "a matching element inside a matching element", "results are in post-order, not document order",
 '''	el := must(t, `<r><a><a/></a></r>`)
	if got := el.Search("", "a"); got[0] != &el.Children[0] {
		t.Fatal("order")
	}'''),
bug("C04-same-content", "C04", [(X, "		if fn(el) {\n			results = append(results, el)\n		}", "		if fn(el) && (len(results) == 0 || el.Name != results[len(results)-1].Name || len(el.Content) == 0 || &el.Content[0] != &results[len(results)-1].Content[0]) {\n			results = append(results, el)\n		}")],
 "two consecutive matches of the same name whose content starts at the same byte", "a match whose text is shared with the match before is taken for a duplicate and left out",
 '''	el := must(t, `<r><a>x</a></r>`)
	el.Children = append(el.Children, el.Children[0])
	if got := el.Search("", "a"); len(got) != 2 {
		t.Fatal(len(got))
	}'''),
bug("C03-reverse", "C03", [(X, "		scope.ns = append(scope.ns, ns...)\n", "		scope.ns = append(ns, scope.ns...)\n")],
 "a prefix declared again by an inner element", "an outer declaration overrides an inner one",
 '''	el := must(t, `<r xmlns:p="urn:z"><m xmlns:p="urn:a"/></r>`)
	if u := el.Children[0].Resolve("p:z").Space; u != "urn:a" {
		t.Fatalf("got %s", u)
	}'''),
bug("C03-share", "C03", [(X, "child := Element{StartElement: tok.Copy(), Scope: el.Scope}", "child := Element{StartElement: tok.Copy(), Scope: el.Scope}\n			if n := len(el.Children); n > 0 && len(tok.Attr) == 0 {\n				child.Scope = el.Children[n-1].Scope\n			}")],
 "an element without attributes after a sibling that declares a namespace", "a sibling's declarations leak into the next sibling's scope",
 '''	el := must(t, `<r><a xmlns:p="urn:a"/><b/></r>`)
	if _, ok := el.Children[1].ResolveNS("p:z"); ok {
		t.Fatal("leaks")
	}'''),
bug("C05-swap", "C05", [(X, "			el.StartElement.Attr[i].Value = value\n			return\n", "			el.StartElement.Attr[i].Value = value\n			if space != \"\" {\n				return\n			}\n")],
 "setting an existing attribute by local name alone", "the attribute is set and another one added",
 '''	el := must(t, `<r a="1"/>`)
	el.SetAttr("", "a", "2")
	if len(el.StartElement.Attr) != 1 {
		t.Fatal(el.StartElement.Attr)
	}'''),
]
BUGS = [b for b in BUGS if b["needs"] != "-" or b["id"] == "C07-end-scope"]
for b in BUGS:
    if b["needs"] == "-": b["needs"] = "an element whose prefix is declared in one part of its scope only"
