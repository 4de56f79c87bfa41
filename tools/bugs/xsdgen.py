H = '''package xsdgen

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"aqwari.net/xml/xsd"
)

var _ = xsd.Imports

const XS = "http://www.w3.org/2001/XMLSchema"

func write(t *testing.T, files map[string]string) func(string) string {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	for n, s := range files {
		if err := ioutil.WriteFile(filepath.Join(dir, n), []byte(s), 0666); err != nil {
			t.Fatal(err)
		}
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	return func(n string) string { return filepath.Join(dir, n) }
}
'''
def T(body): return H + "\nfunc TestDemo(t *testing.T) {\n" + body + "\n}\n"
PA, CLI, CFG, G = "xsd/parse.go", "xsdgen/cli.go", "xsdgen/config.go", "xsdgen/xsdgen.go"
def bug(id, prop, edits, needs, breaks, demo): return dict(id=id, property=prop, pkg="xsdgen", edits=edits, needs=needs, breaks=breaks, demo=T(demo))
BUGS = [
bug("C18-include-ns", "C18", [(PA, '''		for _, v := range tree.Search(schemaNS, "include") {
			s := Ref{ns, v.Attr("", "schemaLocation")}
''', '''		for _, v := range root.Search(schemaNS, "include") {
			s := Ref{ns, v.Attr("", "schemaLocation")}
''')],
 "a document with two schemas, one of which includes another", "the include is listed for both",
 '''	l, err := xsd.Imports([]byte(`<a xmlns:x="` + XS + `"><x:schema targetNamespace="urn:a"><x:include schemaLocation="i"/></x:schema><x:schema targetNamespace="urn:b"/></a>`))
	if err != nil || len(l) != 1 || l[0].Namespace != "urn:a" {
		t.Fatal(l, err)
	}'''),
bug("C18-skip-anonymous", "C18", [(PA, '''		s := Ref{v.Attr("", "namespace"), v.Attr("", "schemaLocation")}
		result = append(result, s)
''', '''		s := Ref{v.Attr("", "namespace"), v.Attr("", "schemaLocation")}
		if n := len(result); n > 0 && result[n-1].Namespace == s.Namespace {
			continue
		}
		result = append(result, s)
''')],
 "two imports in a row of one namespace, from different files", "the second is not listed",
 '''	l, err := xsd.Imports([]byte(`<x:schema xmlns:x="` + XS + `"><x:import namespace="urn:a" schemaLocation="i"/><x:import namespace="urn:a" schemaLocation="j"/></x:schema>`))
	if err != nil || len(l) != 2 {
		t.Fatal(l, err)
	}'''),
bug("C18-order", "C18", [(CLI, '''			for _, d := range referencedData {
				// prepend imported refs (i.e. append before the referencing file)
				data = append(data, d)
			}
		}
		data = append(data, b)
''', '''			data = append(data, b)
			for _, d := range referencedData {
				data = append(data, d)
			}
			continue
		}
		data = append(data, b)
''')],
 "a file that imports another, with imports followed", "a file comes before those that it imports",
 '''	f := write(t, map[string]string{"b.xsd": `<x:schema xmlns:x="` + XS + `" targetNamespace="urn:b"/>`})
	f2 := write(t, map[string]string{"a.xsd": `<x:schema xmlns:x="` + XS + `"><x:import schemaLocation="` + f("b.xsd") + `"/></x:schema>`})
	cfg := new(Config)
	cfg.Option(FollowImports(true))
	l, err := cfg.readFiles(f2("a.xsd"))
	if err != nil || len(l) != 2 || len(l[0]) > len(l[1]) {
		t.Fatal(l, err)
	}'''),
bug("C18-error", "C18", [(CLI, '''			if err != nil {
				return nil, fmt.Errorf("error reading imported files: %v", err)
			}
''', '''			if err != nil && len(importedFiles) == 1 {
				return nil, fmt.Errorf("error reading imported files: %v", err)
			}
''')],
 "a file that imports two others, one of which is missing", "the missing file goes unnoticed, and the other is lost",
 '''	f := write(t, map[string]string{"b.xsd": `<x:schema xmlns:x="` + XS + `" targetNamespace="urn:b"/>`})
	f2 := write(t, map[string]string{"a.xsd": `<x:schema xmlns:x="` + XS + `"><x:import schemaLocation="` + f("b.xsd") + `"/><x:import schemaLocation="` + f("c.xsd") + `"/></x:schema>`})
	cfg := new(Config)
	cfg.Option(FollowImports(true))
	if _, err := cfg.readFiles(f2("a.xsd")); err == nil {
		t.Fatal("no error")
	}'''),
]
GX = "xsdgen/xsdgen.go"
def schema(body): return '`<xs:schema xmlns:xs="` + XS + `" xmlns:t="urn:a" targetNamespace="urn:a">' + body + '</xs:schema>`'
def gen20(body, typ, check, opts=""): return '''	var cfg Config
	cfg.Option(%s)
	code, err := cfg.GenCode([]byte(%s))
	if err != nil {
		t.Fatal(err)
	}
	var tags, names []string
	for _, f := range code.decls["%s"].expr.(*ast.StructType).Fields.List {
		tags, names = append(tags, strings.Trim(f.Tag.Value, "`")), append(names, f.Names[0].Name)
	}
	all := " " + strings.Join(names, " ") + " | " + strings.Join(tags, " | ") + " |"
	_ = all
	%s''' % (opts, schema(body), typ, check)
def bug20(id, edits, needs, breaks, body, typ, want, opts=""):
    b = bug(id, "C20", edits, needs, breaks, gen20(body, typ, '''if !strings.Contains(all, `%s`) {
		t.Fatal(all)
	}''' % want, opts))
    b["demo"] = b["demo"].replace('import (\n', 'import (\n\t"go/ast"\n\t"strings"\n')
    return b
BUGS += [
bug20("C20-omit-left", [(GX, '''	for _, el := range elements {
		options := ""
		if el.Nillable || el.Optional {
''', '''	options := ""
	for _, el := range elements {
		if el.Nillable || el.Optional {
''')],
 "a required element after an optional one", "it is left out when it is empty",
 '<xs:complexType name="T"><xs:sequence><xs:element name="a" type="xs:int" minOccurs="0"/><xs:element name="b" type="xs:int"/></xs:sequence></xs:complexType>', "T", '| xml:"urn:a b" |'),
bug20("C20-qualified", [(GX, '''		qualified := false
		for _, attrAttr''', '''		for _, attrAttr'''), (GX, '''	for _, attr := range attributes {
		options := ""
''', '''	qualified := false
	for _, attr := range attributes {
		options := ""
''')],
 "an attribute without a form after one that is qualified", "the tag asks for a namespace that the attribute does not have",
 '<xs:complexType name="T"><xs:attribute name="a" type="xs:int" form="qualified" use="required"/><xs:attribute name="b" type="xs:int" use="required"/></xs:complexType>', "T", '| xml:"b,attr" |'),
bug20("C20-shadow", [(GX, '''		for _, attr := range c.Attributes {
			shadowedAttributes[attr.Name] = struct{}{}
		}
''', '''		for _, attr := range c.Attributes {
			shadowedAttributes[attr.Name] = struct{}{}
			shadowedElements[attr.Name] = struct{}{}
		}
''')],
 "a type with an attribute of the name that an element of its base type has", "the inherited element is lost",
 '<xs:complexType name="B"><xs:sequence><xs:element name="a" type="xs:int"/></xs:sequence></xs:complexType><xs:complexType name="T"><xs:complexContent><xs:extension base="t:B"><xs:attribute name="a" type="xs:int"/></xs:extension></xs:complexContent></xs:complexType>', "T", '| xml:"urn:a a" |'),
bug20("C20-attr-name", [(GX, '''	return gen.unique(name + "Attr")
''', '''	gen.taken[name+"Attr"] = struct{}{}
	return ast.NewIdent(name + "Attr")
''')],
 "an element a, an element aAttr and an attribute a in one type", "two fields have the name AAttr",
 '<xs:complexType name="T"><xs:sequence><xs:element name="a" type="xs:int"/><xs:element name="aAttr" type="xs:int"/></xs:sequence><xs:attribute name="a" type="xs:int"/></xs:complexType>', "T", ' A AAttr AAttr0 |'),
bug20("C20-third", [(GX, '''				gen.taken[unique] = struct{}{}
				return ast.NewIdent(unique)
''', '''				return ast.NewIdent(unique)
''')],
 "three members with one Go name", "two of the fields have the same name",
 '<xs:complexType name="T"><xs:sequence><xs:element name="x1" type="xs:int"/><xs:element name="x2" type="xs:int"/><xs:element name="x3" type="xs:int"/></xs:sequence></xs:complexType>', "T", ' X X0 X1 |', opts='Replace("[0-9]+$", "")'),
]
