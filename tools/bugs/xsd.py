H = '''package xsd

import (
	"encoding/xml"
	"fmt"
	"strings"
	"testing"
)

var _ = fmt.Sprint
var _ = strings.Repeat
var _ xml.Name

const XS = "http://www.w3.org/2001/XMLSchema"

func schema(body string) []byte {
	return []byte(`<xs:schema xmlns:xs="` + XS + `" xmlns:t="urn:t" targetNamespace="urn:t">` + body + `</xs:schema>`)
}

func types(t *testing.T, docs ...[]byte) func(ns, name string) Type {
	l, err := Parse(docs...)
	if err != nil {
		t.Fatal(err)
	}
	return func(ns, name string) Type {
		for _, s := range l {
			if s.TargetNS == ns {
				if typ := s.Types[xml.Name{Space: ns, Local: name}]; typ != nil {
					return typ
				}
			}
		}
		t.Fatalf("no type %s in %s", name, ns)
		return nil
	}
}
'''
def T(body): return H + "\nfunc TestDemo(t *testing.T) {\n" + body + "\n}\n"
P, B, XS = "xsd/parse.go", "xsd/builtin.go", "xsd/xsd.go"
def bug(id, prop, edits, needs, breaks, demo): return dict(id=id, property=prop, pkg="xsd", edits=edits, needs=needs, breaks=breaks, demo=T(demo))
BUGS = [
bug("C11-last-builtin", "C11", [(B, "for i := AnyType; i <= AnySimpleType; i++ {", "for i := AnyType; i < AnySimpleType; i++ {")],
 "a reference to xs:anySimpleType", "the last of the built-in names is not found",
 '''	if b, err := ParseBuiltin(xml.Name{Space: XS, Local: "anySimpleType"}); err != nil || b != AnySimpleType {
		t.Fatal(b, err)
	}'''),
bug("C11-fold", "C11", [(B, "		if i.Name() == qname {", "		if n := i.Name(); n.Space == qname.Space && strings.EqualFold(n.Local, qname.Local) {"), (B, '	"fmt"\n', '	"fmt"\n	"strings"\n')],
 "a name that differs from a built-in's in case only", "names that are no built-in's are taken for one",
 '''	if b, err := ParseBuiltin(xml.Name{Space: XS, Local: "name"}); err == nil {
		t.Fatal(b)
	}'''),
bug("C11-xml-space", "C11", [(B, "	case XMLLang, XMLSpace, XMLBase, XMLId:", "	case XMLLang, XMLSpace, XMLBase:")],
 "the name of the xml:id built-in", "its name is in the schema namespace",
 '''	if n := XMLId.Name(); n.Space == XS {
		t.Fatal(n)
	}'''),
bug("C12-own-first", "C12", [(P, '''	if v, ok := ext[xml.Name(name)]; ok {
		return v, true
	}
	v, ok := s.Types[xml.Name(name)]
	return v, ok''', '''	if v, ok := ext[xml.Name(name)]; ok {
		return v, true
	}
	name.Space = s.TargetNS
	v, ok := s.Types[xml.Name(name)]
	return v, ok''')],
 "a reference to a type that does not exist in another namespace, whose local name the own namespace has", "a dangling reference is resolved to a type of another name",
 '''	_, err := Parse(schema(`<xs:simpleType name="a"><xs:restriction base="xs:int"/></xs:simpleType>
	<xs:simpleType name="b"><xs:restriction xmlns:u="urn:u" base="u:a"/></xs:simpleType>`))
	if err == nil {
		t.Fatal("no error")
	}'''),
bug("C12-union-members", "C12", [(P, "				t.Union[i] = base", "				t.Union[0] = base")],
 "a union whose second or later member is a type of the schema", "members stay unresolved or are overwritten",
 '''	get := types(t, schema(`<xs:simpleType name="a"><xs:restriction base="xs:int"/></xs:simpleType>
	<xs:simpleType name="u"><xs:union memberTypes="xs:string t:a"/></xs:simpleType>`))
	u := get("urn:t", "u").(*SimpleType)
	if u.Union[0] != String || u.Union[1] != get("urn:t", "a") {
		t.Fatal(u.Union)
	}'''),
bug("C12-attr-elem-name", "C12", [(P, "				base, ok := s.lookupType(ref, types)\n				if !ok {\n					return fmt.Errorf(\"complexType %s: could not find type %s in namespace %s for attribute %s\",", "				base, ok := types[xml.Name(ref)]\n				if !ok {\n					base, ok = AnySimpleType, true\n				}\n				if !ok {\n					return fmt.Errorf(\"complexType %s: could not find type %s in namespace %s for attribute %s\",")],
 "an attribute whose type is declared nowhere", "the missing type goes unreported",
 '''	_, err := Parse(schema(`<xs:complexType name="c"><xs:attribute name="x" type="t:nope"/></xs:complexType>`))
	if err == nil {
		t.Fatal("no error")
	}'''),
bug("C12-self-types", "C12", [(P, "	s.Types[xml.Name{tns, \"_self\"}] = s.parseSelfType(root)\n", "	if len(s.Types) > 0 {\n		s.Types[xml.Name{tns, \"_self\"}] = s.parseSelfType(root)\n	}\n")],
 "a schema that declares elements and no types", "the elements' pseudo-type is missing",
 '''	types(t, schema(`<xs:element name="e" type="xs:int"/>`))("urn:t", "_self")'''),
bug("C13-join-optional", "C13", [(P, "	a.Optional = a.Optional || b.Optional\n", "	a.Optional = a.Optional && b.Optional\n")],
 "an element declared twice in a type, optional in one place", "the element is required",
 '''	get := types(t, schema(`<xs:complexType name="c"><xs:sequence><xs:element name="e" type="xs:int" minOccurs="0"/><xs:element name="f" type="xs:int"/><xs:element name="e" type="xs:int"/></xs:sequence></xs:complexType>`))
	c := get("urn:t", "c").(*ComplexType)
	for _, e := range c.Elements {
		if e.Name.Local == "e" && !e.Optional {
			t.Fatal("not optional")
		}
	}'''),
bug("C13-min-plural", "C13", [(P, "	if min := parseInt(el.Attr(\"\", \"minOccurs\")); min > 1 {\n		return true\n	} else if max := parseInt", "	if min := parseInt(el.Attr(\"\", \"minOccurs\")); min > 2 {\n		return true\n	} else if max := parseInt")],
 "minOccurs of 2 with no maxOccurs above one", "the element is not plural",
 '''	get := types(t, schema(`<xs:complexType name="c"><xs:sequence><xs:element name="e" type="xs:int" minOccurs="2"/></xs:sequence></xs:complexType>`))
	if c := get("urn:t", "c").(*ComplexType); !c.Elements[0].Plural {
		t.Fatal("not plural")
	}'''),
bug("C13-use-optional", "C13", [(P, '	a.Optional = el.Attr("", "use") != "required"', '	a.Optional = el.Attr("", "use") == "optional"')],
 "an attribute without a use", "attributes are required by default",
 '''	get := types(t, schema(`<xs:complexType name="c"><xs:attribute name="x" type="xs:int"/></xs:complexType>`))
	if c := get("urn:t", "c").(*ComplexType); !c.Attributes[0].Optional {
		t.Fatal("not optional")
	}'''),
bug("C13-choice-any", "C13", [(P, '		Plural:   parsePlural(el),\n		Type:     base,', '		Plural:   parseInt(el.Attr("", "maxOccurs")) > 1,\n		Type:     base,')],
 "a wildcard with maxOccurs=\"unbounded\"", "the wildcard is not plural",
 '''	get := types(t, schema(`<xs:complexType name="c"><xs:sequence><xs:any maxOccurs="unbounded"/></xs:sequence></xs:complexType>`))
	if c := get("urn:t", "c").(*ComplexType); !c.Elements[0].Plural {
		t.Fatal("not plural")
	}'''),
bug("C14-enum-trim", "C14", [(P, '			r.Enum = append(r.Enum, el.Attr("", "value"))', '			if v := strings.TrimSpace(el.Attr("", "value")); v != "" {\n				r.Enum = append(r.Enum, v)\n			}')],
 "an enumeration value that is empty or has white space around it", "the value is changed or lost",
 '''	get := types(t, schema(`<xs:simpleType name="s"><xs:restriction base="xs:string"><xs:enumeration value=""/><xs:enumeration value=" a "/></xs:restriction></xs:simpleType>`))
	if e := get("urn:t", "s").(*SimpleType).Restriction.Enum; fmt.Sprintf("%q", e) != `["" " a "]` {
		t.Fatalf("%q", e)
	}'''),
bug("C14-length", "C14", [(P, '			r.MaxLength = parseInt(el.Attr("", "value"))\n', '			r.MaxLength = parseInt(el.Attr("", "value"))\n			r.Length = r.MaxLength\n')],
 "a length facet before a maxLength facet", "the exact length is the maximum",
 '''	get := types(t, schema(`<xs:simpleType name="s"><xs:restriction base="xs:string"><xs:maxLength value="9"/></xs:restriction></xs:simpleType>`))
	if r := get("urn:t", "s").(*SimpleType).Restriction; r.Length != 0 {
		t.Fatal(r.Length)
	}'''),
bug("C14-max-over-min", "C14", [(P, "		case \"maxExclusive\", \"maxInclusive\":\n			r.MaxDate, r.Max =", "		case \"maxExclusive\":\n			r.MaxDate, r.Max = parseMinMaxRestriction(el, base)\n		case \"maxInclusive\":\n			if r.Max != 0 {\n				break\n			}\n			r.MaxDate, r.Max =")],
 "a maxInclusive after another upper bound", "the first of two upper bounds counts",
 '''	get := types(t, schema(`<xs:simpleType name="s"><xs:restriction base="xs:int"><xs:maxExclusive value="9"/><xs:maxInclusive value="5"/></xs:restriction></xs:simpleType>`))
	if r := get("urn:t", "s").(*SimpleType).Restriction; r.Max != 5 {
		t.Fatal(r.Max)
	}'''),
bug("C14-pattern-join", "C14", [(P, '				pat = r.Pattern.String() + "|" + pat', '				pat = pat + "|" + r.Pattern.String()')],
 "a restriction with several patterns", "the alternatives are in another order",
 '''	get := types(t, schema(`<xs:simpleType name="s"><xs:restriction base="xs:string"><xs:pattern value="a"/><xs:pattern value="b"/></xs:restriction></xs:simpleType>`))
	if r := get("urn:t", "s").(*SimpleType).Restriction; r.Pattern.String() != "a|b" {
		t.Fatal(r.Pattern)
	}'''),

bug("C15-union-skip", "C15", [(P, '''			if !accum {
				break
			}
			i--
''', '''			if !accum {
				break
			}
''')],
 "a union with two members in a row declared in place", "the second one is lost",
 '''	get := types(t, schema(`<xs:simpleType name="u"><xs:union><xs:simpleType><xs:restriction base="xs:int"/></xs:simpleType><xs:simpleType><xs:restriction base="xs:date"/></xs:simpleType></xs:union></xs:simpleType>`))
	if u := get("urn:t", "u").(*SimpleType).Union; len(u) != 2 || Base(u[1]) != Date {
		t.Fatal(u)
	}'''),
bug("C15-union-named", "C15", [(P, '				qname = el.Attr("", updateAttr) + " " + qname\n', '				if len(hoisted) > 0 {\n					qname = el.Attr("", updateAttr) + " " + qname\n				}\n')],
 "a union with named members and one declared in place", "the named members are lost",
 '''	get := types(t, schema(`<xs:simpleType name="u"><xs:union memberTypes="xs:int xs:date"><xs:simpleType><xs:restriction base="xs:string"/></xs:simpleType></xs:union></xs:simpleType>`))
	if u := get("urn:t", "u").(*SimpleType).Union; len(u) != 3 {
		t.Fatal(u)
	}'''),
bug("C15-union-base", "C15", [(P, '''				t.Union = append(t.Union, type_)
				t.Base = AnySimpleType
''', '''				t.Union = append(t.Union, type_)
				if _, ok := type_.(Builtin); ok {
					t.Base = type_
				} else {
					t.Base = AnySimpleType
				}
''')],
 "a union of built-in types", "the union is taken to be derived from its last member",
 '''	get := types(t, schema(`<xs:simpleType name="u"><xs:union memberTypes="xs:int xs:date"/></xs:simpleType>`))
	if u := get("urn:t", "u").(*SimpleType); u.Base != AnySimpleType {
		t.Fatal(u.Base)
	}'''),
bug("C17-ref-attr-any-space", "C17", [(P, '		if (attr.Name != xml.Name{"", "ref"}) {\n', '		if (attr.Name != xml.Name{"", "ref"}) && el.Attr(attr.Name.Space, attr.Name.Local) == "" {\n')],
 "a reference with an attribute that the declaration has too", "what the reference states does not override the declaration",
 '''	get := types(t, schema(`<xs:attribute name="a" type="xs:int" default="1"/><xs:complexType name="c"><xs:attribute ref="t:a" default="2"/></xs:complexType>`))
	if a := get("urn:t", "c").(*ComplexType).Attributes; len(a) != 1 || a[0].Default != "2" {
		t.Fatal(a)
	}'''),
bug("C17-shared-attrs", "C17", [(P, "	el.StartElement.Attr = append([]xml.Attr{}, real.StartElement.Attr...)\n", "	el.StartElement.Attr = real.StartElement.Attr\n	if len(real.Children) == 0 && ref.Attr(\"\", \"default\") == \"\" {\n		el.StartElement.Attr = append([]xml.Attr{}, real.StartElement.Attr...)\n	}\n")],
 "two references to one declaration, the first with a default of its own", "what the first reference states is taken for the declaration's",
 '''	get := types(t, schema(`<xs:attribute name="a" type="xs:int" default="1"/><xs:complexType name="c"><xs:attribute ref="t:a" default="2"/></xs:complexType><xs:complexType name="d"><xs:attribute ref="t:a"/></xs:complexType>`))
	if a := get("urn:t", "d").(*ComplexType).Attributes; len(a) != 1 || a[0].Default != "1" {
		t.Fatal(a)
	}'''),
]
