package xsd

import (
	"encoding/xml"
	"fmt"
	"strings"
	"testing"
)

var vBuiltinNames = strings.Fields(`anyType ENTITIES ENTITY ID IDREF IDREFS NCName NMTOKEN NMTOKENS NOTATION Name QName anyURI base64Binary boolean byte date dateTime decimal double duration float gDay gMonth gMonthDay gYear gYearMonth hexBinary int integer language long negativeInteger nonNegativeInteger nonPositiveInteger normalizedString positiveInteger short string time token unsignedByte unsignedInt unsignedLong unsignedShort xMLLang xMLSpace xMLBase xMLId anySimpleType`)

func TestVerifC11(t *testing.T) {
	v := vStart(t, "C11", "names", "every built-in type: its name is the standard's, no two have the same, and looking the name up gives that type back; no other name does, whatever its case or namespace, and a schema that uses one means that type",
		"all 50 built-in types; random names")
	defer v.Done()
	const other = "http://www.w3.org/2009/01/xml.xsd"
	seen := map[xml.Name]Builtin{}
	special := map[Builtin]bool{XMLLang: true, XMLSpace: true, XMLBase: true, XMLId: true}
	for b := AnyType; b <= AnySimpleType; b++ {
		v.Case(fmt.Sprint("built-in ", int(b)), true)
		v.Guard("panic", func() {
			n := b.Name()
			if special[b] {
				if n.Space != other {
					v.Fail("namespace", other, n)
				}
			} else if want := (xml.Name{Space: schemaNS, Local: vBuiltinNames[b]}); n != want {
				v.Fail("name", want, n)
			}
			if o, dup := seen[n]; dup {
				v.Fail("distinct", fmt.Sprint("not the name of ", int(o)), n)
			}
			seen[n] = b
			if got, err := ParseBuiltin(n); err != nil || got != b {
				v.Fail("lookup", int(b), fmt.Sprint(int(got), err))
			}
			if XMLName(b) != n || Base(b) != nil {
				v.Fail("type", n, XMLName(b))
			}
			if special[b] {
				return
			}
			doc := fmt.Sprintf(`<x:schema xmlns:x="%s" targetNamespace="urn:t"><x:simpleType name="t"><x:restriction base="x:%s"/></x:simpleType></x:schema>`, schemaNS, n.Local)
			s, err := Parse([]byte(doc))
			if err != nil {
				v.Fail("parse", "no error", err)
				return
			}
			if got := Base(s[0].Types[xml.Name{Space: "urn:t", Local: "t"}]); got != b {
				v.Fail("meaning", int(b), sgShow(got))
			}
		})
	}
	for i := 0; i < v.N(3000, 60000) && v.Time(); i++ {
		n := xml.Name{Space: []string{schemaNS, "", other, "urn:t", "http://www.w3.org/2000/10/XMLSchema"}[v.R.Intn(5)], Local: vBuiltinNames[v.R.Intn(50)]}
		switch v.R.Intn(6) {
		case 0:
			n.Local = strings.ToUpper(n.Local)
		case 1:
			n.Local = strings.ToLower(n.Local)
		case 2:
			n.Local = strings.Title(n.Local)
		case 3:
			n.Local += "s"
		case 4:
			n.Local = n.Local[:v.R.Intn(len(n.Local))]
		}
		v.Case(fmt.Sprint(n), true)
		v.Guard("panic", func() {
			b, err := ParseBuiltin(n)
			want, ok := seen[n]
			if ok != (err == nil) || ok && b != want {
				v.Fail("lookup", fmt.Sprint(int(want), " ", ok), fmt.Sprint(int(b), err))
			}
			got := parseType(n)
			if ok && got != Type(want) || !ok && got != Type(linkedType(n)) {
				v.Fail("type for a name", fmt.Sprint(int(want), " ", ok), sgShow(got))
			}
		})
	}
}

func sgShow(t Type) string {
	if t == nil {
		return "<none>"
	}
	return fmt.Sprintf("%T %v", t, XMLName(t))
}
