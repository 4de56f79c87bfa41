package xsd

//verif:use schemas
//verif:use schemause

import "testing"

func TestVerifC15(t *testing.T) {
	v := vStart(t, "C15", "anonymous", "random schemas with anonymous types of elements, attributes, list items, union members and bases, nested three deep, next to types and elements of the same names: each has a name no other type has, and what declares it refers to it",
		"seeded random sets of schemas, anonymous types nested to depth 3")
	defer v.Done()
	for i := 0; i < v.N(2000, 40000) && v.Time(); i++ {
		set := sgGenerate(v.R, sgOpts{namespaces: 3, anon: true, sameNS: i%2 == 1})
		v.Case(set.String(), true)
		v.Guard("panic", func() {
			got, err := Parse(set.bytes()...)
			if err != nil {
				v.Fail("error", "no error", err)
				return
			}
			c := &sgChecker{v: v, set: set, got: got}
			c.check()
		})
	}
}

// A schema that declares no prefix for its own target namespace.
func TestVerifC15NoPrefix(t *testing.T) {
	v := vStart(t, "C15", "no-prefix", "one schema that has no prefix for its own target namespace and a type without a name",
		"1 schema")
	defer v.Done()
	doc := `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:a"><xs:element name="e"><xs:complexType><xs:sequence/></xs:complexType></xs:element></xs:schema>`
	v.Case(doc, true)
	v.Guard("panic", func() {
		if _, err := Parse([]byte(doc)); err != nil {
			v.Fail("no-prefix-for-target", "no error", err)
		}
	})
}
