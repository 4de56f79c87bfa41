package xsd

import "encoding/xml"

// SpecReal says that a type is one, and no stand-in for one.
func SpecReal(t Type) bool { return real(t) }

// SpecNamed says that n is the name of a type.
func SpecNamed(t Type, n xml.Name) bool { return nameIs(t, n) }

// SpecSound says that every type in memory is derived from a type, a simple
// one from a simple or built-in one, and has fields of types.
func SpecSound() bool {
	return forall(func(c *ComplexType) bool { return trig(c.Base) && implies(c != nil, real(c.Base)) }) &&
		forall(func(s *SimpleType) bool { return trig(s.Base) && implies(s != nil, real(s.Base)) })
}

// SpecFields says that the fields of a complex type have types.
func SpecFields(c *ComplexType) bool {
	return forall(func(i int) bool {
		return trig(c.Elements[i]) && implies(i >= 0 && i < len(c.Elements), real(c.Elements[i].Type))
	}) && forall(func(i int) bool {
		return trig(c.Attributes[i]) && implies(i >= 0 && i < len(c.Attributes), real(c.Attributes[i].Type))
	})
}
