package xsd

import "encoding/xml"

// nameOf is the name a built-in type has in schemas: the harness goes through
// all of them.
//
//govc:opaque
func nameOf(b Builtin) xml.Name { return xml.Name{} }

//govc:contract Builtin.Name assumed
func con_Builtin_Name(b Builtin) (name xml.Name) {
	ensures(name == nameOf(b))
	return
}

// builtin says that a name is that of a built-in type.
func builtin(name xml.Name, b Builtin) bool {
	return b >= AnyType && b <= AnySimpleType && nameOf(b) == name && forall(func(k Builtin) bool {
		return trig(nameOf(k)) && implies(k >= AnyType && k < b, nameOf(k) != name)
	})
}

func noBuiltin(name xml.Name) bool {
	return forall(func(k Builtin) bool {
		return trig(nameOf(k)) && implies(k >= AnyType && k <= AnySimpleType, nameOf(k) != name)
	})
}

// firstBuiltin is the first of the built-in types from i on with a name.
func firstBuiltin(name xml.Name, i Builtin) Builtin {
	if i > AnySimpleType || nameOf(i) == name {
		return i
	}
	return firstBuiltin(name, i+1)
}

//govc:contract ParseBuiltin props=C11
func con_ParseBuiltin(qname xml.Name) (b Builtin, err error) {
	ensures("found", implies(isnil(err), builtin(qname, b)))
	ensures("missing", implies(!isnil(err), noBuiltin(qname)))
	ensures("first", implies(isnil(err), b == firstBuiltin(qname, AnyType)))
	candidate(func(i Builtin) bool { return firstBuiltin(qname, i) == firstBuiltin(qname, AnyType) })
	candidate(func(i Builtin) bool {
		return i >= AnyType && forall(func(k Builtin) bool {
			return trig(nameOf(k)) && implies(k >= AnyType && k < i, nameOf(k) != qname)
		})
	})
	return
}
