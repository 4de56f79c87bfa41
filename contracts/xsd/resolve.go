package xsd

import (
	"encoding/xml"

	"aqwari.net/xml/xmltree"
)

// Types is any map of types in which every type is under its own name: the
// claims about names hold for those.
func named(m map[xml.Name]Type) bool {
	return forall(func(n xml.Name) bool {
		return trig(m[n]) && implies(mapdom(m, n), nameIs(m[n], n))
	})
}

func nameIs(t Type, n xml.Name) bool {
	return implies(dyntype[*ComplexType](t), t.(*ComplexType).Name == n) && implies(dyntype[*SimpleType](t), t.(*SimpleType).Name == n) && implies(dyntype[Builtin](t), nameOf(t.(Builtin)) == n)
}

func real(t Type) bool {
	return dyntype[Builtin](t) || dyntype[*ComplexType](t) && t.(*ComplexType) != nil || dyntype[*SimpleType](t) && t.(*SimpleType) != nil
}

func allReal(m map[xml.Name]Type) bool {
	return forall(func(n xml.Name) bool { return trig(m[n]) && implies(mapdom(m, n), real(m[n])) })
}

func linked(t Type) bool { return dyntype[linkedType](t) }

func sameSlice[T any](a, b []T) bool {
	return len(a) == len(b) && sameobj(a, b) && offsetIn(a, b) == 0
}

//govc:contract Schema.lookupType props=C12
func con_lookupType(s *Schema, name linkedType, ext map[xml.Name]Type) (t Type, ok bool) {
	n := xml.Name(name)
	ensures("builtin", implies(!noBuiltin(n), ok && dyntype[Builtin](t) && builtin(n, t.(Builtin))))
	ensures("ext", implies(noBuiltin(n) && mapdom(ext, n), ok && t == mapval(ext, n)))
	ensures("own", implies(noBuiltin(n) && !mapdom(ext, n) && mapdom(s.Types, n), ok && t == mapval(s.Types, n)))
	ensures("missing", implies(noBuiltin(n) && !mapdom(ext, n) && !mapdom(s.Types, n), !ok))
	ensures("real", implies(ok && allReal(ext) && allReal(s.Types), real(t)))
	ensures("named", implies(ok && named(ext) && named(s.Types), nameIs(t, n)))
	return
}

func linked(t Type) bool { return dyntype[linkedType](t) }

// kept says that now is what was there, or the type of the name that stood
// for it.
func kept(was, now Type) bool {
	return now == was || linked(was) && !linked(now) && !isnil(now) && nameIs(now, xml.Name(was.(linkedType)))
}

func onlyTypesComplex() bool {
	return forall(func(c *ComplexType) bool {
		return trig(c.Base) && kept(old(c.Base), c.Base) && c.Name == old(c.Name) && c.Extends == old(c.Extends) && c.Mixed == old(c.Mixed) && c.Abstract == old(c.Abstract) && c.Anonymous == old(c.Anonymous) && c.Doc == old(c.Doc) && sameSlice(c.Elements, old(c.Elements)) && sameSlice(c.Attributes, old(c.Attributes))
	})
}

func onlyTypesSimple() bool {
	return forall(func(c *SimpleType) bool {
		return trig(c.Base) && kept(old(c.Base), c.Base) && c.Name == old(c.Name) && c.List == old(c.List) && c.Restriction == old(c.Restriction) && c.Anonymous == old(c.Anonymous) && c.Doc == old(c.Doc) && sameSlice(c.Union, old(c.Union))
	})
}

func onlyTypesElement() bool {
	return forall(func(e *Element) bool {
		return trig(e.Type) && kept(old(e.Type), e.Type) && e.Name == old(e.Name) && e.Plural == old(e.Plural) && e.Optional == old(e.Optional) && e.Nillable == old(e.Nillable) && e.Abstract == old(e.Abstract) && e.Wildcard == old(e.Wildcard) && e.Default == old(e.Default) && e.Doc == old(e.Doc)
	})
}

func onlyTypesAttribute() bool {
	return forall(func(e *Attribute) bool {
		return trig(e.Type) && kept(old(e.Type), e.Type) && e.Name == old(e.Name) && e.Plural == old(e.Plural) && e.Optional == old(e.Optional) && e.Default == old(e.Default) && e.Doc == old(e.Doc)
	})
}

func complexDone(t Type) bool { return implies(dyntype[*ComplexType](t), !linked(t.(*ComplexType).Base)) }

func simpleDone(t Type) bool { return implies(dyntype[*SimpleType](t), !linked(t.(*SimpleType).Base)) }

func elementDone(t Type, e *Element) bool {
	return implies(dyntype[*ComplexType](t) && pointsInto(e, t.(*ComplexType).Elements), !linked(e.Type))
}

func attributeDone(t Type, e *Attribute) bool {
	return implies(dyntype[*ComplexType](t) && pointsInto(e, t.(*ComplexType).Attributes), !linked(e.Type))
}

func memberDone(t Type, e *Type) bool {
	return implies(dyntype[*SimpleType](t) && pointsInto(e, t.(*SimpleType).Union), !linked(*e))
}

//govc:contract Schema.resolvePartialTypes props=C12
func con_resolvePartialTypes(s *Schema, types map[xml.Name]Type) (err error) {
	requires(s != nil && allReal(types) && allReal(s.Types) && named(types) && named(s.Types))
	modifies(heapOf[ComplexType](), heapOf[SimpleType](), heapOf[Element](), heapOf[Attribute](), heapOf[Type]())
	ensures("complex base", implies(isnil(err), forall(func(n xml.Name) bool {
		return trig(s.Types[n]) && implies(mapdom(s.Types, n), complexDone(s.Types[n]))
	})))
	ensures("simple base", implies(isnil(err), forall(func(n xml.Name) bool {
		return trig(s.Types[n]) && implies(mapdom(s.Types, n), simpleDone(s.Types[n]))
	})))
	ensures("elements", implies(isnil(err), forall(func(n xml.Name, e *Element) bool {
		return trig(s.Types[n], e.Type) && implies(mapdom(s.Types, n), elementDone(s.Types[n], e))
	})))
	ensures("attributes", implies(isnil(err), forall(func(n xml.Name, e *Attribute) bool {
		return trig(s.Types[n], e.Type) && implies(mapdom(s.Types, n), attributeDone(s.Types[n], e))
	})))
	ensures("members", implies(isnil(err), forall(func(n xml.Name, e *Type) bool {
		return trig(s.Types[n], *e) && implies(mapdom(s.Types, n), memberDone(s.Types[n], e))
	})))
	ensures("rest complex", onlyTypesComplex())
	ensures("rest simple", onlyTypesSimple())
	ensures("rest element", onlyTypesElement())
	ensures("rest attribute", onlyTypesAttribute())
	candidate(func() bool {
		return forall(func(n xml.Name) bool { return trig(s.Types[n]) && implies(visitedKey(n), complexDone(s.Types[n])) })
	})
	candidate(func() bool {
		return forall(func(n xml.Name) bool { return trig(s.Types[n]) && implies(visitedKey(n), simpleDone(s.Types[n])) })
	})
	candidate(func() bool {
		return forall(func(n xml.Name, e *Element) bool {
			return trig(s.Types[n], e.Type) && implies(visitedKey(n), elementDone(s.Types[n], e))
		})
	})
	candidate(func() bool {
		return forall(func(n xml.Name, e *Attribute) bool {
			return trig(s.Types[n], e.Type) && implies(visitedKey(n), attributeDone(s.Types[n], e))
		})
	})
	candidate(func() bool {
		return forall(func(n xml.Name, e *Type) bool {
			return trig(s.Types[n], *e) && implies(visitedKey(n), memberDone(s.Types[n], e))
		})
	})
	candidate(func(name xml.Name) bool {
		return forall(func(n xml.Name, e *Element) bool {
			return trig(s.Types[n], e.Type) && implies(visitedKey(n) && n != name, elementDone(s.Types[n], e))
		})
	})
	candidate(func(name xml.Name) bool {
		return forall(func(n xml.Name, e *Attribute) bool {
			return trig(s.Types[n], e.Type) && implies(visitedKey(n) && n != name, attributeDone(s.Types[n], e))
		})
	})
	candidate(func(name xml.Name) bool {
		return forall(func(n xml.Name, e *Type) bool {
			return trig(s.Types[n], *e) && implies(visitedKey(n) && n != name, memberDone(s.Types[n], e))
		})
	})
	candidate(func(t *ComplexType) bool { return !linked(t.Base) })
	candidate(func(t *SimpleType) bool { return !linked(t.Base) })
	candidate(func(t *ComplexType) bool {
		return forall(func(k int) bool { return trig(t.Elements[k]) && implies(k >= 0 && k < len(t.Elements), !linked(t.Elements[k].Type)) })
	})
	candidate(func(t *ComplexType) bool {
		return forall(func(k int) bool { return trig(t.Elements[k]) && implies(k >= 0 && k < iter(), !linked(t.Elements[k].Type)) })
	})
	candidate(func(t *ComplexType) bool {
		return forall(func(k int) bool { return trig(t.Attributes[k]) && implies(k >= 0 && k < iter(), !linked(t.Attributes[k].Type)) })
	})
	candidate(func(t *SimpleType) bool {
		return forall(func(k int) bool { return trig(t.Union[k]) && implies(k >= 0 && k < iter(), !linked(t.Union[k])) })
	})
	candidate(func() bool { return allReal(types) && allReal(s.Types) })
	candidate(func() bool { return named(types) && named(s.Types) })
	candidate(func() bool { return onlyTypesComplex() })
	candidate(func() bool { return onlyTypesSimple() })
	candidate(func() bool { return onlyTypesElement() })
	candidate(func() bool { return onlyTypesAttribute() })
	return
}

// aliased: does a child of a schema declare an element of this name, with a
// type?
func declares(tns string, el *xmltree.Element, name xml.Name) bool {
	return el.Name == xml.Name{Space: schemaNS, Local: "element"} &&
		name == xmltree.SpecResolveDefault(&el.Scope, attr(el, "name"), tns) && name.Local != "" &&
		xmltree.SpecResolve(&el.Scope, attr(el, "type")).Local != ""
}

//govc:contract Schema.addElementTypeAliases props=C12
func con_addElementTypeAliases(s *Schema, root *xmltree.Element, types map[xml.Name]Type) (err error) {
	requires(s != nil && root != nil && s.Types != nil && allReal(types) && allReal(s.Types))
	modifies(mapelems(s.Types))
	ensures("kept", forall(func(n xml.Name) bool {
		return trig(s.Types[n]) && implies(old(mapdom(s.Types, n)), mapdom(s.Types, n) && s.Types[n] == old(s.Types[n]))
	}))
	ensures("added", implies(isnil(err), forall(func(k int) bool {
		return trig(root.Children[k]) && implies(k >= 0 && k < len(root.Children) && declares(s.TargetNS, &root.Children[k], xmltree.SpecResolveDefault(&root.Children[k].Scope, attr(&root.Children[k], "name"), s.TargetNS)),
			mapdom(s.Types, xmltree.SpecResolveDefault(&root.Children[k].Scope, attr(&root.Children[k], "name"), s.TargetNS)))
	})))
	ensures("real", allReal(s.Types))
	candidate(func() bool {
		return forall(func(n xml.Name) bool {
			return trig(s.Types[n]) && implies(old(mapdom(s.Types, n)), mapdom(s.Types, n) && s.Types[n] == old(s.Types[n]))
		})
	})
	candidate(func() bool {
		return forall(func(k int) bool {
			return trig(root.Children[k]) && implies(k >= 0 && k < iter() && declares(s.TargetNS, &root.Children[k], xmltree.SpecResolveDefault(&root.Children[k].Scope, attr(&root.Children[k], "name"), s.TargetNS)),
				mapdom(s.Types, xmltree.SpecResolveDefault(&root.Children[k].Scope, attr(&root.Children[k], "name"), s.TargetNS)))
		})
	})
	candidate(func() bool { return allReal(types) && allReal(s.Types) })
	return
}

//govc:contract XMLName props=C12
func con_XMLName(t Type) (n xml.Name) {
	requires(real(t) || linked(t))
	ensures("own", nameIs(t, n) && implies(linked(t), n == xml.Name(t.(linkedType))))
	return
}

//govc:contract Base props=C12
func con_Base(t Type) (b Type) {
	requires(real(t) || linked(t))
	ensures("complex", implies(dyntype[*ComplexType](t), b == t.(*ComplexType).Base))
	ensures("simple", implies(dyntype[*SimpleType](t), b == t.(*SimpleType).Base))
	ensures("others", implies(dyntype[Builtin](t) || linked(t), isnil(b)))
	return
}
