package xsd

import (
	"strings"

	"aqwari.net/xml/xmltree"
)

//govc:opaque
func fields(s string) List[string] { return lnil[string]() }

//govc:extern strings.Fields
func externFields(s string) (l []string) {
	ensures(list(l) == fields(s) && (len(l) == 0) == isNilList(fields(s)))
	return
}

// refOf is the type that an attribute of an element names.
func refOf(el xmltree.Element, local string) Type {
	return typeNamed(xmltree.SpecResolveOf(el, attrOf(el, local)))
}

// simpleBase is the base of a simple type whose declaration has these children.
func simpleBase(q Seq[xmltree.Element], n int) Type {
	if n <= 0 {
		return nil
	}
	if facet(qat(q, n-1), "restriction") {
		return refOf(qat(q, n-1), "base")
	}
	if facet(qat(q, n-1), "list") {
		return refOf(qat(q, n-1), "itemType")
	}
	if facet(qat(q, n-1), "union") && !isNilList(fields(attrOf(qat(q, n-1), "memberTypes"))) {
		return Type(AnySimpleType)
	}
	return simpleBase(q, n-1)
}

func isList(q Seq[xmltree.Element], n int) bool {
	return n > 0 && (facet(qat(q, n-1), "list") || isList(q, n-1))
}

// memberTypes are the types that names mean where an element is.
func memberTypes(el xmltree.Element, names List[string]) List[Type] {
	if isNilList(names) {
		return lnil[Type]()
	}
	return snoc(memberTypes(el, lfront(names)), typeNamed(xmltree.SpecResolveOf(el, llast(names))))
}

func members(q Seq[xmltree.Element], n int) List[Type] {
	if n <= 0 {
		return lnil[Type]()
	}
	if facet(qat(q, n-1), "union") {
		return lcat(members(q, n-1), memberTypes(qat(q, n-1), fields(attrOf(qat(q, n-1), "memberTypes"))))
	}
	return members(q, n-1)
}

//govc:contract Schema.parseSimpleType props=C12,C15
func con_parseSimpleType(s *Schema, root *xmltree.Element) (r *SimpleType) {
	requires(s != nil && root != nil)
	mayPanic(true)
	onPanic(dyntype[parseError](panicval()))
	ensures("name", r != nil && fresh(r) && r.Name == xmltree.SpecResolveDefault(&root.Scope, attr(root, "name"), s.TargetNS))
	ensures("anonymous", r.Anonymous == (attr(root, "_isAnonymous") == "true"))
	ensures("list", r.List == isList(seq(root.Children), len(root.Children)))
	ensures("base", implies(isnil(simpleBase(seq(root.Children), len(root.Children))), r.Base == Type(AnySimpleType)))
	ensures("own-base", implies(!isnil(simpleBase(seq(root.Children), len(root.Children))), r.Base == simpleBase(seq(root.Children), len(root.Children))))
	ensures("union", list(r.Union) == members(seq(root.Children), len(root.Children)))
	candidate(func(i int) bool { return local[SimpleType]("t").List == isList(seq(root.Children), i) })
	candidate(func(i int) bool { return local[SimpleType]("t").Base == simpleBase(seq(root.Children), i) })
	candidate(func(i int) bool {
		return list(local[SimpleType]("t").Union) == members(seq(root.Children), i)
	})
	candidate(func(i int) bool {
		return len(ranged[string]()) >= 0 && implies(iter() == 0, local[SimpleType]("t").Base == entry(local[SimpleType]("t").Base)) && implies(iter() > 0, local[SimpleType]("t").Base == Type(AnySimpleType))
	})
	candidate(func(el *xmltree.Element) bool {
		return list(local[SimpleType]("t").Union) == lcat(entry(list(local[SimpleType]("t").Union)), memberTypes(*el, qlist(seq(ranged[string]()), iter())))
	})
	return
}

var _ = strings.Fields
