package xmltree

import "encoding/xml"

// What the contracts of other packages say about trees.

// SpecAttr is the value of an attribute.
func SpecAttr(el *Element, space, local string) string {
	return attrValue(seq(el.StartElement.Attr), space, local)
}

// SpecResolve is what a qualified name means in a scope.
func SpecResolve(s *Scope, qname string) xml.Name { return resolved(seq(s.ns), qname) }

// SpecResolveDefault is what a name means that is in the namespace ns when it
// has no prefix.
func SpecResolveDefault(s *Scope, qname, ns string) xml.Name {
	if ns == "" || strIndex(qname, ":") >= 0 {
		return resolved(seq(s.ns), qname)
	}
	return xml.Name{Space: ns, Local: qname}
}

// SpecPrefix is the qualified form of a name in a scope.
func SpecPrefix(s *Scope, name xml.Name) string { return prefixed(seq(s.ns), name) }

// SpecJoined says that a scope has the declarations of another one, and then
// those of a third.
//
//govc:named
func SpecJoined(r, outer, inner Scope) bool {
	return len(r.ns) == len(outer.ns)+len(inner.ns) &&
		forall(func(i int) bool { return trig(qat(seq(r.ns), i)) && implies(i >= 0 && i < len(outer.ns), qat(seq(r.ns), i) == qat(seq(outer.ns), i)) }) &&
		forall(func(i int) bool { return trig(qat(seq(inner.ns), i)) && implies(i >= 0 && i < len(inner.ns), qat(seq(r.ns), len(outer.ns)+i) == qat(seq(inner.ns), i)) })
}

// SpecAttrOf is the value of an attribute.
func SpecAttrOf(el Element, space, local string) string {
	return attrValue(seq(el.StartElement.Attr), space, local)
}

// SpecResolveOf is what a qualified name means where an element is.
func SpecResolveOf(el Element, qname string) xml.Name { return resolved(seq(el.Scope.ns), qname) }

// SpecAcyclic says that no tree has cycles.
func SpecAcyclic() bool { return acyclic() }

// SpecHeight gets smaller from an element to its children.
func SpecHeight(el *Element) int { return height(el) }

// SpecVisits is the list l followed by the elements below the first n children
// of el that match, children included, in document order.
func SpecVisits(l List[*Element], el *Element, n int, match func(*Element) bool) List[*Element] {
	return visits(l, el, n, match)
}

// SpecNamed says that an element has a local name and, if one is given, a
// namespace.
func SpecNamed(el *Element, space, local string) bool {
	return el.Name.Local == local && (space == "" || el.Name.Space == space)
}

// SpecFound is the list l followed by the elements of a name below the first n
// children of el, in document order.
func SpecFound(l List[*Element], el *Element, n int, space, local string) List[*Element] {
	if n <= 0 {
		return l
	}
	if height(&el.Children[n-1]) >= height(el) {
		return l
	}
	return SpecFound(
		ite(SpecNamed(&el.Children[n-1], space, local), snoc(SpecFound(l, el, n-1, space, local), &el.Children[n-1]), SpecFound(l, el, n-1, space, local)),
		&el.Children[n-1], len(el.Children[n-1].Children), space, local)
}

// SpecReal says that no element of a list is nil.
func SpecReal(l List[*Element]) bool {
	return isNilList(l) || llast(l) != nil && SpecReal(lfront(l))
}

// SpecHasAttr says whether an element has an attribute.
func SpecHasAttr(el *Element, space, local string) bool {
	return attrAt(seq(el.StartElement.Attr), space, local) >= 0
}

// SpecMoved is what has to be written in one place for what qname means in
// another.
//
//govc:named
func SpecMoved(to, from Scope, qname string) string {
	return prefixed(seq(to.ns), resolved(seq(from.ns), qname))
}
