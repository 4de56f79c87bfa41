package xmltree

import (
	"encoding/xml"
	"sort"
)

// attrLast is the last of the first n attributes with the name, declarations
// of prefixes aside, or -1.
func attrLast(q Seq[xml.Attr], n int, name xml.Name) int {
	if n <= 0 {
		return -1
	}
	if !isDecl(qat(q, n-1)) && qat(q, n-1).Name == name {
		return n - 1
	}
	return attrLast(q, n-1, name)
}

// hasAll: all the attributes in b, declarations aside, are in a.
func hasAll(a, b Seq[xml.Attr]) bool {
	return forall(func(j int) bool {
		return implies(j >= 0 && j < qlen(b) && !isDecl(qat(b, j)), attrLast(a, qlen(a), qat(b, j).Name) >= 0 && qat(a, attrLast(a, qlen(a), qat(b, j).Name)).Value == qat(b, j).Value)
	})
}

//govc:lemma
func attrLastRange(q Seq[xml.Attr], n int, name xml.Name) {
	induction(n)
	trig(attrLast(q, n, name))
	ensures(attrLast(q, n, name) >= -1 && implies(n >= 0, attrLast(q, n, name) < n))
}

//govc:contract hasAttrs props=C08
func con_hasAttrs(a, b *Element) (r bool) {
	requires(a != nil && b != nil)
	ensures("all", r == hasAll(seq(a.StartElement.Attr), seq(b.StartElement.Attr)))
	candidate(func(m map[xml.Name]string) bool {
		return forall(func(name xml.Name) bool {
			return mapdom(m, name) == (attrLast(seq(a.StartElement.Attr), iter(), name) >= 0)
		})
	})
	candidate(func(m map[xml.Name]string) bool {
		return forall(func(name xml.Name) bool {
			return implies(mapdom(m, name), mapval(m, name) == qat(seq(a.StartElement.Attr), attrLast(seq(a.StartElement.Attr), iter(), name)).Value)
		})
	})
	candidate(func() bool {
		return forall(func(j int) bool {
			return implies(j >= 0 && j < iter() && !isDecl(qat(seq(b.StartElement.Attr), j)), attrLast(seq(a.StartElement.Attr), len(a.StartElement.Attr), qat(seq(b.StartElement.Attr), j).Name) >= 0 && qat(seq(a.StartElement.Attr), attrLast(seq(a.StartElement.Attr), len(a.StartElement.Attr), qat(seq(b.StartElement.Attr), j).Name)).Value == qat(seq(b.StartElement.Attr), j).Value)
		})
	})
	return
}

//govc:contract equalElement props=C08
func con_equalElement(a, b *Element) (r bool) {
	requires(a != nil && b != nil)
	ensures("start", r == sameStart(a, b))
	return
}

func sameStart(a, b *Element) bool {
	return a.Name == b.Name && hasAll(seq(a.StartElement.Attr), seq(b.StartElement.Attr)) && hasAll(seq(b.StartElement.Attr), seq(a.StartElement.Attr))
}

// trimmed is s without the white space around it.
//
//govc:opaque
func trimmed(s List[byte]) List[byte] { return s }

//govc:extern bytes.TrimSpace
func externTrimSpace(s []byte) (r []byte) {
	ensures(list(r) == trimmed(list(s)))
	return
}

//govc:extern bytes.Equal
func externEqual(a, b []byte) (r bool) {
	ensures(r == (list(a) == list(b)))
	return
}

//govc:extern sort.Stable
func externStable(data sort.Interface) {
	modifies(elems(data.(byName)))
	return
}

//govc:contract equal props=C08
func con_equal(a, b *Element, depth int) (r bool) {
	requires(a != nil && b != nil && depth >= 0)
	ensures("start", implies(r, sameStart(a, b) && len(a.Children) == len(b.Children)))
	ensures("text", implies(depth <= recursionLimit && len(a.Children) == 0 && len(b.Children) == 0, r == (sameStart(a, b) && trimmed(list(a.Content)) == trimmed(list(b.Content)))))
	ensures("deep", implies(depth > recursionLimit, !r))
	return
}

//govc:contract Equal props=C08
func con_Equal(a, b *Element) (r bool) {
	requires(a != nil && b != nil)
	ensures("start", implies(r, sameStart(a, b) && len(a.Children) == len(b.Children)))
	ensures("text", implies(len(a.Children) == 0 && len(b.Children) == 0, r == (sameStart(a, b) && trimmed(list(a.Content)) == trimmed(list(b.Content)))))
	return
}
