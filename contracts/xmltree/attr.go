package xmltree

import "encoding/xml"

// attrAt is the first attribute, from i on, that matches, or -1.
func attrFrom(q Seq[xml.Attr], k int, space, local string) int {
	// k attributes are left
	if k <= 0 {
		return -1
	}
	if matchAttr(qat(q, qlen(q)-k).Name, space, local) {
		return qlen(q) - k
	}
	return attrFrom(q, k-1, space, local)
}

func matchAttr(n xml.Name, space, local string) bool {
	return n.Local == local && (space == "" || n.Space == space)
}

func attrAt(q Seq[xml.Attr], space, local string) int {
	return attrFrom(q, qlen(q), space, local)
}

// attrValue is the value of an attribute.
//
//govc:named
func attrValue(q Seq[xml.Attr], space, local string) string {
	if attrAt(q, space, local) < 0 {
		return ""
	}
	return qat(q, attrAt(q, space, local)).Value
}

//govc:lemma
func attrFromRange(q Seq[xml.Attr], k int, space, local string) {
	induction(k)
	trig(attrFrom(q, k, space, local))
	ensures(implies(k <= qlen(q), attrFrom(q, k, space, local) == -1 || attrFrom(q, k, space, local) >= qlen(q)-k && attrFrom(q, k, space, local) < qlen(q)))
	ensures(implies(k <= qlen(q) && attrFrom(q, k, space, local) >= 0, matchAttr(qat(q, attrFrom(q, k, space, local)).Name, space, local)))
}

// the search depends on the names only
//
//govc:lemma
func attrFromSame(a, b Seq[xml.Attr], k int, space, local string) {
	induction(k)
	trig(attrFrom(a, k, space, local), attrFrom(b, k, space, local))
	requires(qlen(a) == qlen(b) && k <= qlen(a))
	requires(forall(func(j int) bool { return implies(j >= 0 && j < qlen(a), qat(a, j).Name == qat(b, j).Name) }))
	ensures(attrFrom(a, k, space, local) == attrFrom(b, k, space, local))
}

//govc:lemma
func attrFromAdded(a, b Seq[xml.Attr], k int, space, local string) {
	induction(k)
	trig(attrFrom(a, k, space, local), attrFrom(b, k+1, space, local))
	requires(qlen(b) == qlen(a)+1 && k <= qlen(a) && k >= 0)
	requires(forall(func(j int) bool { return implies(j >= 0 && j < qlen(a), qat(a, j).Name == qat(b, j).Name) }))
	requires(matchAttr(qat(b, qlen(a)).Name, space, local))
	ensures(attrFrom(b, k+1, space, local) == ite(attrFrom(a, k, space, local) >= 0, attrFrom(a, k, space, local), qlen(a)))
}

// an attribute more that does not match changes nothing
//
//govc:lemma
func attrFromOther(a, b Seq[xml.Attr], k int, space, local string) {
	induction(k)
	trig(attrFrom(a, k, space, local), attrFrom(b, k+1, space, local))
	requires(qlen(b) == qlen(a)+1 && k <= qlen(a) && k >= 0)
	requires(forall(func(j int) bool { return implies(j >= 0 && j < qlen(a), qat(a, j).Name == qat(b, j).Name) }))
	requires(!matchAttr(qat(b, qlen(a)).Name, space, local))
	ensures(attrFrom(b, k+1, space, local) == attrFrom(a, k, space, local))
}

//govc:contract Element.Attr props=C05
func con_Attr(el *Element, space, local string) (r string) {
	q := seq(el.StartElement.Attr)
	ensures("value", r == attrValue(q, space, local))
	candidate(func() bool {
		return attrAt(seq(old(el.StartElement.Attr)), space, local) == attrFrom(seq(old(el.StartElement.Attr)), len(old(el.StartElement.Attr))-iter(), space, local)
	})
	return
}

//govc:contract Element.SetAttr props=C05
func con_SetAttr(el *Element, space, local, value string) {
	modifies(el.StartElement.Attr, elems(el.StartElement.Attr[:cap(el.StartElement.Attr)]))
	was := old(seq(el.StartElement.Attr))
	now := seq(el.StartElement.Attr)
	i := old(attrAt(seq(el.StartElement.Attr), space, local))
	n := old(len(el.StartElement.Attr))
	ensures("length", qlen(now) == ite(i >= 0, n, n+1))
	ensures("replaced", implies(i >= 0, qat(now, i).Value == value && qat(now, i).Name == qat(was, i).Name))
	ensures("added", implies(i < 0, qat(now, n) == xml.Attr{Name: xml.Name{Space: space, Local: local}, Value: value}))
	ensures("others", forall(func(j int) bool { return implies(j >= 0 && j < n && j != i, qat(now, j) == qat(was, j)) }))
	ensures("value", SpecAttr(el, space, local) == value)
	ensures("base", fresh(el.StartElement.Attr) || sameobj(el.StartElement.Attr, old(el.StartElement.Attr)) && offsetIn(el.StartElement.Attr, old(el.StartElement.Attr)) == 0 && cap(el.StartElement.Attr) == old(cap(el.StartElement.Attr)))
	ensures("rest", forall(func(sp, lo string) bool {
		return trig(SpecAttr(el, sp, lo)) && implies(lo != local, SpecAttr(el, sp, lo) == old(SpecAttr(el, sp, lo)))
	}))
	ensures("readback", attrAt(now, space, local) == ite(i >= 0, i, n))
	candidate(func() bool {
		return attrAt(seq(old(el.StartElement.Attr)), space, local) == attrFrom(seq(old(el.StartElement.Attr)), len(old(el.StartElement.Attr))-iter(), space, local)
	})
	return
}
