package xsd

import (
	"encoding/xml"

	"aqwari.net/xml/xmltree"
)

// lookups in the index of a set of schemas

//govc:contract schemaIndex.ElementID props=C17
func con_ElementID(idx *schemaIndex, name, typ xml.Name) (id int, ok bool) {
	ensures("found", ok == mapdom(idx.idByName, elementKey{name, typ}))
	ensures("id", implies(ok, id == mapval(idx.idByName, elementKey{name, typ})))
	return
}

//govc:contract schemaIndex.ByName props=C17
func con_ByName(idx *schemaIndex, name, typ xml.Name) (el *xmltree.Element, ok bool) {
	requires(forall(func(k elementKey) bool {
		return trig(mapval(idx.idByName, k)) && implies(mapdom(idx.idByName, k), mapval(idx.idByName, k) >= 0 && mapval(idx.idByName, k) < len(idx.eltByID))
	}))
	ensures("found", ok == mapdom(idx.idByName, elementKey{name, typ}))
	ensures("element", ite(ok, el == idx.eltByID[mapval(idx.idByName, elementKey{name, typ})], el == nil))
	return
}

// overridden is the value of an attribute whose value is v, and which the
// first n attributes of a reference give another.
func overridden(q Seq[xml.Attr], n int, local, v string) string {
	if n <= 0 {
		return v
	}
	if qat(q, n-1).Name.Local == local && (qat(q, n-1).Name != xml.Name{Local: "ref"}) {
		return qat(q, n-1).Value
	}
	return overridden(q, n-1, local, v)
}

// plain says that, among the first n attributes, every one of a name is one
// without a namespace.
func plain(q Seq[xml.Attr], n int, local string) bool {
	return n <= 0 || plain(q, n-1, local) && (qat(q, n-1).Name.Local != local || qat(q, n-1).Name.Space == "")
}

//govc:lemma
func plainAt(q Seq[xml.Attr], n, j int, local string) {
	induction(n)
	trig(plain(q, n, local), qat(q, j).Name)
	requires(plain(q, n, local) && j >= 0 && j < n && qat(q, j).Name.Local == local)
	ensures(qat(q, j).Name.Space == "")
}

//govc:contract deref props=C17
func con_deref(ref, real *xmltree.Element) (r *xmltree.Element) {
	requires(ref != nil && real != nil)
	ensures("new", r != nil && fresh(r))
	ensures("name", r.Name == real.Name)
	ensures("children", len(r.Children) == len(real.Children) && forall(func(i int) bool {
		return trig(r.Children[i]) && implies(i >= 0 && i < len(r.Children), only(r.Children[i]) == only(real.Children[i]))
	}))
	ensures("content", list(r.Content) == list(real.Content))
	ensures("scope", xmltree.SpecJoined(r.Scope, old(real.Scope), old(ref.Scope)))
	ensures("attributes", forall(func(local string) bool {
		return trig(attr(r, local)) && implies(local != "type" && plain(old(seq(ref.StartElement.Attr)), old(len(ref.StartElement.Attr)), local),
			attr(r, local) == overridden(old(seq(ref.StartElement.Attr)), old(len(ref.StartElement.Attr)), local, old(attr(real, local))))
	}))
	ensures("type", implies(plain(old(seq(real.StartElement.Attr)), old(len(real.StartElement.Attr)), "type") && plain(old(seq(ref.StartElement.Attr)), old(len(ref.StartElement.Attr)), "type"),
		attr(r, "type") == overridden(old(seq(ref.StartElement.Attr)), old(len(ref.StartElement.Attr)), "type",
			ite(old(xmltree.SpecHasAttr(real, "", "type")), xmltree.SpecMoved(r.Scope, old(real.Scope), old(attr(real, "type"))), ""))))
	candidate(func(el *xmltree.Element) bool {
		return xmltree.SpecJoined(el.Scope, old(real.Scope), old(ref.Scope))
	})
	candidate(func(el *xmltree.Element) bool { return el.Name == real.Name })
	candidate(func(el *xmltree.Element) bool { return len(el.StartElement.Attr) == len(real.StartElement.Attr) })
	candidate(func(el *xmltree.Element) bool {
		return forall(func(j int) bool {
			return trig(qat(seq(el.StartElement.Attr), j)) && implies(j >= 0 && j < len(el.StartElement.Attr), qat(seq(el.StartElement.Attr), j).Name == qat(old(seq(real.StartElement.Attr)), j).Name)
		})
	})
	candidate(func(el *xmltree.Element) bool {
		return forall(func(j int) bool {
			return trig(qat(seq(el.StartElement.Attr), j)) && implies(j >= 0 && j < len(el.StartElement.Attr) && (j >= iter() || qat(seq(el.StartElement.Attr), j).Name != xml.Name{Local: "type"}), qat(seq(el.StartElement.Attr), j).Value == qat(old(seq(real.StartElement.Attr)), j).Value)
		})
	})
	candidate(func(el *xmltree.Element) bool {
		return forall(func(j int) bool {
			return trig(qat(seq(el.StartElement.Attr), j)) && implies(j >= 0 && j < iter() && j < len(el.StartElement.Attr) && (qat(seq(el.StartElement.Attr), j).Name == xml.Name{Local: "type"}), qat(seq(el.StartElement.Attr), j).Value == xmltree.SpecMoved(el.Scope, real.Scope, qat(old(seq(real.StartElement.Attr)), j).Value))
		})
	})
	candidate(func(el *xmltree.Element) bool {
		return forall(func(local string) bool {
			return trig(attr(el, local)) && implies(local != "type" && plain(old(seq(ref.StartElement.Attr)), iter(), local),
				attr(el, local) == overridden(old(seq(ref.StartElement.Attr)), iter(), local, old(attr(real, local))))
		})
	})
	candidate(func(el *xmltree.Element) bool {
		return implies(plain(old(seq(real.StartElement.Attr)), old(len(real.StartElement.Attr)), "type") && plain(old(seq(ref.StartElement.Attr)), iter(), "type"),
			attr(el, "type") == overridden(old(seq(ref.StartElement.Attr)), iter(), "type",
				ite(old(xmltree.SpecHasAttr(real, "", "type")), xmltree.SpecMoved(el.Scope, old(real.Scope), old(attr(real, "type"))), "")))
	})
	candidate(func(el *xmltree.Element) bool {
		return len(el.Children) == len(real.Children) && forall(func(i int) bool {
			return trig(el.Children[i]) && implies(i >= 0 && i < len(el.Children), only(el.Children[i]) == only(real.Children[i]))
		})
	})
	candidate(func(el *xmltree.Element) bool { return list(el.Content) == list(real.Content) })
	candidate(func(el *xmltree.Element) bool { return el != nil && fresh(el) && fresh(el.StartElement.Attr) })
	return
}

func only(el xmltree.Element) List[xmltree.Element] { return snoc(lnil[xmltree.Element](), el) }
