package xsd

import (
	"encoding/xml"

	"aqwari.net/xml/xmltree"
)

// below are the elements below el that have a name of XML Schema, in document
// order.
func below(el *xmltree.Element, local string) List[*xmltree.Element] {
	return xmltree.SpecFound(lnil[*xmltree.Element](), el, len(el.Children), schemaNS, local)
}

func importOf(el *xmltree.Element) Ref {
	return Ref{xmltree.SpecAttr(el, "", "namespace"), xmltree.SpecAttr(el, "", "schemaLocation")}
}

func importsOf(l List[*xmltree.Element]) List[Ref] {
	if isNilList(l) {
		return lnil[Ref]()
	}
	return snoc(importsOf(lfront(l)), importOf(llast(l)))
}

// includesOf are the references before, and those to the rest of the
// namespace ns.
func includesOf(before List[Ref], l List[*xmltree.Element], ns string) List[Ref] {
	if isNilList(l) {
		return before
	}
	return snoc(includesOf(before, lfront(l), ns), Ref{ns, xmltree.SpecAttr(llast(l), "", "schemaLocation")})
}

func includesIn(before List[Ref], l List[*xmltree.Element]) List[Ref] {
	if isNilList(l) {
		return before
	}
	return includesOf(includesIn(before, lfront(l)), below(llast(l), "include"), xmltree.SpecAttr(llast(l), "", "targetNamespace"))
}

// schemasOf are the schemas of a document.
func schemasOf(root *xmltree.Element) List[*xmltree.Element] {
	return ite(root.Name == xml.Name{schemaNS, "schema"}, snoc(lnil[*xmltree.Element](), root), below(root, "schema"))
}

//govc:contract Imports props=C18
func con_Imports(data []byte) (r []Ref, err error) {
	requires(xmltree.SpecAcyclic())
	ensures("error", implies(err != nil, len(r) == 0))
	ensures("all", implies(err == nil, exists(func(root *xmltree.Element) bool {
		return trig(below(root, "import")) && root != nil &&
			list(r) == includesIn(importsOf(below(root, "import")), schemasOf(root))
	})))
	candidate(func(l []Ref) bool { return list(l) == importsOf(qlist(seq(ranged[*xmltree.Element]()), iter())) })
	candidate(func(l []Ref) bool {
		return list(l) == includesIn(entry(list(l)), qlist(seq(ranged[*xmltree.Element]()), iter()))
	})
	candidate(func(l []Ref) bool {
		return list(l) == includesOf(entry(list(l)), qlist(seq(ranged[*xmltree.Element]()), iter()), local[string]("ns"))
	})
	return
}
