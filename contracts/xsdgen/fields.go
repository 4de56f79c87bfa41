package xsdgen

import (
	"encoding/xml"
	"go/ast"
	"strings"

	"aqwari.net/xml/xsd"

)

// names of struct fields

//govc:extern go/ast.NewIdent
func externNewIdent(name string) (r *ast.Ident) {
	ensures(r != nil && fresh(r) && r.Name == name)
	return
}

// goName is the exported form of an XML name, after the changes the options
// ask for.
//
//govc:named
func goName(cfg *Config, name xml.Name) string {
	if cfg.nameTransform != nil {
		return strings.Title(cfg.nameTransform(name).Local)
	}
	return strings.Title(name.Local)
}

//govc:contract Config.public props=C20
func con_public(cfg *Config, name xml.Name) (r string) {
	ensures("name", r == goName(cfg, name))
	return
}

//govc:contract Config.NameOf props=C20
func con_NameOf(cfg *Config, name xml.Name) (r string) {
	ensures("name", r == goName(cfg, name))
	return
}

func isIdent(e ast.Expr) bool {
	_, ok := e.(*ast.Ident)
	return ok
}

// named is the name that an expression is, if it is one.
func named(e ast.Expr) string { return e.(*ast.Ident).Name }

func isTaken(g *nameGenerator, n string) bool { return mapdom(g.taken, n) }

//govc:contract nameGenerator.unique props=C20
func con_unique(gen *nameGenerator, name string) (r ast.Expr) {
	requires(gen.taken != nil)
	modifies(mapelems(gen.taken))
	ensures("ident", isIdent(r) && r.(*ast.Ident) != nil && fresh(r.(*ast.Ident)))
	ensures("new", !old(isTaken(gen, named(r))))
	ensures("taken", forall(func(n string) bool {
		return trig(isTaken(gen, n)) && isTaken(gen, n) == (old(isTaken(gen, n)) || n == named(r))
	}))
	ensures("own", implies(!old(isTaken(gen, name)), named(r) == name))
	return
}

//govc:contract nameGenerator.element props=C20
func con_element(gen *nameGenerator, base xml.Name) (r ast.Expr) {
	requires(gen.taken != nil && gen.cfg != nil)
	modifies(mapelems(gen.taken))
	ensures("ident", isIdent(r) && r.(*ast.Ident) != nil && fresh(r.(*ast.Ident)))
	ensures("new", !old(isTaken(gen, named(r))))
	ensures("taken", forall(func(n string) bool {
		return trig(isTaken(gen, n)) && isTaken(gen, n) == (old(isTaken(gen, n)) || n == named(r))
	}))
	ensures("own", implies(!old(isTaken(gen, goName(gen.cfg, base))), named(r) == goName(gen.cfg, base)))
	return
}

//govc:contract nameGenerator.attribute props=C20
func con_attribute(gen *nameGenerator, base xml.Name) (r ast.Expr) {
	requires(gen.taken != nil && gen.cfg != nil)
	modifies(mapelems(gen.taken))
	ensures("ident", isIdent(r) && r.(*ast.Ident) != nil && fresh(r.(*ast.Ident)))
	ensures("new", !old(isTaken(gen, named(r))))
	ensures("taken", forall(func(n string) bool {
		return trig(isTaken(gen, n)) && isTaken(gen, n) == (old(isTaken(gen, n)) || n == named(r))
	}))
	ensures("own", implies(!old(isTaken(gen, goName(gen.cfg, base))), named(r) == goName(gen.cfg, base)))
	return
}

func hasAttr(l List[xsd.Attribute], name xml.Name) bool {
	return !isNilList(l) && (llast(l).Name == name || hasAttr(lfront(l), name))
}

//govc:lemma
func hasAttrAt(s []xsd.Attribute, n, j int) {
	induction(n)
	trig(qlist(seq(s), n), s[j])
	requires(j >= 0 && j < n)
	ensures(hasAttr(qlist(seq(s), n), s[j].Name))
}

// merged is l and those of the first n attributes whose names are not in it.
func merged(l List[xsd.Attribute], q Seq[xsd.Attribute], n int) List[xsd.Attribute] {
	if n <= 0 {
		return l
	}
	if hasAttr(merged(l, q, n-1), qat(q, n-1).Name) {
		return merged(l, q, n-1)
	}
	return snoc(merged(l, q, n-1), qat(q, n-1))
}

// realAttrs says that attributes have types.
func realAttrs(l List[xsd.Attribute]) bool {
	return isNilList(l) || xsd.SpecReal(llast(l).Type) && realAttrs(lfront(l))
}

// realElems says that elements have types.
func realElems(l List[xsd.Element]) bool {
	return isNilList(l) || xsd.SpecReal(llast(l).Type) && realElems(lfront(l))
}

//govc:lemma
func realAttrsAt(s []xsd.Attribute, n, j int) {
	induction(n)
	trig(qlist(seq(s), n), s[j])
	requires(j >= 0 && j < n && realAttrs(qlist(seq(s), n)))
	ensures(xsd.SpecReal(s[j].Type))
}

//govc:lemma
func realElemsAt(s []xsd.Element, n, j int) {
	induction(n)
	trig(qlist(seq(s), n), s[j])
	requires(j >= 0 && j < n && realElems(qlist(seq(s), n)))
	ensures(xsd.SpecReal(s[j].Type))
}

//govc:lemma
func mergedReal(l List[xsd.Attribute], q Seq[xsd.Attribute], n int) {
	induction(n)
	trig(merged(l, q, n))
	requires(realAttrs(l) && realAttrs(qlist(q, n)))
	ensures(realAttrs(merged(l, q, n)))
}

//govc:contract mergeAttributes props=C20
func con_mergeAttributes(src, base *xsd.ComplexType) (r []xsd.Attribute) {
	requires(src != nil && base != nil)
	requires(!sameobj(src.Attributes, base.Attributes))
	modifies(src.Attributes, elems(src.Attributes[:cap(src.Attributes)]))
	ensures("merged", list(r) == merged(old(list(src.Attributes)), old(seq(base.Attributes)), old(len(base.Attributes))))
	ensures("kept", list(src.Attributes) == list(r))
	candidate(func() bool {
		return list(src.Attributes) == merged(old(list(src.Attributes)), old(seq(base.Attributes)), iter())
	})
	candidate(func(a xsd.Attribute) bool {
		return !hasAttr(qlist(seq(ranged[xsd.Attribute]()), iter()), a.Name)
	})
	return
}

func subAttrs(l List[xsd.Attribute], q Seq[xsd.Attribute], n int) bool {
	return isNilList(l) || n > 0 && (subAttrs(l, q, n-1) || llast(l) == qat(q, n-1) && subAttrs(lfront(l), q, n-1))
}

func subElems(l List[xsd.Element], q Seq[xsd.Element], n int) bool {
	return isNilList(l) || n > 0 && (subElems(l, q, n-1) || llast(l) == qat(q, n-1) && subElems(lfront(l), q, n-1))
}

//govc:lemma
func subAttrsReal(l List[xsd.Attribute], q Seq[xsd.Attribute], n int) bool {
	induction(n)
	trig(subAttrs(l, q, n))
	requires(subAttrs(l, q, n) && realAttrs(qlist(q, n)))
	use(subAttrsReal(l, q, n-1))
	use(subAttrsReal(lfront(l), q, n-1))
	ensures(realAttrs(l))
	return true
}

//govc:lemma
func subElemsReal(l List[xsd.Element], q Seq[xsd.Element], n int) bool {
	induction(n)
	trig(subElems(l, q, n))
	requires(subElems(l, q, n) && realElems(qlist(q, n)))
	use(subElemsReal(l, q, n-1))
	use(subElemsReal(lfront(l), q, n-1))
	ensures(realElems(l))
	return true
}

//govc:contract Config.filterFields props=C20
func con_filterFields(cfg *Config, t *xsd.ComplexType) (attributes []xsd.Attribute, elements []xsd.Element) {
	requires(t != nil)
	ensures("attributes", subAttrs(list(attributes), seq(t.Attributes), len(t.Attributes)))
	ensures("elements", subElems(list(elements), seq(t.Elements), len(t.Elements)))
	ensures("all attributes", implies(cfg.filterAttributes == nil, list(attributes) == list(t.Attributes)))
	ensures("all elements", implies(cfg.filterElements == nil, list(elements) == list(t.Elements)))
	candidate(func(attributes []xsd.Attribute) bool { return subAttrs(list(attributes), seq(t.Attributes), iter()) })
	candidate(func(elements []xsd.Element) bool { return subElems(list(elements), seq(t.Elements), iter()) })
	candidate(func(attributes []xsd.Attribute) bool {
		return implies(cfg.filterAttributes == nil, list(attributes) == qlist(seq(t.Attributes), iter()))
	})
	candidate(func(elements []xsd.Element) bool {
		return implies(cfg.filterElements == nil, list(elements) == qlist(seq(t.Elements), iter()))
	})
	return
}
