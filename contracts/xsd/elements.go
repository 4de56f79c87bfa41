package xsd

import (
	"encoding/xml"

	"aqwari.net/xml/xmltree"
)

//govc:contract parseType props=C13,C11
func con_parseType(name xml.Name) (t Type) {
	ensures("builtin", implies(dyntype[Builtin](t), builtin(name, t.(Builtin))))
	ensures("named", t == typeNamed(name))
	ensures("link", implies(!dyntype[Builtin](t), dyntype[linkedType](t) && xml.Name(t.(linkedType)) == name && noBuiltin(name)))
	return
}

// typeNamed stands for the type that a name means.
func typeNamed(name xml.Name) Type {
	return ite(noBuiltin(name), Type(linkedType(name)), Type(firstBuiltin(name, AnyType)))
}

// typeFor says that t stands for the type that a name means.
func typeFor(t Type, name xml.Name) bool {
	return ite(dyntype[Builtin](t), builtin(name, t.(Builtin)), dyntype[linkedType](t) && xml.Name(t.(linkedType)) == name && noBuiltin(name))
}

//govc:contract parseAnnotation assumed
func con_parseAnnotation(el *xmltree.Element) (doc annotation) {
	mayPanic(true)
	onPanic(dyntype[parseError](panicval()) && cap(panicval().(parseError).path) == 0)
	return
}

//govc:contract parseAnyElement props=C13
func con_parseAnyElement(ns string, el *xmltree.Element) (r Element) {
	requires(el != nil)
	mayPanic(!occursOK(el))
	onPanic(dyntype[parseError](panicval()))
	ensures("wildcard", r.Wildcard && r.Plural == plural(el) && !r.Optional && !r.Nillable && !r.Abstract)
	ensures("type", ite(attr(el, "type") == "", dyntype[Builtin](r.Type) && r.Type.(Builtin) == AnyType, typeFor(r.Type, xmltree.SpecResolve(&el.Scope, attr(el, "type")))))
	return
}

func optional(el *xmltree.Element) bool {
	return attr(el, "minOccurs") != "" && number(attr(el, "minOccurs")) == 0 || attr(el, "default") != ""
}

//govc:contract parseElement props=C13
func con_parseElement(ns string, el *xmltree.Element) (r Element) {
	requires(el != nil)
	mayPanic(true)
	onPanic(dyntype[parseError](panicval()))
	ensures("plural", r.Plural == plural(el))
	ensures("optional", r.Optional == optional(el))
	ensures("nillable", r.Nillable == isTrue(attr(el, "nillable")))
	ensures("abstract", r.Abstract == isTrue(attr(el, "abstract")))
	ensures("default", r.Default == attr(el, "default"))
	ensures("local", r.Name.Local == xmltree.SpecResolveDefault(&el.Scope, attr(el, "name"), ns).Local)
	ensures("wildcard", !r.Wildcard)
	ensures("type", ite(attr(el, "type") == "", dyntype[Builtin](r.Type) && r.Type.(Builtin) == AnyType, typeFor(r.Type, xmltree.SpecResolve(&el.Scope, attr(el, "type")))))
	ensures("attr", seq(r.Attr) == seq(el.StartElement.Attr))
	return
}

//govc:contract parseAttribute props=C13
func con_parseAttribute(ns string, el *xmltree.Element) (r Attribute) {
	requires(el != nil)
	mayPanic(true)
	onPanic(dyntype[parseError](panicval()))
	ensures("optional", r.Optional == (attr(el, "use") != "required"))
	ensures("default", r.Default == attr(el, "default"))
	ensures("space", r.Name.Space == ns)
	ensures("type", typeFor(r.Type, xmltree.SpecResolve(&el.Scope, attr(el, "type"))))
	ensures("attr", seq(r.Attr) == seq(el.StartElement.Attr))
	return
}
