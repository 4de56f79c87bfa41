package xsd

import (
	"strings"

	"aqwari.net/xml/xmltree"
)

//govc:opaque
func isInt(s string) bool { return true }

//govc:opaque
func intOf(s string) int { return 0 }

//govc:extern strconv.Atoi
func externAtoi(s string) (n int, err error) {
	ensures(isnil(err) == isInt(s))
	ensures(implies(isInt(s), n == intOf(s)))
	return
}

// number is what the value of minOccurs, maxOccurs, length and so on means: 0
// when it is not given, -1 when there is no limit.
func number(s string) int {
	if strings.TrimSpace(s) == "" {
		return 0
	}
	if strings.TrimSpace(s) == "unbounded" {
		return -1
	}
	return intOf(strings.TrimSpace(s))
}

func isNumber(s string) bool {
	return strings.TrimSpace(s) == "" || strings.TrimSpace(s) == "unbounded" || isInt(strings.TrimSpace(s))
}

//govc:contract parseInt props=C13
func con_parseInt(s string) (r int) {
	mayPanic(!isNumber(s))
	onPanic(dyntype[parseError](panicval()) && cap(panicval().(parseError).path) == 0)
	ensures("number", isNumber(s) && r == number(s))
	return
}

func isTrue(s string) bool { return s == "1" || s == "true" }
func isBool(s string) bool { return isTrue(s) || s == "" || s == "0" || s == "false" }

//govc:contract parseBool props=C13
func con_parseBool(s string) (r bool) {
	mayPanic(!isBool(s))
	onPanic(dyntype[parseError](panicval()))
	ensures("value", isBool(s) && r == isTrue(s))
	return
}

func attr(el *xmltree.Element, local string) string { return xmltree.SpecAttr(el, "", local) }

// plural: may an element occur more than once?
func plural(el *xmltree.Element) bool {
	return number(attr(el, "minOccurs")) > 1 || number(attr(el, "maxOccurs")) < 0 || number(attr(el, "maxOccurs")) > 1
}

func occursOK(el *xmltree.Element) bool {
	return isNumber(attr(el, "minOccurs")) && (number(attr(el, "minOccurs")) > 1 || isNumber(attr(el, "maxOccurs")))
}

//govc:contract parsePlural props=C13
func con_parsePlural(el *xmltree.Element) (r bool) {
	requires(el != nil)
	mayPanic(!occursOK(el))
	onPanic(dyntype[parseError](panicval()))
	ensures("plural", occursOK(el) && r == plural(el))
	return
}

//govc:contract joinElem props=C13
func con_joinElem(a, b Element) (r Element) {
	ensures("flags", r.Plural == (a.Plural || b.Plural) && r.Optional == (a.Optional || b.Optional) && r.Nillable == (a.Nillable || b.Nillable) && r.Abstract == (a.Abstract && b.Abstract))
	ensures("same", r.Name == a.Name && r.Type == a.Type && r.Wildcard == a.Wildcard)
	ensures("default", r.Default == ite(a.Default == b.Default, a.Default, ""))
	return
}
