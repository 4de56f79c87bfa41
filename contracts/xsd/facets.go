package xsd

import (
	"regexp"
	"strings"
	"time"

	"aqwari.net/xml/xmltree"
)

//govc:opaque
func isFloat(s string) bool { return true }

//govc:opaque
func floatOf(s string) float64 { return 0 }

//govc:opaque
func isTime(format, s string) bool { return true }

//govc:opaque
func timeOf(format, s string) time.Time { return time.Time{} }

//govc:extern strconv.ParseFloat
func externParseFloat(s string, bits int) (n float64, err error) {
	ensures(isnil(err) == isFloat(s))
	ensures(n == floatOf(s))
	return
}

//govc:extern time.Parse
func externTimeParse(format, s string) (t time.Time, err error) {
	ensures(isnil(err) == isTime(format, s))
	ensures(implies(isTime(format, s), t == timeOf(format, s)))
	return
}

//govc:contract parseDecimal props=C14
func con_parseDecimal(s string) (r float64) {
	mayPanic(strings.TrimSpace(s) != "" && !isFloat(strings.TrimSpace(s)))
	onPanic(dyntype[parseError](panicval()) && cap(panicval().(parseError).path) == 0)
	ensures("value", isFloatOrNone(s) && r == ite(strings.TrimSpace(s) == "", 0, floatOf(strings.TrimSpace(s))))
	return
}

func isDate(s string) bool { return isTime("2006-01-02", s) || isTime("2006-01-02Z07:00", s) }
func dateOf(s string) time.Time {
	return ite(isTime("2006-01-02", s), timeOf("2006-01-02", s), timeOf("2006-01-02Z07:00", s))
}

func isDateTime(s string) bool {
	return isTime("2006-01-02T15:04:05", s) || isTime(time.RFC3339, s)
}
func dateTimeOf(s string) time.Time {
	return ite(isTime("2006-01-02T15:04:05", s), timeOf("2006-01-02T15:04:05", s), timeOf(time.RFC3339, s))
}

// A bound is a date or a number, by the type that is restricted.
func bound(el *xmltree.Element) string { return strings.TrimSpace(attr(el, "value")) }

func noBound(b Builtin) bool {
	return b == Time || b == Duration || b == GDay || b == GMonth || b == GMonthDay || b == GYearMonth
}

// dateBound and numberBound are what a bound of a type derived from base means.
func dateBound(base Type, s string) time.Time {
	if dyntype[Builtin](base) {
		return ite(base.(Builtin) == Date, dateOf(s), ite(base.(Builtin) == DateTime, dateTimeOf(s), time.Time{}))
	}
	if linked(base) {
		return ite(isDate(s), dateOf(s), ite(isDateTime(s), dateTimeOf(s), time.Time{}))
	}
	return time.Time{}
}

func numberBound(base Type, s string) float64 {
	if dyntype[Builtin](base) && (base.(Builtin) == Date || base.(Builtin) == DateTime || noBound(base.(Builtin))) {
		return 0
	}
	if linked(base) {
		return ite(isDate(s) || isDateTime(s), 0, floatOf(s))
	}
	return ite(strings.TrimSpace(s) == "", 0, floatOf(strings.TrimSpace(s)))
}

func boundOK(base Type, s string) bool {
	if dyntype[Builtin](base) {
		return ite(base.(Builtin) == Date, isDate(s), ite(base.(Builtin) == DateTime, isDateTime(s), noBound(base.(Builtin)) || isFloatOrNone(s)))
	}
	return linked(base) || isFloatOrNone(s)
}

func isFloatOrNone(s string) bool {
	return strings.TrimSpace(s) == "" || isFloat(strings.TrimSpace(s))
}

//govc:contract parseMinMaxRestriction props=C14
func con_parseMinMax(el *xmltree.Element, base Type) (date time.Time, n float64) {
	requires(el != nil && real(base) || el != nil && linked(base))
	mayPanic(!boundOK(base, bound(el)))
	onPanic(dyntype[parseError](panicval()) && cap(panicval().(parseError).path) == 0)
	ensures("valid", boundOK(base, bound(el)))
	ensures("date", date == dateBound(base, bound(el)))
	ensures("number", n == numberBound(base, bound(el)))
	return
}

// schemaSpace is the namespace of the schema language.
func facet(el xmltree.Element, name string) bool {
	return el.StartElement.Name.Space == "http://www.w3.org/2001/XMLSchema" && el.StartElement.Name.Local == name
}

func attrOf(el xmltree.Element, local string) string {
	return xmltree.SpecAttrOf(el, "", local)
}

// enums are the values of the enumeration facets, in order.
func enums(q Seq[xmltree.Element], n int) List[string] {
	if n <= 0 {
		return lnil[string]()
	}
	if facet(qat(q, n-1), "enumeration") {
		return snoc(enums(q, n-1), attrOf(qat(q, n-1), "value"))
	}
	return enums(q, n-1)
}

// numberFacet is the value of the last facet of a name.
func numberFacet(q Seq[xmltree.Element], n int, name string) int {
	if n <= 0 {
		return 0
	}
	if facet(qat(q, n-1), name) {
		return number(attrOf(qat(q, n-1), "value"))
	}
	return numberFacet(q, n-1, name)
}

// dateFacet and boundFacet are what the last of two facets means.
func dateFacet(q Seq[xmltree.Element], n int, base Type, a, b string) time.Time {
	if n <= 0 {
		return time.Time{}
	}
	if facet(qat(q, n-1), a) || facet(qat(q, n-1), b) {
		return dateBound(base, strings.TrimSpace(attrOf(qat(q, n-1), "value")))
	}
	return dateFacet(q, n-1, base, a, b)
}

func boundFacet(q Seq[xmltree.Element], n int, base Type, a, b string) float64 {
	if n <= 0 {
		return 0
	}
	if facet(qat(q, n-1), a) || facet(qat(q, n-1), b) {
		return numberBound(base, strings.TrimSpace(attrOf(qat(q, n-1), "value")))
	}
	return boundFacet(q, n-1, base, a, b)
}

//govc:opaque
func compiles(pat string) bool { return true }

// source is the pattern a regular expression was compiled from.
//
//govc:opaque
func source(r *regexp.Regexp) string { return "" }

//govc:extern regexp.Compile
func externCompile(pat string) (r *regexp.Regexp, err error) {
	ensures(isnil(err) == compiles(pat) && (r != nil) == compiles(pat))
	ensures(implies(compiles(pat), source(r) == pat))
	return
}

//govc:extern regexp.Regexp.String
func externRegexpString(r *regexp.Regexp) (s string) {
	ensures(s == source(r))
	return
}

// patterns are the patterns that compile, as the branches of one.
func patterns(q Seq[xmltree.Element], n int) string {
	if n <= 0 {
		return ""
	}
	if facet(qat(q, n-1), "pattern") && compiles(nextPattern(q, n)) {
		return nextPattern(q, n)
	}
	return patterns(q, n-1)
}

func hasPattern(q Seq[xmltree.Element], n int) bool {
	return n > 0 && (hasPattern(q, n-1) || facet(qat(q, n-1), "pattern") && compiles(nextPattern(q, n)))
}

func nextPattern(q Seq[xmltree.Element], n int) string {
	return ite(hasPattern(q, n-1), patterns(q, n-1)+"|"+attrOf(qat(q, n-1), "value"), attrOf(qat(q, n-1), "value"))
}

//govc:contract parseSimpleRestriction props=C14
func con_parseSimpleRestriction(root *xmltree.Element, base Type) (r Restriction) {
	requires(root != nil && (real(base) || linked(base)))
	mayPanic(true)
	onPanic(dyntype[parseError](panicval()) && fresh(panicval().(parseError).path))
	candidate(func(i int) bool {
		return list(local[Restriction]("r").Enum) == enums(seq(root.Children), i)
	})
	candidate(func(i int) bool {
		return local[Restriction]("r").Length == numberFacet(seq(root.Children), i, "length")
	})
	candidate(func(i int) bool {
		return local[Restriction]("r").MinLength == numberFacet(seq(root.Children), i, "minLength")
	})
	candidate(func(i int) bool {
		return local[Restriction]("r").MaxLength == numberFacet(seq(root.Children), i, "maxLength")
	})
	candidate(func(i int) bool {
		return local[Restriction]("r").Precision == numberFacet(seq(root.Children), i, "fractionDigits")
	})
	candidate(func(i int) bool {
		return local[Restriction]("r").TotalDigits == numberFacet(seq(root.Children), i, "totalDigits")
	})
	candidate(func(i int) bool {
		return local[Restriction]("r").MinDate == dateFacet(seq(root.Children), i, base, "minExclusive", "minInclusive")
	})
	candidate(func(i int) bool {
		return local[Restriction]("r").MaxDate == dateFacet(seq(root.Children), i, base, "maxExclusive", "maxInclusive")
	})
	candidate(func(i int) bool {
		return local[Restriction]("r").Min == boundFacet(seq(root.Children), i, base, "minExclusive", "minInclusive")
	})
	candidate(func(i int) bool {
		return local[Restriction]("r").Max == boundFacet(seq(root.Children), i, base, "maxExclusive", "maxInclusive")
	})
	candidate(func(i int) bool {
		return (local[Restriction]("r").Pattern != nil) == hasPattern(seq(root.Children), i)
	})
	candidate(func(i int) bool {
		return implies(hasPattern(seq(root.Children), i), source(local[Restriction]("r").Pattern) == patterns(seq(root.Children), i))
	})
	ensures("min", r.Min == boundFacet(seq(root.Children), len(root.Children), base, "minExclusive", "minInclusive"))
	ensures("max", r.Max == boundFacet(seq(root.Children), len(root.Children), base, "maxExclusive", "maxInclusive"))
	ensures("minDate", r.MinDate == dateFacet(seq(root.Children), len(root.Children), base, "minExclusive", "minInclusive"))
	ensures("maxDate", r.MaxDate == dateFacet(seq(root.Children), len(root.Children), base, "maxExclusive", "maxInclusive"))
	ensures("pattern", (r.Pattern != nil) == hasPattern(seq(root.Children), len(root.Children)) && implies(r.Pattern != nil, source(r.Pattern) == patterns(seq(root.Children), len(root.Children))))
	ensures("enum", list(r.Enum) == enums(seq(root.Children), len(root.Children)))
	ensures("length", r.Length == numberFacet(seq(root.Children), len(root.Children), "length"))
	ensures("minLength", r.MinLength == numberFacet(seq(root.Children), len(root.Children), "minLength"))
	ensures("maxLength", r.MaxLength == numberFacet(seq(root.Children), len(root.Children), "maxLength"))
	ensures("fractionDigits", r.Precision == numberFacet(seq(root.Children), len(root.Children), "fractionDigits") && r.Precision >= 0)
	ensures("totalDigits", r.TotalDigits == numberFacet(seq(root.Children), len(root.Children), "totalDigits"))
	return
}
