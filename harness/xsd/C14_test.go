package xsd

//verif:use schemas
//verif:use schemause

import (
	"fmt"
	"regexp"
	"testing"
	"time"
)

func TestVerifC14(t *testing.T) {
	v := vStart(t, "C14", "facets", "random schemas: every restriction has the facets that are declared and no others; bounds that mean nothing for their type, and lengths that are no numbers, are errors",
		"seeded random sets of schemas, restrictions of built-in types and of other restrictions")
	defer v.Done()
	parts := map[string]bool{"enumeration": true, "pattern": true, "pattern that does not compile": true, "length": true, "minLength": true, "maxLength": true, "totalDigits": true, "fractionDigits": true, "lower bound": true, "upper bound": true}
	for i := 0; i < v.N(1500, 40000) && v.Time(); i++ {
		set := sgGenerate(v.R, sgOpts{namespaces: 2, facets: true})
		v.Case(set.String(), true)
		v.Guard("panic", func() {
			got, err := Parse(set.bytes()...)
			if err != nil {
				v.Fail("error", "no error", err)
				return
			}
			c := &sgChecker{v: v, set: set, got: got, each: func(k string) bool { return parts[k] }}
			c.check()
		})
	}
	// one restriction, one or two facets, every value and base
	names := []string{"minInclusive", "minExclusive", "maxInclusive", "maxExclusive", "length", "minLength", "maxLength", "totalDigits", "fractionDigits"}
	vals := []string{"1", " 12 ", "0", "-3", "1.5", "1e3", "INF", "NaN", "x", "2001-02-03", "2001-02-03Z", "2001-02-03+01:00", "2001-02-30", "2001-02-03T04:05:06", "2001-02-03T04:05:06Z", "2001-02-03T04:05:06.5-08:00", "12:00:00", "--02-03", "P1D", "2001", "unbounded"}
	bases := []string{"date", "dateTime", "decimal", "int", "double", "string", "time", "duration", "gDay", "gMonth", "gMonthDay", "gYearMonth", "gYear"}
	date := func(l ...string) func(string) (time.Time, bool) {
		return func(s string) (time.Time, bool) {
			for _, l := range l {
				if t, err := time.Parse(l, s); err == nil {
					return t, true
				}
			}
			return time.Time{}, false
		}
	}
	asDate := date("2006-01-02", "2006-01-02Z07:00")
	asTime := date("2006-01-02T15:04:05", time.RFC3339)
	num := regexp.MustCompile(`^ *[-+]?[0-9]+(\.[0-9]*)?(e[0-9]+)? *$|^INF$|^NaN$`)
	int_ := regexp.MustCompile(`^ *[-+]?[0-9]+ *$|^unbounded$`)
	for _, base := range bases {
		for i, n := range names {
			for _, val := range vals {
				doc := `<schema xmlns="` + xsNS + `" xmlns:t="urn:t" targetNamespace="urn:t"><simpleType name="s"><restriction base="` + base + `"><` + n + ` value="` + val + `"/></restriction></simpleType></schema>`
				v.Case(doc, true)
				v.Guard("panic", func() {
					s, err := Parse([]byte(doc))
					var ok bool
					var want time.Time
					switch {
					case i >= 4:
						ok = int_.MatchString(val) && !(n == "fractionDigits" && (val == "-3" || val == "unbounded"))
					case base == "date":
						want, ok = asDate(val)
					case base == "dateTime":
						want, ok = asTime(val)
					case base == "time" || base == "duration" || base == "gDay" || base == "gMonth" || base == "gMonthDay" || base == "gYearMonth":
						ok = true
					default:
						ok = num.MatchString(val)
					}
					if ok != (err == nil) {
						v.Fail("value that means nothing for its type", fmt.Sprint("accepted: ", ok), fmt.Sprint("error: ", err))
						return
					}
					if err != nil {
						return
					}
					r := Restriction{}
					for n, t := range s[0].Types {
						if n.Local == "s" {
							r = t.(*SimpleType).Restriction
						}
					}
					got, other := r.MinDate, r.MaxDate
					if i == 2 || i == 3 {
						got, other = other, got
					}
					if !got.Equal(want) || !other.IsZero() {
						v.Fail("date bound", want, fmt.Sprint(got, " ", other))
					}
					if set := r.Length != 0 || r.MinLength != 0 || r.MaxLength != 0 || r.TotalDigits != 0 || r.Precision != 0; i < 4 && set || r.Pattern != nil || r.Enum != nil {
						v.Fail("facets not declared", "none", fmt.Sprintf("%+v", r))
					}
				})
			}
		}
	}
}
