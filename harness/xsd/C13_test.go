package xsd

//verif:use schemas
//verif:use schemause

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC13(t *testing.T) {
	v := vStart(t, "C13", "flags", "random schemas: whether each element and attribute is plural, optional, nillable, abstract or has a default is what its declaration and the choices around it say; values that are not numbers or truth values are errors",
		"seeded random sets of schemas; nested sequences and choices to depth 3")
	defer v.Done()
	parts := map[string]bool{"plural": true, "optional": true, "nillable": true, "abstract": true, "default": true, "attribute flags": true, "extends": true, "wildcard": true, "elements": true}
	for i := 0; i < v.N(1500, 40000) && v.Time(); i++ {
		set := sgGenerate(v.R, sgOpts{namespaces: 2})
		v.Case(set.String(), true)
		v.Guard("panic", func() {
			got, err := Parse(set.bytes()...)
			if err != nil {
				v.Fail("error", "no error", err)
				return
			}
			c := &sgChecker{v: v, set: set, got: got, each: func(k string) bool { return parts[k] }}
			c.check()
		})
	}
	// one element, every combination of its attributes
	nums := []string{"", "0", "1", "2", "7", "unbounded", " 2 ", "00", "x", "1.5", "-", "Unbounded", "99999999999999999999"}
	bools := []string{"", "true", "false", "1", "0", "TRUE", "yes", " true"}
	isNum := func(s string) bool { return s != "x" && s != "1.5" && s != "-" && s != "Unbounded" && len(s) < 15 }
	isBool := func(s string) bool { return s == "" || s == "true" || s == "false" || s == "1" || s == "0" }
	one := func(min, max, nil_, abs, df string) {
		doc := `<schema xmlns="` + xsNS + `" targetNamespace="urn:t"><complexType name="t"><sequence><element name="e" type="int"` + sgA("minOccurs", min) + sgA("maxOccurs", max) + sgA("nillable", nil_) + sgA("abstract", abs) + sgA("default", df) + `/></sequence></complexType></schema>`
		v.Case(doc, true)
		v.Guard("panic", func() {
			s, err := Parse([]byte(doc))
			n := sgNumber(min)
			bad := !isNum(min) || !isBool(nil_) || !isBool(abs) || !(n > 1) && !isNum(max)
			if bad != (err != nil) {
				// with minOccurs above 1 the other bound does not matter
				v.Fail("invalid value", fmt.Sprint("error: ", bad), err)
				return
			}
			if err != nil {
				return
			}
			var e Element
			for n, t := range s[0].Types {
				if n.Local == "t" {
					e = t.(*ComplexType).Elements[0]
				}
			}
			m := sgNumber(max)
			want := fmt.Sprint(n > 1 || m > 1 || m < 0, min != "" && n == 0 || df != "", sgIsTrue(nil_), sgIsTrue(abs), df)
			if got := fmt.Sprint(e.Plural, e.Optional, e.Nillable, e.Abstract, e.Default); got != want {
				v.Fail("flags (plural, optional, nillable, abstract, default)", want, got)
			}
		})
	}
	for _, min := range nums {
		if min == "unbounded" {
			continue // means nothing
		}
		for _, max := range nums {
			one(min, max, "", "", "")
			one(min, max, "1", "", "d")
		}
	}
	for _, n := range bools {
		for _, a := range bools {
			one("", "", n, a, "")
		}
	}
	// an element that is declared twice in a type
	for m := 0; m < 1<<6; m++ {
		at := func(bits int) string {
			return sgA("minOccurs", []string{"", "0"}[bits&1]) + sgA("maxOccurs", []string{"", "unbounded"}[bits>>1&1]) + sgA("nillable", []string{"", "true"}[bits>>2&1])
		}
		doc := `<schema xmlns="` + xsNS + `" targetNamespace="urn:t"><complexType name="t"><sequence><element name="e" type="int"` + at(m) + `/><element name="f" type="int"/><element name="e" type="int"` + at(m>>3) + `/></sequence></complexType></schema>`
		v.Case(doc, true)
		v.Guard("panic", func() {
			s, err := Parse([]byte(doc))
			if err != nil {
				v.Fail("error", "no error", err)
				return
			}
			for n, t := range s[0].Types {
				if n.Local != "t" {
					continue
				}
				es := t.(*ComplexType).Elements
				or := m | m>>3
				if len(es) != 2 || es[0].Name.Local != "e" || es[0].Optional != (or&1 == 1) || es[0].Plural != (or>>1&1 == 1) || es[0].Nillable != (or>>2&1 == 1) {
					v.Fail("joined", fmt.Sprint("e and f; e optional, plural, nillable: ", or&1 == 1, or>>1&1 == 1, or>>2&1 == 1), fmt.Sprint(len(es), es[0]))
				}
			}
		})
	}
	_ = strings.Fields
}
