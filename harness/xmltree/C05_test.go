package xmltree

import (
	"encoding/xml"
	"fmt"
	"testing"
)

func TestVerifC05(t *testing.T) {
	v := vStart(t, "C05", "attributes", "attribute lists x (space, local) queries x SetAttr, compared with a model",
		"exhaustive over lists of up to 4 attributes from 6 names, and 9 queries; seeded histories of up to 30 calls")
	defer v.Done()
	names := []xml.Name{{Space: "", Local: "x"}, {Space: "u", Local: "x"}, {Space: "w", Local: "x"}, {Space: "", Local: "y"}, {Space: "u", Local: "y"}, {Space: "", Local: ""}}
	queries := []xml.Name{{Space: "", Local: "x"}, {Space: "u", Local: "x"}, {Space: "w", Local: "x"}, {Space: "", Local: "y"}, {Space: "u", Local: "y"}, {Space: "q", Local: "x"}, {Space: "", Local: "z"}, {Space: "u", Local: ""}, {Space: "", Local: ""}}
	find := func(l []xml.Attr, q xml.Name) int {
		for i, a := range l {
			if a.Name.Local == q.Local && (q.Space == "" || q.Space == a.Name.Space) {
				return i
			}
		}
		return -1
	}
	set := func(l []xml.Attr, q xml.Name, val string) []xml.Attr {
		l = append([]xml.Attr(nil), l...)
		if i := find(l, q); i >= 0 {
			l[i].Value = val
			return l
		}
		return append(l, xml.Attr{Name: q, Value: val})
	}
	same := func(a, b []xml.Attr) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	var rec func(l []xml.Attr)
	rec = func(l []xml.Attr) {
		for _, q := range queries {
			v.Case(fmt.Sprintf("attributes %v, query %v", l, q), len(l) > 0)
			v.Guard("panic", func() {
				el := &Element{StartElement: xml.StartElement{Attr: append([]xml.Attr(nil), l...)}}
				want := ""
				if i := find(l, q); i >= 0 {
					want = l[i].Value
				}
				if got := el.Attr(q.Space, q.Local); got != want {
					v.Fail("Attr", want, got)
				}
				for _, val := range []string{"new", "", "v0"} {
					el := &Element{StartElement: xml.StartElement{Attr: append([]xml.Attr(nil), l...)}}
					el.SetAttr(q.Space, q.Local, val)
					if w := set(l, q, val); !same(el.StartElement.Attr, w) {
						v.Fail("SetAttr", fmt.Sprintf("after SetAttr(%q): %v", val, w), el.StartElement.Attr)
					}
					if got := el.Attr(q.Space, q.Local); got != val {
						v.Fail("readback", val, got)
					}
				}
			})
		}
		if len(l) < 4 {
			for _, n := range names {
				rec(append(l[:len(l):len(l)], xml.Attr{Name: n, Value: fmt.Sprintf("v%d", len(l))}))
			}
		}
	}
	rec(nil)
	for i := 0; i < v.N(3000, 60000) && v.Time(); i++ {
		el := new(Element)
		var model []xml.Attr
		h := ""
		for k := v.R.Intn(30); k >= 0; k-- {
			q := queries[v.R.Intn(len(queries))]
			val := fmt.Sprint(v.R.Intn(50))
			el.SetAttr(q.Space, q.Local, val)
			model = set(model, q, val)
			h += fmt.Sprintf("SetAttr(%q, %q, %q); ", q.Space, q.Local, val)
		}
		v.Case(h, true)
		if !same(el.StartElement.Attr, model) {
			v.Fail("history", model, el.StartElement.Attr)
		}
	}
}
