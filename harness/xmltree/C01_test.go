package xmltree

//verif:use scopes
//verif:use scopeuse

import (
	"encoding/xml"
	"fmt"
	"strings"
	"testing"
)

func TestVerifC01(t *testing.T) {
	v := vStart(t, "C01", "resolve", "parsed scopes of nested namespace declarations x QNames x default namespaces, compared with the innermost-declaration rule; nontrivial when something is declared",
		"exhaustive to 3 layers of 2 prefixes and 2 URIs; seeded random to 6 layers, 7 prefixes")
	defer v.Done()
	names := []string{"", "x", ":x", "x:", "a:x", "b:x", ":", "a:b:x", "xml:lang", "xmlns:a", "xml", "xmlns", "zz:x", "a:", "ab:x", "A:x", " a:x", "é:x"}
	check := func(layers []vLayer, el *Element) {
		text := vScopeDoc(layers)
		nt := strings.Contains(text, "xmlns")
		v.Case(text, nt)
		for _, q := range names {
			want, wok := vResolve(layers, q)
			if got, ok := el.ResolveNS(q); got != want || ok != wok {
				v.Fail("ResolveNS", fmt.Sprintf("ResolveNS(%q) = %v, %v", q, want, wok), fmt.Sprintf("%v, %v", got, ok))
			}
			if got := el.Resolve(q); got != want {
				v.Fail("Resolve", fmt.Sprintf("Resolve(%q) = %v", q, want), got)
			}
			for _, d := range []string{"", "urn:d", "urn:a"} {
				w := want
				if d != "" && !strings.Contains(q, ":") {
					w = xml.Name{Space: d, Local: q}
				}
				if got := el.ResolveDefault(q, d); got != w {
					v.Fail("ResolveDefault", fmt.Sprintf("ResolveDefault(%q, %q) = %v", q, d, w), got)
				}
			}
		}
	}
	try := func(layers []vLayer) bool {
		v.Case(vScopeDoc(layers), false)
		v.Guard("panic", func() {
			el, err := vInnermost(layers)
			if err != nil {
				v.Fail("Parse", "a tree", err)
				return
			}
			check(layers, el)
		})
		return v.Time()
	}
	vEachLayers(3, []string{"", "a"}, []string{"", "urn:a"}, try)
	vEachLayers(2, []string{"", "a", "b"}, []string{"urn:a", "urn:b"}, try)
	for i := 0; i < v.N(2500, 60000) && v.Time(); i++ {
		try(vLayers(v.R, 6))
	}
	// scopes put together with JoinScope: the inner one is searched first
	for i := 0; i < v.N(500, 10000) && v.Time(); i++ {
		a, b := vLayers(v.R, 3), vLayers(v.R, 3)
		v.Case("JoinScope of "+vScopeDoc(a)+" and "+vScopeDoc(b), true)
		ea, err1 := vInnermost(a)
		eb, err2 := vInnermost(b)
		if err1 != nil || err2 != nil {
			continue
		}
		var joined Element
		joined.Scope = *ea.JoinScope(&eb.Scope)
		check(append(append([]vLayer(nil), a...), b...), &joined)
	}
}
