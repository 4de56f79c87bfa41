package xmltree

//verif:use scopes
//verif:use scopeuse

import (
	"encoding/xml"
	"fmt"
	"strings"
	"testing"
)

func TestVerifC02(t *testing.T) {
	v := vStart(t, "C02", "prefix", "parsed scopes of nested namespace declarations x expanded names, compared with the specification and resolved back; nontrivial when something is declared",
		"exhaustive to 3 layers of 2 prefixes and 2 URIs; seeded random to 6 layers, 7 prefixes")
	defer v.Done()
	try := func(layers []vLayer) bool {
		text := vScopeDoc(layers)
		v.Case(text, strings.Contains(text, "xmlns"))
		v.Guard("panic", func() {
			el, err := vInnermost(layers)
			if err != nil {
				v.Fail("Parse", "a tree", err)
				return
			}
			for _, u := range append([]string{"urn:none", "http://www.w3.org/2000/xmlns/"}, vURIs...) {
				for _, l := range []string{"x", "", "a", "long-name"} {
					n := xml.Name{Space: u, Local: l}
					got := el.Prefix(n)
					allowed := vPrefix(layers, n)
					ok := false
					for _, w := range allowed {
						ok = ok || w == got
					}
					if !ok {
						v.Fail("Prefix", fmt.Sprintf("Prefix(%v) in %q", n, allowed), fmt.Sprintf("%q", got))
						continue
					}
					if back, bok := el.ResolveNS(got); bok && u != "" && (strings.Contains(got, ":") || back.Space == u) && back != n {
						v.Fail("inverse", fmt.Sprintf("ResolveNS(Prefix(%v)) = %v", n, n), fmt.Sprintf("Prefix gives %q, which resolves to %v", got, back))
					}
				}
			}
		})
		return v.Time()
	}
	vEachLayers(3, []string{"", "a"}, []string{"urn:a", "urn:b"}, try)
	vEachLayers(2, []string{"", "a", "b"}, []string{"urn:a", "urn:b"}, try)
	for i := 0; i < v.N(4000, 80000) && v.Time(); i++ {
		try(vLayers(v.R, 6))
	}
}
