package xmltree

//verif:use scopes
//verif:use scopeuse
//verif:use docs
//verif:use docuse

import (
	"fmt"
	"testing"
)

func TestVerifC03(t *testing.T) {
	v := vStart(t, "C03", "scopes", "random documents with namespace declarations at every level: each element's name, attributes and prefix meanings are compared with the model; then scopes are joined, and every scope is compared again",
		"seeded random documents to depth 5 and width 4")
	defer v.Done()
	meaning := func(el *Element) (m [6]string) {
		for i, p := range []string{"x", "a:x", "b:x", "c:x", "ab:x", "zz:x"} {
			n, ok := el.ResolveNS(p)
			m[i] = fmt.Sprint(n, ok)
		}
		return
	}
	for i := 0; i < v.N(6000, 150000) && v.Time(); i++ {
		n := vGenDoc(v.R, vDocOpts{depth: 1 + v.R.Intn(5), width: 1 + v.R.Intn(4)})
		v.Case(n.source, len(n.kids) > 0)
		v.Guard("panic", func() {
			root, err := Parse([]byte(n.source))
			if err != nil {
				v.Fail("Parse", "a tree", err)
				return
			}
			if d := vMatches(n, root, false); d != "" {
				v.Fail("scope", "the declarations of the element and those around it", d)
				return
			}
			all := append([]*Element{root}, vPreorder(root)...)
			nodes := append([]*vNode{n}, n.flat()...)
			before := make([][6]string, len(all))
			for j, el := range all {
				before[j] = meaning(el)
			}
			// joining scopes leaves every scope, and earlier results, alone
			type res struct {
				s    *Scope
				a, b int
				then [6]string
			}
			var rs []res
			for k := 0; k < 6; k++ {
				a, b := v.R.Intn(len(all)), v.R.Intn(len(all))
				as, bs := &all[a].Scope, &all[b].Scope
				if k >= 3 && len(rs) > 0 {
					// join onto a result
					as = rs[0].s
					a = -1
				}
				j := as.JoinScope(bs)
				var e Element
				e.Scope = *j
				rs = append(rs, res{j, a, b, meaning(&e)})
				if a >= 0 {
					layers := append(append([]vLayer(nil), nodes[a].layers...), nodes[b].layers...)
					for _, q := range []string{"x", "a:x", "b:x", "c:x", "ab:x"} {
						want, wok := vResolve(layers, q)
						if got, ok := j.ResolveNS(q); got != want || ok != wok {
							v.Fail("JoinScope", fmt.Sprintf("%q is %v in the scope of %s joined with that of %s", q, want, nodes[a].source, nodes[b].source), got)
						}
					}
				}
			}
			for j, el := range all {
				if meaning(el) != before[j] {
					v.Fail("JoinScope-frame", fmt.Sprint("the scope as before: ", before[j]), meaning(el))
				}
			}
			for _, r := range rs {
				var e Element
				e.Scope = *r.s
				if meaning(&e) != r.then {
					v.Fail("JoinScope-alias", fmt.Sprint("the joined scope as it was: ", r.then), meaning(&e))
				}
			}
			if d := vMatches(n, root, false); d != "" {
				v.Fail("scope-after", "the tree as parsed", d)
			}
		})
	}
}
