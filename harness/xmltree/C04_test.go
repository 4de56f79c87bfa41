package xmltree

//verif:use scopes
//verif:use docs
//verif:use docuse

import (
	"fmt"
	"testing"
)

func TestVerifC04(t *testing.T) {
	v := vStart(t, "C04", "search", "random documents x predicates (all, none, by name, by position, by depth, by hash): results compared with a pre-order listing of the tree, as pointers; the calls of the predicate too",
		"seeded random documents to depth 6 and width 5; every (space, local) pair that occurs")
	defer v.Done()
	same := func(a, b []*Element) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	for i := 0; i < v.N(5000, 100000) && v.Time(); i++ {
		n := vGenDoc(v.R, vDocOpts{depth: v.R.Intn(7), width: 1 + v.R.Intn(5)})
		v.Case(n.source, len(n.kids) > 0)
		v.Guard("panic", func() {
			root, err := Parse([]byte(n.source))
			if err != nil {
				v.Fail("Parse", "a tree", err)
				return
			}
			start := root
			if all := vPreorder(root); len(all) > 0 && v.R.Intn(3) == 0 {
				start = all[v.R.Intn(len(all))]
			}
			all := vPreorder(start)
			if got := start.Flatten(); !same(got, all) {
				v.Fail("Flatten", fmt.Sprintf("%d elements in document order", len(all)), len(got))
			}
			salt := v.R.Intn(1000)
			preds := map[string]func(*Element) bool{
				"none": func(*Element) bool { return false },
				"leaf": func(e *Element) bool { return len(e.Children) == 0 },
				"kids": func(e *Element) bool { return len(e.Children) > 0 },
				"hash": func(e *Element) bool { return (len(e.Content)*31+salt)%3 == 0 },
			}
			for name, p := range preds {
				var want, calls []*Element
				for _, e := range all {
					if p(e) {
						want = append(want, e)
					}
				}
				got := start.SearchFunc(func(e *Element) bool { calls = append(calls, e); return p(e) })
				if !same(got, want) {
					v.Fail("SearchFunc", fmt.Sprintf("predicate %s: %d elements, in document order", name, len(want)), len(got))
				}
				if !same(calls, all) {
					v.Fail("SearchFunc-calls", fmt.Sprintf("the predicate asked once for each of %d descendants, in order", len(all)), len(calls))
				}
			}
			spaces := map[string]bool{"": true, "urn:none": true}
			for _, e := range all {
				spaces[e.Name.Space] = true
			}
			for s := range spaces {
				for _, l := range append([]string{"", "none"}, vLocals...) {
					var want []*Element
					for _, e := range all {
						if e.Name.Local == l && (s == "" || e.Name.Space == s) {
							want = append(want, e)
						}
					}
					if got := start.Search(s, l); !same(got, want) {
						v.Fail("Search", fmt.Sprintf("Search(%q, %q): %d elements, in document order", s, l, len(want)), len(got))
					}
				}
			}
		})
	}
	// deep and wide trees made by hand
	for d := 1; d < v.N(2000, 2900) && v.Time(); d = d*2 + 1 {
		root := new(Element)
		el := root
		for i := 0; i < d; i++ {
			el.Children = make([]Element, 2)
			el.Children[1].Name.Local = "last"
			el = &el.Children[i%2]
		}
		v.Case(fmt.Sprintf("a tree %d deep", d), true)
		if got := root.Flatten(); !same(got, vPreorder(root)) {
			v.Fail("Flatten-deep", 2*d, len(got))
		}
	}
}
