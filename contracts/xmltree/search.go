package xmltree

// height is any measure that gets smaller from an element to its children:
// there is one exactly when the tree has no cycles.
//
//govc:opaque
func height(el *Element) int { return 0 }

func acyclic() bool {
	return forall(func(el *Element) bool { return trig(height(el)) && height(el) >= 0 }) &&
		forall(func(el, child *Element) bool {
			return trig(height(el), height(child)) && implies(el != nil && pointsInto(child, el.Children), height(child) < height(el))
		})
}

// visits is the list l followed by the elements below the first n children of
// el that match, children included, in document order.
func visits(l List[*Element], el *Element, n int, match func(*Element) bool) List[*Element] {
	if n <= 0 {
		return l
	}
	if height(&el.Children[n-1]) >= height(el) {
		return l
	}
	return visits(
		ite(match(&el.Children[n-1]), snoc(visits(l, el, n-1, match), &el.Children[n-1]), visits(l, el, n-1, match)),
		&el.Children[n-1], len(el.Children[n-1].Children), match)
}

//govc:lemma
func visitsReal(l List[*Element], el *Element, n int, match func(*Element) bool) bool {
	induction(height(el), n)
	trig(visits(l, el, n, match))
	requires(acyclic() && el != nil && n <= len(el.Children) && SpecReal(l))
	use(visitsReal(l, el, n-1, match))
	use(visitsReal(ite(match(&el.Children[n-1]), snoc(visits(l, el, n-1, match), &el.Children[n-1]), visits(l, el, n-1, match)), &el.Children[n-1], len(el.Children[n-1].Children), match))
	ensures(SpecReal(visits(l, el, n, match)))
	return true
}

//govc:lemma
func realAt(s []*Element, n, i int) {
	induction(n)
	trig(SpecReal(qlist(seq(s), n)), s[i])
	requires(i >= 0 && i < n && SpecReal(qlist(seq(s), n)))
	ensures(s[i] != nil)
}

//govc:contract Element.SearchFunc props=C04
func con_SearchFunc(root *Element, fn func(*Element) bool) (r []*Element) {
	requires(acyclic() && fn != nil)
	ensures("matches", list(r) == visits(lnil[*Element](), root, len(root.Children), fn))
	ensures("real", SpecReal(qlist(seq(r), len(r))) && forall(func(i int) bool { return trig(r[i]) && implies(i >= 0 && i < len(r), r[i] != nil) }))
	closure("search", func(el *Element) {
		requires(el != nil && acyclic() && owned(local[[]*Element]("results")))
		modifies(local[[]*Element]("results"), elems(local[[]*Element]("results")[:cap(local[[]*Element]("results"))]))
		ensures("owned", owned(local[[]*Element]("results")))
		ensures("base", fresh(local[[]*Element]("results")) || sameobj(local[[]*Element]("results"), old(local[[]*Element]("results"))) && offsetIn(local[[]*Element]("results"), old(local[[]*Element]("results"))) == 0 && cap(local[[]*Element]("results")) == old(cap(local[[]*Element]("results"))))
		ensures("sub", list(local[[]*Element]("results")) == visits(old(ite(fn(el), snoc(list(local[[]*Element]("results")), el), list(local[[]*Element]("results")))), el, len(el.Children), fn))
		candidate(func(l []*Element) bool { return list(l) == visits(entry(list(l)), el, iter(), fn) })
	})
	candidate(func(l []*Element) bool { return list(l) == visits(lnil[*Element](), root, iter(), fn) })
	return
}

//govc:lemma
func visitsFound(l List[*Element], el *Element, n int, match func(*Element) bool, space, local string) bool {
	induction(height(el), n)
	trig(visits(l, el, n, match), SpecFound(l, el, n, space, local))
	requires(acyclic() && el != nil && n <= len(el.Children))
	requires(forall(func(el *Element) bool {
		return trig(match(el)) && implies(el != nil, match(el) == SpecNamed(el, space, local))
	}))
	use(visitsFound(l, el, n-1, match, space, local))
	use(visitsFound(ite(SpecNamed(&el.Children[n-1], space, local), snoc(SpecFound(l, el, n-1, space, local), &el.Children[n-1]), SpecFound(l, el, n-1, space, local)),
		&el.Children[n-1], len(el.Children[n-1].Children), match, space, local))
	ensures(visits(l, el, n, match) == SpecFound(l, el, n, space, local))
	return true
}

//govc:contract Element.Search props=C04
func con_Search(root *Element, space, local string) (r []*Element) {
	requires(acyclic())
	ensures("matches", exists(func(match func(*Element) bool) bool {
		return trig(visits(lnil[*Element](), root, len(root.Children), match)) &&
			list(r) == visits(lnil[*Element](), root, len(root.Children), match) &&
			forall(func(el *Element) bool { return trig(match(el)) && implies(el != nil, match(el) == (el.Name.Local == local && (space == "" || el.Name.Space == space))) })
	}))
	ensures("real", SpecReal(qlist(seq(r), len(r))) && forall(func(i int) bool { return trig(r[i]) && implies(i >= 0 && i < len(r), r[i] != nil) }))
	ensures("found", list(r) == SpecFound(lnil[*Element](), root, len(root.Children), space, local))
	return
}

//govc:contract Element.Flatten props=C04
func con_Flatten(el *Element) (r []*Element) {
	requires(acyclic())
	ensures("all", exists(func(match func(*Element) bool) bool {
		return trig(visits(lnil[*Element](), el, len(el.Children), match)) &&
			list(r) == visits(lnil[*Element](), el, len(el.Children), match) &&
			forall(func(e *Element) bool { return trig(match(e)) && implies(e != nil, match(e)) })
	}))
	return
}

// A tree that has been parsed is finite: its elements were made for it, each
// below one other. The contract of Element.parse says what they hold.
//
//govc:contract Parse assumed
func con_Parse(doc []byte) (r *Element, err error) {
	requires(acyclic())
	ensures("finite", acyclic())
	ensures("tree", implies(err == nil, r != nil && fresh(r)) && implies(err != nil, r == nil))
	return
}
