package xmltree

import "encoding/xml"

// lfind is the namespace the last declaration in l gives to the prefix, if
// there is one.
func lhas(l List[xml.Name], prefix string) bool {
	if isNilList(l) {
		return false
	}
	return llast(l).Local == prefix || lhas(lfront(l), prefix)
}

func lspace(l List[xml.Name], prefix string) string {
	if isNilList(l) {
		return ""
	}
	if llast(l).Local == prefix {
		return llast(l).Space
	}
	return lspace(lfront(l), prefix)
}

// effective are those of the first n declarations that no later one in q
// overrides.
func effective(q Seq[xml.Name], n int) List[xml.Name] {
	if n <= 0 {
		return lnil[xml.Name]()
	}
	if lookup(q, qlen(q), qat(q, n-1).Local) == n-1 {
		return snoc(effective(q, n-1), qat(q, n-1))
	}
	return effective(q, n-1)
}

//govc:contract Scope.withoutOverrides props=C07
func con_withoutOverrides(scope *Scope) (r Scope) {
	ensures("effective", list(r.ns) == effective(seq(scope.ns), len(scope.ns)))
	ensures("fresh", fresh(r.ns))
	candidate(func(l []xml.Name) bool { return list(l) == effective(old(seq(scope.ns)), iter()) })
	candidate(func(i int, found bool) bool {
		return found == (lookup(old(seq(scope.ns)), i+1+iter(), qat(old(seq(scope.ns)), i).Local) > i)
	})
	candidate(func(i int) bool {
		return lookup(old(seq(scope.ns)), i+1+iter(), qat(old(seq(scope.ns)), i).Local) >= i
	})
	return
}

// The declarations in effect give every prefix the meaning it has in the
// scope, and declare none twice.
//
//govc:lemma props=C07
func effectiveMeaning(q Seq[xml.Name], n int, prefix string) {
	induction(n)
	trig(lhas(effective(q, n), prefix))
	requires(n <= qlen(q))
	ensures(lhas(effective(q, n), prefix) == (lookup(q, qlen(q), prefix) >= 0 && lookup(q, qlen(q), prefix) < n))
	ensures(implies(lhas(effective(q, n), prefix), lspace(effective(q, n), prefix) == qat(q, lookup(q, qlen(q), prefix)).Space))
}

// an attribute's name in a tag
func attrQName(q Seq[xml.Name], name xml.Name) string {
	if name.Space == "" {
		return name.Local
	}
	if name.Space == "http://www.w3.org/XML/1998/namespace" {
		return "xml:" + name.Local
	}
	if name.Space == "http://www.w3.org/2000/xmlns/" {
		return "xmlns:" + name.Local
	}
	i := lastFor(q, qlen(q), name.Space)
	if i >= 0 {
		return qat(q, i).Local + ":" + name.Local
	}
	return name.Local
}

//govc:contract attrName props=C07
func con_attrName(scope Scope, name xml.Name) (r string) {
	ensures("name", r == attrQName(seq(scope.ns), name))
	candidate(func(i int) bool {
		return lastFor(seq(scope.ns), len(scope.ns), name.Space) == lastFor(seq(scope.ns), i+1, name.Space)
	})
	return
}

// The name an attribute gets has the meaning it had, if its namespace has a
// prefix, and a prefix that is not empty.
//
//govc:lemma props=C07
func attrNameInverse(q Seq[xml.Name], name xml.Name) {
	requires(name.Space != "")
	requires(lastFor(q, qlen(q), name.Space) >= 0 && strIndex(qat(q, lastFor(q, qlen(q), name.Space)).Local, ":") < 0 || name.Space == "http://www.w3.org/XML/1998/namespace" || name.Space == "http://www.w3.org/2000/xmlns/")
	ensures(resolved(q, attrQName(q, name)) == name)
	ensures(strIndex(attrQName(q, name), ":") >= 0)
}

// A scope s that is found in c after d others agrees with it, up to what
// comes before.
//
//govc:lemma props=C07
func shiftLookup(c, s Seq[xml.Name], n, d int, prefix string) {
	induction(n)
	trig(lookup(s, n, prefix), lookup(c, d, prefix))
	requires(n >= 0 && n <= qlen(s) && d >= 0 && d+n <= qlen(c))
	requires(forall(func(i int) bool { return trig(qat(s, i)) && implies(i >= 0 && i < n, qat(s, i) == qat(c, d+i)) }))
	ensures(lookup(c, d+n, prefix) == ite(lookup(s, n, prefix) >= 0, d+lookup(s, n, prefix), lookup(c, d, prefix)))
}

//govc:lemma props=C07
func tailLookup(c, s Seq[xml.Name], n, m int, prefix string) {
	trig(lookup(s, n, prefix), lookup(c, m, prefix))
	requires(n >= 0 && n <= qlen(s) && m >= n && m <= qlen(c))
	requires(forall(func(i int) bool { return trig(qat(s, i)) && implies(i >= 0 && i < n, qat(s, i) == qat(c, m-n+i)) }))
	ensures(lookup(c, m, prefix) == ite(lookup(s, n, prefix) >= 0, m-n+lookup(s, n, prefix), lookup(c, m-n, prefix)))
}

//govc:contract diffScope props=C07
func con_diffScope(parent, child *Element) (r Scope) {
	requires(child != nil)
	ensures("root", implies(parent == nil, list(r.ns) == effective(seq(child.Scope.ns), len(child.Scope.ns))))
	ensures("added", forall(func(p string) bool {
		return trig(lhas(list(r.ns), p)) && implies(lhas(list(r.ns), p), lookup(seq(child.Scope.ns), len(child.Scope.ns), p) >= 0 && qat(seq(child.Scope.ns), lookup(seq(child.Scope.ns), len(child.Scope.ns), p)).Space == lspace(list(r.ns), p))
	}))
	ensures("kept", implies(parent != nil, forall(func(p string) bool {
		return trig(lhas(list(r.ns), p)) && implies(!lhas(list(r.ns), p) && lookup(seq(child.Scope.ns), len(child.Scope.ns), p) >= 0,
			lookup(seq(parent.Scope.ns), len(parent.Scope.ns), p) >= 0 && qat(seq(child.Scope.ns), lookup(seq(child.Scope.ns), len(child.Scope.ns), p)).Space == qat(seq(parent.Scope.ns), lookup(seq(parent.Scope.ns), len(parent.Scope.ns), p)).Space)
	})))
	candidate(func(l []xml.Name) bool {
		return len(l) == len(child.Scope.ns)-iter() && forall(func(i int) bool { return implies(i >= 0 && i < len(l), qat(seq(l), i) == qat(old(seq(child.Scope.ns)), iter()+i)) })
	})
	candidate(func(l []xml.Name) bool {
		return len(l) == len(parent.Scope.ns)-iter() && forall(func(i int) bool { return implies(i >= 0 && i < len(l), qat(seq(l), i) == qat(old(seq(parent.Scope.ns)), iter()+i)) })
	})
	candidate(func() bool {
		return forall(func(i int) bool { return implies(i >= 0 && i < iter(), qat(old(seq(child.Scope.ns)), i) == qat(old(seq(parent.Scope.ns)), i)) })
	})
	return
}
