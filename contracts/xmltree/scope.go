package xmltree

import "encoding/xml"

//govc:contract Scope.ResolveNS props=C01,C02
func con_ResolveNS(scope *Scope, qname string) (name xml.Name, ok bool) {
	q := seq(scope.ns)
	ensures("name", name == resolved(q, qname))
	ensures("ok", ok == resolvable(q, qname))
	candidate(func(i int) bool {
		return lookup(seq(old(scope.ns)), len(old(scope.ns)), qprefix(qname)) == lookup(seq(old(scope.ns)), i+1, qprefix(qname))
	})
	candidate(func(i int) bool {
		return lookup(seq(old(scope.ns)), len(old(scope.ns)), qprefix(qname)) == lookup(seq(old(scope.ns)), i, qprefix(qname))
	})
	candidate(func(i int) bool {
		return i == lookup(seq(old(scope.ns)), iter(), qprefix(qname))
	})
	return
}

//govc:contract Scope.Resolve props=C01
func con_Resolve(scope *Scope, qname string) (name xml.Name) {
	ensures("name", name == resolved(seq(scope.ns), qname))
	return
}

//govc:contract Scope.ResolveDefault props=C01
func con_ResolveDefault(scope *Scope, qname, defaultns string) (name xml.Name) {
	ensures("override", implies(defaultns != "" && strIndex(qname, ":") < 0, name == xml.Name{Space: defaultns, Local: qname}))
	ensures("resolve", implies(defaultns == "" || strIndex(qname, ":") >= 0, name == resolved(seq(scope.ns), qname)))
	ensures("value", name == SpecResolveDefault(scope, qname, defaultns))
	return
}

// declared says that declaration i is in force: its prefix means it.
func declared(q Seq[xml.Name], i int) bool {
	return qat(q, i).Local != "xml" && qat(q, i).Local != "xmlns" && lookup(q, qlen(q), qat(q, i).Local) == i
}

// lastFor is the closest declaration in force, among the first n, that
// binds a (non-empty) prefix to the namespace, or -1.
func lastFor(q Seq[xml.Name], n int, space string) int {
	if n <= 0 {
		return -1
	}
	if qat(q, n-1).Space == space && qat(q, n-1).Local != "" && declared(q, n-1) {
		return n - 1
	}
	return lastFor(q, n-1, space)
}

func defaultIs(q Seq[xml.Name], space string) bool {
	i := lookup(q, qlen(q), "")
	return i >= 0 && qat(q, i).Space == space
}

func prefixed(q Seq[xml.Name], name xml.Name) string {
	if name.Space == "" {
		return name.Local
	}
	if name.Space == "http://www.w3.org/XML/1998/namespace" {
		return "xml:" + name.Local
	}
	if name.Space == "http://www.w3.org/2000/xmlns/" {
		return "xmlns:" + name.Local
	}
	if defaultIs(q, name.Space) {
		return name.Local
	}
	i := lastFor(q, qlen(q), name.Space)
	if i >= 0 {
		return qat(q, i).Local + ":" + name.Local
	}
	return name.Local
}

//govc:contract Scope.inForce props=C02
func con_inForce(scope *Scope, i int) (r bool) {
	q := seq(scope.ns)
	requires(i >= 0 && i < len(scope.ns))
	ensures("inforce", r == declared(q, i))
	candidate(func(j int) bool {
		return lookup(seq(old(scope.ns)), i+1+iter(), qat(seq(old(scope.ns)), i).Local) == i
	})
	candidate(func(j int) bool {
		return lookup(seq(old(scope.ns)), i+2+iter(), qat(seq(old(scope.ns)), i).Local) >= -1
	})
	return
}

//govc:contract Scope.Prefix props=C02
func con_Prefix(scope *Scope, name xml.Name) (qname string) {
	q := seq(scope.ns)
	ensures("prefix", qname == prefixed(q, name))
	ensures("spec", qname == SpecPrefix(scope, name))
	candidate(func(i int) bool {
		return implies(lookup(seq(old(scope.ns)), len(old(scope.ns)), "") > i, qat(seq(old(scope.ns)), lookup(seq(old(scope.ns)), len(old(scope.ns)), "")).Space != name.Space)
	})
	candidate(func(i int, s string) bool {
		return implies(s == "", lastFor(seq(old(scope.ns)), len(old(scope.ns)), name.Space) == lastFor(seq(old(scope.ns)), i+1, name.Space))
	})
	candidate(func(s string) bool {
		return implies(s != "", lastFor(seq(old(scope.ns)), len(old(scope.ns)), name.Space) >= 0 &&
			s == qat(seq(old(scope.ns)), lastFor(seq(old(scope.ns)), len(old(scope.ns)), name.Space)).Local+":"+name.Local)
	})
	return
}

//govc:lemma
func lastForRange(q Seq[xml.Name], n int, space string) {
	induction(n)
	trig(lastFor(q, n, space))
	ensures(lastFor(q, n, space) >= -1 && implies(n >= 0, lastFor(q, n, space) < n))
	ensures(implies(lastFor(q, n, space) >= 0, declared(q, lastFor(q, n, space)) && qat(q, lastFor(q, n, space)).Space == space && qat(q, lastFor(q, n, space)).Local != ""))
}

// Resolving the name Prefix makes gives the name back, when its namespace
// is declared and in force.
//
//govc:lemma props=C02
func prefixInverse(q Seq[xml.Name], name xml.Name) {
	requires(name.Space != "")
	requires(implies(defaultIs(q, name.Space), strIndex(name.Local, ":") < 0))
	requires(lastFor(q, qlen(q), name.Space) >= 0 && strIndex(qat(q, lastFor(q, qlen(q), name.Space)).Local, ":") < 0 || defaultIs(q, name.Space) || name.Space == "http://www.w3.org/XML/1998/namespace" || name.Space == "http://www.w3.org/2000/xmlns/")
	ensures(resolved(q, prefixed(q, name)) == name && resolvable(q, prefixed(q, name)))
}

// A namespace with no declaration in force leaves the local name.
//
//govc:lemma props=C02
func prefixUnknown(q Seq[xml.Name], name xml.Name) {
	requires(name.Space != "http://www.w3.org/XML/1998/namespace" && name.Space != "http://www.w3.org/2000/xmlns/")
	requires(lastFor(q, qlen(q), name.Space) < 0)
	ensures(prefixed(q, name) == name.Local)
}
