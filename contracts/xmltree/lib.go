package xmltree

import "encoding/xml"

// strIndex is the position of the first occurrence of sep in s, or -1.
//
//govc:opaque
func strIndex(s, sep string) int { return 0 }

//govc:extern strings.Index
func externIndex(s, sep string) (r int) {
	ensures(r == strIndex(s, sep) && r >= -1 && r+len(sep) <= len(s)+ite(r < 0, len(sep)+1, 0))
	return
}

//govc:extern strings.Contains
func externContains(s, sep string) (r bool) {
	ensures(r == (strIndex(s, sep) >= 0))
	return
}

//govc:extern strings.Cut
func externCut(s, sep string) (before, after string, found bool) {
	i := strIndex(s, sep)
	ensures(i >= -1 && (i < 0 || i+len(sep) <= len(s)))
	ensures(found == (i >= 0))
	ensures(implies(found, before == s[:i] && after == s[i+len(sep):]))
	ensures(implies(!found, before == s && after == ""))
	return
}

//govc:extern strings.SplitN
func externSplitN(s, sep string, n int) (r []string) {
	i := strIndex(s, sep)
	ensures(i >= -1 && (i < 0 || i+len(sep) <= len(s)))
	ensures(implies(n == 2 && sep != "", len(r) == ite(i < 0, 1, 2)))
	ensures(implies(n == 2 && sep != "" && i < 0, r[0] == s))
	ensures(implies(n == 2 && sep != "" && i >= 0, r[0] == s[:i] && r[1] == s[i+len(sep):]))
	ensures(fresh(r))
	return
}

// the declaration in force for a prefix: the innermost (last) one
func lookup(q Seq[xml.Name], n int, prefix string) int {
	if n <= 0 {
		return -1
	}
	if qat(q, n-1).Local == prefix {
		return n - 1
	}
	return lookup(q, n-1, prefix)
}

func qprefix(s string) string {
	if i := strIndex(s, ":"); i >= 0 {
		return s[:i]
	}
	return ""
}

func qlocal(s string) string {
	if i := strIndex(s, ":"); i >= 0 {
		return s[i+1:]
	}
	return s
}

// resolved is the meaning of a QName in a scope.
//
//govc:named
func resolved(q Seq[xml.Name], qname string) xml.Name {
	p, l := qprefix(qname), qlocal(qname)
	if p == "xml" {
		return xml.Name{Space: "http://www.w3.org/XML/1998/namespace", Local: l}
	}
	if p == "xmlns" {
		return xml.Name{Space: "http://www.w3.org/2000/xmlns/", Local: l}
	}
	i := lookup(q, qlen(q), p)
	if i >= 0 {
		return xml.Name{Space: qat(q, i).Space, Local: l}
	}
	return xml.Name{Space: p, Local: l}
}

func resolvable(q Seq[xml.Name], qname string) bool {
	p := qprefix(qname)
	return p == "xml" || p == "xmlns" || lookup(q, qlen(q), p) >= 0
}

//govc:extern strings.IndexByte
func externIndexByte(s string, c byte) (r int) {
	ensures(implies(c == ':', r == strIndex(s, ":") && r >= -1 && r < len(s)))
	return
}

// the first colon of prefix:local, when prefix has none
//
//govc:axiom
func axFirstColon(p, l string) {
	trig(strIndex(p+":"+l, ":"))
	ensures(implies(strIndex(p, ":") < 0, strIndex(p+":"+l, ":") == len(p)))
}

//govc:lemma
func lookupRange(q Seq[xml.Name], n int, prefix string) {
	induction(n)
	trig(lookup(q, n, prefix))
	ensures(lookup(q, n, prefix) >= -1 && implies(n >= 0, lookup(q, n, prefix) < n))
	ensures(implies(lookup(q, n, prefix) >= 0, qat(q, lookup(q, n, prefix)).Local == prefix))
}

//govc:lemma
func lookupLast(q Seq[xml.Name], n int, prefix string, k int) {
	induction(n)
	trig(lookup(q, n, prefix), qat(q, k))
	requires(k >= 0 && k < n && qat(q, k).Local == prefix)
	ensures(lookup(q, n, prefix) >= k)
}

//govc:lemma
func lookupMono(q Seq[xml.Name], n int, prefix string, m int) {
	induction(n)
	trig(lookup(q, n, prefix), lookup(q, m, prefix))
	requires(m >= 0 && m <= n)
	ensures(lookup(q, n, prefix) >= lookup(q, m, prefix))
}

//govc:axiom
func axNoColon(p string) {
	trig(strIndex(p, ":"))
	ensures(implies(p == "xml" || p == "xmlns" || p == "", strIndex(p, ":") == -1))
}

//govc:axiom
func axReserved(l string) {
	trig(strIndex("xml:"+l, ":"))
	ensures(strIndex("xml:"+l, ":") == 3 && ("xml:" + l)[:3] == "xml" && ("xml:" + l)[4:] == l)
}

//govc:axiom
func axReserved2(l string) {
	trig(strIndex("xmlns:"+l, ":"))
	ensures(strIndex("xmlns:"+l, ":") == 5 && ("xmlns:" + l)[:5] == "xmlns" && ("xmlns:" + l)[6:] == l)
}
