package xmltree

import (
	"encoding/xml"
	"sort"
)

func isDecl(a xml.Attr) bool { return a.Name.Space == "xmlns" || a.Name.Local == "xmlns" }

func declOf(a xml.Attr) xml.Name {
	if a.Name.Space == "xmlns" {
		return xml.Name{Space: a.Value, Local: a.Name.Local}
	}
	return xml.Name{Space: a.Value, Local: ""}
}

// the namespace declarations among the first n attributes
func declsOf(q Seq[xml.Attr], n int) List[xml.Name] {
	if n <= 0 {
		return lnil[xml.Name]()
	}
	if isDecl(qat(q, n-1)) {
		return snoc(declsOf(q, n-1), declOf(qat(q, n-1)))
	}
	return declsOf(q, n-1)
}

// the other attributes
func attrsOf(q Seq[xml.Attr], n int) List[xml.Attr] {
	if n <= 0 {
		return lnil[xml.Attr]()
	}
	if isDecl(qat(q, n-1)) {
		return attrsOf(q, n-1)
	}
	return snoc(attrsOf(q, n-1), qat(q, n-1))
}

// the order sort.Sort leaves declarations in
//
//govc:opaque
func sortedDecls(l List[xml.Name]) List[xml.Name] { return l }

//govc:extern sort.Sort
func externSort(data sort.Interface) {
	modifies(elems(data.(byXMLName)))
	ensures(list(data.(byXMLName)) == sortedDecls(old(list(data.(byXMLName)))))
}

// the declarations in scope inside an element with these attributes
func inside(l List[xml.Name], q Seq[xml.Attr]) List[xml.Name] {
	return ite(declsOf(q, qlen(q)) == lnil[xml.Name](), l, lcat(l, sortedDecls(declsOf(q, qlen(q)))))
}

//govc:contract Scope.pushNS props=C03
func con_pushNS(scope *Scope, tag xml.StartElement) (r []xml.Attr) {
	requires(cap(scope.ns) == len(scope.ns))
	modifies(scope.ns)
	ensures("others", list(r) == attrsOf(seq(tag.Attr), len(tag.Attr)))
	ensures("declared", list(scope.ns) == inside(old(list(scope.ns)), seq(tag.Attr)))
	ensures("own", cap(scope.ns) == len(scope.ns))
	candidate(func(l []xml.Name) bool { return list(l) == declsOf(seq(tag.Attr), iter()) })
	candidate(func(l []xml.Attr) bool { return list(l) == attrsOf(seq(tag.Attr), iter()) })
	return
}

//govc:contract Scope.JoinScope props=C03
func con_JoinScope(outer *Scope, inner *Scope) (r *Scope) {
	requires(inner != nil)
	n, m := len(outer.ns), len(inner.ns)
	ensures("fresh", fresh(r))
	ensures("length", len(r.ns) == n+m)
	ensures("outer", forall(func(i int) bool { return implies(i >= 0 && i < n, qat(seq(r.ns), i) == qat(seq(outer.ns), i)) }))
	ensures("joined", SpecJoined(*r, *outer, *inner))
	ensures("inner", forall(func(i int) bool { return implies(i >= 0 && i < m, qat(seq(r.ns), n+i) == qat(seq(inner.ns), i)) }))
	return
}

//govc:lemma
func sameLookup(a, b Seq[xml.Name], n int, prefix string) {
	induction(n)
	trig(lookup(a, n, prefix), lookup(b, n, prefix))
	requires(n <= qlen(a) && n <= qlen(b))
	requires(forall(func(i int) bool { return implies(i >= 0 && i < n, qat(a, i) == qat(b, i)) }))
	ensures(lookup(a, n, prefix) == lookup(b, n, prefix))
}

// In the joined scope a prefix means what the inner scope says, and what the
// outer one says when the inner one does not declare it.
//
//govc:lemma props=C03
func joinLookup(a, b, r Seq[xml.Name], n int, prefix string) {
	induction(n)
	requires(n >= 0 && n <= qlen(b) && qlen(a) >= 0 && qlen(r) == qlen(a)+qlen(b))
	requires(forall(func(i int) bool { return implies(i >= 0 && i < qlen(a), qat(r, i) == qat(a, i)) }))
	requires(forall(func(i int) bool { return implies(i >= 0 && i < qlen(b), qat(r, qlen(a)+i) == qat(b, i)) }))
	ensures(lookup(r, qlen(a)+n, prefix) == ite(lookup(b, n, prefix) >= 0, qlen(a)+lookup(b, n, prefix), lookup(a, qlen(a), prefix)))
}

// Decoder state: the offset of the next token, the offset where the last one
// began, and the length of the input.
var inputOffset, tokenStart, inputLength int

//govc:extern fmt.Errorf
func externErrorf(format string, a ...interface{}) (err error) {
	ensures(err != nil)
	return
}

//govc:extern encoding/xml.Decoder.InputOffset
func externInputOffset(d *xml.Decoder) (r int64) {
	ensures(int(r) == inputOffset)
	return
}

//govc:extern encoding/xml.Decoder.Token
func externToken(d *xml.Decoder) (t xml.Token, err error) {
	modifies(inputOffset, tokenStart)
	ensures(tokenStart == old(inputOffset))
	ensures(inputOffset >= old(inputOffset) && inputOffset <= inputLength)
	return
}

//govc:extern encoding/xml.StartElement.Copy
func externCopy(e xml.StartElement) (r xml.StartElement) {
	ensures(r.Name == e.Name && len(r.Attr) == len(e.Attr) && fresh(r.Attr))
	ensures(forall(func(i int) bool { return implies(i >= 0 && i < len(e.Attr), r.Attr[i] == e.Attr[i]) }))
	return
}

//govc:contract scanner.scan props=C03,C09 inline
func con_scan(s *scanner) (r bool) {
	requires(s.Decoder != nil)
	requires(inputOffset >= 0 && inputOffset <= inputLength)
	modifies(s.tok, s.err, inputOffset, tokenStart)
	ensures("stop", implies(old(s.err) != nil, !r && s.err == old(s.err) && inputOffset == old(inputOffset)))
	ensures("ok", r == (s.err == nil))
	ensures("forward", inputOffset >= old(inputOffset) && inputOffset <= inputLength)
	return
}

//govc:contract Element.parse props=C03,C09
func con_parse(el *Element, s *scanner, data []byte, depth int) (err error) {
	requires(s != nil && s.Decoder != nil && s.err == nil && depth >= 0)
	requires(cap(el.Scope.ns) == len(el.Scope.ns) && cap(el.Children) == 0)
	requires(inputOffset >= 0 && inputOffset <= inputLength && inputLength == len(data))
	modifies(*el, s.tok, s.err, inputOffset, tokenStart)
	ensures("depth", implies(depth > recursionLimit, err != nil))
	ensures("name", el.Name == old(el.Name))
	ensures("attrs", implies(err == nil, list(el.StartElement.Attr) == old(attrsOf(seq(el.StartElement.Attr), len(el.StartElement.Attr)))))
	ensures("ok", implies(err == nil, s.err == nil))
	ensures("offset", inputOffset >= old(inputOffset) && inputOffset <= inputLength)
	ensures("content", implies(err == nil, sameobj(el.Content, data) && offsetIn(el.Content, data) == old(inputOffset) && len(el.Content) == tokenStart-old(inputOffset)))
	ensures("scope", implies(err == nil, list(el.Scope.ns) == old(inside(list(el.Scope.ns), seq(el.StartElement.Attr)))))
	candidate(func() bool { return s.err == nil && s.Decoder != nil })
	candidate(func() bool { return cap(el.Scope.ns) == len(el.Scope.ns) })
	candidate(func() bool { return inputOffset >= old(inputOffset) && inputOffset <= inputLength })
	candidate(func(n int64) bool { return int(n) == inputOffset })
	candidate(func(n int64) bool { return int(n) == old(inputOffset) })
	candidate(func(n int64) bool { return int(n) <= inputOffset && int(n) >= 0 })
	candidate(func(a, b int64) bool { return a <= b })
	return
}
