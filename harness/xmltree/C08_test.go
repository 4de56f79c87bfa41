package xmltree

//verif:use scopes
//verif:use docs
//verif:use docuse

import (
	"encoding/xml"
	"fmt"
	"math/rand"
	"strings"
	"testing"
)

// vShuffle rewrites a document: other prefixes, other sibling order, other
// white space, attributes in another order.
func vShuffle(r *rand.Rand, n *vNode) string {
	s := "<"
	tag := n.local
	if n.name.Space != "" {
		s += "z9:" + tag + ` xmlns:z9="` + vEsc(n.name.Space) + `"`
		tag = "z9:" + tag
	} else {
		s += tag + ` xmlns=""`
	}
	for k, j := range r.Perm(len(n.xattrs)) {
		a := n.xattrs[j]
		switch a.Name.Space {
		case "":
			s += " " + a.Name.Local
		case "http://www.w3.org/XML/1998/namespace":
			s += " xml:" + a.Name.Local
		default:
			s += fmt.Sprintf(` xmlns:y%d="%s" y%d:%s`, k, vEsc(a.Name.Space), k, a.Name.Local)
		}
		s += `="` + vEsc(a.Value) + `"`
	}
	s += ">"
	if len(n.kids) == 0 {
		s += []string{"", " ", "\n"}[r.Intn(3)] + n.content + []string{"", " ", "\n\t"}[r.Intn(3)]
	}
	for _, j := range r.Perm(len(n.kids)) {
		s += vShuffle(r, n.kids[j]) + []string{"", " ", "\n"}[r.Intn(3)]
	}
	return s + "</" + tag + ">"
}

func vCopyTree(e *Element) *Element {
	c := *e
	c.StartElement.Attr = append([]xml.Attr(nil), e.StartElement.Attr...)
	c.Children = nil
	for i := range e.Children {
		c.Children = append(c.Children, *vCopyTree(&e.Children[i]))
	}
	c.Content = append([]byte(nil), e.Content...)
	return &c
}

func TestVerifC08(t *testing.T) {
	v := vStart(t, "C08", "equality", "random documents: equal to themselves and to rewritten versions (prefixes, order of siblings and attributes, white space) in both directions; unequal, in both directions, after one change; the arguments compared with copies afterwards; arbitrary pairs for symmetry",
		"seeded random documents to depth 4 and width 5")
	defer v.Done()
	eq := func(key string, a, b *Element, want bool, what string) {
		ca, cb := vCopyTree(a), vCopyTree(b)
		pa, pb := vPreorder(a), vPreorder(b)
		if got := Equal(a, b); got != want {
			v.Fail(key, fmt.Sprintf("Equal = %v (%s)", want, what), got)
		}
		if got := Equal(b, a); got != want {
			v.Fail(key+"-reversed", fmt.Sprintf("Equal(b, a) = %v (%s)", want, what), got)
		}
		for k, p := range [2][]*Element{pa, pb} {
			root, c := a, ca
			if k == 1 {
				root, c = b, cb
			}
			if d := vSameTree8(c, root); d != "" {
				v.Fail("frame", "the argument unchanged", d)
			}
			for i, e := range vPreorder(root) {
				if i >= len(p) || p[i] != e {
					v.Fail("frame", "the argument unchanged", "other elements")
				}
			}
		}
	}
	for i := 0; i < v.N(4000, 100000) && v.Time(); i++ {
		n := vGenDoc(v.R, vDocOpts{depth: v.R.Intn(5), width: 1 + v.R.Intn(5), noMixed: true})
		v.Case(n.source, len(n.kids) > 0)
		v.Guard("panic", func() {
			a, err := Parse([]byte(n.source))
			if err != nil {
				v.Fail("Parse", "a tree", err)
				return
			}
			eq("reflexive", a, a, true, "an element and itself")
			s := vShuffle(v.R, n)
			v.Case(n.source+" and "+s, true)
			b, err := Parse([]byte(s))
			if err != nil {
				v.Fail("Parse", "a tree", err)
				return
			}
			eq("rewritten", a, b, true, "the same document written in another way")
			// one change
			c := vCopyTree(b)
			all := append([]*Element{c}, vPreorder(c)...)
			e := all[v.R.Intn(len(all))]
			what := ""
			switch v.R.Intn(10) {
			case 0:
				e.Name.Local += "X"
				what = "another name"
			case 1:
				e.Name.Space += "X"
				what = "another namespace"
			case 2:
				e.StartElement.Attr = append(e.StartElement.Attr, xml.Attr{Name: xml.Name{Space: "urn:a", Local: "added"}, Value: "1"})
				what = "an attribute more"
			case 3:
				if len(e.StartElement.Attr) == 0 {
					return
				}
				e.StartElement.Attr = e.StartElement.Attr[1:]
				what = "an attribute less"
			case 4:
				if len(e.StartElement.Attr) == 0 {
					return
				}
				e.StartElement.Attr[v.R.Intn(len(e.StartElement.Attr))].Value += "x"
				what = "another attribute value"
			case 5:
				if len(e.Children) > 0 {
					return
				}
				e.Content = append(e.Content, "changed"...)
				what = "other text"
			case 8, 9:
				// one character of the text
				var leaves []*Element
				for _, x := range all {
					if len(x.Children) == 0 && len(x.Content) > 0 && x.Content[len(x.Content)/2] > ' ' {
						leaves = append(leaves, x)
					}
				}
				if len(leaves) == 0 {
					return
				}
				e = leaves[v.R.Intn(len(leaves))]
				if k := len(e.Content) / 2; v.R.Intn(2) == 0 && e.Content[k]|32 >= 'a' && e.Content[k]|32 <= 'z' {
					e.Content[k] ^= 32
				} else {
					e.Content[k] ^= 1
				}
				if e.Content[len(e.Content)/2] <= ' ' {
					return
				}
				what = "one other character"
			case 6:
				if len(e.Children) < 2 {
					return
				}
				e.Children = e.Children[:len(e.Children)-1]
				what = "a child less"
			case 7:
				if len(e.Children) == 0 {
					return
				}
				var k Element
				k.Name.Local = "added"
				e.Children = append(e.Children, k)
				what = "a child more"
			}
			v.Case(fmt.Sprintf("%s and %s: %v has %s", n.source, s, e.Name, what), true)
			eq("different", a, c, false, what)
			// one sibling repeated in place of another
			d := vCopyTree(b)
			for _, e := range append([]*Element{d}, vPreorder(d)...) {
				if len(e.Children) > 1 {
					x, y := &e.Children[0], &e.Children[1]
					if x.Name == y.Name && vSameTree8(x, y) == "" {
						continue
					}
					if Equal(x, y) {
						continue
					}
					e.Children[0] = e.Children[1]
					v.Case(fmt.Sprintf("%s and %s: in %v the second child replaces the first", n.source, s, e.Name), true)
					eq("multiset", a, d, false, "a child replaced by its sibling")
					break
				}
			}
		})
	}
	// pairs of small documents: symmetry, transitivity through the classes
	var small []*Element
	var text []string
	for i := 0; i < v.N(60, 200); i++ {
		n := vGenDoc(v.R, vDocOpts{depth: 1, width: 2, plain: true, noMixed: true})
		e, err := Parse([]byte(n.source))
		if err == nil {
			small = append(small, e)
			text = append(text, n.source)
		}
	}
	for i := range small {
		for j := range small {
			v.Case("pair "+text[i]+" "+text[j], true)
			if x, y := Equal(small[i], small[j]), Equal(small[j], small[i]); x != y {
				v.Fail("symmetric", x, y)
			}
		}
	}
	deep := new(Element)
	e := deep
	for i := 0; i < 2500; i++ {
		e.Children = make([]Element, 1)
		e = &e.Children[0]
	}
	v.Case("a tree 2500 deep and itself", true)
	if !Equal(deep, deep) {
		v.Fail("reflexive-deep", true, false)
	}
	for d := 1; d < 2500; d = d*2 + 1 {
		s := strings.Repeat("<a>", d) + "x" + strings.Repeat("</a>", d)
		for _, o := range []string{strings.Replace(s, "x", "y", 1), strings.Replace(s, "x", "<b/>", 1), strings.Replace(s, "<a>x", "<a b='1'>x", 1)} {
			v.Case(fmt.Sprintf("trees that differ %d levels down, as in %.40s and %.40s", d, s[len(s)/2-d%20:], o[len(o)/2-d%20:]), true)
			a, err1 := Parse([]byte(s))
			b, err2 := Parse([]byte(o))
			if err1 != nil || err2 != nil {
				v.Fail("Parse", "two trees", fmt.Sprint(err1, err2))
				continue
			}
			if Equal(a, b) || Equal(b, a) {
				v.Fail("different-deep", false, true)
			}
		}
	}
}

func vSameTree8(a, b *Element) string {
	if a.Name != b.Name || string(a.Content) != string(b.Content) || len(a.Children) != len(b.Children) {
		return fmt.Sprintf("%v became %v", a.Name, b.Name)
	}
	if d := vSameAttrs(a.StartElement.Attr, b.StartElement.Attr); d != "" {
		return d
	}
	for i := range a.Children {
		if d := vSameTree8(&a.Children[i], &b.Children[i]); d != "" {
			return d
		}
	}
	return ""
}
