package xmltree

//verif:use scopes
//verif:use docs
//verif:use docuse

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"strings"
	"testing"
)

// vSameTree compares what two trees mean: names, attributes, text of
// childless elements, and the meaning of the prefixes in scope.
func vSameTree(a, b *Element, prefixes []string, trim, moved bool) string {
	if a.Name != b.Name {
		return fmt.Sprintf("name %v became %v", a.Name, b.Name)
	}
	if d := vSameAttrs(a.StartElement.Attr, b.StartElement.Attr); d != "" {
		return fmt.Sprintf("%v: %s", a.Name, d)
	}
	if len(a.Children) == 0 {
		x, y := a.Content, b.Content
		if trim {
			x, y = bytes.TrimSpace(x), bytes.TrimSpace(y)
		}
		if !bytes.Equal(x, y) {
			return fmt.Sprintf("%v: content %q became %q", a.Name, a.Content, b.Content)
		}
	}
	for _, p := range prefixes {
		q := p + ":x"
		if p == "" {
			q = "x"
		}
		n1, ok1 := a.ResolveNS(q)
		n2, ok2 := b.ResolveNS(q)
		if moved && !ok1 {
			continue // a subtree may get to see more declarations
		}
		if n1 != n2 || ok1 != ok2 {
			return fmt.Sprintf("%v: %q meant %v and became %v", a.Name, q, n1, n2)
		}
	}
	if len(a.Children) != len(b.Children) {
		return fmt.Sprintf("%v: %d children became %d", a.Name, len(a.Children), len(b.Children))
	}
	for i := range a.Children {
		if d := vSameTree(&a.Children[i], &b.Children[i], prefixes, trim, moved); d != "" {
			return d
		}
	}
	return ""
}

func TestVerifC07(t *testing.T) {
	v := vStart(t, "C07", "marshal", "random documents, parsed, changed with SetAttr, and any of their elements marshalled (Marshal, MarshalIndent, String, Encode): the output is parsed again and compared, prefix meanings and attribute values included",
		"seeded random documents to depth 5 and width 4, attribute values over all XML characters of a small alphabet")
	defer v.Done()
	prefixes := []string{"", "a", "b", "c", "ab"}
	values := append([]string{"<!--", "&amp;", "&#x0;", "\u0085", "a\tb\nc\rd", "<<>>&&\"\"''"}, vValues...)
	for i := 0; i < v.N(5000, 120000) && v.Time(); i++ {
		n := vGenDoc(v.R, vDocOpts{depth: v.R.Intn(6), width: 1 + v.R.Intn(4), noMixed: v.R.Intn(2) == 0})
		v.Case(n.source, true)
		v.Guard("panic", func() {
			root, err := Parse([]byte(n.source))
			if err != nil {
				v.Fail("Parse", "a tree", err)
				return
			}
			all := append([]*Element{root}, vPreorder(root)...)
			change := ""
			if v.R.Intn(2) == 0 {
				e := all[v.R.Intn(len(all))]
				val := values[v.R.Intn(len(values))]
				l := vLocals[v.R.Intn(len(vLocals))]
				e.SetAttr("", l, val)
				change = fmt.Sprintf(" with %s=%q set in %v", l, val, e.Name)
				v.Case(n.source+change, true)
			}
			moved := false
			if v.R.Intn(3) == 0 {
				// a subtree of another document, as long as it does not rely on
				// there being no default namespace
				m := vGenDoc(v.R, vDocOpts{depth: v.R.Intn(3), width: 1 + v.R.Intn(2), noMixed: true})
				other, err := Parse([]byte(m.source))
				if err != nil {
					v.Fail("Parse", "a tree", err)
					return
				}
				subs := append([]*Element{other}, vPreorder(other)...)
				s := subs[v.R.Intn(len(subs))]
				e := all[v.R.Intn(len(all))]
				_, sok := s.ResolveNS("x")
				_, eok := e.ResolveNS("x")
				if sok || !eok {
					moved = true
					name := e.Name
					e.Children = append(e.Children, *s)
					change += fmt.Sprintf(" with %v of %s added to %v", s.Name, m.source, name)
					v.Case(n.source+change, true)
					all = append([]*Element{root}, vPreorder(root)...)
				}
			}
			el := root
			if v.R.Intn(2) == 0 {
				el = all[v.R.Intn(len(all))]
				v.Case(n.source+change+fmt.Sprintf(" element %v", el.Name), true)
			}
			outs := [][]byte{Marshal(el), []byte(el.String()), nil}
			var buf bytes.Buffer
			if err := Encode(&buf, el); err != nil {
				v.Fail("Encode", "no error", err)
			}
			outs[2] = buf.Bytes()
			for _, out := range outs {
				if !bytes.Equal(out, outs[0]) {
					v.Fail("agree", string(outs[0]), string(out))
				}
			}
			check := func(out []byte, trim bool) {
				if d := vDupAttrs(out); d != "" {
					v.Fail("well-formed", "a well-formed document: "+d, string(out))
					return
				}
				back, err := Parse(out)
				if err != nil {
					v.Fail("well-formed", "a document that parses", fmt.Sprintf("%v: %s", err, out))
					return
				}
				if d := vSameTree(el, back, prefixes, trim, moved); d != "" {
					v.Fail("round-trip", "the same tree: "+d, string(out))
				}
			}
			check(outs[0], false)
			ind := []string{"", " ", "\t"}[v.R.Intn(3)]
			check(MarshalIndent(el, "", ind), true)
		})
	}
}

// vDupAttrs reads a document token by token: encoding/xml accepts
// attributes declared twice, which are not well-formed.
func vDupAttrs(doc []byte) string {
	d := xml.NewDecoder(bytes.NewReader(doc))
	for {
		tok, err := d.RawToken()
		if err != nil {
			return ""
		}
		if s, ok := tok.(xml.StartElement); ok {
			seen := map[xml.Name]bool{}
			for _, a := range s.Attr {
				if seen[a.Name] {
					return fmt.Sprintf("attribute %v appears twice in <%s>", a.Name, s.Name.Local)
				}
				seen[a.Name] = true
				if strings.TrimSpace(a.Name.Local) == "" {
					return fmt.Sprintf("an attribute of <%s> has no name", s.Name.Local)
				}
			}
		}
	}
}
