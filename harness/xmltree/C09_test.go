package xmltree

//verif:use scopes
//verif:use docs
//verif:use docuse

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
)

func TestVerifC09(t *testing.T) {
	v := vStart(t, "C09", "parse", "random documents, with and without XML declarations, comments and document types around the root, in UTF-8 and other charsets: each element's name, attributes, text between its tags and children compared with the model; the document compared with a copy afterwards; truncated and mismatched documents; depth limit",
		"seeded random documents to depth 6 and width 5; every truncation of the smaller ones; nesting to 6000")
	defer v.Done()
	latin := func(s string) ([]byte, bool) {
		var b []byte
		for _, r := range s {
			if r > 255 {
				return nil, false
			}
			b = append(b, byte(r))
		}
		return b, true
	}
	utf8of := func(s string) string { return s }
	for i := 0; i < v.N(5000, 120000) && v.Time(); i++ {
		n := vGenDoc(v.R, vDocOpts{depth: v.R.Intn(6), width: 1 + v.R.Intn(5)})
		head := []string{"", "", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0' encoding='utf-8'?><!-- c -->", "\n<!-- first <e> -->\n", "<!DOCTYPE e>\n", "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>", "<?xml version=\"1.0\" encoding=\"latin1\"?>\n", "<?xml version=\"1.0\" encoding=\"windows-1252\"?>\n\n<!-- é -->"}[v.R.Intn(10)]
		foot := []string{"", "\n", "<!-- last -->", "\n<?pi?>\n"}[v.R.Intn(4)]
		text := utf8of(head + n.source + foot)
		doc := []byte(text)
		if strings.Contains(head, "8859") || strings.Contains(head, "latin") || strings.Contains(head, "1252") {
			l, ok := latin(text)
			if !ok {
				continue
			}
			doc = l
		}
		// spare capacity that a parser must not rely on, or write to
		extra := v.R.Intn(3) * 7
		full := make([]byte, len(doc)+extra)
		copy(full, doc)
		doc = full[:len(doc):len(doc)+v.R.Intn(extra+1)]
		before := append([]byte(nil), full...)
		v.Case(string(doc), true)
		v.Guard("panic", func() {
			root, err := Parse(doc)
			if err != nil {
				v.Fail("Parse", "a tree", err)
				return
			}
			if d := vMatches(n, root, !strings.Contains(string(doc), "\r")); d != "" {
				v.Fail("tree", "the elements as written", d)
			}
			if !bytes.Equal(full, before) {
				v.Fail("frame", "the document unchanged", string(full))
			}
			_ = root.String()
			_ = root.Flatten()
			if !bytes.Equal(full, before) {
				v.Fail("frame", "the document unchanged by reading the tree", string(full))
			}
		})
		if i%10 == 0 && len(n.source) < 400 {
			for k := 0; k < len(n.source); k++ {
				if v.Thorough || v.R.Intn(4) == 0 {
					v.Case("truncated: "+n.source[:k], true)
					v.Guard("panic", func() {
						if root, err := Parse([]byte(n.source[:k])); err == nil {
							v.Fail("truncated", "an error", root.String())
						}
					})
				}
			}
			bad := strings.Replace(n.source, "</"+n.qname(), "</"+n.qname()+"q", -1)
			if bad != n.source {
				v.Case("mismatched: "+bad, true)
				v.Guard("panic", func() {
					if _, err := Parse([]byte(bad)); err == nil {
						v.Fail("mismatched", "an error", "no error")
					}
				})
			}
		}
	}
	for _, d := range []int{1, 2, 100, 999, 1000, 1001, 2999, 3000, 3001, 3002, 3500, 6000} {
		v.Case(fmt.Sprintf("%d nested elements", d), true)
		v.Guard("panic", func() {
			root, err := Parse([]byte(strings.Repeat("<a>", d) + "t" + strings.Repeat("</a>", d)))
			if d <= 3000 && err != nil {
				v.Fail("depth", "a tree", err)
			}
			if d > 3001 && err == nil {
				v.Fail("depth", "an error", fmt.Sprint("a tree of ", len(root.Flatten())+1))
			}
			if err == nil {
				for k, e := 1, root; ; k++ {
					want := strings.Repeat("<a>", d-k) + "t" + strings.Repeat("</a>", d-k)
					if string(e.Content) != want {
						v.Fail("depth", "the content", fmt.Sprint("level ", k))
						break
					}
					if len(e.Children) == 0 {
						if k != d {
							v.Fail("depth", d, k)
						}
						break
					}
					e = &e.Children[0]
				}
			}
		})
	}
}
