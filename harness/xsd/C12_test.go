package xsd

//verif:use schemas
//verif:use schemause

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC12(t *testing.T) {
	v := vStart(t, "C12", "parse", "random sets of schemas (several namespaces, several schemas per namespace and per document, types in any order): every declared type is there under its name with the right bases, members, elements and attributes; no reference is left dangling; every chain of bases ends in a built-in type; references to what does not exist, and derivations in a circle, are errors",
		"seeded random sets of up to 8 schemas with up to 9 types each")
	defer v.Done()
	parts := map[string]bool{"reference": true, "kind": true, "schemas": true, "declared": true, "global element": true, "document type": true, "chain": true, "list": true, "union": true, "elements": true, "attributes": true, "wildcard": true}
	for i := 0; i < v.N(1500, 40000) && v.Time(); i++ {
		set := sgGenerate(v.R, sgOpts{namespaces: 4, sameNS: true})
		v.Case(set.String(), len(set.schemas) > 1)
		v.Guard("panic", func() {
			got, err := Parse(set.bytes()...)
			if err != nil {
				v.Fail("error", "no error", err)
				return
			}
			c := &sgChecker{v: v, set: set, got: got, each: func(k string) bool { return parts[k] }}
			c.check()
		})
		if i%4 != 0 {
			continue
		}
		// a reference to a type that does not exist
		doc := set.docs[v.R.Intn(len(set.docs))]
		for _, at := range []string{" base=\"", " type=\"", " itemType=\"", " memberTypes=\""} {
			j := strings.Index(doc, at)
			if j < 0 || v.R.Intn(2) == 0 {
				continue
			}
			j += len(at)
			k := j + strings.Index(doc[j:], "\"")
			name := strings.Fields(doc[j:k])[0]
			if v.R.Intn(2) == 0 {
				name += "NoSuchType"
			} else {
				// a type of this name in a namespace there is none of
				name = "nope:" + name[strings.Index(name, ":")+1:]
			}
			bad := doc[:j] + name + doc[k:]
			docs := append([]string{}, set.docs...)
			for x := range docs {
				if docs[x] == doc {
					docs[x] = bad
				}
			}
			v.Case(strings.Join(docs, "\n---\n"), true)
			v.Guard("panic", func() {
				var bs [][]byte
				for _, d := range docs {
					bs = append(bs, []byte(d))
				}
				if _, err := Parse(bs...); err == nil {
					v.Fail("dangling", "an error for the unknown type", "none")
				}
			})
		}
	}
	// circles
	for n := 1; n <= 4; n++ {
		for kind := 0; kind < 3; kind++ {
			var b strings.Builder
			b.WriteString(`<schema xmlns="` + xsNS + `" xmlns:t="urn:t" targetNamespace="urn:t">`)
			for i := 0; i < n; i++ {
				base := fmt.Sprint("t:c", (i+1)%n)
				switch kind {
				case 0:
					fmt.Fprintf(&b, `<complexType name="c%d"><complexContent><extension base="%s"/></complexContent></complexType>`, i, base)
				case 1:
					fmt.Fprintf(&b, `<simpleType name="c%d"><restriction base="%s"/></simpleType>`, i, base)
				case 2:
					fmt.Fprintf(&b, `<simpleType name="c%d"><list itemType="%s"/></simpleType>`, i, base)
				}
			}
			b.WriteString(`</schema>`)
			v.Case(b.String(), true)
			v.Guard("panic", func() {
				if _, err := Parse([]byte(b.String())); err == nil {
					v.Fail("circle", "an error", "none")
				}
			})
		}
	}
	// types that derive from nothing that is said
	for _, s := range []string{`<simpleType name="a"/>`, `<complexType name="a"/>`, `<complexType name="a"><complexContent/></complexType>`, `<complexType name="a"><simpleContent/></complexType>`, `<simpleType name="a"><union/></simpleType>`, `<simpleType name="a"><union memberTypes="  "/></simpleType>`} {
		doc := `<schema xmlns="` + xsNS + `" targetNamespace="urn:t">` + s + `</schema>`
		v.Case(doc, true)
		v.Guard("panic", func() {
			if got, err := Parse([]byte(doc)); err == nil {
				c := &sgChecker{v: v, set: &sgSet{}, got: got, each: func(k string) bool { return parts[k] }}
				c.check()
			}
		})
	}
}
