package xsdgen

import (
	"bytes"
	"fmt"
	"go/ast"
	"sort"
	"strings"
	"testing"
	"time"

	"aqwari.net/xml/internal/gen"
)

type sfField struct {
	name, typ      string // typ: a built-in type, or T and a number
	optional       bool
	plural         bool
	nillable, qual bool
	wildcard       bool
	choice         bool
	def            string
}

type sfType struct {
	n      int
	simple string // the built-in type of its content
	base   int
	elems  []sfField
	attrs  []sfField
}

var sfBuiltins = []string{"string", "int", "boolean", "date", "hexBinary"}
var sfGo = map[string]string{"string": "string", "int": "int", "boolean": "bool", "date": "time.Time", "hexBinary": "[]byte"}
var sfNames = []string{"a", "A", "b", "B", "items", "Items", "item", "value", "aAttr", "a0", "list", "kind", "A0", "bAttr"}

func sfNS(n int) string { return fmt.Sprintf("urn:%d", n%2) }

// sfSpace is the namespace that the parser gives an element of type n.
func sfSpace(e sfField, n int) string {
	if !e.wildcard && e.typ[0] == 'T' {
		fmt.Sscanf(e.typ, "T%d", &n)
	}
	return sfNS(n)
}

func sfRef(t string) string {
	if t[0] == 'T' {
		n := 0
		fmt.Sscanf(t, "T%d", &n)
		return fmt.Sprintf("n%d:%s", n%2, t)
	}
	return "xs:" + t
}

func sfWrite(types []sfType, ns int) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "<xs:schema xmlns:xs=\"http://www.w3.org/2001/XMLSchema\" xmlns:n0=\"urn:0\" xmlns:n1=\"urn:1\" targetNamespace=%q>\n", sfNS(ns))
	fmt.Fprintf(&b, "<xs:import namespace=%q/>\n", sfNS(ns+1))
	for _, t := range types {
		if t.n%2 != ns {
			continue
		}
		fmt.Fprintf(&b, "<xs:complexType name=\"T%d\">", t.n)
		end := ""
		if t.simple != "" && t.base < 0 {
			fmt.Fprintf(&b, "<xs:simpleContent><xs:extension base=\"xs:%s\">", t.simple)
			end = "</xs:extension></xs:simpleContent>"
		} else if t.simple != "" {
			fmt.Fprintf(&b, "<xs:simpleContent><xs:extension base=%q>", sfRef(fmt.Sprintf("T%d", t.base)))
			end = "</xs:extension></xs:simpleContent>"
		} else if t.base >= 0 {
			fmt.Fprintf(&b, "<xs:complexContent><xs:extension base=%q>", sfRef(fmt.Sprintf("T%d", t.base)))
			end = "</xs:extension></xs:complexContent>"
		}
		group := func(choice bool, name string) {
			fmt.Fprintf(&b, "<xs:%s>", name)
			for _, e := range t.elems {
				if e.choice != choice {
					continue
				}
				attrs := ""
				if e.optional && !choice {
					attrs += " minOccurs=\"0\""
				}
				if e.plural {
					attrs += " maxOccurs=\"unbounded\""
				}
				if e.wildcard {
					fmt.Fprintf(&b, "<xs:any%s/>", attrs)
					continue
				}
				if e.nillable {
					attrs += " nillable=\"true\""
				}
				if e.def != "" {
					attrs += fmt.Sprintf(" default=%q", e.def)
				}
				fmt.Fprintf(&b, "<xs:element name=%q type=%q%s/>", e.name, sfRef(e.typ), attrs)
			}
		}
		if t.simple == "" && len(t.elems) > 0 {
			group(false, "sequence")
			group(true, "choice")
			b.WriteString("</xs:choice></xs:sequence>")
		}
		for _, a := range t.attrs {
			attrs := ""
			if !a.optional {
				attrs += " use=\"required\""
			}
			if a.qual {
				attrs += " form=\"qualified\""
			}
			if a.def != "" {
				attrs += fmt.Sprintf(" default=%q", a.def)
			}
			fmt.Fprintf(&b, "<xs:attribute name=%q type=%q%s/>", a.name, sfRef(a.typ), attrs)
		}
		fmt.Fprintf(&b, "%s</xs:complexType>\n", end)
	}
	b.WriteString("</xs:schema>\n")
	return b.String()
}

func TestVerifC20(t *testing.T) {
	v := vStart(t, "C20", "structs", "the struct for every complex type has exactly one field, with a name of its own and the right type and tag, for each element and attribute that it has or inherits and that options do not leave out; generation ends",
		"seeded random sets of up to 7 complex types in two namespaces, with extensions, circular references, built-in types, wildcards, choices, defaults and names that collide; with and without ignored elements and attributes")
	defer v.Done()
	for i := 0; i < v.N(700, 9000) && v.Time(); i++ {
		n := 1 + v.R.Intn(7)
		var types []sfType
		many := v.R.Intn(60) == 0
		for j := 0; j < n; j++ {
			ty := sfType{n: j, base: -1}
			if v.R.Intn(4) == 0 {
				ty.simple = sfBuiltins[v.R.Intn(len(sfBuiltins))]
			}
			if j > 0 && v.R.Intn(2) == 0 {
				ty.base = v.R.Intn(j)
				ty.simple = types[ty.base].simple
			}
			names := v.R.Perm(len(sfNames))
			if ty.simple == "" {
				hasAny := false
				for b := ty.base; b >= 0; b = types[b].base {
					for _, e := range types[b].elems {
						hasAny = hasAny || e.wildcard
					}
				}
				for k := v.R.Intn(5); k > 0; k-- {
					e := sfField{name: sfNames[names[k]], optional: v.R.Intn(3) == 0, plural: v.R.Intn(3) == 0, nillable: v.R.Intn(5) == 0, choice: v.R.Intn(3) == 0}
					e.typ = sfBuiltins[v.R.Intn(len(sfBuiltins))]
					if v.R.Intn(2) == 0 {
						e.typ = fmt.Sprintf("T%d", v.R.Intn(n))
					} else if (e.typ == "int" || e.typ == "string") && v.R.Intn(3) == 0 && !e.plural {
						e.def = "7"
					}
					ty.elems = append(ty.elems, e)
				}
				if many && j == 0 {
					for k := 0; k < 1100; k++ {
						ty.elems = append(ty.elems, sfField{name: fmt.Sprintf("x%d", k), typ: "int"})
					}
					many = false
				}
				if !hasAny && v.R.Intn(4) == 0 {
					ty.elems = append(ty.elems, sfField{wildcard: true, plural: v.R.Intn(2) == 0})
				}
			}
			names = v.R.Perm(len(sfNames))
			k := v.R.Intn(4)
			if ty.simple != "" && k == 0 {
				k = 1
			}
			for ; k > 0; k-- {
				a := sfField{name: sfNames[names[k]], typ: sfBuiltins[v.R.Intn(len(sfBuiltins))], optional: v.R.Intn(2) == 0}
				a.qual = strings.Contains(a.name, "b") && v.R.Intn(2) == 0
				if (a.typ == "int" || a.typ == "string") && v.R.Intn(3) == 0 {
					a.def = "8"
				}
				ty.attrs = append(ty.attrs, a)
			}
			types = append(types, ty)
		}
		noElem, noAttr := map[string]bool{}, map[string]bool{}
		var opts []Option
		opts = append(opts, Replace("^x[0-9]+$", "x"))
		if v.R.Intn(3) == 0 {
			var l []string
			for k := v.R.Intn(3); k >= 0; k-- {
				l = append(l, sfNames[v.R.Intn(len(sfNames))])
				noElem[l[len(l)-1]] = true
			}
			opts = append(opts, IgnoreElements(l...))
		}
		if v.R.Intn(3) == 0 {
			var l []string
			for k := v.R.Intn(3); k >= 0; k-- {
				l = append(l, sfNames[v.R.Intn(len(sfNames))])
				noAttr[l[len(l)-1]] = true
			}
			opts = append(opts, IgnoreAttributes(l...))
		}
		s0, s1 := sfWrite(types, 0), sfWrite(types, 1)
		v.Case(fmt.Sprintf("%s%signoring elements %v, attributes %v", s0, s1, noElem, noAttr), n > 2)

		// what the types have
		type member struct {
			sfField
			ns string
		}
		var elems, attrs [][]member
		for j, ty := range types {
			var es, as []member
			own := map[string]bool{}
			wild := false
			for _, e := range ty.elems {
				if e.wildcard {
					wild = true
				} else {
					own[e.name+" "+sfSpace(e, j)] = true
				}
				es = append(es, member{e, sfSpace(e, j)})
			}
			ownAttr := map[string]bool{}
			for _, a := range ty.attrs {
				ownAttr[a.name+" "+sfNS(j)] = true
				as = append(as, member{a, sfNS(j)})
			}
			if ty.base >= 0 {
				for _, e := range elems[ty.base] {
					if e.wildcard && !wild || !e.wildcard && !own[e.name+" "+e.ns] {
						es = append(es, e)
					}
				}
				for _, a := range attrs[ty.base] {
					if !ownAttr[a.name+" "+a.ns] {
						as = append(as, a)
					}
				}
			}
			elems, attrs = append(elems, es), append(attrs, as)
		}
		// types whose attributes are all left out are the types of their content
		goType := func(s string) string {
			if s[0] != 'T' {
				return sfGo[s]
			}
			return s
		}
		plain := false
		for j, ty := range types {
			left := 0
			for _, a := range attrs[j] {
				if !noAttr[a.name] {
					left++
				}
			}
			if ty.simple != "" && left == 0 {
				plain = true
			}
		}
		if plain {
			// which of the types is generated is not decided by this property
			continue
		}

		var code *Code
		var err error
		ended := make(chan bool, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v", r)
				}
				ended <- true
			}()
			var cfg Config
			cfg.Option(opts...)
			code, err = cfg.GenCode([]byte(s0), []byte(s1))
		}()
		select {
		case <-ended:
		case <-time.After(30 * time.Second):
			v.Fail("endless", "generation ends", "no result after 30 seconds")
			return
		}
		if err != nil {
			v.Fail("error", "code", fmt.Sprint(err))
			continue
		}
		v.Guard("structs-panic", func() {
			for j, ty := range types {
				decl, ok := code.decls[fmt.Sprintf("T%d", j)]
				if !ok {
					v.Fail("missing", fmt.Sprintf("a type T%d", j), "none")
					continue
				}
				str, ok := decl.expr.(*ast.StructType)
				if !ok {
					v.Fail("no-struct", fmt.Sprintf("T%d is a struct", j), fmt.Sprintf("%T", decl.expr))
					continue
				}
				var want, got []string
				// the Go names that only one member has
				owners := map[string]int{}
				tagName := map[string]string{}
				add := func(name, typ, tag string) {
					if name != "" && name[0] == 'X' {
						name = "X"
					}
					want = append(want, typ+" "+tag)
					if name != "" {
						owners[name]++
						tagName[tag] = name
					}
				}
				if ty.simple != "" {
					add("Value", goType(ty.simple), `xml:",chardata"`)
				}
				for _, e := range elems[j] {
					if e.wildcard {
						typ, name := "string", "Item"
						if e.plural {
							typ, name = "[]string", "Items"
						}
						add(name, typ, `xml:",any"`)
						continue
					}
					if noElem[e.name] {
						continue
					}
					tag := fmt.Sprintf(`xml:"%s %s"`, e.ns, e.name)
					if e.optional || e.nillable || e.choice || e.def != "" {
						tag = fmt.Sprintf(`xml:"%s %s,omitempty"`, e.ns, e.name)
					}
					typ := goType(e.typ)
					if e.plural {
						typ = "[]" + typ
					}
					add(strings.Title(e.name), typ, tag)
				}
				for _, a := range attrs[j] {
					if noAttr[a.name] {
						continue
					}
					tag := a.name + ",attr"
					if a.qual {
						tag = a.ns + " " + tag
					}
					if a.optional {
						tag += ",omitempty"
					}
					add(strings.Title(a.name), goType(a.typ), fmt.Sprintf(`xml:"%s"`, tag))
				}
				seen := map[string]bool{}
				for _, f := range str.Fields.List {
					if len(f.Names) != 1 || f.Tag == nil {
						v.Fail("field", "a name and a tag", fmt.Sprintf("%+v", f))
						return
					}
					typ, err := gen.ToString(f.Type)
					if err != nil {
						v.Fail("field-type", "a type", fmt.Sprint(err))
					}
					name := f.Names[0].Name
					tag := strings.Trim(f.Tag.Value, "`")
					got = append(got, typ+" "+tag)
					if seen[name] {
						v.Fail("twice", "one field per name", fmt.Sprintf("T%d has several fields %s", j, name))
					}
					seen[name] = true
					if w := tagName[tag]; w != "" && owners[w] == 1 && !strings.Contains(w, "Attr") && !strings.Contains(w, "0") && name != w {
						v.Fail("name", fmt.Sprintf("%s of T%d for %s", w, j, tag), name)
					} else if w != "" && !strings.HasPrefix(name, w) {
						v.Fail("name-prefix", fmt.Sprintf("%s… of T%d for %s", w, j, tag), name)
					}
				}
				sort.Strings(want)
				sort.Strings(got)
				if strings.Join(want, "\n") != strings.Join(got, "\n") {
					v.Fail("fields", fmt.Sprintf("T%d: %.900s", j, strings.Join(want, "; ")), fmt.Sprintf("%.900s", strings.Join(got, "; ")))
				}
			}
		})
	}
}
