package xsd

import (
	"encoding/xml"
	"fmt"
	"math/rand"
	"strings"
	"testing"
)

// A random set of schemas with references to elements, attributes, groups and
// attribute groups, of their own namespace and of others, and what each of
// its types is made of.

type rgField struct {
	local, def        string
	typ               xml.Name
	optional, plural  bool
	nillable, isAttr  bool
}

func (f rgField) String() string {
	kind := "element"
	if f.isAttr {
		kind = "attribute"
	}
	return fmt.Sprintf("%s %s {%s}%s optional=%v plural=%v nillable=%v default=%q", kind, f.local, f.typ.Space, f.typ.Local, f.optional, f.plural, f.nillable, f.def)
}

type rgDef struct {
	name   xml.Name
	ns     int
	text   string
	fields []rgField
}

type rgSet struct {
	r       *rand.Rand
	n       int // namespaces
	counter int
	used    []map[int]bool // namespaces named in each schema
	prefix  [][]string
	simple  [][]xml.Name
	elems, attrs, groups, agroups []rgDef
	types   []rgDef
	body    []strings.Builder
	choice  bool
	noprefix bool
}

func (s *rgSet) uri(ns int) string { return fmt.Sprintf("urn:n%d", ns) }

func (s *rgSet) fresh(p string) string { s.counter++; return fmt.Sprintf("%s%d", p, s.counter) }

// q names something in the schema of a namespace.
func (s *rgSet) q(at int, name xml.Name) string {
	if name.Space == schemaNS {
		return "xs:" + name.Local
	}
	for i := 0; i < s.n; i++ {
		if s.uri(i) == name.Space {
			s.used[at][i] = true
			return s.prefix[at][i] + ":" + name.Local
		}
	}
	panic(name)
}

func (s *rgSet) typeName() xml.Name {
	switch s.r.Intn(3) {
	case 0:
		return xml.Name{Space: schemaNS, Local: []string{"int", "string", "date", "boolean"}[s.r.Intn(4)]}
	default:
		l := s.simple[s.r.Intn(s.n)]
		return l[s.r.Intn(len(l))]
	}
}

func (s *rgSet) occurs(f *rgField) string {
	t := ""
	switch s.r.Intn(6) {
	case 0:
		t, f.optional = ` minOccurs="0"`, true
	case 1:
		t, f.plural = ` maxOccurs="unbounded"`, true
	case 2:
		t, f.plural, f.optional = ` minOccurs="0" maxOccurs="7"`, true, true
	}
	return t
}

func (s *rgSet) elemOwn(f *rgField) string {
	t := ""
	switch s.r.Intn(5) {
	case 0:
		t, f.nillable = ` nillable="true"`, true
	case 1:
		f.def, f.optional = s.fresh("d"), true
		t = fmt.Sprintf(` default="%s"`, f.def)
	}
	return t
}

func (s *rgSet) attrOwn(f *rgField) string {
	t := ""
	f.optional = true
	switch s.r.Intn(5) {
	case 0:
		t, f.optional = ` use="required"`, false
	case 1:
		f.def = s.fresh("d")
		t = fmt.Sprintf(` default="%s"`, f.def)
	}
	return t
}

// particle is an element, a reference to one or to a group, or a sequence or
// choice, in the schema of a namespace.
func (s *rgSet) particle(at, depth int) (string, []rgField) {
	k := s.r.Intn(8)
	switch {
	case k < 2 && depth > 0:
		var all []rgField
		var b strings.Builder
		for i := 1 + s.r.Intn(3); i > 0; i-- {
			t, f := s.particle(at, depth-1)
			b.WriteString(t)
			all = append(all, f...)
		}
		return "<xs:sequence>" + b.String() + "</xs:sequence>", all
	case k < 3 && s.choice:
		var all []rgField
		var b strings.Builder
		for i := 1 + s.r.Intn(3); i > 0; i-- {
			t, f := s.element(at)
			f.optional = true
			b.WriteString(t)
			all = append(all, f)
		}
		return "<xs:choice>" + b.String() + "</xs:choice>", all
	case k < 5 && len(s.groups) > 0:
		g := s.groups[s.r.Intn(len(s.groups))]
		return fmt.Sprintf(`<xs:group ref="%s"/>`, s.q(at, g.name)), g.fields
	}
	t, f := s.element(at)
	return t, []rgField{f}
}

func (s *rgSet) element(at int) (string, rgField) {
	if len(s.elems) > 0 && s.r.Intn(2) == 0 {
		e := s.elems[s.r.Intn(len(s.elems))]
		f := e.fields[0]
		occ := s.occurs(&f)
		return fmt.Sprintf(`<xs:element ref="%s"%s/>`, s.q(at, e.name), occ), f
	}
	f := rgField{local: s.fresh("e"), typ: s.typeName()}
	return fmt.Sprintf(`<xs:element name="%s" type="%s"%s%s/>`, f.local, s.q(at, f.typ), s.occurs(&f), s.elemOwn(&f)), f
}

func (s *rgSet) attribute(at int) (string, []rgField) {
	switch k := s.r.Intn(4); {
	case k == 0 && len(s.attrs) > 0:
		a := s.attrs[s.r.Intn(len(s.attrs))]
		f := a.fields[0]
		over := ""
		switch s.r.Intn(3) {
		case 0:
			f.def = s.fresh("d")
			over = fmt.Sprintf(` default="%s"`, f.def)
		case 1:
			f.optional = false
			over = ` use="required"`
		}
		return fmt.Sprintf(`<xs:attribute ref="%s"%s/>`, s.q(at, a.name), over), []rgField{f}
	case k == 1 && len(s.agroups) > 0:
		g := s.agroups[s.r.Intn(len(s.agroups))]
		return fmt.Sprintf(`<xs:attributeGroup ref="%s"/>`, s.q(at, g.name)), g.fields
	}
	f := rgField{local: s.fresh("a"), typ: s.typeName(), isAttr: true}
	return fmt.Sprintf(`<xs:attribute name="%s" type="%s"%s/>`, f.local, s.q(at, f.typ), s.attrOwn(&f)), []rgField{f}
}

func (s *rgSet) attributes(at int) (string, []rgField) {
	var b strings.Builder
	var all []rgField
	for i := s.r.Intn(4); i > 0; i-- {
		t, f := s.attribute(at)
		b.WriteString(t)
		all = append(all, f...)
	}
	return b.String(), all
}

func rgGenerate(r *rand.Rand, choice, noprefix bool) *rgSet {
	s := &rgSet{r: r, n: 1 + r.Intn(3), choice: choice, noprefix: noprefix}
	s.body = make([]strings.Builder, s.n)
	names := []string{"p", "q", "r", "s", "t"}
	for i := 0; i < s.n; i++ {
		s.used = append(s.used, map[int]bool{i: true})
		perm := r.Perm(len(names))
		if noprefix { // a prefix the others do not use for something else
			perm = []int{0, 1, 2}
		}
		var p []string
		for j := 0; j < s.n; j++ {
			p = append(p, names[perm[j]])
		}
		s.prefix = append(s.prefix, p)
		var l []xml.Name
		for j := 0; j < 2; j++ {
			n := xml.Name{Space: s.uri(i), Local: s.fresh("S")}
			l = append(l, n)
			fmt.Fprintf(&s.body[i], `<xs:simpleType name="%s"><xs:restriction base="xs:string"/></xs:simpleType>`, n.Local)
		}
		s.simple = append(s.simple, l)
	}
	var defs [][]string = make([][]string, s.n)
	add := func(ns int, text string) { defs[ns] = append(defs[ns], text) }
	for i := 4 + r.Intn(10); i > 0; i-- {
		ns := r.Intn(s.n)
		switch r.Intn(5) {
		case 0:
			f := rgField{local: s.fresh("ge"), typ: s.typeName()}
			add(ns, fmt.Sprintf(`<xs:element name="%s" type="%s"%s/>`, f.local, s.q(ns, f.typ), s.elemOwn(&f)))
			s.elems = append(s.elems, rgDef{name: xml.Name{Space: s.uri(ns), Local: f.local}, fields: []rgField{f}})
		case 1:
			f := rgField{local: s.fresh("ga"), typ: s.typeName(), isAttr: true}
			t := s.attrOwn(&f)
			if strings.Contains(t, "use") { // not allowed at the top
				t, f.optional = "", true
			}
			add(ns, fmt.Sprintf(`<xs:attribute name="%s" type="%s"%s/>`, f.local, s.q(ns, f.typ), t))
			s.attrs = append(s.attrs, rgDef{name: xml.Name{Space: s.uri(ns), Local: f.local}, fields: []rgField{f}})
		case 2:
			name := s.fresh("G")
			var b strings.Builder
			var all []rgField
			for j := 1 + r.Intn(3); j > 0; j-- {
				t, f := s.particle(ns, 1)
				b.WriteString(t)
				all = append(all, f...)
			}
			add(ns, fmt.Sprintf(`<xs:group name="%s"><xs:sequence>%s</xs:sequence></xs:group>`, name, b.String()))
			s.groups = append(s.groups, rgDef{name: xml.Name{Space: s.uri(ns), Local: name}, fields: all})
		case 3:
			name := s.fresh("AG")
			t, f := s.attributes(ns)
			add(ns, fmt.Sprintf(`<xs:attributeGroup name="%s">%s</xs:attributeGroup>`, name, t))
			s.agroups = append(s.agroups, rgDef{name: xml.Name{Space: s.uri(ns), Local: name}, fields: f})
		case 4:
			name := s.fresh("T")
			var b strings.Builder
			var all []rgField
			for j := r.Intn(3); j > 0; j-- {
				t, f := s.particle(ns, 2)
				b.WriteString(t)
				all = append(all, f...)
			}
			content := "<xs:sequence>" + b.String() + "</xs:sequence>"
			if len(s.groups) > 0 && r.Intn(4) == 0 {
				g := s.groups[r.Intn(len(s.groups))]
				content, all = fmt.Sprintf(`<xs:group ref="%s"/>`, s.q(ns, g.name)), append([]rgField(nil), g.fields...)
			}
			t, f := s.attributes(ns)
			content += t
			all = append(append([]rgField(nil), all...), f...)
			if r.Intn(4) == 0 {
				content = fmt.Sprintf(`<xs:complexContent><xs:restriction base="xs:anyType">%s</xs:restriction></xs:complexContent>`, content)
			}
			add(ns, fmt.Sprintf(`<xs:complexType name="%s">%s</xs:complexType>`, name, content))
			s.types = append(s.types, rgDef{name: xml.Name{Space: s.uri(ns), Local: name}, fields: all})
		}
	}
	// types with elements and attributes of their own that have the names of
	// global ones
	for _, l := range [][]rgDef{s.elems, s.attrs} {
		for _, d := range l {
			if r.Intn(3) != 0 {
				continue
			}
			ns := 0
			for s.uri(ns) != d.name.Space {
				ns++
			}
			f := rgField{local: d.name.Local, typ: s.typeName(), isAttr: d.fields[0].isAttr}
			name := s.fresh("T")
			if f.isAttr {
				add(ns, fmt.Sprintf(`<xs:complexType name="%s"><xs:attribute name="%s" type="%s"%s/></xs:complexType>`, name, f.local, s.q(ns, f.typ), s.attrOwn(&f)))
			} else {
				add(ns, fmt.Sprintf(`<xs:complexType name="%s"><xs:sequence><xs:element name="%s" type="%s"%s/></xs:sequence></xs:complexType>`, name, f.local, s.q(ns, f.typ), s.occurs(&f)))
			}
			s.types = append(s.types, rgDef{name: xml.Name{Space: s.uri(ns), Local: name}, fields: []rgField{f}})
		}
	}
	for ns := range defs {
		r.Shuffle(len(defs[ns]), func(i, j int) { defs[ns][i], defs[ns][j] = defs[ns][j], defs[ns][i] })
		s.body[ns].WriteString(strings.Join(defs[ns], ""))
	}
	return s
}

func (s *rgSet) docs() (docs [][]byte) {
	for _, ns := range s.r.Perm(s.n) {
		decl := ""
		for i := 0; i < s.n; i++ {
			if s.used[ns][i] || !s.noprefix {
				decl += fmt.Sprintf(` xmlns:%s="%s"`, s.prefix[ns][i], s.uri(i))
			}
		}
		docs = append(docs, []byte(fmt.Sprintf(`<xs:schema xmlns:xs="%s" targetNamespace="%s"%s>%s</xs:schema>`, schemaNS, s.uri(ns), decl, s.body[ns].String())))
	}
	return docs
}

func rgRepeats(fields []rgField) bool {
	seen := make(map[string]bool)
	for _, f := range fields {
		if seen[f.local] {
			return true
		}
		seen[f.local] = true
	}
	return false
}

func rgCheck(v *vRun, s *rgSet) {
	docs := s.docs()
	desc := ""
	for _, d := range docs {
		desc += string(d) + "\n"
	}
	n := 0
	for _, t := range s.types {
		if !rgRepeats(t.fields) {
			n += len(t.fields)
		}
	}
	v.Case(desc, n > 3)
	v.Guard("panic", func() {
		got, err := Parse(docs...)
		if err != nil {
			v.Fail("error", "no error", err)
			return
		}
		for _, t := range s.types {
			if rgRepeats(t.fields) {
				continue // the same element twice is one field
			}
			var c *ComplexType
			for i := range got {
				if got[i].TargetNS == t.name.Space {
					if x, ok := got[i].Types[t.name].(*ComplexType); ok {
						c = x
					}
				}
			}
			if c == nil {
				v.Fail("missing-type", t.name, nil)
				continue
			}
			var want, have []string
			for _, f := range t.fields {
				want = append(want, f.String())
			}
			for _, e := range c.Elements {
				have = append(have, rgField{local: e.Name.Local, typ: XMLName(e.Type), optional: e.Optional, plural: e.Plural, nillable: e.Nillable, def: e.Default}.String())
			}
			for _, a := range c.Attributes {
				have = append(have, rgField{local: a.Name.Local, typ: XMLName(a.Type), optional: a.Optional, def: a.Default, isAttr: true}.String())
			}
			if strings.Join(want, "\n") != strings.Join(have, "\n") {
				v.Fail("fields", t.name.Local+":\n"+strings.Join(want, "\n"), strings.Join(have, "\n"))
			}
		}
	})
}

func TestVerifC17(t *testing.T) {
	v := vStart(t, "C17", "references", "random schemas whose types and groups refer to elements, attributes, groups and attribute groups, their own and those of other namespaces, nested, declared in any order, each schema with its own prefixes for them: every type has the elements and attributes it would have if what is referred to stood in its place",
		"seeded random sets of schemas of up to 3 namespaces and 14 definitions")
	defer v.Done()
	for i := 0; i < v.N(3000, 60000) && v.Time(); i++ {
		rgCheck(v, rgGenerate(v.R, i%2 == 0, i%3 == 0))
	}
}

// A schema with no prefix for the namespace of the type of what it refers to,
// which uses the prefix that namespace has elsewhere for another one.
func TestVerifC17Shadowed(t *testing.T) {
	v := vStart(t, "C17", "shadowed", "one reference to an element of another namespace, whose type is of a third one, for which the referring schema has no prefix and whose prefix it uses for itself",
		"1 set of schemas")
	defer v.Done()
	docs := []string{
		`<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:c" xmlns:c="urn:c"><xs:simpleType name="S"><xs:restriction base="xs:string"/></xs:simpleType></xs:schema>`,
		`<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:b" xmlns:b="urn:b" xmlns:p="urn:c"><xs:element name="e" type="p:S"/></xs:schema>`,
		`<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:a" xmlns:p="urn:a" xmlns:b="urn:b"><xs:complexType name="T"><xs:sequence><xs:element ref="b:e"/></xs:sequence></xs:complexType></xs:schema>`,
	}
	v.Case(strings.Join(docs, "\n"), true)
	v.Guard("panic", func() {
		if _, err := Parse([]byte(docs[0]), []byte(docs[1]), []byte(docs[2])); err != nil {
			v.Fail("prefix-used-for-another-namespace", "no error", err)
		}
	})
}

// A group among the alternatives of a choice.
func TestVerifC17Choice(t *testing.T) {
	v := vStart(t, "C17", "choice", "one reference to a group as an alternative of a choice: its elements need not be there",
		"1 schema")
	defer v.Done()
	doc := `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:a" xmlns:a="urn:a"><xs:group name="G"><xs:sequence><xs:element name="e" type="xs:int"/></xs:sequence></xs:group><xs:complexType name="T"><xs:choice><xs:group ref="a:G"/><xs:element name="f" type="xs:int"/></xs:choice></xs:complexType></xs:schema>`
	v.Case(doc, true)
	v.Guard("panic", func() {
		got, err := Parse([]byte(doc))
		if err != nil {
			v.Fail("error", "no error", err)
			return
		}
		c := got[0].Types[xml.Name{Space: "urn:a", Local: "T"}].(*ComplexType)
		for _, e := range c.Elements {
			if !e.Optional {
				v.Fail("group-in-choice-"+e.Name.Local, "optional", "required")
			}
		}
	})
}
