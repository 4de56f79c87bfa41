package wsdl

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"
)

// A random definition: what is declared, independent of how it is written.
type wgMessage struct {
	name  string
	parts []Part
}

type wgOp struct {
	name    string
	docs    []string
	in, out *xml.Name
}

type wgPortType struct {
	name string
	ops  []wgOp
}

type wgBinding struct {
	name    string
	typ     xml.Name
	verb    string
	soap    string // namespace of its soap elements
	actions [][2]string
}

type wgPort struct {
	name    string
	binding xml.Name
	addr    [][2]string // namespace, location
}

type wgService struct {
	name  string
	docs  []string
	ports []wgPort
}

type wgDef struct {
	tns      string
	messages []wgMessage
	types    []wgPortType
	bindings []wgBinding
	services []wgService
}

func wgPick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

func wgGenerate(r *rand.Rand) *wgDef {
	d := &wgDef{tns: wgPick(r, "urn:t", "http://example.com/?a=1&b", "urn:T")}
	other := "urn:other"
	ns := func() string {
		if r.Intn(5) == 0 {
			return other
		}
		return d.tns
	}
	used := map[string]bool{}
	name := func(kind string) string {
		for {
			n := wgPick(r, "A", "B", "a", "Get", "Set", "get", "É", "x-y", "Get.2")
			if r.Intn(2) == 0 {
				n += wgPick(r, "1", "2", "In", "Out")
			}
			if !used[kind+n] {
				used[kind+n] = true
				return n
			}
		}
	}
	for i := r.Intn(4); i >= 0; i-- {
		m := wgMessage{name: name("m")}
		for j := r.Intn(4); j > 0; j-- {
			p := Part{Name: wgPick(r, "p", "q", "parameters", "")}
			if r.Intn(2) == 0 {
				p.Type = xml.Name{Space: wgPick(r, xsdNS, d.tns, other), Local: wgPick(r, "string", "T")}
			}
			if r.Intn(2) == 0 {
				p.Element = xml.Name{Space: ns(), Local: wgPick(r, "e", "f")}
			}
			m.parts = append(m.parts, p)
		}
		d.messages = append(d.messages, m)
	}
	msg := func() *xml.Name {
		if r.Intn(4) == 0 {
			return nil
		}
		return &xml.Name{Space: ns(), Local: d.messages[r.Intn(len(d.messages))].name}
	}
	for i := r.Intn(3); i >= 0; i-- {
		t := wgPortType{name: name("t")}
		for j := r.Intn(4); j > 0; j-- {
			op := wgOp{name: name(fmt.Sprint("o", i)), in: msg(), out: msg()}
			for k := r.Intn(3); k > 0; k-- {
				op.docs = append(op.docs, wgPick(r, "does it", "", " two\nlines ", "é", "a b"))
			}
			t.ops = append(t.ops, op)
		}
		d.types = append(d.types, t)
	}
	for i := r.Intn(4); i >= 0; i-- {
		t := d.types[r.Intn(len(d.types))]
		b := wgBinding{name: name("b"), typ: xml.Name{Space: ns(), Local: t.name}, soap: wgPick(r, soapNS, soapNS, soap12NS)}
		if r.Intn(3) == 0 {
			b.verb = wgPick(r, "GET", "post", "Put")
		}
		for _, j := range r.Perm(len(t.ops)) {
			if r.Intn(5) > 0 {
				b.actions = append(b.actions, [2]string{t.ops[j].name, wgPick(r, "urn:act/", "http://x/", "") + t.ops[j].name})
			}
		}
		if r.Intn(4) == 0 {
			b.actions = append(b.actions, [2]string{"unrelated", "urn:unrelated"})
		}
		d.bindings = append(d.bindings, b)
	}
	s := wgService{name: name("s")}
	for k := r.Intn(3); k > 0; k-- {
		s.docs = append(s.docs, wgPick(r, "the service", "more", ""))
	}
	for i := r.Intn(4); i > 0; i-- {
		p := wgPort{name: name("p"), binding: xml.Name{Space: ns(), Local: d.bindings[r.Intn(len(d.bindings))].name}}
		for j := r.Intn(3); j > 0; j-- {
			p.addr = append(p.addr, [2]string{wgPick(r, soapNS, soap12NS, httpNS), wgPick(r, "http://a/", "https://b.example/c?d=e&f=g", "")})
		}
		s.ports = append(s.ports, p)
	}
	d.services = append(d.services, s)
	return d
}

// write writes the definition down with random prefixes, in random order.
func (d *wgDef) write(r *rand.Rand) []byte {
	type pfx struct{ p, ns string }
	def := wgPick(r, wsdlNS, "", d.tns)
	var decl []pfx
	if def != "" {
		decl = append(decl, pfx{"", def})
	}
	decl = append(decl, pfx{"tns", d.tns}, pfx{"o", "urn:other"}, pfx{"xsd", xsdNS}, pfx{"w", wsdlNS}, pfx{"soap", soapNS}, pfx{"s12", soap12NS}, pfx{"http", httpNS})
	if r.Intn(3) == 0 {
		decl = append(decl, pfx{"t2", d.tns})
	}
	esc := func(s string) string {
		var b bytes.Buffer
		xml.EscapeText(&b, []byte(s))
		return b.String()
	}
	qname := func(n xml.Name) string {
		var l []string
		for _, p := range decl {
			if p.ns == n.Space {
				if p.p == "" {
					l = append(l, n.Local)
				} else {
					l = append(l, p.p+":"+n.Local)
				}
			}
		}
		return l[r.Intn(len(l))]
	}
	var elem func(space, local string, attrs [][2]string, children ...string) string
	elem = func(space, local string, attrs [][2]string, children ...string) string {
		q := qname(xml.Name{Space: space, Local: local})
		s := "<" + q
		for _, i := range r.Perm(len(attrs)) {
			s += " " + attrs[i][0] + "=\"" + esc(attrs[i][1]) + "\""
		}
		if len(children) == 0 && r.Intn(2) == 0 {
			return s + "/>"
		}
		s += ">"
		for _, c := range children {
			s += c
			if r.Intn(4) == 0 && !strings.HasSuffix(q, "documentation") {
				s += "\n  "
			}
		}
		return s + "</" + q + ">"
	}
	docs := func(l []string) (r []string) {
		for _, x := range l {
			r = append(r, elem(wsdlNS, "documentation", nil, x))
		}
		return r
	}
	shuffle := func(l []string) []string {
		var m []string
		for _, i := range r.Perm(len(l)) {
			m = append(m, l[i])
		}
		return m
	}
	var body []string
	for _, m := range d.messages {
		var parts []string
		for _, p := range m.parts {
			a := [][2]string{{"name", p.Name}}
			if p.Type.Local != "" {
				a = append(a, [2]string{"type", qname(p.Type)})
			}
			if p.Element.Local != "" {
				a = append(a, [2]string{"element", qname(p.Element)})
			}
			parts = append(parts, elem(wsdlNS, "part", a))
		}
		body = append(body, elem(wsdlNS, "message", [][2]string{{"name", m.name}}, parts...))
	}
	for _, t := range d.types {
		var ops []string
		for _, o := range t.ops {
			c := docs(o.docs)
			if o.in != nil {
				c = append(c, elem(wsdlNS, "input", [][2]string{{"message", qname(*o.in)}}))
			}
			if o.out != nil {
				c = append(c, elem(wsdlNS, "output", [][2]string{{"message", qname(*o.out)}}))
			}
			if r.Intn(4) == 0 {
				c = append(c, elem(wsdlNS, "fault", [][2]string{{"name", "f"}, {"message", "tns:fault"}}))
			}
			ops = append(ops, elem(wsdlNS, "operation", [][2]string{{"name", o.name}}, c...))
		}
		body = append(body, elem(wsdlNS, "portType", [][2]string{{"name", t.name}}, ops...))
	}
	for _, b := range d.bindings {
		var c []string
		if b.verb != "" {
			c = append(c, elem(httpNS, "binding", [][2]string{{"verb", b.verb}}))
		} else {
			c = append(c, elem(b.soap, "binding", [][2]string{{"transport", "http://schemas.xmlsoap.org/soap/http"}, {"style", "document"}}))
		}
		for _, a := range b.actions {
			c = append(c, elem(wsdlNS, "operation", [][2]string{{"name", a[0]}},
				elem(b.soap, "operation", [][2]string{{"soapAction", a[1]}}),
				elem(wsdlNS, "input", nil, elem(b.soap, "body", [][2]string{{"use", "literal"}}))))
		}
		body = append(body, elem(wsdlNS, "binding", [][2]string{{"name", b.name}, {"type", qname(b.typ)}}, c...))
	}
	body = shuffle(body)
	for _, s := range d.services {
		c := docs(s.docs)
		for _, p := range s.ports {
			var a []string
			for _, x := range p.addr {
				a = append(a, elem(x[0], "address", [][2]string{{"location", x[1]}}))
			}
			c = append(c, elem(wsdlNS, "port", [][2]string{{"name", p.name}, {"binding", qname(p.binding)}}, a...))
		}
		body = append(body, elem(wsdlNS, "service", [][2]string{{"name", s.name}}, c...))
	}
	var attrs [][2]string
	for _, p := range decl {
		if p.p == "" {
			attrs = append(attrs, [2]string{"xmlns", p.ns})
		} else {
			attrs = append(attrs, [2]string{"xmlns:" + p.p, p.ns})
		}
	}
	attrs = append(attrs, [2]string{"targetNamespace", d.tns})
	return []byte(elem(wsdlNS, "definitions", attrs, body...))
}

// ports are what the last of the services says.
func (d *wgDef) ports(services ...wgService) []Port {
	var ports []Port
	for _, s := range services {
		for _, p := range s.ports {
			x := Port{Name: p.name, Method: "POST"}
			for _, ns := range []string{soapNS, soap12NS} {
				for _, a := range p.addr {
					if a[0] == ns {
						x.Address = a[1]
					}
				}
			}
			for _, b := range d.bindings {
				if (xml.Name{Space: d.tns, Local: b.name}) != p.binding {
					continue
				}
				if b.verb != "" {
					x.Method = strings.ToUpper(b.verb)
				}
				for _, t := range d.types {
					if (xml.Name{Space: d.tns, Local: t.name}) != b.typ {
						continue
					}
					for _, o := range t.ops {
						y := Operation{Name: xml.Name{Space: d.tns, Local: o.name}, Doc: strings.Join(o.docs, "\n")}
						if o.in != nil {
							y.Input = *o.in
						}
						if o.out != nil {
							y.Output = *o.out
						}
						for _, a := range b.actions {
							if a[0] == o.name && b.soap == soapNS {
								y.SOAPAction = a[1]
							}
						}
						x.Operations = append(x.Operations, y)
					}
				}
			}
			ports = append(ports, x)
		}
	}
	return ports
}

func (d *wgDef) want(services ...wgService) *Definition {
	def := &Definition{TargetNS: d.tns, Message: map[xml.Name]Message{}}
	for _, m := range d.messages {
		n := xml.Name{Space: d.tns, Local: m.name}
		def.Message[n] = Message{Name: n, Parts: m.parts}
	}
	def.Ports = d.ports(services...)
	for _, s := range services {
		def.Doc = strings.Join(s.docs, "\n")
	}
	return def
}

func wgShow(d *Definition) string {
	if d == nil {
		return "nil"
	}
	return fmt.Sprintf("%+v", *d)
}

func TestVerifC16(t *testing.T) {
	v := vStart(t, "C16", "definitions", "random WSDL definitions, written with random prefixes and in random order: the result is exactly what is declared",
		"seeded random definitions, up to 4 messages, 3 port types, 4 bindings and 3 ports; one service")
	defer v.Done()
	for i := 0; i < v.N(6000, 150000) && v.Time(); i++ {
		d := wgGenerate(v.R)
		data := d.write(v.R)
		v.Case(string(data), len(d.services[0].ports) > 0)
		v.Guard("panic", func() {
			got, err := Parse(data)
			if err != nil {
				v.Fail("error", string(data), err)
				return
			}
			want := d.want(d.services...)
			if got.TargetNS != want.TargetNS {
				v.Fail("target", string(data)+"\n"+want.TargetNS, got.TargetNS)
			}
			if got.Doc != want.Doc {
				v.Fail("doc", string(data)+"\n"+want.Doc, got.Doc)
			}
			if len(got.Message) != len(want.Message) {
				v.Fail("messages", string(data)+"\n"+wgShow(want), wgShow(got))
			}
			for _, m := range got.Message {
				for i, p := range m.Parts { // what is not declared has no local name
					if p.Type.Local == "" {
						m.Parts[i].Type = xml.Name{}
					}
					if p.Element.Local == "" {
						m.Parts[i].Element = xml.Name{}
					}
				}
			}
			for n, m := range want.Message {
				if !reflect.DeepEqual(m, got.Message[n]) {
					v.Fail("message", fmt.Sprintf("%s\n%+v", data, m), fmt.Sprintf("%+v", got.Message[n]))
				}
			}
			if len(got.Ports) != len(want.Ports) {
				v.Fail("ports", string(data)+"\n"+wgShow(want), wgShow(got))
				return
			}
			for i, p := range want.Ports {
				if !reflect.DeepEqual(p, got.Ports[i]) {
					v.Fail("port", fmt.Sprintf("%s\n%+v", data, p), fmt.Sprintf("%+v", got.Ports[i]))
				}
			}
		})
		// a definition that is cut short is an error
		if i%10 == 0 {
			n := v.R.Intn(len(data))
			v.Guard("panic-short", func() {
				if got, err := Parse(data[:n]); err == nil {
					v.Fail("short", string(data[:n])+"\nerror", wgShow(got))
				} else if got != nil {
					v.Fail("short-result", string(data[:n])+"\nnil", wgShow(got))
				}
			})
		}
	}
}

func TestVerifC16Services(t *testing.T) {
	v := vStart(t, "C16", "services", "definitions with several services: the ports of all of them are there", "seeded random definitions with two services")
	defer v.Done()
	for i := 0; i < v.N(50, 500) && v.Time(); i++ {
		d := wgGenerate(v.R)
		if len(d.services[0].ports) == 0 {
			continue
		}
		s := d.services[0]
		s.name += "2"
		s.ports = append([]wgPort{}, s.ports...)
		for i := range s.ports {
			s.ports[i].name += "2"
		}
		d.services = append(d.services, s)
		data := d.write(v.R)
		v.Case(string(data), true)
		v.Guard("panic", func() {
			got, err := Parse(data)
			if err != nil {
				v.Fail("error", string(data), err)
				return
			}
			all := d.want(d.services...)
			if reflect.DeepEqual(got.Ports, all.Ports) {
				return
			}
			// at least those of the last one
			if last := d.want(d.services[1]); reflect.DeepEqual(got.Ports, last.Ports) {
				v.Fail("several-services", string(data)+"\n"+wgShow(all), wgShow(got))
				return
			}
			v.Fail("ports", string(data)+"\n"+wgShow(all), wgShow(got))
		})
	}
}
