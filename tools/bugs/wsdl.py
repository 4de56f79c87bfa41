H = '''package wsdl

import (
	"encoding/xml"
	"testing"
)

var _ xml.Name

func def(t *testing.T, body string) *Definition {
	d, err := Parse([]byte(`<definitions xmlns="http://schemas.xmlsoap.org/wsdl/" xmlns:soap="http://schemas.xmlsoap.org/wsdl/soap/" xmlns:soap12="http://schemas.xmlsoap.org/wsdl/soap12/" xmlns:http="http://schemas.xmlsoap.org/wsdl/http/" xmlns:xsd="http://www.w3.org/2000/10/XMLSchema" xmlns:t="urn:t" xmlns:o="urn:o" targetNamespace="urn:t">` + body + `</definitions>`))
	if err != nil {
		t.Fatal(err)
	}
	return d
}
'''
def T(body): return H + "\nfunc TestDemo(t *testing.T) {\n" + body + "\n}\n"
W = "wsdl/wsdl.go"
def bug(id, prop, edits, needs, breaks, demo): return dict(id=id, property=prop, pkg="wsdl", edits=edits, needs=needs, breaks=breaks, demo=T(demo))
BUGS = [
bug("C16-action-prefix", "C16", [(W, '''					return el.Name == op.Name &&
						el.Attr("", "name") == op.Attr("", "name")
''', '''					return el.Name == op.Name &&
						strings.HasPrefix(el.Attr("", "name"), op.Attr("", "name"))
''')],
 "two operations, one's name the beginning of the other's", "the shorter one gets the longer one's action",
 '''	d := def(t, `<portType name="P"><operation name="Get"/><operation name="GetAll"/></portType>
	<binding name="B" type="t:P"><operation name="Get"><soap:operation soapAction="a"/></operation><operation name="GetAll"><soap:operation soapAction="b"/></operation></binding>
	<service name="S"><port name="p" binding="t:B"/></service>`)
	if a := d.Ports[0].Operations[0].SOAPAction; a != "a" {
		t.Fatal(a)
	}'''),
bug("C16-binding-local", "C16", [(W, '''	for _, bind := range root.SearchFunc(predicate) {
		portType := bind.Resolve(bind.Attr("", "type"))
''', '''	for _, bind := range root.SearchFunc(predicate) {
		portType := bind.ResolveDefault(bind.Attr("", "type"), targetNS)
		portType.Space = targetNS
''')],
 "a binding for a port type of another namespace with the name of one of this", "a port has operations of a port type that is not its own",
 '''	d := def(t, `<portType name="P"><operation name="Get"/></portType>
	<binding name="B" type="o:P"/>
	<service name="S"><port name="p" binding="t:B"/></service>`)
	if a := d.Ports[0].Operations; len(a) != 0 {
		t.Fatal(a)
	}'''),
bug("C16-shared-parts", "C16", [(W, '''	messages := make(map[xml.Name]Message)
''', '''	messages := make(map[xml.Name]Message)
	var m Message
'''), (W, '''		var m Message
		m.Name = msg''', '''		m.Parts = m.Parts[:0]
		m.Name = msg''')],
 "two messages with parts", "a message has the parts of a later one",
 '''	d := def(t, `<message name="m"><part name="a"/></message><message name="n"><part name="b"/></message>`)
	if m := d.Message[xml.Name{Space: "urn:t", Local: "m"}]; m.Parts[0].Name != "a" {
		t.Fatal(m)
	}'''),
bug("C16-address-first", "C16", [(W, '''		for _, addr := range port.Search(soap12NS, "address") {
			p.Address = addr.Attr("", "location")
		}
''', '''		for _, addr := range port.Search(soap12NS, "address") {
			if p.Address == "" {
				p.Address = addr.Attr("", "location")
			}
		}
''')],
 "a port with a SOAP 1.1 and a SOAP 1.2 address", "the first one counts",
 '''	d := def(t, `<service name="S"><port name="p" binding="t:B"><soap:address location="a"/><soap12:address location="b"/></port></service>`)
	if a := d.Ports[0].Address; a != "b" {
		t.Fatal(a)
	}'''),
bug("C16-verb", "C16", [(W, '''			if len(verb) > 0 {
				return strings.ToUpper(verb)
			}
''', '''			if len(verb) > 0 {
				return strings.ToUpper(verb)
			}
			return "GET"
''')],
 "a HTTP binding without a verb", "the method is not the default one",
 '''	d := def(t, `<binding name="B" type="t:P"><http:binding/></binding><service name="S"><port name="p" binding="t:B"/></service>`)
	if a := d.Ports[0].Method; a != "POST" {
		t.Fatal(a)
	}'''),
]
