package wsdl

import (
	"encoding/xml"
	"strings"

	"aqwari.net/xml/xmltree"
)

func attr(el *xmltree.Element, local string) string { return xmltree.SpecAttr(el, "", local) }

// found are the elements below el that have a name, in document order.
func found(el *xmltree.Element, space, local string) List[*xmltree.Element] {
	return xmltree.SpecFound(lnil[*xmltree.Element](), el, len(el.Children), space, local)
}

func visits(l List[*xmltree.Element], el *xmltree.Element, n int, match func(*xmltree.Element) bool) List[*xmltree.Element] {
	return xmltree.SpecVisits(l, el, n, match)
}

// nameOf is the qualified name that a declaration gives what it declares.
func nameOf(el *xmltree.Element, ns string) xml.Name {
	return xmltree.SpecResolveDefault(&el.Scope, attr(el, "name"), ns)
}

// joined are texts with a separator between any two. The bytes of the texts do
// not change: nothing here writes to them.
//
//govc:opaque
func joined(l List[[]byte], sep List[byte]) string { return "" }

//govc:extern bytes.Join
func externJoin(s [][]byte, sep []byte) (r []byte) {
	ensures(fresh(r) && string(r) == joined(list(s), list(sep)))
	return
}

// docsOf are the contents of the documentation elements among the first n
// children of el.
func docsOf(el *xmltree.Element, n int) List[[]byte] {
	if n <= 0 {
		return lnil[[]byte]()
	}
	if el.Children[n-1].Name.Local != "documentation" {
		return docsOf(el, n-1)
	}
	return snoc(docsOf(el, n-1), el.Children[n-1].Content)
}

func docOf(el *xmltree.Element) string { return joined(docsOf(el, len(el.Children)), snoc(lnil[byte](), '\n')) }

//govc:contract documentation props=C16
func con_documentation(el *xmltree.Element) (r string) {
	requires(el != nil)
	ensures("all", r == docOf(el))
	candidate(func(docs [][]byte) bool { return list(docs) == docsOf(el, iter()) })
	return
}

func partOf(el *xmltree.Element) Part {
	return Part{
		Name:    attr(el, "name"),
		Type:    xmltree.SpecResolve(&el.Scope, attr(el, "type")),
		Element: xmltree.SpecResolve(&el.Scope, attr(el, "element")),
	}
}

func partsOf(l List[*xmltree.Element]) List[Part] {
	if isNilList(l) {
		return lnil[Part]()
	}
	return snoc(partsOf(lfront(l)), partOf(llast(l)))
}

// messageOf is the last of the message elements that declares a name.
func messageOf(l List[*xmltree.Element], ns string, name xml.Name) *xmltree.Element {
	if isNilList(l) {
		return nil
	}
	if nameOf(llast(l), ns) == name {
		return llast(l)
	}
	return messageOf(lfront(l), ns, name)
}

func isMessage(m Message, el *xmltree.Element, name xml.Name) bool {
	return m.Name == name && list(m.Parts) == partsOf(found(el, wsdlNS, "part"))
}

//govc:contract parseMessages props=C16
func con_parseMessages(targetNS string, root *xmltree.Element) (r map[xml.Name]Message) {
	requires(root != nil && xmltree.SpecAcyclic())
	ensures("fresh", r != nil && fresh(r))
	ensures("declared", forall(func(n xml.Name) bool {
		return trig(mapdom(r, n)) && mapdom(r, n) == (messageOf(found(root, wsdlNS, "message"), targetNS, n) != nil)
	}))
	ensures("parts", forall(func(n xml.Name) bool {
		return trig(mapdom(r, n)) && implies(mapdom(r, n), isMessage(mapval(r, n), messageOf(found(root, wsdlNS, "message"), targetNS, n), n))
	}))
	candidate(func(m map[xml.Name]Message) bool {
		return forall(func(n xml.Name) bool {
			return trig(mapdom(m, n)) && mapdom(m, n) == (messageOf(qlist(seq(ranged[*xmltree.Element]()), iter()), targetNS, n) != nil)
		})
	})
	candidate(func(m map[xml.Name]Message) bool {
		return forall(func(n xml.Name) bool {
			return trig(mapdom(m, n)) && implies(mapdom(m, n), isMessage(mapval(m, n), messageOf(qlist(seq(ranged[*xmltree.Element]()), iter()), targetNS, n), n))
		})
	})
	candidate(func(m map[xml.Name]Message) bool {
		return forall(func(n xml.Name) bool {
			return trig(mapval(m, n)) && implies(mapdom(m, n), allocated(mapval(m, n).Parts))
		})
	})
	candidate(func(m Message) bool {
		return list(m.Parts) == partsOf(qlist(seq(ranged[*xmltree.Element]()), iter()))
	})
	return
}

// declares says that an element is the declaration of a name.
//
//govc:named
func declares(el *xmltree.Element, local, ns string, name xml.Name) bool {
	return el.Name.Space == wsdlNS && el.Name.Local == local && nameOf(el, ns) == name
}

// declared is the list l followed by the declarations of a name below the
// first n children of el.
func declared(l List[*xmltree.Element], el *xmltree.Element, n int, local, ns string, name xml.Name) List[*xmltree.Element] {
	if n <= 0 {
		return l
	}
	if xmltree.SpecHeight(&el.Children[n-1]) >= xmltree.SpecHeight(el) {
		return l
	}
	return declared(
		ite(declares(&el.Children[n-1], local, ns, name), snoc(declared(l, el, n-1, local, ns, name), &el.Children[n-1]), declared(l, el, n-1, local, ns, name)),
		&el.Children[n-1], len(el.Children[n-1].Children), local, ns, name)
}

//govc:lemma
func visitsDeclared(l List[*xmltree.Element], el *xmltree.Element, n int, match func(*xmltree.Element) bool, local, ns string, name xml.Name) bool {
	induction(xmltree.SpecHeight(el), n)
	trig(visits(l, el, n, match), declared(l, el, n, local, ns, name))
	requires(xmltree.SpecAcyclic() && el != nil && n <= len(el.Children))
	requires(forall(func(el *xmltree.Element) bool {
		return trig(match(el)) && implies(el != nil, match(el) == declares(el, local, ns, name))
	}))
	use(visitsDeclared(l, el, n-1, match, local, ns, name))
	use(visitsDeclared(ite(declares(&el.Children[n-1], local, ns, name), snoc(declared(l, el, n-1, local, ns, name), &el.Children[n-1]), declared(l, el, n-1, local, ns, name)),
		&el.Children[n-1], len(el.Children[n-1].Children), match, local, ns, name))
	ensures(visits(l, el, n, match) == declared(l, el, n, local, ns, name))
	return true
}

// bindingsOf are the bindings of a port.
func bindingsOf(root, port *xmltree.Element, ns string) List[*xmltree.Element] {
	return declared(lnil[*xmltree.Element](), root, len(root.Children), "binding", ns, xmltree.SpecResolve(&port.Scope, attr(port, "binding")))
}

// verbIn is the first verb that one of the elements has.
func verbIn(l List[*xmltree.Element]) string {
	if isNilList(l) {
		return ""
	}
	if verbIn(lfront(l)) != "" {
		return verbIn(lfront(l))
	}
	return attr(llast(l), "verb")
}

// verbOf is the first verb that a binding has.
func verbOf(l List[*xmltree.Element]) string {
	if isNilList(l) {
		return ""
	}
	if verbOf(lfront(l)) != "" {
		return verbOf(lfront(l))
	}
	return verbIn(found(llast(l), httpNS, "binding"))
}

//govc:lemma
func firstVerbIn(s []*xmltree.Element, k, n int) {
	induction(n)
	trig(verbIn(qlist(seq(s), k)), verbIn(qlist(seq(s), n)))
	requires(k >= 0 && k < n && verbIn(qlist(seq(s), k)) == "" && attr(s[k], "verb") != "")
	ensures(verbIn(qlist(seq(s), n)) == attr(s[k], "verb"))
}

//govc:lemma
func firstVerbOf(s []*xmltree.Element, k, n int) {
	induction(n)
	trig(verbOf(qlist(seq(s), k)), verbOf(qlist(seq(s), n)))
	requires(k >= 0 && k < n && verbOf(qlist(seq(s), k)) == "" && verbIn(found(s[k], httpNS, "binding")) != "")
	ensures(verbOf(qlist(seq(s), n)) == verbIn(found(s[k], httpNS, "binding")))
}

//govc:named
func methodOf(root, port *xmltree.Element, ns string) string {
	if verbOf(bindingsOf(root, port, ns)) == "" {
		return "POST"
	}
	return strings.ToUpper(verbOf(bindingsOf(root, port, ns)))
}

//govc:contract parseMethod props=C16
func con_parseMethod(targetNS string, root, port *xmltree.Element) (r string) {
	requires(root != nil && port != nil && xmltree.SpecAcyclic())
	ensures("verb", r == methodOf(root, port, targetNS))
	candidate(func() bool { return verbOf(qlist(seq(ranged[*xmltree.Element]()), iter())) == "" })
	candidate(func() bool { return verbIn(qlist(seq(ranged[*xmltree.Element]()), iter())) == "" })
	return
}

// message is the message that the last of the elements names.
func message(l List[*xmltree.Element]) xml.Name {
	if isNilList(l) {
		return xml.Name{}
	}
	return xmltree.SpecResolve(&llast(l).Scope, attr(llast(l), "message"))
}

// same says that two elements have the same name, and declare the same one.
//
//govc:named
func same(el, op *xmltree.Element) bool {
	return el.Name == op.Name && attr(el, "name") == attr(op, "name")
}

// sameAs is the list l followed by the elements below the first n children of
// el that have the names of op.
func sameAs(l List[*xmltree.Element], el *xmltree.Element, n int, op *xmltree.Element) List[*xmltree.Element] {
	if n <= 0 {
		return l
	}
	if xmltree.SpecHeight(&el.Children[n-1]) >= xmltree.SpecHeight(el) {
		return l
	}
	return sameAs(
		ite(same(&el.Children[n-1], op), snoc(sameAs(l, el, n-1, op), &el.Children[n-1]), sameAs(l, el, n-1, op)),
		&el.Children[n-1], len(el.Children[n-1].Children), op)
}

//govc:lemma
func visitsSame(l List[*xmltree.Element], el *xmltree.Element, n int, match func(*xmltree.Element) bool, op *xmltree.Element) bool {
	induction(xmltree.SpecHeight(el), n)
	trig(visits(l, el, n, match), sameAs(l, el, n, op))
	requires(xmltree.SpecAcyclic() && el != nil && n <= len(el.Children))
	requires(forall(func(el *xmltree.Element) bool {
		return trig(match(el)) && implies(el != nil, match(el) == same(el, op))
	}))
	use(visitsSame(l, el, n-1, match, op))
	use(visitsSame(ite(same(&el.Children[n-1], op), snoc(sameAs(l, el, n-1, op), &el.Children[n-1]), sameAs(l, el, n-1, op)),
		&el.Children[n-1], len(el.Children[n-1].Children), match, op))
	ensures(visits(l, el, n, match) == sameAs(l, el, n, op))
	return true
}

// actionIn is the action of the last of the elements.
func actionIn(action string, l List[*xmltree.Element]) string {
	if isNilList(l) {
		return action
	}
	return attr(llast(l), "soapAction")
}

// actionOf is the last action that an operation in a binding has.
func actionOf(l List[*xmltree.Element]) string {
	if isNilList(l) {
		return ""
	}
	return actionIn(actionOf(lfront(l)), found(llast(l), soapNS, "operation"))
}

func operationOf(op, bind *xmltree.Element, ns string) Operation {
	return Operation{
		Doc:        docOf(op),
		Name:       nameOf(op, ns),
		Input:      message(found(op, wsdlNS, "input")),
		Output:     message(found(op, wsdlNS, "output")),
		SOAPAction: actionOf(sameAs(lnil[*xmltree.Element](), bind, len(bind.Children), op)),
	}
}

// operationsIn are the operations before, and those that the elements declare.
func operationsIn(before List[Operation], l List[*xmltree.Element], bind *xmltree.Element, ns string) List[Operation] {
	if isNilList(l) {
		return before
	}
	return snoc(operationsIn(before, lfront(l), bind, ns), operationOf(llast(l), bind, ns))
}

// ofTypes are the operations before, and those of the port types.
func ofTypes(before List[Operation], l List[*xmltree.Element], bind *xmltree.Element, ns string) List[Operation] {
	if isNilList(l) {
		return before
	}
	return operationsIn(ofTypes(before, lfront(l), bind, ns), found(llast(l), wsdlNS, "operation"), bind, ns)
}

// typesOf are the port types that a binding is for.
func typesOf(root, bind *xmltree.Element, ns string) List[*xmltree.Element] {
	return declared(lnil[*xmltree.Element](), root, len(root.Children), "portType", ns, xmltree.SpecResolve(&bind.Scope, attr(bind, "type")))
}

// ofBindings are the operations of the bindings.
func ofBindings(l List[*xmltree.Element], root *xmltree.Element, ns string) List[Operation] {
	if isNilList(l) {
		return lnil[Operation]()
	}
	return ofTypes(ofBindings(lfront(l), root, ns), typesOf(root, llast(l), ns), llast(l), ns)
}

//govc:named
func operationsOf(root, port *xmltree.Element, ns string) List[Operation] {
	return ofBindings(bindingsOf(root, port, ns), root, ns)
}

//govc:contract parseOperations props=C16
func con_parseOperations(targetNS string, root, port *xmltree.Element) (r []Operation) {
	requires(root != nil && port != nil && xmltree.SpecAcyclic())
	ensures("all", list(r) == operationsOf(root, port, targetNS))
	candidate(func(ops []Operation) bool {
		return list(ops) == ofBindings(qlist(seq(ranged[*xmltree.Element]()), iter()), root, targetNS)
	})
	candidate(func(ops []Operation) bool {
		return list(ops) == ofTypes(entry(list(ops)), qlist(seq(ranged[*xmltree.Element]()), iter()), local[*xmltree.Element]("bind"), targetNS)
	})
	candidate(func(ops []Operation) bool {
		return list(ops) == operationsIn(entry(list(ops)), qlist(seq(ranged[*xmltree.Element]()), iter()), local[*xmltree.Element]("bind"), targetNS)
	})
	candidate(func(oper Operation) bool {
		return oper.Input == message(qlist(seq(ranged[*xmltree.Element]()), iter()))
	})
	candidate(func(oper Operation) bool {
		return oper.Output == message(qlist(seq(ranged[*xmltree.Element]()), iter()))
	})
	candidate(func(oper Operation) bool {
		return oper.SOAPAction == actionOf(qlist(seq(ranged[*xmltree.Element]()), iter()))
	})
	candidate(func(oper Operation) bool {
		return oper.SOAPAction == actionIn(entry(oper.SOAPAction), qlist(seq(ranged[*xmltree.Element]()), iter()))
	})
	return
}

// addressIn is the location of the last of the addresses.
func addressIn(address string, l List[*xmltree.Element]) string {
	if isNilList(l) {
		return address
	}
	return attr(llast(l), "location")
}

//govc:named
func addressOf(el *xmltree.Element) string {
	return addressIn(addressIn("", found(el, soapNS, "address")), found(el, soap12NS, "address"))
}

// isPort says that p is what the port element el declares.
func isPort(p Port, root, el *xmltree.Element, ns string) bool {
	return p.Name == attr(el, "name") &&
		p.Address == addressOf(el) &&
		p.Method == methodOf(root, el, ns) &&
		list(p.Operations) == operationsOf(root, el, ns)
}

//govc:contract parsePorts props=C16
func con_parsePorts(targetNS string, root, svc *xmltree.Element) (r []Port) {
	requires(root != nil && svc != nil && xmltree.SpecAcyclic())
	ensures("all", exists(func(ports []*xmltree.Element) bool {
		return trig(list(ports)) && list(ports) == found(svc, wsdlNS, "port") && len(r) == len(ports) &&
			forall(func(i int) bool {
				return trig(r[i]) && implies(i >= 0 && i < len(r), isPort(r[i], root, ports[i], targetNS))
			})
	}))
	candidate(func(ports []Port) bool {
		return forall(func(i int) bool {
			return trig(ports[i]) && implies(i >= 0 && i < len(ports), isPort(ports[i], root, ranged[*xmltree.Element]()[i], targetNS))
		})
	})
	candidate(func(ports []Port) bool {
		return forall(func(i int) bool {
			return trig(ports[i]) && implies(i >= 0 && i < len(ports), allocated(ports[i].Operations))
		})
	})
	candidate(func(p Port) bool {
		return p.Address == addressIn(entry(p.Address), qlist(seq(ranged[*xmltree.Element]()), iter()))
	})
	return
}

func arePorts(ports []Port, root, svc *xmltree.Element, ns string) bool {
	return exists(func(els []*xmltree.Element) bool {
		return trig(list(els)) && list(els) == found(svc, wsdlNS, "port") && len(ports) == len(els) &&
			forall(func(i int) bool {
				return trig(ports[i]) && implies(i >= 0 && i < len(ports), isPort(ports[i], root, els[i], ns))
			})
	})
}

func lastDoc(l List[*xmltree.Element]) string {
	if isNilList(l) {
		return ""
	}
	return docOf(llast(l))
}

// lastPorts says that ports are those of the last of the services.
func lastPorts(ports []Port, root *xmltree.Element, l List[*xmltree.Element], ns string) bool {
	return ite(isNilList(l), len(ports) == 0, arePorts(ports, root, llast(l), ns))
}

// A definition with several services has the ports of the last one only
// (known-findings.txt).
//
//govc:contract Parse props=C16
func con_Parse(data []byte) (r *Definition, err error) {
	requires(xmltree.SpecAcyclic())
	ensures("error", (err == nil) == (r != nil))
	ensures("all", implies(err == nil, exists(func(root *xmltree.Element) bool {
		return trig(found(root, wsdlNS, "service")) && root != nil && r.TargetNS == attr(root, "targetNamespace") &&
			r.Doc == lastDoc(found(root, wsdlNS, "service")) &&
			lastPorts(r.Ports, root, found(root, wsdlNS, "service"), r.TargetNS) &&
			forall(func(n xml.Name) bool {
				return trig(mapdom(r.Message, n)) &&
					mapdom(r.Message, n) == (messageOf(found(root, wsdlNS, "message"), r.TargetNS, n) != nil) &&
					implies(mapdom(r.Message, n), isMessage(mapval(r.Message, n), messageOf(found(root, wsdlNS, "message"), r.TargetNS, n), n))
			})
	})))
	candidate(func(def Definition) bool { return def.Doc == lastDoc(qlist(seq(ranged[*xmltree.Element]()), iter())) })
	candidate(func(def Definition) bool {
		return lastPorts(def.Ports, local[*xmltree.Element]("root"), qlist(seq(ranged[*xmltree.Element]()), iter()), def.TargetNS)
	})
	return
}
