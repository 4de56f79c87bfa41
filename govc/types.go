package main

import (
	"fmt"
	"go/types"
	"strings"
)

// structural description of Go types as SMT sorts

type StructInfo struct {
	dt     *DT
	st     *types.Struct
	opaque bool
}

var (
	structCache []structEnt
	opaqueSort  = map[string]bool{}
	namedSort   = map[string]Sort{}
)

type structEnt struct {
	t  types.Type // underlying struct
	dt *DT
}

// external packages whose structs are expanded
var expandPkgs = map[string]bool{
	"encoding/xml": true,
	"go/ast":       true,
	"sync":         false,
}

func typeKey(t types.Type) string {
	return sanitize(types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() }))
}

func isRepoPkg(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), modPath)
}

// structDT returns the datatype of a struct type, or nil when opaque.
func structDT(t types.Type) *DT {
	t = types.Unalias(t)
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := t.(*types.Named); ok {
		pkg := n.Obj().Pkg()
		if pkg != nil && !isRepoPkg(pkg) && !expandPkgs[pkg.Path()] {
			return nil
		}
		if n.TypeArgs().Len() > 0 && pkg != nil && !isRepoPkg(pkg) {
			return nil
		}
	}
	for _, e := range structCache {
		if types.Identical(e.t, st) {
			return e.dt
		}
	}
	name := "S$" + typeKey(t)
	if _, ok := t.(*types.Struct); ok {
		name = fmt.Sprintf("S$anon%d", len(structCache))
	}
	if _, dup := dts[Sort(name)]; dup {
		name = fmt.Sprintf("%s$%d", name, len(structCache))
	}
	d := &DT{name: Sort(name), cons: "mk" + name}
	structCache = append(structCache, structEnt{st, d})
	dts[d.name] = d
	dtOfCons[d.cons] = d
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fn := f.Name()
		if fn == "_" {
			fn = fmt.Sprintf("_%d", i)
		}
		d.fields = append(d.fields, DTField{name[2:] + "." + fn, ""})
	}
	for i := 0; i < st.NumFields(); i++ {
		d.fields[i].sort = sortOf(st.Field(i).Type())
	}
	if len(d.fields) == 0 {
		d.fields = nil
	}
	return declDT(d)
}

func sortOf(t types.Type) Sort {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if s, ok := specListSort(n); ok {
			return s
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return Sort("F64")
		case u.Kind() == types.UntypedNil:
			return SIface
		}
		return Sort("X$" + sanitize(u.Name()))
	case *types.Pointer:
		return SRef
	case *types.Slice:
		return SSlice
	case *types.Map:
		return SInt
	case *types.Signature:
		return SFunc
	case *types.Interface:
		if _, ok := t.(*types.TypeParam); ok {
			panic(unsupported("type parameter %s", t))
		}
		return SIface
	case *types.Array:
		return SArray(SInt, sortOf(u.Elem()))
	case *types.Struct:
		if d := structDT(t); d != nil {
			return d.name
		}
		return Sort("X$" + typeKey(t))
	case *types.Chan:
		return Sort("X$chan")
	case *types.Tuple:
		panic(unsupported("tuple sort"))
	}
	panic(unsupported("no sort for type %s", t))
}

// zero value of a type
func zeroOf(t types.Type) *Term {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if _, ok := specListSort(n); ok {
			return ListNil(sortOf(n.TypeArgs().At(0)))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch sortOf(t) {
		case SBool:
			return False
		case SInt:
			return Int(0)
		case SStr:
			return StrLit("")
		case SIface:
			return IfaceNil()
		}
		return Const("zero$"+sanitize(string(sortOf(t))), sortOf(t))
	case *types.Pointer:
		return NilRef()
	case *types.Slice:
		return NilSlice()
	case *types.Map:
		return Int(0)
	case *types.Signature:
		return FuncNil()
	case *types.Interface:
		return IfaceNil()
	case *types.Array:
		return ConstArray(sortOf(t), zeroOf(u.Elem()))
	case *types.Struct:
		if d := structDT(t); d != nil {
			var args []*Term
			for i := 0; i < u.NumFields(); i++ {
				args = append(args, zeroOf(u.Field(i).Type()))
			}
			return Mk(d, args...)
		}
	}
	return Const("zero$"+sanitize(string(sortOf(t))), sortOf(t))
}

func IfaceNil() *Term { return Const("iface.nil", SIface) }
func FuncNil() *Term  { return Const("func.nil", SFunc) }

// ---- interface boxing

var typeTags = map[string]int{}
var tagTypes []types.Type

func typeTag(t types.Type) *Term {
	for i, u := range tagTypes {
		if types.Identical(t, u) {
			return Int(int64(i + 1))
		}
	}
	tagTypes = append(tagTypes, t)
	return Int(int64(len(tagTypes)))
}

func Dyn(i *Term) *Term {
	d := UF("dyn", SInt, i)
	addAxiom("dyn.nil", "box", Eq(mk("dyn", SInt, IfaceNil()), Int(0)), "dyn")
	x := BoundVar("x", SIface)
	dx := mk("dyn", SInt, x)
	addAxiom("dyn.nil2", "box", Forall([]*Term{x}, Implies(Eq(dx, Int(0)), Eq(x, IfaceNil())), []*Term{dx}), "dyn")
	addAxiom("dyn.pos", "box", Forall([]*Term{x}, Ge(dx, Int(0)), []*Term{dx}), "dyn")
	return d
}

func boxName(t types.Type) string { return "box$" + typeKeyFull(t) }

func typeKeyFull(t types.Type) string {
	return sanitize(types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() }))
}

func declBox(t types.Type) (string, string, Sort) {
	s := sortOf(t)
	bn, un := boxName(t), "un"+boxName(t)
	if _, ok := funDecls[bn]; !ok {
		declFun(bn, SIface, s)
		declFun(un, s, SIface)
		Dyn(IfaceNil())
		x := BoundVar("x", s)
		bx := mk(bn, SIface, x)
		addAxiom(bn+".inj", "box", Forall([]*Term{x}, And(Eq(mk("dyn", SInt, bx), typeTag(t)), Eq(mk(un, s, bx), x)), []*Term{bx}), bn)
		i := BoundVar("i", SIface)
		ui := mk(un, s, i)
		addAxiom(bn+".surj", "box", Forall([]*Term{i}, Implies(Eq(mk("dyn", SInt, i), typeTag(t)), Eq(mk(bn, SIface, ui), i)), []*Term{ui}), un)
	}
	return bn, un, s
}

func Box(t types.Type, v *Term) *Term {
	bn, un, s := declBox(t)
	if v.sort != s {
		panic(unsupported("box %s: sort %s, want %s", t, v.sort, s))
	}
	if v.op == un && len(v.args) == 1 {
		// box(unbox(x)) — only equal under dyn; keep
	}
	return mk(bn, SIface, v)
}

func Unbox(t types.Type, i *Term) *Term {
	bn, un, s := declBox(t)
	if i.op == bn {
		return i.args[0]
	}
	return mk(un, s, i)
}

// IsDyn: does interface value i hold dynamic type t?
func IsDyn(t types.Type, i *Term) *Term {
	if strings.HasPrefix(i.op, "box$") {
		if i.op == boxName(t) {
			return True
		}
		return False
	}
	if i == IfaceNil() {
		return False
	}
	if i.op == "ite" {
		return Ite(i.args[0], IsDyn(t, i.args[1]), IsDyn(t, i.args[2]))
	}
	declBox(t)
	return Eq(Dyn(i), typeTag(t))
}

func isInterface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// wf is the well-formedness fact of a value read from the heap or passed in.
func wf(t types.Type, v *Term, alloc *Term) *Term { return wfDepth(t, v, alloc, 0) }

func wfDepth(t types.Type, v *Term, alloc *Term, depth int) *Term {
	if depth > 4 {
		return True
	}
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if _, ok := specListSort(n); ok {
			return True
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			f := Ge(v, Int(0))
			if u.Kind() == types.Uint8 {
				f = And(f, Le(v, Int(255)))
			}
			return f
		}
	case *types.Pointer:
		if v.op == "mkref" && v.args[0] == Int(0) {
			return True
		}
		return And(Ge(RefBase(v), Int(0)), Lt(RefBase(v), alloc), Implies(Eq(RefBase(v), Int(0)), Eq(v, NilRef())))
	case *types.Slice:
		if v == NilSlice() {
			return True
		}
		return And(Ge(SBase(v), Int(0)), Lt(SBase(v), alloc), Ge(SOff(v), Int(0)), Ge(SLen(v), Int(0)), Le(SLen(v), SCap(v)),
			Implies(Eq(SBase(v), Int(0)), Eq(v, NilSlice())))
	case *types.Map:
		return And(Ge(v, Int(0)), Lt(v, alloc))
	case *types.Struct:
		if d := structDT(t); d != nil {
			var fs []*Term
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, wfDepth(u.Field(i).Type(), Sel(d, i, v), alloc, depth+1))
			}
			return And(fs...)
		}
	}
	return True
}

// heapName names the memory of elements of type t.
func heapName(t types.Type) string {
	return "H$" + sanitizeSort(sortOf(t))
}
func heapSort(t types.Type) Sort { return SArray(SInt, SArray(SInt, sortOf(t))) }

func mapNames(m *types.Map) (dom, val string, ks, vs Sort) {
	ks, vs = sortOf(m.Key()), sortOf(m.Elem())
	k := sanitizeSort(ks) + "$" + sanitizeSort(vs)
	return "MD$" + k, "MV$" + k, ks, vs
}

func lookupFieldPath(t types.Type, name string) []int {
	obj, idx, _ := types.LookupFieldOrMethod(t, true, nil, name)
	if obj == nil {
		return nil
	}
	return idx
}

// the spec-only generic types List[T] and Seq[T]
func specListSort(n *types.Named) (Sort, bool) {
	if n.TypeArgs().Len() != 1 || !isRepoPkg(n.Obj().Pkg()) {
		return "", false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok || st.NumFields() != 1 {
		return "", false
	}
	switch st.Field(0).Name() {
	case "list__":
		return listDT(sortOf(n.TypeArgs().At(0))).name, true
	case "seq__":
		return seqDT(sortOf(n.TypeArgs().At(0))).name, true
	}
	return "", false
}

func seqDT(e Sort) *DT {
	n := Sort("Seq$" + sanitizeSort(e))
	if d, ok := dts[n]; ok {
		return d
	}
	k := string(n[4:])
	return declDT(&DT{name: n, cons: "mkseq$" + k, fields: []DTField{{"qarr$" + k, SArray(SInt, e)}, {"qoff$" + k, SInt}, {"qlen$" + k, SInt}}})
}
