package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

type lvkind int

const (
	lvVar lvkind = iota
	lvHeap
	lvMap
	lvBlank
	lvTemp // a value, not assignable
)

type step struct {
	dt  *DT
	idx int
	arr *Term
}

type LV struct {
	kind lvkind
	key  VarKey
	ref  *Term
	typ  types.Type // type of the root
	path []step
	mp   *Term
	mk   *Term
	mt   *types.Map
	val  *Term
}

func (lv *LV) field(dt *DT, i int) *LV {
	n := *lv
	n.path = append(append([]step{}, lv.path...), step{dt: dt, idx: i})
	return &n
}

func (ex *Exec) rootLoad(lv *LV, st *State) Value {
	switch lv.kind {
	case lvVar:
		v, ok := st.vars[lv.key]
		if !ok {
			panic(unsupported("variable %s has no value here", lv.key.obj.Name()))
		}
		return v
	case lvHeap:
		h := ex.heap(st, lv.typ)
		return Select(Select(h, RefBase(lv.ref)), RefIdx(lv.ref))
	case lvMap:
		v, _ := ex.mapGet(st, lv.mt, lv.mp, lv.mk)
		return v
	case lvTemp:
		return lv.val
	}
	panic(unsupported("load of blank"))
}

func (ex *Exec) load(lv *LV, st *State) Value {
	v := ex.rootLoad(lv, st)
	if len(lv.path) == 0 {
		return v
	}
	t := ex.toTerm(st, v)
	for _, s := range lv.path {
		if s.dt != nil {
			t = Sel(s.dt, s.idx, t)
		} else {
			t = Select(t, s.arr)
		}
	}
	return ex.seeFunc(t)
}

// seeFunc turns a known function constant back into its value.
func (ex *Exec) seeFunc(t *Term) Value {
	if t.sort == SFunc {
		if f, ok := ex.funcTerms[t]; ok {
			return f
		}
	}
	return t
}

func (ex *Exec) store(lv *LV, v Value, st *State) {
	if lv.kind == lvBlank {
		return
	}
	if len(lv.path) == 0 && lv.kind == lvVar {
		st.vars[lv.key] = v
		return
	}
	t := ex.toTerm(st, v)
	if len(lv.path) > 0 {
		root := ex.toTerm(st, ex.rootLoad(lv, st))
		t = updPath(root, lv.path, t)
	}
	switch lv.kind {
	case lvVar:
		st.vars[lv.key] = t
	case lvHeap:
		n := heapName(lv.typ)
		h := ex.heap(st, lv.typ)
		b, i := RefBase(lv.ref), RefIdx(lv.ref)
		ex.setHeap(st, n, Store(h, b, Store(Select(h, b), i, t)))
	case lvMap:
		ex.mapSet(st, lv.mt, lv.mp, lv.mk, t)
	default:
		panic(unsupported("store to temporary"))
	}
}

func updPath(root *Term, path []step, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	if s.dt != nil {
		return Upd(s.dt, s.idx, root, updPath(Sel(s.dt, s.idx, root), path[1:], v))
	}
	return Store(root, s.arr, updPath(Select(root, s.arr), path[1:], v))
}

// ptrLV turns a pointer value into the place it points to.
func (ex *Exec) ptrLV(v Value, elem types.Type, st *State, pos token.Pos) *LV {
	switch p := v.(type) {
	case *PtrPath:
		return p.lv
	case *Term:
		if !ex.spec {
			ex.emit("safe.nil", "", Neq(RefBase(p), Int(0)), st, pos)
		}
		return &LV{kind: lvHeap, ref: p, typ: elem}
	}
	panic(unsupported("pointer value %T", v))
}

func (ex *Exec) lookupVar(fr *Frame, st *State, obj types.Object) (Value, bool, *Frame) {
	for f := fr; f != nil; f = f.parent {
		if f.bind != nil {
			if v, ok := f.bind[obj]; ok {
				return v, true, nil
			}
		}
		if v, ok := st.vars[VarKey{f.id, obj}]; ok {
			return v, true, f
		}
	}
	return nil, false, nil
}

// lvalue computes the place an expression denotes.
func (ex *Exec) lvalue(e ast.Expr, st *State, fr *Frame) *LV {
	info := ex.prog.info
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		if x.Name == "_" {
			return &LV{kind: lvBlank}
		}
		obj := info.Uses[x]
		if obj == nil {
			obj = info.Defs[x]
		}
		v, ok, f := ex.lookupVar(fr, st, obj)
		if ok && f == nil { // contract binding
			return &LV{kind: lvTemp, val: ex.toTerm(st, v), typ: obj.Type()}
		}
		if ok {
			if f.boxed[obj] {
				return &LV{kind: lvHeap, ref: v.(*Term), typ: obj.Type()}
			}
			return &LV{kind: lvVar, key: VarKey{f.id, obj}, typ: obj.Type()}
		}
		if vr, ok := obj.(*types.Var); ok && vr.Parent() == vr.Pkg().Scope() {
			ex.globalInit(vr, st)
			return &LV{kind: lvVar, key: VarKey{0, obj}, typ: obj.Type()}
		}
		panic(unsupported("unknown variable %s", x.Name))
	case *ast.SelectorExpr:
		sel := info.Selections[x]
		if sel == nil { // package variable
			obj := info.Uses[x.Sel]
			if vr, ok := obj.(*types.Var); ok {
				ex.globalInit(vr, st)
				return &LV{kind: lvVar, key: VarKey{0, vr}, typ: vr.Type()}
			}
			panic(unsupported("selector %s", x.Sel.Name))
		}
		if sel.Kind() != types.FieldVal {
			panic(unsupported("method value as a place"))
		}
		return ex.fieldLV(x.X, sel, st, fr)
	case *ast.StarExpr:
		p := ex.eval(x.X, st, fr)
		return ex.ptrLV(p, info.TypeOf(x.X).Underlying().(*types.Pointer).Elem(), st, x.Pos())
	case *ast.IndexExpr:
		switch t := info.TypeOf(x.X).Underlying().(type) {
		case *types.Slice:
			s := ex.toTerm(st, ex.eval(x.X, st, fr))
			i := ex.toTerm(st, ex.eval(x.Index, st, fr))
			ex.bounds(s, i, st, x.Pos())
			return &LV{kind: lvHeap, ref: MkRef(SBase(s), Add(SOff(s), i)), typ: t.Elem()}
		case *types.Array:
			lv := ex.lvalue(x.X, st, fr)
			i := ex.toTerm(st, ex.eval(x.Index, st, fr))
			ex.emit("safe.index", "", And(Ge(i, Int(0)), Lt(i, Int(t.Len()))), st, x.Pos())
			n := *lv
			n.path = append(append([]step{}, lv.path...), step{arr: i})
			return &n
		case *types.Map:
			m := ex.toTerm(st, ex.eval(x.X, st, fr))
			k := ex.toTerm(st, ex.coerce(st, ex.eval(x.Index, st, fr), info.TypeOf(x.Index), t.Key()))
			return &LV{kind: lvMap, mp: m, mk: k, mt: t, typ: t.Elem()}
		case *types.Pointer:
			panic(unsupported("index of array pointer"))
		}
	case *ast.CompositeLit:
		v := ex.toTerm(st, ex.eval(x, st, fr))
		return &LV{kind: lvTemp, val: v, typ: info.TypeOf(x)}
	case *ast.CallExpr, *ast.TypeAssertExpr:
		v := ex.toTerm(st, ex.eval(x, st, fr))
		return &LV{kind: lvTemp, val: v, typ: info.TypeOf(e)}
	}
	panic(unsupported("not a place: %T", e))
}

// fieldLV follows a field selection, through embedded fields and pointers.
func (ex *Exec) fieldLV(base ast.Expr, sel *types.Selection, st *State, fr *Frame) *LV {
	t := ex.prog.info.TypeOf(base)
	var lv *LV
	if _, ok := t.Underlying().(*types.Pointer); ok {
		p := ex.eval(base, st, fr)
		lv = &LV{kind: lvTemp}
		return ex.followPath(lv, p, t, sel.Index(), st, base.Pos())
	}
	lv = ex.lvalueOrTemp(base, st, fr)
	return ex.followPath(lv, nil, t, sel.Index(), st, base.Pos())
}

func (ex *Exec) lvalueOrTemp(e ast.Expr, st *State, fr *Frame) *LV {
	return ex.lvalue(e, st, fr)
}

// followPath walks a field index path starting at lv (a struct place) or,
// when p is non-nil, at the pointer p.
func (ex *Exec) followPath(lv *LV, p Value, t types.Type, path []int, st *State, pos token.Pos) *LV {
	for _, i := range path {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if p == nil {
				p = ex.load(lv, st)
			}
			lv = ex.ptrLV(p, pt.Elem(), st, pos)
			t = pt.Elem()
			p = nil
		}
		d := structDT(t)
		if d == nil {
			panic(unsupported("field of opaque type %s", t))
		}
		lv = lv.field(d, i)
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	return lv
}

func (ex *Exec) bounds(s, i *Term, st *State, pos token.Pos) {
	ex.emit("safe.index", "", And(Ge(i, Int(0)), Lt(i, SLen(s))), st, pos)
}

// seen adds the well-formedness facts of a value that was read.
func (ex *Exec) seen(st *State, t types.Type, v Value) Value {
	if x, ok := v.(*Term); ok && !x.bound && st != nil {
		switch x.op {
		case "mkref", "mkslice":
			return v
		}
		st.assume(wf(t, x, st.alloc))
	}
	return v
}

func (ex *Exec) constVal(tv types.TypeAndValue, t types.Type) *Term {
	val := tv.Value
	switch sortOf(t) {
	case SBool:
		if constant.BoolVal(val) {
			return True
		}
		return False
	case SInt:
		n, ok := constant.Int64Val(constant.ToInt(val))
		if !ok {
			return mk(constant.ToInt(val).ExactString(), SInt)
		}
		return Int(n)
	case SStr:
		if val.Kind() == constant.String {
			return StrLit(constant.StringVal(val))
		}
	case Sort("F64"):
		if constant.Sign(val) == 0 {
			return zeroOf(t)
		}
		return Const("f64$"+sanitize(val.ExactString()), Sort("F64"))
	}
	panic(unsupported("constant of type %s", t))
}

func (ex *Exec) eval(e ast.Expr, st *State, fr *Frame) Value {
	vs := ex.evalMulti(e, st, fr)
	if len(vs) == 0 {
		return nil
	}
	return vs[0]
}

func (ex *Exec) evalMulti(e ast.Expr, st *State, fr *Frame) []Value {
	info := ex.prog.info
	e = ast.Unparen(e)
	if tvv, ok := info.Types[e]; ok && tvv.Value != nil {
		t := tvv.Type
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			t = types.Default(t)
		}
		return []Value{ex.constVal(tvv, t)}
	}
	switch x := e.(type) {
	case *ast.Ident:
		return []Value{ex.evalIdent(x, st, fr)}
	case *ast.FuncLit:
		return []Value{&FuncVal{lit: x, env: fr, sig: info.TypeOf(x).(*types.Signature)}}
	case *ast.CompositeLit:
		return []Value{ex.composite(x, info.TypeOf(x), st, fr)}
	case *ast.SelectorExpr:
		return []Value{ex.evalSelector(x, st, fr)}
	case *ast.StarExpr:
		lv := ex.lvalue(x, st, fr)
		return []Value{ex.seen(st, info.TypeOf(x), ex.load(lv, st))}
	case *ast.IndexExpr:
		return []Value{ex.evalIndex(x, st, fr)}
	case *ast.SliceExpr:
		return []Value{ex.evalSlice(x, st, fr)}
	case *ast.UnaryExpr:
		return []Value{ex.evalUnary(x, st, fr)}
	case *ast.BinaryExpr:
		return []Value{ex.evalBinary(x, st, fr)}
	case *ast.CallExpr:
		return ex.call(x, st, fr)
	case *ast.TypeAssertExpr:
		v := ex.toTerm(st, ex.eval(x.X, st, fr))
		t := info.TypeOf(x.Type)
		ex.sealed(st, v, info.TypeOf(x.X))
		c := ex.hasType(v, t)
		if !ex.spec {
			// a failing assertion panics with a run-time error
			ex.emit("safe.assert", "", c, st, x.Pos())
		}
		if isInterface(t) {
			return []Value{v}
		}
		u := Unbox(t, v)
		return []Value{ex.seen(st, t, ex.seeFunc(u))}
	}
	panic(unsupported("expression %T", e))
}

func (ex *Exec) evalIdent(x *ast.Ident, st *State, fr *Frame) Value {
	info := ex.prog.info
	obj := info.Uses[x]
	if obj == nil {
		obj = info.Defs[x]
	}
	switch o := obj.(type) {
	case *types.Nil:
		t := info.TypeOf(x)
		return zeroOf(t)
	case *types.Func:
		return &FuncVal{fn: o, sig: o.Type().(*types.Signature)}
	case *types.Var:
		lvv, ok, f := ex.lookupVar(fr, st, obj)
		if ok {
			if f != nil && f.boxed[obj] {
				return ex.seen(st, o.Type(), ex.load(&LV{kind: lvHeap, ref: lvv.(*Term), typ: o.Type()}, st))
			}
			if t, ok := lvv.(*Term); ok {
				return ex.seeFunc(t)
			}
			return lvv
		}
		if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
			ex.globalInit(o, st)
			return ex.seeFunc2(st.vars[VarKey{0, o}])
		}
		panic(unsupported("variable %s has no value here", x.Name))
	}
	panic(unsupported("identifier %s", x.Name))
}

func (ex *Exec) seeFunc2(v Value) Value {
	if t, ok := v.(*Term); ok {
		return ex.seeFunc(t)
	}
	return v
}

// globalInit gives a package variable its value: the value of its initialiser
// when nothing in the package ever assigns it and the initialiser is a plain
// literal, and an arbitrary value otherwise.
func (ex *Exec) globalInit(o *types.Var, st *State) {
	k := VarKey{0, o}
	if _, ok := st.vars[k]; ok {
		return
	}
	vs := ex.prog.globals[o]
	if vs != nil && !ex.prog.assigned[o] && len(vs.Values) == len(vs.Names) {
		for i, n := range vs.Names {
			if ex.prog.info.Defs[n] == types.Object(o) && pureInit(vs.Values[i]) {
				if _, ok := o.Type().Underlying().(*types.Array); ok {
					st.vars[k] = ex.globalArray(o, vs.Values[i], st)
					return
				}
				if sortOf(o.Type()) != SSlice && sortOf(o.Type()) != SInt && sortOf(o.Type()) != SRef || ex.prog.info.Types[vs.Values[i]].Value != nil {
					if _, isMap := o.Type().Underlying().(*types.Map); !isMap {
						spec := ex.spec
						fr := &Frame{id: -1, pkg: ex.prog.pkgs[o.Pkg().Path()], boxed: map[types.Object]bool{}}
						v := ex.coerce(st, ex.eval(vs.Values[i], st, fr), ex.prog.info.TypeOf(vs.Values[i]), o.Type())
						ex.spec = spec
						st.vars[k] = v
						return
					}
				}
			}
		}
	}
	t := Const("glob$"+sanitize(o.Pkg().Name()+"."+o.Name()), sortOf(o.Type()))
	st.vars[k] = t
	if !t.bound {
		st.assume(wf(o.Type(), t, Const("alloc@0", SInt)))
		if vs != nil && !ex.prog.assigned[o] && len(vs.Values) > 0 {
			// initialised and never reassigned: errors.New and the like are not nil
			if sortOf(o.Type()) == SIface {
				if c, ok := ast.Unparen(vs.Values[0]).(*ast.CallExpr); ok {
					if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "New" {
						st.assume(Neq(t, IfaceNil()))
					}
				}
			}
		}
	}
}

func (ex *Exec) globalArray(o *types.Var, e ast.Expr, st *State) *Term {
	t := Const("glob$"+sanitize(o.Pkg().Name()+"."+o.Name()), sortOf(o.Type()))
	fr := &Frame{id: -1, pkg: ex.prog.pkgs[o.Pkg().Path()], boxed: map[types.Object]bool{}}
	v := ex.toTerm(st, ex.eval(e, st, fr))
	addAxiom("glob$"+o.Name()+".init", "definition", Eq(t, v), t.op)
	return t
}

func pureInit(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr:
			if u, isU := n.(*ast.UnaryExpr); isU && u.Op != token.AND {
				return true
			}
			ok = false
		}
		return ok
	})
	return ok
}

func (ex *Exec) composite(x *ast.CompositeLit, t types.Type, st *State, fr *Frame) Value {
	info := ex.prog.info
	switch u := t.Underlying().(type) {
	case *types.Struct:
		d := structDT(t)
		if d == nil {
			if len(x.Elts) == 0 {
				return zeroOf(t)
			}
			// an opaque literal: evaluate the parts for their effects
			for _, el := range x.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					el = kv.Value
				}
				ex.eval(el, st, fr)
			}
			return Fresh("lit", sortOf(t))
		}
		args := make([]*Term, u.NumFields())
		for i, el := range x.Elts {
			idx := i
			val := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				val = kv.Value
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						idx = j
					}
				}
			}
			v := ex.evalElem(val, u.Field(idx).Type(), st, fr)
			args[idx] = ex.toTerm(st, ex.coerce(st, v, info.TypeOf(val), u.Field(idx).Type()))
		}
		for i := range args {
			if args[i] == nil {
				args[i] = zeroOf(u.Field(i).Type())
			}
		}
		return Mk(d, args...)
	case *types.Slice:
		if len(x.Elts) == 0 {
			b := ex.newBase(st)
			s := MkSlice(b, Int(0), Int(0), Int(0))
			ex.listFact(st, u.Elem(), s, ListNil(sortOf(u.Elem())))
			return s
		}
		arr := Const("zeroarr$"+sanitizeSort(sortOf(u.Elem())), SArray(SInt, sortOf(u.Elem())))
		n := int64(0)
		l := ListNil(sortOf(u.Elem()))
		for _, el := range x.Elts {
			val := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				c := info.Types[kv.Key]
				if c.Value == nil {
					panic(unsupported("keyed slice literal"))
				}
				n, _ = constant.Int64Val(c.Value)
				l = nil
				val = kv.Value
			}
			v := ex.toTerm(st, ex.coerce(st, ex.evalElem(val, u.Elem(), st, fr), info.TypeOf(val), u.Elem()))
			arr = Store(arr, Int(n), v)
			if l != nil {
				l = ListSnoc(l, v)
			}
			n++
		}
		b := ex.newBase(st)
		h := ex.heap(st, u.Elem())
		ex.setHeap(st, heapName(u.Elem()), Store(h, b, arr))
		s := MkSlice(b, Int(0), Int(n), Int(n))
		if l != nil {
			ex.listFact(st, u.Elem(), s, l)
		}
		return s
	case *types.Array:
		arr := ConstArray(sortOf(t), zeroOf(u.Elem()))
		n := int64(0)
		for _, el := range x.Elts {
			val := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				n, _ = constant.Int64Val(info.Types[kv.Key].Value)
				val = kv.Value
			}
			v := ex.toTerm(st, ex.coerce(st, ex.evalElem(val, u.Elem(), st, fr), info.TypeOf(val), u.Elem()))
			arr = Store(arr, Int(n), v)
			n++
		}
		return arr
	case *types.Map:
		m := ex.newMap(st, u)
		for _, el := range x.Elts {
			kv := el.(*ast.KeyValueExpr)
			k := ex.toTerm(st, ex.coerce(st, ex.evalElem(kv.Key, u.Key(), st, fr), info.TypeOf(kv.Key), u.Key()))
			v := ex.toTerm(st, ex.coerce(st, ex.evalElem(kv.Value, u.Elem(), st, fr), info.TypeOf(kv.Value), u.Elem()))
			ex.mapSet(st, u, m, k, v)
		}
		return m
	case *types.Pointer: // elided &T in a composite
		v := ex.toTerm(st, ex.composite(x, u.Elem(), st, fr))
		return ex.allocObj(st, u.Elem(), v)
	}
	panic(unsupported("composite literal of %s", t))
}

func (ex *Exec) evalElem(e ast.Expr, t types.Type, st *State, fr *Frame) Value {
	if c, ok := e.(*ast.CompositeLit); ok && c.Type == nil {
		return ex.composite(c, t, st, fr)
	}
	return ex.eval(e, st, fr)
}

func (ex *Exec) evalSelector(x *ast.SelectorExpr, st *State, fr *Frame) Value {
	info := ex.prog.info
	sel := info.Selections[x]
	if sel == nil {
		switch o := info.Uses[x.Sel].(type) {
		case *types.Var:
			ex.globalInit(o, st)
			return ex.seeFunc2(st.vars[VarKey{0, o}])
		case *types.Func:
			return &FuncVal{fn: o, sig: o.Type().(*types.Signature)}
		}
		panic(unsupported("selector %s", x.Sel.Name))
	}
	switch sel.Kind() {
	case types.FieldVal:
		lv := ex.fieldLV(x.X, sel, st, fr)
		return ex.seen(st, info.TypeOf(x), ex.load(lv, st))
	case types.MethodVal:
		fn := sel.Obj().(*types.Func)
		recv := ex.recvValue(x, sel, st, fr)
		return &FuncVal{fn: fn, recv: recv, recvT: fn.Type().(*types.Signature).Recv().Type(), sig: info.TypeOf(x).(*types.Signature)}
	case types.MethodExpr:
		fn := sel.Obj().(*types.Func)
		return &FuncVal{fn: fn, sig: info.TypeOf(x).(*types.Signature), name: "methodexpr"}
	}
	panic(unsupported("selection"))
}

// recvValue computes the receiver of a method call, with the implicit
// address-of and dereference steps.
func (ex *Exec) recvValue(x *ast.SelectorExpr, sel *types.Selection, st *State, fr *Frame) Value {
	info := ex.prog.info
	fn := sel.Obj().(*types.Func)
	rt := fn.Type().(*types.Signature).Recv().Type()
	_, wantPtr := rt.Underlying().(*types.Pointer)
	if isInterface(rt) {
		wantPtr = false
	}
	path := sel.Index()
	path = path[:len(path)-1]
	t := info.TypeOf(x.X)
	if len(path) == 0 {
		_, isPtr := t.Underlying().(*types.Pointer)
		switch {
		case isPtr && wantPtr, !isPtr && !wantPtr:
			return ex.eval(x.X, st, fr)
		case isPtr && !wantPtr:
			if isInterface(rt) {
				return ex.eval(x.X, st, fr)
			}
			p := ex.eval(x.X, st, fr)
			lv := ex.ptrLV(p, t.Underlying().(*types.Pointer).Elem(), st, x.Pos())
			return ex.seen(st, rt, ex.load(lv, st))
		default:
			return ex.addrOf(ex.lvalue(x.X, st, fr))
		}
	}
	// through embedded fields
	var lv *LV
	var ft types.Type = t
	for _, i := range path {
		s := ft
		if p, ok := s.Underlying().(*types.Pointer); ok {
			s = p.Elem()
		}
		ft = s.Underlying().(*types.Struct).Field(i).Type()
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		lv = ex.followPath(nil, ex.eval(x.X, st, fr), t, path, st, x.Pos())
	} else {
		lv = ex.followPath(ex.lvalue(x.X, st, fr), nil, t, path, st, x.Pos())
	}
	_, isPtr := ft.Underlying().(*types.Pointer)
	switch {
	case isPtr == wantPtr:
		return ex.seen(st, ft, ex.load(lv, st))
	case isPtr && !wantPtr:
		l2 := ex.ptrLV(ex.load(lv, st), ft.Underlying().(*types.Pointer).Elem(), st, x.Pos())
		return ex.load(l2, st)
	default:
		return ex.addrOf(lv)
	}
}

func (ex *Exec) addrOf(lv *LV) Value {
	if lv.kind == lvHeap && len(lv.path) == 0 {
		return lv.ref
	}
	return &PtrPath{lv}
}

func (ex *Exec) evalIndex(x *ast.IndexExpr, st *State, fr *Frame) Value {
	info := ex.prog.info
	if _, ok := info.TypeOf(x.X).Underlying().(*types.Signature); ok {
		return ex.eval(x.X, st, fr)
	}
	switch t := info.TypeOf(x.X).Underlying().(type) {
	case *types.Slice:
		s := ex.toTerm(st, ex.eval(x.X, st, fr))
		i := ex.toTerm(st, ex.eval(x.Index, st, fr))
		ex.bounds(s, i, st, x.Pos())
		h := ex.heap(st, t.Elem())
		v := Select(Select(h, SBase(s)), Add(SOff(s), i))
		return ex.seen(st, t.Elem(), ex.seeFunc(v))
	case *types.Array:
		a := ex.toTerm(st, ex.eval(x.X, st, fr))
		i := ex.toTerm(st, ex.eval(x.Index, st, fr))
		ex.emit("safe.index", "", And(Ge(i, Int(0)), Lt(i, Int(t.Len()))), st, x.Pos())
		return ex.seen(st, t.Elem(), ex.seeFunc(Select(a, i)))
	case *types.Map:
		m := ex.toTerm(st, ex.eval(x.X, st, fr))
		k := ex.toTerm(st, ex.coerce(st, ex.eval(x.Index, st, fr), info.TypeOf(x.Index), t.Key()))
		v, _ := ex.mapGet(st, t, m, k)
		return ex.seen(st, t.Elem(), ex.seeFunc2(v))
	case *types.Basic:
		s := ex.toTerm(st, ex.eval(x.X, st, fr))
		i := ex.toTerm(st, ex.eval(x.Index, st, fr))
		ex.emit("safe.index", "", And(Ge(i, Int(0)), Lt(i, StrLen(s))), st, x.Pos())
		r := UF("str.byte", SInt, s, i)
		if !r.bound {
			st.assume(And(Ge(r, Int(0)), Le(r, Int(255))))
		}
		return r
	}
	panic(unsupported("index of %s", info.TypeOf(x.X)))
}

func (ex *Exec) evalSlice(x *ast.SliceExpr, st *State, fr *Frame) Value {
	info := ex.prog.info
	t := info.TypeOf(x.X)
	get := func(e ast.Expr, def *Term) *Term {
		if e == nil {
			return def
		}
		return ex.toTerm(st, ex.eval(e, st, fr))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s := ex.toTerm(st, ex.eval(x.X, st, fr))
		lo := get(x.Low, Int(0))
		hi := get(x.High, StrLen(s))
		ex.emit("safe.slice", "", And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, StrLen(s))), st, x.Pos())
		return SubStr(s, lo, hi)
	case *types.Slice:
		s := ex.toTerm(st, ex.eval(x.X, st, fr))
		lo := get(x.Low, Int(0))
		hi := get(x.High, SLen(s))
		max := get(x.Max, SCap(s))
		goal := And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, max), Le(max, SCap(s)))
		ex.emit("safe.slice", "", goal, st, x.Pos())
		r := MkSlice(SBase(s), Ite(Eq(SBase(s), Int(0)), Int(0), Add(SOff(s), lo)), Sub(hi, lo), Sub(max, lo))
		if lo == Int(0) && hi == SLen(s) {
			// the same elements
			r = MkSlice(SBase(s), SOff(s), SLen(s), Sub(max, lo))
		}
		_ = u
		return r
	case *types.Pointer:
		panic(unsupported("slice of array pointer"))
	}
	panic(unsupported("slice of %s", t))
}

func (ex *Exec) evalUnary(x *ast.UnaryExpr, st *State, fr *Frame) Value {
	switch x.Op {
	case token.NOT:
		return Not(ex.evalCond(x.X, st, fr))
	case token.SUB:
		t := ex.toTerm(st, ex.eval(x.X, st, fr))
		if t.sort == SInt {
			return Sub(Int(0), t)
		}
		return UF("f64.neg", t.sort, t)
	case token.ADD:
		return ex.eval(x.X, st, fr)
	case token.AND:
		if c, ok := ast.Unparen(x.X).(*ast.CompositeLit); ok {
			t := ex.prog.info.TypeOf(c)
			v := ex.toTerm(st, ex.composite(c, t, st, fr))
			return ex.allocObj(st, t, v)
		}
		return ex.addrOf(ex.lvalue(x.X, st, fr))
	case token.XOR:
		t := ex.toTerm(st, ex.eval(x.X, st, fr))
		return UF("int.not", SInt, t)
	}
	panic(unsupported("unary %s", x.Op))
}

func (ex *Exec) evalBinary(x *ast.BinaryExpr, st *State, fr *Frame) Value {
	info := ex.prog.info
	if x.Op == token.LAND || x.Op == token.LOR {
		a := ex.evalCond(x.X, st, fr)
		if ex.spec {
			b := ex.evalCond(x.Y, st, fr)
			if x.Op == token.LAND {
				return And(a, b)
			}
			return Or(a, b)
		}
		if x.Op == token.LAND && a == False || x.Op == token.LOR && a == True {
			return a
		}
		// evaluate the right side only when needed
		r := st.clone()
		n0 := st.facts
		if x.Op == token.LAND {
			r.assumeBranch(a)
		} else {
			r.assumeBranch(Not(a))
		}
		b := ex.evalCond(x.Y, r, fr)
		if r.dead {
			if x.Op == token.LAND {
				return False
			}
			return True
		}
		g := a
		if x.Op == token.LOR {
			g = Not(a)
		}
		if ex.sameMem(r, st) {
			// no effect: keep the facts learnt, under the guard
			fs := factsSince(r.facts, n0)
			for _, f := range fs {
				if f.t == g || (g.op == "and" && contains(g.args, f.t)) {
					continue
				}
				st.assume(Implies(g, f.t))
			}
		} else {
			s2 := st.clone()
			s2.assumeBranch(Not(g))
			m, ok := ex.merge([]*State{r, s2})
			if !ok {
				panic(unsupported("effects in a short-circuit operand"))
			}
			*st = *m
		}
		if x.Op == token.LAND {
			return And(a, b)
		}
		return Or(a, b)
	}
	av := ex.eval(x.X, st, fr)
	bv := ex.eval(x.Y, st, fr)
	at, bt := info.TypeOf(x.X), info.TypeOf(x.Y)
	switch x.Op {
	case token.EQL:
		return ex.equal(st, av, at, bv, bt)
	case token.NEQ:
		return Not(ex.equal(st, av, at, bv, bt))
	}
	return ex.binary(x.Op, ex.toTerm(st, av), ex.toTerm(st, bv), at, st, fr)
}

func contains(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

func (ex *Exec) sameMem(a, b *State) bool {
	if a.alloc != b.alloc {
		return false
	}
	for n, h := range a.heaps {
		if g, ok := b.heaps[n]; ok && g != h {
			return false
		} else if !ok && h.op != n+"@0" {
			return false
		}
	}
	for k, v := range b.vars {
		if w, ok := a.vars[k]; !ok || !sameValue(v, w) {
			return false
		}
	}
	return true
}

func (ex *Exec) equal(st *State, a Value, at types.Type, b Value, bt types.Type) *Term {
	isNil := func(t types.Type) bool {
		bb, ok := t.(*types.Basic)
		return ok && bb.Kind() == types.UntypedNil
	}
	if isNil(bt) {
		return ex.isNil(st, a, at)
	}
	if isNil(at) {
		return ex.isNil(st, b, bt)
	}
	if p, ok := a.(*PtrPath); ok {
		if q, ok := b.(*PtrPath); ok && sameLV(p.lv, q.lv) {
			return True
		}
		panic(unsupported("comparison of interior pointers"))
	}
	if isInterface(at) && !isInterface(bt) {
		b = ex.coerce(st, b, bt, at)
	} else if isInterface(bt) && !isInterface(at) {
		a = ex.coerce(st, a, at, bt)
	}
	return Eq(ex.toTerm(st, a), ex.toTerm(st, b))
}

func (ex *Exec) isNil(st *State, a Value, t types.Type) *Term {
	switch v := a.(type) {
	case *FuncVal:
		return False
	case *PtrPath:
		return False
	case *Term:
		switch t.Underlying().(type) {
		case *types.Pointer:
			return Eq(RefBase(v), Int(0))
		case *types.Slice:
			return Eq(SBase(v), Int(0))
		}
		return Eq(v, zeroOf(t))
	}
	panic(unsupported("nil comparison"))
}

func (ex *Exec) binary(op token.Token, a, b *Term, t types.Type, st *State, fr *Frame) *Term {
	switch a.sort {
	case SInt:
		switch op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.QUO:
			ex.emit("safe.div", "", Neq(b, Int(0)), st, token.NoPos)
			// Go truncates towards zero
			return Ite(Ge(a, Int(0)), mk("div", SInt, a, b), Sub(Int(0), mk("div", SInt, Sub(Int(0), a), b)))
		case token.REM:
			ex.emit("safe.div", "", Neq(b, Int(0)), st, token.NoPos)
			return Ite(Ge(a, Int(0)), mk("mod", SInt, a, b), Sub(Int(0), mk("mod", SInt, Sub(Int(0), a), b)))
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Gt(a, b)
		case token.GEQ:
			return Ge(a, b)
		}
		return UF("int."+strings.ToLower(op.String()[:0]+tokName(op)), SInt, a, b)
	case SStr:
		switch op {
		case token.ADD:
			return Concat(a, b)
		case token.LSS:
			return UF("str.lt", SBool, a, b)
		case token.GTR:
			return UF("str.lt", SBool, b, a)
		case token.LEQ:
			return Not(UF("str.lt", SBool, b, a))
		case token.GEQ:
			return Not(UF("str.lt", SBool, a, b))
		}
	case SBool:
		switch op {
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		}
	}
	if a.sort == Sort("F64") {
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return UF("f64."+tokName(op), SBool, a, b)
		}
		return UF("f64."+tokName(op), a.sort, a, b)
	}
	panic(unsupported("operator %s on %s", op, a.sort))
}

func tokName(op token.Token) string {
	return map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "quo", token.REM: "rem", token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot", token.LSS: "lt", token.GTR: "gt", token.LEQ: "le", token.GEQ: "ge"}[op]
}

// ---- strings

func StrLen(s *Term) *Term {
	if c, ok := litOf[s.op]; ok && len(s.args) == 0 {
		return Int(int64(len(c)))
	}
	x := BoundVar("s", SStr)
	lx := UF("str.len_", SInt, x)
	addAxiom("str.len.pos", "string", Forall([]*Term{x}, And(Ge(lx, Int(0)), Eq(Eq(lx, Int(0)), Eq(x, StrLit("")))), []*Term{lx}), "str.len_")
	return UF("str.len_", SInt, s)
}

func Concat(a, b *Term) *Term {
	ca, oka := litOf[a.op]
	cb, okb := litOf[b.op]
	if oka && okb {
		return StrLit(ca + cb)
	}
	if oka && ca == "" {
		return b
	}
	if okb && cb == "" {
		return a
	}
	// right-associate
	if a.op == "str.cat" {
		return Concat(a.args[0], Concat(a.args[1], b))
	}
	if oka && b.op == "str.cat" {
		if c2, ok := litOf[b.args[0].op]; ok {
			return Concat(StrLit(ca+c2), b.args[1])
		}
	}
	x, y := BoundVar("x", SStr), BoundVar("y", SStr)
	declFun("str.cat", SStr, SStr, SStr)
	xy := mk("str.cat", SStr, x, y)
	addAxiom("str.cat.len", "string", Forall([]*Term{x, y}, Eq(StrLen(xy), Add(StrLen(x), StrLen(y))), []*Term{xy}), "str.cat", "str.len_")
	addAxiom("str.cat.nil", "string", Forall([]*Term{x, y}, And(Implies(Eq(x, StrLit("")), Eq(xy, y)), Implies(Eq(y, StrLit("")), Eq(xy, x))), []*Term{xy}), "str.cat")
	return UF("str.cat", SStr, a, b)
}

func SubStr(s, lo, hi *Term) *Term {
	if c, ok := litOf[s.op]; ok {
		if l, ok := lo.intVal(); ok {
			if h, ok := hi.intVal(); ok && l >= 0 && l <= h && h <= int64(len(c)) {
				return StrLit(c[l:h])
			}
		}
	}
	if lo == Int(0) && hi == StrLen(s) {
		return s
	}
	declFun("str.sub", SStr, SStr, SInt, SInt)
	x, l, h := BoundVar("x", SStr), BoundVar("l", SInt), BoundVar("h", SInt)
	sub := mk("str.sub", SStr, x, l, h)
	addAxiom("str.sub.len", "string", Forall([]*Term{x, l, h}, Implies(And(Le(Int(0), l), Le(l, h), Le(h, StrLen(x))), Eq(StrLen(sub), Sub(h, l))), []*Term{sub}), "str.sub")
	addAxiom("str.sub.full", "string", Forall([]*Term{x, l, h}, Implies(And(Eq(l, Int(0)), Eq(h, StrLen(x))), Eq(sub, x)), []*Term{sub}), "str.sub")
	if s.op == "str.cat" {
		y := BoundVar("y", SStr)
		declFun("str.cat", SStr, SStr, SStr)
		cat := mk("str.cat", SStr, x, y)
		sc := mk("str.sub", SStr, cat, l, h)
		addAxiom("str.sub.cat", "string", Forall([]*Term{x, y, l, h}, And(
			Implies(And(Eq(l, Int(0)), Eq(h, StrLen(x))), Eq(sc, x)),
			Implies(And(Ge(l, StrLen(x)), Le(l, h), Le(h, StrLen(cat))), Eq(sc, mk("str.sub", SStr, y, Sub(l, StrLen(x)), Sub(h, StrLen(x)))))), []*Term{sc}), "str.sub", "str.cat")
	}
	return UF("str.sub", SStr, s, lo, hi)
}

// ---- maps

func (ex *Exec) mapHeaps(st *State, t *types.Map) (dn, vn string, d, v *Term) {
	dn, vn, ks, vs := mapNames(t)
	d = ex.heapNamed(st, dn, SArray(SInt, SArray(ks, SBool)))
	v = ex.heapNamed(st, vn, SArray(SInt, SArray(ks, vs)))
	return
}

func (ex *Exec) newMap(st *State, t *types.Map) *Term {
	b := ex.newBase(st)
	dn, _, d, _ := ex.mapHeaps(st, t)
	ex.setHeap(st, dn, Store(d, b, ConstArray(SArray(sortOf(t.Key()), SBool), False)))
	return b
}

func (ex *Exec) mapGet(st *State, t *types.Map, m, k *Term) (v, ok *Term) {
	_, _, d, vv := ex.mapHeaps(st, t)
	if m == Int(0) {
		return zeroOf(t.Elem()), False
	}
	ok = And(Neq(m, Int(0)), Select(Select(d, m), k))
	v = Ite(ok, Select(Select(vv, m), k), zeroOf(t.Elem()))
	return
}

func (ex *Exec) mapSet(st *State, t *types.Map, m, k, v *Term) {
	ex.emit("safe.nilmap", "", Neq(m, Int(0)), st, token.NoPos)
	dn, vn, d, vv := ex.mapHeaps(st, t)
	ex.setHeap(st, dn, Store(d, m, Store(Select(d, m), k, True)))
	ex.setHeap(st, vn, Store(vv, m, Store(Select(vv, m), k, v)))
}

func (ex *Exec) mapDelete(st *State, t *types.Map, m, k *Term) {
	dn, _, d, _ := ex.mapHeaps(st, t)
	ex.setHeap(st, dn, Store(d, m, Store(Select(d, m), k, False)))
}

// ---- lists of slice elements

// fuel
func fuelZ() *Term        { return Const("fuel.z", SFuel) }
func fuelS(f *Term) *Term { declFun("fuel.s", SFuel, SFuel); return mk("fuel.s", SFuel, f) }
func fuel2() *Term        { return fuelS(fuelS(fuelZ())) }

// ToList is the list of the first n elements at (arr, off).
func ToList(arr, off, n *Term) *Term {
	_, e := arrayElem(arr.sort)
	fn := "tolist$" + sanitizeSort(e)
	ls := listDT(e).name
	declFun(fn, ls, SFuel, arr.sort, SInt, SInt)
	if v, ok := n.intVal(); ok && v <= 0 {
		return ListNil(e)
	}
	if !axiomSeen[fn+".def"] {
		a, o, k, z := BoundVar("a", arr.sort), BoundVar("o", SInt), BoundVar("n", SInt), BoundVar("z", SFuel)
		t := mk(fn, ls, fuelS(z), a, o, k)
		t0 := mk(fn, ls, z, a, o, k)
		prev := mk(fn, ls, z, a, o, Sub(k, Int(1)))
		addAxiom(fn+".def", "definition", Forall([]*Term{z, a, o, k}, Eq(t, Ite(Le(k, Int(0)), ListNil(e), ListSnoc(prev, Select(a, Add(o, Sub(k, Int(1))))))), []*Term{t}), fn)
		addAxiom(fn+".fuel", "definition", Forall([]*Term{z, a, o, k}, Eq(t, t0), []*Term{t}), fn)
		j, v := BoundVar("j", SInt), BoundVar("v", e)
		st := mk("store", arr.sort, a, j, v)
		ts := mk(fn, ls, z, st, o, k)
		// proved by induction on k (see selfcheck)
		addAxiom(fn+".frame", "lemma", Forall([]*Term{z, a, o, k, j, v}, Implies(Or(Lt(j, o), Ge(j, Add(o, k))), Eq(ts, mk(fn, ls, z, a, o, k))), []*Term{ts}), fn)
	}
	return mk(fn, ls, fuel2(), arr, off, n)
}

func (ex *Exec) sliceList(st *State, elem types.Type, s *Term) *Term {
	h := ex.heap(st, elem)
	return ToList(Select(h, SBase(s)), SOff(s), SLen(s))
}

func (ex *Exec) listFact(st *State, elem types.Type, s, l *Term) {
	if !ex.spec {
		st.assume(Eq(ex.sliceList(st, elem, s), l))
	}
}

var _ = fmt.Sprintf
