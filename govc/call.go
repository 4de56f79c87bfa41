package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (ex *Exec) calleeObj(fun ast.Expr) types.Object {
	info := ex.prog.info
	switch f := ast.Unparen(fun).(type) {
	case *ast.Ident:
		return info.Uses[f]
	case *ast.SelectorExpr:
		return info.Uses[f.Sel]
	case *ast.IndexExpr:
		return ex.calleeObj(f.X)
	case *ast.IndexListExpr:
		return ex.calleeObj(f.X)
	}
	return nil
}

func (ex *Exec) isPrelude(o types.Object) bool {
	fn, ok := o.(*types.Func)
	if !ok {
		return false
	}
	if fn.Pkg() == nil || !isRepoPkg(fn.Pkg()) {
		return false
	}
	f := ex.prog.fset.Position(fn.Pos()).Filename
	return strings.HasPrefix(f, "prelude_")
}

// evalCallParts evaluates the callee and arguments of a call, without
// running it.
func (ex *Exec) evalCallParts(x *ast.CallExpr, st *State, fr *Frame) (Value, []Value, *types.Signature) {
	info := ex.prog.info
	if b, ok := ex.calleeObj(x.Fun).(*types.Builtin); ok {
		panic(unsupported("deferred builtin %s", b.Name()))
	}
	sig, ok := info.TypeOf(x.Fun).Underlying().(*types.Signature)
	if !ok {
		panic(unsupported("call of %s", info.TypeOf(x.Fun)))
	}
	fv := ex.eval(x.Fun, st, fr)
	args := ex.evalArgs(x, sig, st, fr)
	return fv, args, sig
}

func (ex *Exec) evalArgs(x *ast.CallExpr, sig *types.Signature, st *State, fr *Frame) []Value {
	info := ex.prog.info
	np := sig.Params().Len()
	var vals []tv
	if len(x.Args) == 1 && np > 1 {
		if tup, ok := info.TypeOf(x.Args[0]).(*types.Tuple); ok {
			vs := ex.evalMulti(x.Args[0], st, fr)
			for i, v := range vs {
				vals = append(vals, tv{v, tup.At(i).Type()})
			}
		}
	}
	if vals == nil {
		for i, a := range x.Args {
			v := ex.eval(a, st, fr)
			// remember the contract of a literal passed directly
			_ = i
			vals = append(vals, tv{v, info.TypeOf(a)})
		}
	}
	var args []Value
	for i := 0; i < np; i++ {
		pt := sig.Params().At(i).Type()
		if sig.Variadic() && i == np-1 && !x.Ellipsis.IsValid() {
			et := pt.(*types.Slice).Elem()
			rest := vals[i:]
			if len(rest) == 0 {
				args = append(args, NilSlice())
				break
			}
			var ts []*Term
			opaque := false
			for _, r := range rest {
				v := ex.coerce(st, r.v, r.t, et)
				t, ok := ex.tryTerm(st, v)
				if !ok {
					opaque = true
					break
				}
				ts = append(ts, t)
			}
			if opaque {
				panic(unsupported("variadic argument"))
			}
			arr := Const("zeroarr$"+sanitizeSort(sortOf(et)), SArray(SInt, sortOf(et)))
			for j, t := range ts {
				arr = Store(arr, Int(int64(j)), t)
			}
			b := ex.newBase(st)
			h := ex.heap(st, et)
			ex.setHeap(st, heapName(et), Store(h, b, arr))
			args = append(args, MkSlice(b, Int(0), Int(int64(len(ts))), Int(int64(len(ts)))))
			break
		}
		args = append(args, ex.coerce(st, vals[i].v, vals[i].t, pt))
	}
	return args
}

func (ex *Exec) call(x *ast.CallExpr, st *State, fr *Frame) []Value {
	info := ex.prog.info
	// conversion
	if tvv, ok := info.Types[x.Fun]; ok && tvv.IsType() {
		return []Value{ex.convert(x, tvv.Type, st, fr)}
	}
	obj := ex.calleeObj(x.Fun)
	if b, ok := obj.(*types.Builtin); ok {
		return ex.builtin(b.Name(), x, st, fr)
	}
	if ex.isPrelude(obj) {
		return []Value{ex.preludeCall(obj.(*types.Func), x, st, fr)}
	}
	sig, ok := info.TypeOf(x.Fun).Underlying().(*types.Signature)
	if !ok {
		panic(unsupported("call of %s", info.TypeOf(x.Fun)))
	}
	var fv Value
	if fn, ok := obj.(*types.Func); ok {
		if f, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok {
			if sel := info.Selections[f]; sel != nil && sel.Kind() == types.MethodVal {
				// an embedded interface or pointer is followed by recvValue
				fv = &FuncVal{fn: fn, recv: ex.recvValue(f, sel, st, fr), sig: sig}
			}
		}
		if fv == nil {
			fv = &FuncVal{fn: fn, sig: sig}
		}
	} else {
		fv = ex.eval(x.Fun, st, fr)
	}
	args := ex.evalArgs(x, sig, st, fr)
	return ex.apply(fv, args, sig, st, fr, x.Pos())
}

// apply runs a function value.
func (ex *Exec) apply(fv Value, args []Value, sig *types.Signature, st *State, fr *Frame, pos token.Pos) []Value {
	if st.dead {
		return ex.deadResults(sig)
	}
	switch f := fv.(type) {
	case *FuncVal:
		if f.fn != nil {
			all := args
			if f.recv != nil {
				all = append([]Value{f.recv}, args...)
			}
			return ex.applyFunc(f.fn, all, sig, st, fr, pos)
		}
		if f.callback != nil {
			return ex.applyLitContract(f.callback, f.cbFrame, args, sig, st, pos, "callback")
		}
		if f.lit != nil {
			if f.contract != nil && !ex.spec {
				return ex.applyLitContract(f.contract, f.conFrame, args, sig, st, pos, "closure")
			}
			return ex.applyClosure(f, args, sig, st, fr, pos)
		}
	case *Term:
		if g, ok := ex.funcTerms[f]; ok {
			return ex.apply(g, args, sig, st, fr, pos)
		}
		if !ex.spec && ex.known(f) {
			return ex.applyEither(f, args, sig, st, fr, pos)
		}
		if !ex.spec {
			ex.emit("safe.nilfunc", "", Neq(f, FuncNil()), st, pos)
		}
		return ex.applyUnknown(f, args, sig, st)
	}
	panic(unsupported("call of a %T", fv))
}

// known tells that f is one of the functions the executor can see through.
func (ex *Exec) known(f *Term) bool {
	if cs := ex.funcChoices[f]; cs != nil {
		for _, c := range cs {
			if !ex.known(c.f) {
				return false
			}
		}
		return true
	}
	return ex.funcTerms[f] != nil
}

// applyEither runs each of the functions that f may be.
func (ex *Exec) applyEither(f *Term, args []Value, sig *types.Signature, st *State, fr *Frame, pos token.Pos) []Value {
	tmp := ex.newFrame(nil, nil, "either", nil, nil)
	var keys []VarKey
	for i := 0; i < sig.Results().Len(); i++ {
		keys = append(keys, VarKey{tmp.id, types.NewVar(token.NoPos, nil, fmt.Sprintf("ret%d", i), sig.Results().At(i).Type())})
	}
	var sts []*State
	for _, c := range ex.funcChoices[f] {
		s := st.clone()
		s.assume(c.guard)
		vs := ex.apply(c.f, args, sig, s, fr, pos)
		if s.dead {
			continue
		}
		for j, k := range keys {
			s.vars[k] = vs[j]
		}
		sts = append(sts, s)
	}
	if len(sts) == 0 {
		st.assume(False)
		st.dead = true
		return ex.deadResults(sig)
	}
	m, ok := ex.merge(sts)
	if !ok {
		panic(unsupported("results of a call cannot be merged"))
	}
	*st = *m
	var res []Value
	for i, k := range keys {
		v := st.vars[k]
		delete(st.vars, k)
		res = append(res, ex.seen(st, sig.Results().At(i).Type(), ex.seeFunc2(v)))
	}
	return res
}

func (ex *Exec) deadResults(sig *types.Signature) []Value {
	var out []Value
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, zeroOf(sig.Results().At(i).Type()))
	}
	return out
}

// applyUnknown treats an unknown function value as a pure, deterministic
// function of its arguments and of the memory they point at directly.
func (ex *Exec) applyUnknown(f *Term, args []Value, sig *types.Signature, st *State) []Value {
	ex.assumes["unknown function values are pure, deterministic and total (signature "+sig.String()+")"] = true
	ts := []*Term{f}
	for i, a := range args {
		if pt, ok := sig.Params().At(i).Type().Underlying().(*types.Pointer); ok {
			ts = append(ts, ex.heap(st, pt.Elem()))
		}
		ts = append(ts, ex.toTerm(st, a))
	}
	var out []Value
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		r := UF(fmt.Sprintf("apply%d$%s", i, sigKey(sig)), sortOf(rt), ts...)
		out = append(out, ex.seen(st, rt, ex.seeFunc(r)))
	}
	return out
}

// summarize relates a function constant to its body, when the body is a pure
// expression. It returns the heaps, other than those of its parameters, that
// the body reads: the function stands for what it is in this state.
func (ex *Exec) summarize(st *State, f *FuncVal) (reads map[string]*Term) {
	if f.callback != nil || f.sig == nil || f.sig.Results().Len() != 1 || st == nil {
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); !ok {
				panic(r)
			}
			reads = nil
		}
	}()
	sig := f.sig
	tmp := st.clone()
	var vars []*Term
	var args []Value
	ts := []*Term{f.term}
	hseen := map[string]*Term{}
	for i := 0; i < sig.Params().Len(); i++ {
		pt := sig.Params().At(i).Type()
		if p, ok := pt.Underlying().(*types.Pointer); ok {
			n := heapName(p.Elem())
			h := hseen[n]
			if h == nil {
				h = BoundVar("h", heapSort(p.Elem()))
				hseen[n] = h
				vars = append(vars, h)
				tmp.heaps[n] = h
			}
			ts = append(ts, h)
		}
		v := BoundVar("x", sortOf(pt))
		vars = append(vars, v)
		ts = append(ts, v)
		args = append(args, v)
	}
	for n := range tmp.heaps {
		if hseen[n] == nil {
			delete(tmp.heaps, n)
		}
	}
	oldOn, oldSpec := ex.onHeap, ex.spec
	reads = map[string]*Term{}
	ex.onHeap = func(n string, s Sort) *Term {
		if oldOn != nil {
			panic(unsupported("summary reads %s", n))
		}
		h := st.heaps[n]
		if h == nil {
			h = Const(n+"@0", s)
			st.heaps[n] = h
			ex.heapSorts[n] = s
		}
		reads[n] = h
		tmp.heaps[n] = h
		return h
	}
	ex.spec = true
	defer func() { ex.onHeap, ex.spec = oldOn, oldSpec }()
	body := ex.pureBody(f, args, tmp)
	app := UF(fmt.Sprintf("apply0$%s", sigKey(sig)), sortOf(sig.Results().At(0).Type()), ts...)
	addAxiom(f.term.op+".body", "definition", Forall(vars, Eq(app, body), []*Term{app}), f.term.op)
	return reads
}

// pureBody evaluates a function body as an expression.
func (ex *Exec) pureBody(f *FuncVal, args []Value, st *State) *Term {
	if f.lit != nil {
		fr := ex.newFrame(f.env, nil, "summary", f.sig, nil)
		fr.bind = map[types.Object]Value{}
		sig := ex.prog.info.TypeOf(f.lit).(*types.Signature)
		for i := range args {
			fr.bind[sig.Params().At(i)] = args[i]
		}
		return ex.specBody(f.lit.Body.List, st, fr, sig.Results().At(0).Type())
	}
	if f.fn != nil {
		all := args
		if f.recv != nil {
			all = append([]Value{f.recv}, args...)
		}
		vs := ex.specCall(f.fn, all, st)
		return ex.toTerm(st, vs)
	}
	panic(unsupported("no body"))
}

func (ex *Exec) applyClosure(f *FuncVal, args []Value, sig *types.Signature, st *State, fr *Frame, pos token.Pos) []Value {
	if ex.spec {
		return []Value{ex.pureBody(f, args, st)}
	}
	fsig := ex.prog.info.TypeOf(f.lit).(*types.Signature)
	for c, n := fr, 0; c != nil; c = c.caller {
		if c.recFn == interface{}(f.lit) {
			n++
			if n > 0 {
				panic(unsupported("recursive closure without a contract"))
			}
		}
	}
	nf := ex.newFrame(f.env, fr, fr.fn+"$lit", fsig, fr.pkg)
	nf.recFn = f.lit
	return ex.runBody(nf, f.lit.Body, fsig, nil, args, st, fr)
}

// runBody executes a function body in frame nf and returns its results; st
// becomes the state after the call.
func (ex *Exec) runBody(nf *Frame, body *ast.BlockStmt, sig *types.Signature, recv *types.Var, args []Value, st *State, caller *Frame) []Value {
	if nf.depth > 60 {
		panic(unsupported("call depth"))
	}
	ex.boxedVars(body, nf.boxed)
	ps := allParams(sig)
	if len(ps) != len(args) {
		panic(unsupported("argument count"))
	}
	for i, p := range ps {
		ex.declare(nf, st, p, args[i])
	}
	for _, r := range nf.results {
		if r.Name() == "" || r.Name() == "_" {
			st.vars[VarKey{nf.id, r}] = zeroOf(r.Type())
		} else {
			ex.declare(nf, st, r, zeroOf(r.Type()))
		}
	}
	ex.frames = append(ex.frames, nf)
	outs := ex.execBody(nf, body, st.clone())
	ex.frames = ex.frames[:len(ex.frames)-1]
	var rets []*State
	tmp := ex.newFrame(nil, nil, "ret", nil, nil)
	var resKeys []VarKey
	for i, r := range nf.results {
		resKeys = append(resKeys, VarKey{tmp.id, types.NewVar(token.NoPos, nil, fmt.Sprintf("ret%d", i), r.Type())})
	}
	for _, o := range outs {
		switch o.kind {
		case oReturn, oNormal:
			for i, r := range nf.results {
				o.st.vars[resKeys[i]] = ex.getResult(nf, o.st, r)
			}
			ex.purge(nf, o.st)
			rets = append(rets, o.st)
		case oPanic:
			ex.purge(nf, o.st)
			ex.side = append(ex.side, o)
		default:
			panic(unsupported("jump out of a function"))
		}
	}
	if len(rets) == 0 {
		st.assume(False)
		st.dead = true
		return ex.deadResults(sig)
	}
	m, ok := ex.merge(rets)
	if !ok {
		panic(unsupported("results of %s cannot be merged", nf.fn))
	}
	*st = *m
	var res []Value
	for i, k := range resKeys {
		v := st.vars[k]
		delete(st.vars, k)
		res = append(res, ex.seen(st, nf.results[i].Type(), ex.seeFunc2(v)))
	}
	return res
}

// purge drops the variables of a finished frame, unless a closure may have
// captured them.
func (ex *Exec) purge(nf *Frame, st *State) {
	live := false
	for k, v := range st.vars {
		if k.frame == nf.id {
			continue
		}
		if ex.capturesFrame(v, nf) {
			live = true
		}
	}
	for _, f := range ex.funcTerms {
		if f.lit != nil && inEnv(f.env, nf) {
			live = true
		}
	}
	if live {
		return
	}
	for k := range st.vars {
		if k.frame == nf.id {
			delete(st.vars, k)
		}
	}
}

func (ex *Exec) capturesFrame(v Value, nf *Frame) bool {
	switch x := v.(type) {
	case *FuncVal:
		if x.lit != nil && inEnv(x.env, nf) {
			return true
		}
		if x.recv != nil {
			return ex.capturesFrame(x.recv, nf)
		}
	case *PtrPath:
		return x.lv.kind == lvVar && x.lv.key.frame == nf.id
	}
	return false
}

func inEnv(f, nf *Frame) bool {
	for ; f != nil; f = f.parent {
		if f == nf {
			return true
		}
	}
	return false
}

// execBody runs a body to its end, including deferred calls.
func (ex *Exec) execBody(nf *Frame, body *ast.BlockStmt, st *State) []*Outcome {
	savedSide := ex.side
	ex.side = nil
	outs := ex.execBlock(body.List, st, nf)
	outs = append(outs, ex.side...)
	ex.side = savedSide
	var res []*Outcome
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		ds := o.st.defers[nf.id]
		if len(ds) == 0 {
			res = append(res, o)
			continue
		}
		delete(o.st.defers, nf.id)
		res = append(res, ex.runDefers(nf, o, ds)...)
	}
	return res
}

func (ex *Exec) runDefers(nf *Frame, o *Outcome, ds []*Deferred) []*Outcome {
	cur := []*Outcome{o}
	for i := len(ds) - 1; i >= 0; i-- {
		var next []*Outcome
		for _, c := range cur {
			savedP, savedR := c.st.panicVal, c.st.recov
			c.st.panicVal, c.st.recov = nil, false
			if c.kind == oPanic {
				c.st.panicVal = c.pval
			}
			// run the deferred call, keeping recovered and panicking paths apart
			saved := ex.side
			ex.side = nil
			outs := ex.deferCall(nf, ds[i], c.st)
			for _, d := range outs {
				kind := c.kind
				pv := c.pval
				if d.kind == oPanic {
					kind, pv = oPanic, d.pval
				} else if d.st.recov {
					kind = oReturn
					pv = nil
				}
				d.st.panicVal, d.st.recov = savedP, savedR
				next = append(next, &Outcome{kind: kind, st: d.st, pval: pv})
			}
			for _, s := range ex.side {
				s.st.panicVal, s.st.recov = savedP, savedR
				next = append(next, s)
			}
			ex.side = saved
		}
		cur = next
	}
	return cur
}

// deferCall runs a deferred function without merging its outcomes.
func (ex *Exec) deferCall(fr *Frame, d *Deferred, st *State) []*Outcome {
	f, ok := d.fv.(*FuncVal)
	if !ok {
		panic(unsupported("deferred call of an unknown function"))
	}
	var body *ast.BlockStmt
	var sig *types.Signature
	var nf *Frame
	args := d.args
	switch {
	case f.lit != nil:
		sig = ex.prog.info.TypeOf(f.lit).(*types.Signature)
		body = f.lit.Body
		nf = ex.newFrame(f.env, fr, fr.fn+"$defer", sig, fr.pkg)
	case f.fn != nil && ex.prog.funcs[f.fn] != nil:
		sig = f.fn.Type().(*types.Signature)
		body = ex.prog.funcs[f.fn].Body
		nf = ex.newFrame(nil, fr, shortName(f.fn), sig, ex.prog.pkgOf[f.fn])
		if f.recv != nil {
			args = append([]Value{f.recv}, args...)
		}
	default:
		ex.apply(d.fv, d.args, d.sig, st, fr, token.NoPos)
		return one(st)
	}
	ex.boxedVars(body, nf.boxed)
	for i, p := range allParams(sig) {
		ex.declare(nf, st, p, args[i])
	}
	outs := ex.execBody(nf, body, st)
	for _, o := range outs {
		if o.kind == oReturn {
			o.kind = oNormal
		}
		ex.purge(nf, o.st)
	}
	return outs
}

// applyFunc calls a declared function or method.
func (ex *Exec) applyFunc(fn *types.Func, args []Value, sig *types.Signature, st *State, fr *Frame, pos token.Pos) []Value {
	fn = fn.Origin()
	if ex.spec {
		return []Value{ex.specCall(fn, args, st)}
	}
	if _, ok := ex.prog.specFn[fn]; ok {
		// client code may call specification functions
		sp := ex.spec
		ex.spec = true
		v := ex.specCall(fn, args, st)
		ex.spec = sp
		return []Value{v}
	}
	if c := lemmaOf[fn]; c != nil {
		panic(unsupported("lemma called as code"))
	}
	name := shortName(fn)
	if c := ex.prog.contract[fn]; c != nil && c.invalid == "" {
		_, inl := c.opts["inline"]
		if !inl || ex.onStack(fn) || c.target == ex.selfFn() {
			return ex.applyContract(c, args, sig, st, pos)
		}
	}
	if isInterfaceRecv(fn) {
		return ex.interfaceCall(fn, args, sig, st, fr, pos)
	}
	fd := ex.prog.funcs[fn]
	if fd != nil && fd.Body != nil {
		if ex.onStack(fn) {
			panic(unsupported("recursive function %s without a contract", name))
		}
		ex.inlined[name] = true
		fsig := fn.Type().(*types.Signature)
		nf := ex.newFrame(nil, fr, name, fsig, ex.prog.pkgOf[fn])
		nf.recFn = fn
		return ex.runBody(nf, fd.Body, fsig, fsig.Recv(), args, st, fr)
	}
	return ex.externCall(fn, args, sig, st, fr, pos)
}

func (ex *Exec) selfFn() *types.Func {
	if ex.con != nil {
		return ex.con.target
	}
	return nil
}

func (ex *Exec) onStack(fn *types.Func) bool {
	for _, f := range ex.frames {
		if f.recFn == interface{}(fn) {
			return true
		}
	}
	return false
}

func isInterfaceRecv(fn *types.Func) bool {
	r := fn.Type().(*types.Signature).Recv()
	return r != nil && isInterface(r.Type())
}

func (ex *Exec) interfaceCall(fn *types.Func, args []Value, sig *types.Signature, st *State, fr *Frame, pos token.Pos) []Value {
	if c := ex.extern(funcFullName(fn)); c != nil {
		return ex.applyContract(c, args, sig, st, pos)
	}
	recv := ex.toTerm(st, args[0])
	ex.emit("safe.nil", "", Neq(recv, IfaceNil()), st, pos)
	// sealed interfaces of the repository: dispatch
	rt := fn.Type().(*types.Signature).Recv().Type()
	if impls := ex.sealedImpls(rt); impls != nil {
		ex.sealed(st, recv, rt)
		var outs []*State
		tmp := ex.newFrame(nil, nil, "dyn", nil, nil)
		var keys []VarKey
		for i := 0; i < sig.Results().Len(); i++ {
			keys = append(keys, VarKey{tmp.id, types.NewVar(token.NoPos, nil, fmt.Sprintf("dyn%d", i), sig.Results().At(i).Type())})
		}
		for _, t := range impls {
			s := st.clone()
			s.assumeBranch(IsDyn(t, recv))
			if s.dead {
				continue
			}
			obj, _, _ := types.LookupFieldOrMethod(t, true, fn.Pkg(), fn.Name())
			m, ok := obj.(*types.Func)
			if !ok {
				panic(unsupported("dynamic dispatch of %s", fn.Name()))
			}
			var r Value = Unbox(t, recv)
			if _, isP := t.Underlying().(*types.Pointer); isP {
				if _, wp := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Pointer); !wp {
					r = ex.load(ex.ptrLV(r, t.Underlying().(*types.Pointer).Elem(), s, pos), s)
				}
			}
			vs := ex.applyFunc(m, append([]Value{r}, args[1:]...), sig, s, fr, pos)
			for i, v := range vs {
				s.vars[keys[i]] = v
			}
			if !s.dead {
				outs = append(outs, s)
			}
		}
		m, ok := ex.merge(outs)
		if !ok {
			panic(unsupported("dynamic dispatch of %s", fn.Name()))
		}
		*st = *m
		var res []Value
		for _, k := range keys {
			res = append(res, st.vars[k])
			delete(st.vars, k)
		}
		return res
	}
	return ex.externCall(fn, args, sig, st, fr, pos)
}

// pure external packages: results depend on the arguments only
var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true, "math": true}

func (ex *Exec) externCall(fn *types.Func, args []Value, sig *types.Signature, st *State, fr *Frame, pos token.Pos) []Value {
	full := funcFullName(fn)
	if c := ex.model(full); c != nil {
		ex.assumes["external "+full+": does what the model in the contract files does"] = true
		if ex.onStack(c.obj) {
			panic(unsupported("recursive model %s", full))
		}
		msig := c.obj.Type().(*types.Signature)
		nf := ex.newFrame(nil, fr, full, msig, c.pkg)
		nf.recFn = c.obj
		return ex.runBody(nf, c.decl.Body, msig, nil, args, st, fr)
	}
	if c := ex.extern(full); c != nil {
		return ex.applyContract(c, args, sig, st, pos)
	}
	if full == "sync.Once.Do" {
		return ex.onceDo(args, sig, st, fr, pos)
	}
	// a pure function of plain values
	pure := fn.Pkg() != nil && purePkgs[fn.Pkg().Path()]
	var ts []*Term
	if pure {
		for _, a := range args {
			t, ok := a.(*Term)
			if !ok || t.sort == SSlice || t.sort == SRef || t.sort == SFunc {
				pure = false
				break
			}
			ts = append(ts, t)
		}
		for i := 0; i < sig.Results().Len(); i++ {
			switch sortOf(sig.Results().At(i).Type()) {
			case SSlice, SRef:
				pure = false
			}
		}
	}
	var res []Value
	if pure {
		ex.assumes["external "+full+": a deterministic function of its arguments, otherwise unspecified"] = true
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			r := UF(fmt.Sprintf("ext%d$%s", i, sanitize(full)), sortOf(rt), ts...)
			res = append(res, ex.seen(st, rt, r))
		}
		return res
	}
	ex.assumes["external "+full+": arbitrary result; writes only memory its pointer and slice arguments refer to directly"] = true
	psig := fn.Type().(*types.Signature)
	ps := allParams(psig)
	for i, a := range args {
		if i < len(ps) {
			ex.havocArg(a, ps[i].Type(), st, full)
		}
	}
	na := Fresh("alloc", SInt)
	st.assume(Ge(na, st.alloc))
	st.alloc = na
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		r := Fresh(sanitize(fn.Name()), sortOf(rt))
		res = append(res, ex.seen(st, rt, r))
	}
	return res
}

var readOnlyPkgs = map[string]bool{"fmt": true, "strings": true, "bytes": true, "errors": true, "strconv": true, "regexp": true, "time": true, "path/filepath": true, "log": true, "go/token": true}

func (ex *Exec) havocArg(a Value, t types.Type, st *State, full string) {
	switch v := a.(type) {
	case *FuncVal:
		panic(unsupported("function passed to external %s", full))
	case *PtrPath:
		pt := t.Underlying().(*types.Pointer)
		ex.store(v.lv, Fresh("ext", sortOf(pt.Elem())), st)
	case *Term:
		i := strings.LastIndex(full, "/")
		p := full
		_ = i
		for k := range readOnlyPkgs {
			if strings.HasPrefix(p, k+".") {
				if v.sort == SSlice {
					return
				}
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			n := heapName(u.Elem())
			h := ex.heap(st, u.Elem())
			ex.setHeap(st, n, Store(h, RefBase(v), Store(Select(h, RefBase(v)), RefIdx(v), Fresh("ext", sortOf(u.Elem())))))
		case *types.Slice:
			if v == NilSlice() {
				return
			}
			ex.havocElems(st, u.Elem(), v)
		}
	}
}

// havocElems makes the elements of a slice arbitrary.
func (ex *Exec) havocElems(st *State, elem types.Type, s *Term) {
	n := heapName(elem)
	h := ex.heap(st, elem)
	oldA := Select(h, SBase(s))
	newA := Fresh("elems", oldA.sort)
	i := BoundVar("i", SInt)
	sel := mk("select", sortOf(elem), newA, i)
	st.assume(Forall([]*Term{i}, Implies(Or(Lt(i, SOff(s)), Ge(i, Add(SOff(s), SLen(s)))), Eq(sel, mk("select", sortOf(elem), oldA, i))), []*Term{sel}))
	st.assume(Implies(Eq(SLen(s), Int(0)), Eq(newA, oldA)))
	ex.setHeap(st, n, Store(h, SBase(s), newA))
}

func (ex *Exec) onceDo(args []Value, sig *types.Signature, st *State, fr *Frame, pos token.Pos) []Value {
	var lv *LV
	switch p := args[0].(type) {
	case *PtrPath:
		lv = p.lv
	case *Term:
		pt := types.Type(nil)
		_ = pt
		panic(unsupported("sync.Once through a plain pointer %s", p))
	}
	cur := ex.toTerm(st, ex.load(lv, st))
	done := UF("once.done", SBool, cur)
	addAxiom("once.zero", "box", Not(UF("once.done", SBool, Const("zero$"+sanitize(string(cur.sort)), cur.sort))), "once.done")
	a := st.clone()
	a.assumeBranch(Not(done))
	b := st.clone()
	b.assumeBranch(done)
	if !a.dead {
		ex.apply(args[1], nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), a, fr, pos)
		n := Fresh("once", cur.sort)
		a.assume(UF("once.done", SBool, n))
		ex.store(lv, n, a)
	}
	m, ok := ex.merge([]*State{a, b})
	if !ok {
		panic(unsupported("once.Do"))
	}
	*st = *m
	return nil
}

// ---- conversions and builtins

func (ex *Exec) convert(x *ast.CallExpr, to types.Type, st *State, fr *Frame) Value {
	from := ex.prog.info.TypeOf(x.Args[0])
	v := ex.eval(x.Args[0], st, fr)
	return ex.convertVal(v, from, to, st)
}

func (ex *Exec) convertVal(v Value, from, to types.Type, st *State) Value {
	if isInterface(to) {
		return ex.coerce(st, v, from, to)
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return zeroOf(to)
	}
	fs, ts := sortOf(from), sortOf(to)
	switch {
	case fs == SStr && ts == SSlice:
		et := to.Underlying().(*types.Slice).Elem()
		s := ex.toTerm(st, v)
		n := "str2slice$" + sanitizeSort(sortOf(et))
		b := ex.newBase(st)
		arr := UF(n, SArray(SInt, SInt), s)
		h := ex.heap(st, et)
		ex.setHeap(st, heapName(et), Store(h, b, arr))
		var l *Term
		if et.Underlying().(*types.Basic).Kind() == types.Uint8 {
			l = StrLen(s)
			x := BoundVar("s", SStr)
			back := UF("slice2str", SStr, UF(n, SArray(SInt, SInt), x), Int(0), StrLen(x))
			addAxiom("bytes.roundtrip", "string", Forall([]*Term{x}, Eq(back, x), []*Term{UF(n, SArray(SInt, SInt), x)}), n)
		} else {
			l = UF("str.runes", SInt, s)
			st.assume(Ge(l, Int(0)))
		}
		c := Fresh("cap", SInt)
		st.assume(Ge(c, l))
		return MkSlice(b, Int(0), l, c)
	case fs == SSlice && ts == SStr:
		et := from.Underlying().(*types.Slice).Elem()
		s := ex.toTerm(st, v)
		h := ex.heap(st, et)
		if et.Underlying().(*types.Basic).Kind() == types.Uint8 {
			r := UF("slice2str", SStr, Select(h, SBase(s)), SOff(s), SLen(s))
			if !r.bound {
				st.assume(Eq(StrLen(r), SLen(s)))
			}
			return r
		}
		return UF("runes2str", SStr, Select(h, SBase(s)), SOff(s), SLen(s))
	case fs == SInt && ts == SStr:
		return UF("rune2str", SStr, ex.toTerm(st, v))
	case fs == ts:
		if fs == SInt {
			fb, ok1 := from.Underlying().(*types.Basic)
			tb, ok2 := to.Underlying().(*types.Basic)
			if ok1 && ok2 && tb.Info()&types.IsInteger != 0 {
				_ = fb
				ex.assumes["integer conversions and arithmetic are mathematical (no wrap-around)"] = true
			}
		}
		return v
	case fs == SInt && ts == Sort("F64"):
		return UF("int2f64", ts, ex.toTerm(st, v))
	case fs == Sort("F64") && ts == SInt:
		return UF("f642int", ts, ex.toTerm(st, v))
	}
	panic(unsupported("conversion from %s to %s", from, to))
}

func (ex *Exec) builtin(name string, x *ast.CallExpr, st *State, fr *Frame) []Value {
	info := ex.prog.info
	switch name {
	case "len", "cap":
		t := info.TypeOf(x.Args[0])
		v := ex.toTerm(st, ex.eval(x.Args[0], st, fr))
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if !v.bound && !ex.spec {
				st.assume(wf(t, v, st.alloc))
			}
			if name == "len" {
				return []Value{SLen(v)}
			}
			return []Value{SCap(v)}
		case *types.Basic:
			return []Value{StrLen(v)}
		case *types.Array:
			return []Value{Int(u.Len())}
		case *types.Map:
			dn, _, d, _ := ex.mapHeaps(st, u)
			_ = dn
			dom := Select(d, v)
			r := UF("card$"+sanitizeSort(dom.sort), SInt, dom)
			if !r.bound && !ex.spec {
				st.assume(Ge(r, Int(0)))
				st.assume(Implies(Eq(v, Int(0)), Eq(r, Int(0))))
				e := ConstArray(dom.sort, False)
				st.assume(Eq(Eq(r, Int(0)), Or(Eq(v, Int(0)), Eq(dom, e))))
			}
			return []Value{Ite(Eq(v, Int(0)), Int(0), r)}
		}
	case "append":
		return []Value{ex.doAppend(x, st, fr)}
	case "copy":
		return []Value{ex.doCopy(x, st, fr)}
	case "make":
		t := info.TypeOf(x.Args[0])
		switch u := t.Underlying().(type) {
		case *types.Map:
			for _, a := range x.Args[1:] {
				ex.eval(a, st, fr)
			}
			return []Value{ex.newMap(st, u)}
		case *types.Slice:
			n := ex.toTerm(st, ex.eval(x.Args[1], st, fr))
			c := n
			if len(x.Args) > 2 {
				c = ex.toTerm(st, ex.eval(x.Args[2], st, fr))
			}
			ex.emit("safe.make", "", And(Ge(n, Int(0)), Le(n, c)), st, x.Pos())
			b := ex.newBase(st)
			h := ex.heap(st, u.Elem())
			arr := ConstArray(SArray(SInt, sortOf(u.Elem())), zeroOf(u.Elem()))
			ex.setHeap(st, heapName(u.Elem()), Store(h, b, arr))
			return []Value{MkSlice(b, Int(0), n, c)}
		}
	case "new":
		t := info.TypeOf(x.Args[0])
		return []Value{ex.allocObj(st, t, zeroOf(t))}
	case "delete":
		t := info.TypeOf(x.Args[0]).Underlying().(*types.Map)
		m := ex.toTerm(st, ex.eval(x.Args[0], st, fr))
		k := ex.toTerm(st, ex.coerce(st, ex.eval(x.Args[1], st, fr), info.TypeOf(x.Args[1]), t.Key()))
		ex.mapDelete(st, t, m, k)
		return nil
	case "panic":
		v := ex.toTerm(st, ex.coerce(st, ex.eval(x.Args[0], st, fr), info.TypeOf(x.Args[0]), types.Universe.Lookup("any").Type()))
		if ex.spec {
			panic(unsupported("panic in a specification"))
		}
		if !st.dead {
			ex.side = append(ex.side, &Outcome{kind: oPanic, st: st.clone(), pval: v})
		}
		st.assume(False)
		st.dead = true
		return nil
	case "recover":
		if st.panicVal == nil {
			return []Value{IfaceNil()}
		}
		v := st.panicVal
		st.assume(Neq(v, IfaceNil()))
		st.panicVal = nil
		st.recov = true
		return []Value{v}
	case "min", "max":
		r := ex.toTerm(st, ex.eval(x.Args[0], st, fr))
		for _, a := range x.Args[1:] {
			b := ex.toTerm(st, ex.eval(a, st, fr))
			if r.sort != SInt {
				panic(unsupported("min/max of %s", r.sort))
			}
			if name == "min" {
				r = Ite(Le(r, b), r, b)
			} else {
				r = Ite(Ge(r, b), r, b)
			}
		}
		return []Value{r}
	case "print", "println":
		return nil
	}
	panic(unsupported("builtin %s", name))
}

func (ex *Exec) doAppend(x *ast.CallExpr, st *State, fr *Frame) Value {
	info := ex.prog.info
	st0 := info.TypeOf(x).Underlying().(*types.Slice)
	elem := st0.Elem()
	s := ex.toTerm(st, ex.eval(x.Args[0], st, fr))
	if b, ok := info.TypeOf(x.Args[0]).(*types.Basic); ok && b.Kind() == types.UntypedNil {
		s = NilSlice()
	}
	if !ex.spec {
		st.assume(wf(st0, s, st.alloc))
	}
	if x.Ellipsis.IsValid() {
		at := info.TypeOf(x.Args[1])
		v := ex.toTerm(st, ex.eval(x.Args[1], st, fr))
		if v.sort == SStr {
			v = ex.toTerm(st, ex.convertVal(v, at, types.NewSlice(types.Typ[types.Uint8]), st))
		}
		if b, ok := at.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return s
		}
		return ex.appendSlice(st, elem, s, v)
	}
	var vals []*Term
	for _, a := range x.Args[1:] {
		v := ex.evalElem(a, elem, st, fr)
		vals = append(vals, ex.toTerm(st, ex.coerce(st, v, info.TypeOf(a), elem)))
	}
	return ex.appendVals(st, elem, s, vals)
}

func (ex *Exec) appendVals(st *State, elem types.Type, s *Term, vals []*Term) *Term {
	if len(vals) == 0 {
		return s
	}
	n := Int(int64(len(vals)))
	fits := Le(Add(SLen(s), n), SCap(s))
	if c, ok := SCap(s).intVal(); ok && c == 0 {
		fits = False
	}
	nb := ex.newBase(st)
	base := Ite(fits, SBase(s), nb)
	h := ex.heap(st, elem)
	arr := Select(h, SBase(s))
	for i, v := range vals {
		arr = Store(arr, Add(SOff(s), Add(SLen(s), Int(int64(i)))), v)
	}
	ncap := Fresh("cap", SInt)
	st.assume(Ge(ncap, Add(SLen(s), n)))
	cap := Ite(fits, SCap(s), ncap)
	ex.setHeap(st, heapName(elem), Store(h, base, arr))
	r := Fresh("app", SSlice)
	st.assume(Eq(r, MkSlice(base, SOff(s), Add(SLen(s), n), cap)))
	return r
}

func (ex *Exec) appendSlice(st *State, elem types.Type, s, t *Term) *Term {
	if t == NilSlice() {
		return s
	}
	if n, ok := SLen(t).intVal(); ok && n <= 8 {
		h := ex.heap(st, elem)
		var vals []*Term
		for i := int64(0); i < n; i++ {
			vals = append(vals, Select(Select(h, SBase(t)), Add(SOff(t), Int(i))))
		}
		return ex.appendVals(st, elem, s, vals)
	}
	fits := Le(Add(SLen(s), SLen(t)), SCap(s))
	nb := ex.newBase(st)
	base := Ite(fits, SBase(s), nb)
	h := ex.heap(st, elem)
	a, b := Select(h, SBase(s)), Select(h, SBase(t))
	na := Fresh("appd", a.sort)
	i := BoundVar("i", SInt)
	end := Add(SOff(s), SLen(s))
	es := sortOf(elem)
	sel := mk("select", es, na, i)
	st.assume(Forall([]*Term{i}, Eq(sel, Ite(And(Ge(i, end), Lt(i, Add(end, SLen(t)))),
		mk("select", es, b, Add(SOff(t), Sub(i, end))), mk("select", es, a, i))), []*Term{sel}))
	ncap := Fresh("cap", SInt)
	st.assume(Ge(ncap, Add(SLen(s), SLen(t))))
	ex.setHeap(st, heapName(elem), Store(h, base, na))
	r := Fresh("app", SSlice)
	st.assume(Eq(r, MkSlice(base, SOff(s), Add(SLen(s), SLen(t)), Ite(fits, SCap(s), ncap))))
	// extensionality of the list of an unchanged prefix
	st.assume(Eq(ToList(na, SOff(s), SLen(s)), ToList(a, SOff(s), SLen(s))))
	// appending nothing changes nothing
	st.assume(Implies(Eq(SLen(t), Int(0)), Eq(r, s)))
	st.assume(Implies(Eq(SLen(s), Int(0)), Eq(ToList(na, SOff(s), SLen(t)), ToList(b, SOff(t), SLen(t)))))
	st.assume(Eq(ToList(na, SOff(s), Add(SLen(s), SLen(t))), ListCat(ToList(a, SOff(s), SLen(s)), ToList(b, SOff(t), SLen(t)))))
	return r
}

// ListCat concatenates lists.
func ListCat(a, b *Term) *Term {
	d := dts[a.sort]
	e := d.fields[1].sort
	if b.op == d.more[0].name {
		return a
	}
	if b.op == d.cons {
		return ListSnoc(ListCat(a, b.args[0]), b.args[1])
	}
	fn := "lcat$" + sanitizeSort(e)
	declFun(fn, a.sort, a.sort, a.sort)
	x, y, v := BoundVar("x", a.sort), BoundVar("y", a.sort), BoundVar("v", e)
	xy := mk(fn, a.sort, x, ListSnoc(y, v))
	addAxiom(fn+".snoc", "definition", Forall([]*Term{x, y, v}, Eq(xy, ListSnoc(mk(fn, a.sort, x, y), v)), []*Term{xy}), fn)
	xn := mk(fn, a.sort, x, ListNil(e))
	addAxiom(fn+".nil", "definition", Forall([]*Term{x}, Eq(xn, x), []*Term{xn}), fn)
	return mk(fn, a.sort, a, b)
}

func (ex *Exec) doCopy(x *ast.CallExpr, st *State, fr *Frame) Value {
	info := ex.prog.info
	dt, ok := info.TypeOf(x.Args[0]).Underlying().(*types.Slice)
	if !ok {
		panic(unsupported("copy"))
	}
	d := ex.toTerm(st, ex.eval(x.Args[0], st, fr))
	s := ex.toTerm(st, ex.eval(x.Args[1], st, fr))
	if s.sort == SStr {
		s = ex.toTerm(st, ex.convertVal(s, info.TypeOf(x.Args[1]), types.NewSlice(types.Typ[types.Uint8]), st))
	}
	h := ex.heap(st, dt.Elem())
	n := Ite(Le(SLen(d), SLen(s)), SLen(d), SLen(s))
	a, b := Select(h, SBase(d)), Select(h, SBase(s))
	na := Fresh("copy", a.sort)
	i := BoundVar("i", SInt)
	es := sortOf(dt.Elem())
	sel := mk("select", es, na, i)
	st.assume(Forall([]*Term{i}, Eq(sel, Ite(And(Ge(i, SOff(d)), Lt(i, Add(SOff(d), n))),
		mk("select", es, b, Add(SOff(s), Sub(i, SOff(d)))), mk("select", es, a, i))), []*Term{sel}))
	ex.setHeap(st, heapName(dt.Elem()), Store(h, SBase(d), na))
	return n
}

// sigKey names a function type, whatever its parameters are called.
func sigKey(sig *types.Signature) string {
	strip := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewParam(token.NoPos, nil, "", t.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	return typeKeyFull(types.NewSignatureType(nil, nil, nil, strip(sig.Params()), strip(sig.Results()), sig.Variadic()))
}
