package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

// selfRecursive reports whether a literal calls the variable it is stored in.
func (ex *Exec) selfRecursive(lit *ast.FuncLit, obj types.Object) bool {
	found := false
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && ex.prog.info.Uses[id] == obj {
			found = true
		}
		return !found
	})
	return found
}

// attachClosure gives a recursive closure the contract written for it.
func (ex *Exec) attachClosure(obj types.Object, v Value, st *State, fr *Frame) Value {
	f, ok := v.(*FuncVal)
	if !ok || f.lit == nil || f.contract != nil || ex.con == nil || ex.spec || obj == nil {
		return v
	}
	if !ex.selfRecursive(f.lit, obj) {
		return v
	}
	lit := ex.con.closures[obj.Name()]
	match := func(l *ast.FuncLit) bool {
		return ex.closureSigOK(l, f.lit)
	}
	if lit != nil && !match(lit) {
		lit = nil
	}
	if lit == nil {
		n := 0
		for _, l := range ex.con.closures {
			if match(l) {
				lit = l
				n++
			}
		}
		if n != 1 {
			return v
		}
	}
	g := *f
	g.contract = lit
	g.conFrame = ex.conFrame
	return &g
}

func (ex *Exec) closureSigOK(con, code *ast.FuncLit) bool {
	a := ex.prog.info.TypeOf(con).(*types.Signature)
	b := ex.prog.info.TypeOf(code).(*types.Signature)
	if a.Params().Len() != b.Params().Len() || a.Results().Len() != b.Results().Len() {
		return false
	}
	for i := 0; i < a.Params().Len(); i++ {
		if !types.Identical(a.Params().At(i).Type(), b.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < a.Results().Len(); i++ {
		if !types.Identical(a.Results().At(i).Type(), b.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

// verifyClosure checks the body of a closure against its contract, in a
// state where everything the closure can see may have changed.
func (ex *Exec) verifyClosure(obj types.Object, f *FuncVal, st0 *State, fr *Frame) {
	if f.contract == nil || ex.dry > 0 || ex.quiet > 0 || ex.litDone[f.lit] {
		return
	}
	ex.litDone[f.lit] = true
	c := ex.litContract(f.contract)
	st := st0.clone()
	// captured variables that are assigned anywhere but at their declaration
	for k, v := range st.vars {
		if k.frame < -1000 {
			continue
		}
		if _, ok := v.(*Term); !ok {
			continue
		}
		inChain := false
		for g := fr; g != nil; g = g.parent {
			if g.id == k.frame {
				inChain = true
			}
		}
		if k.frame == 0 && ex.prog.assigned[k.obj] {
			inChain = true
		}
		if !inChain || ex.keyBoxed(k) || !ex.prog.reassigned(k.obj) {
			continue
		}
		t := Fresh(k.obj.Name(), v.(*Term).sort)
		st.vars[k] = t
	}
	na := Fresh("alloc", SInt)
	st.assume(Ge(na, st.alloc))
	st.alloc = na
	for n, h := range st.heaps {
		st.heaps[n] = Fresh(n, h.sort)
	}
	for k, v := range st.vars {
		if t, ok := v.(*Term); ok && k.frame >= -1000 && k.obj.Type() != nil && len(t.args) == 0 {
			if _, isV := k.obj.(*types.Var); isV && !ex.keyBoxed(k) {
				st.assume(wf(k.obj.Type(), t, st.alloc))
			}
		}
	}
	fsig := ex.prog.info.TypeOf(f.lit).(*types.Signature)
	csig := c.sig
	cf := &Frame{id: -300, fn: "closure", bind: map[types.Object]Value{}, pkg: fr.pkg, boxed: map[types.Object]bool{}, con: c, parent: f.conFrame}
	nf := ex.newFrame(f.env, fr, fr.fn+"$"+obj.Name(), fsig, fr.pkg)
	nf.recFn = f.lit
	ex.boxedVars(f.lit.Body, nf.boxed)
	ex.frames = append(ex.frames, nf)
	defer func() { ex.frames = ex.frames[:len(ex.frames)-1] }()
	var args []Value
	for i := 0; i < fsig.Params().Len(); i++ {
		p := fsig.Params().At(i)
		t := Fresh(p.Name(), sortOf(p.Type()))
		st.assume(wf(p.Type(), t, st.alloc))
		args = append(args, t)
		cf.bind[csig.Params().At(i)] = t
	}
	pre := st.clone()
	for _, r := range c.requires {
		st.assume(ex.specTerm(r.e, st, pre, cf))
	}
	for i, p := range allParams(fsig) {
		ex.declare(nf, st, p, args[i])
	}
	for _, r := range nf.results {
		if r.Name() == "" || r.Name() == "_" {
			st.vars[VarKey{nf.id, r}] = zeroOf(r.Type())
		} else {
			ex.declare(nf, st, r, zeroOf(r.Type()))
		}
	}
	pre = st.clone()
	ex.litStack = append(ex.litStack, &litUse{f.contract, cf, pre})
	savedSide, savedLoops := ex.side, ex.loops
	ex.side, ex.loops = nil, nil
	defer func() {
		ex.litStack = ex.litStack[:len(ex.litStack)-1]
		ex.side, ex.loops = savedSide, savedLoops
	}()
	outs := ex.execBody(nf, f.lit.Body, st.clone())
	ex.finish(c, cf, nf, pre, outs, "closure."+obj.Name()+".", f.lit.Pos(), true)
}

// finish emits the obligations at the exits of a body.
func (ex *Exec) finish(c *Contract, cf *Frame, nf *Frame, pre *State, outs []*Outcome, prefix string, pos token.Pos, closure bool) {
	var rets []*Outcome
	var panics []*Outcome
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		if o.kind == oPanic {
			panics = append(panics, o)
		} else {
			rets = append(rets, o)
		}
	}
	resT := make([]*Term, len(nf.results))
	for i := range rets {
		o := rets[i]
		st := o.st
		for j := 0; j < c.sig.Results().Len(); j++ {
			v := ex.getResult(nf, st, nf.results[j])
			cf.bind[c.sig.Results().At(j)] = v
			_ = resT
		}
		lf := ex.childBind(cf)
		lf.con = c
		ex.bindLets(c, lf, st, pre)
		for _, u := range c.uses {
			u := u
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupportedErr); !ok {
							panic(r)
						}
					}
				}()
				st.assume(ex.specTerm(u, st, pre, lf))
			}()
		}
		for _, e := range c.ensures {
			t := ex.specTerm(e.e, st, pre, lf)
			// each conjunct on its own keeps the queries small
			gs := []*Term{t}
			if t.op == "and" {
				gs = t.args
			}
			s := st.clone()
			for _, g := range gs {
				ex.emit(prefix+"ensures", e.label, g, s, pos)
			}
		}
		goals := ex.frameGoals(c, cf, pre, st)
		if closure {
			ex.closureVarFrame(c, cf, pre, st, goals, nf)
		}
		var ks []string
		for k := range goals {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for _, k := range ks {
			ex.emit(prefix+"frame", k, goals[k], st.clone(), pos)
		}
	}
	for _, p := range panics {
		cond := False
		for _, m := range c.mayPanic {
			cond = Or(cond, ex.specTerm(m.e, pre, pre, cf))
		}
		ex.emit(prefix+"nopanic", "", cond, p.st.clone(), pos)
		old := ex.panicTerm
		ex.panicTerm = p.pval
		for _, op := range c.onPanic {
			ex.emit(prefix+"onpanic", op.label, ex.specTerm(op.e, p.st, pre, cf), p.st.clone(), pos)
		}
		ex.panicTerm = old
		if len(c.mayPanic) > 0 {
			goals := ex.frameGoals(c, cf, pre, p.st)
			var ks []string
			for k := range goals {
				ks = append(ks, k)
			}
			sortStrings(ks)
			for _, k := range ks {
				ex.emit(prefix+"frame", k, goals[k], p.st.clone(), pos)
			}
		}
	}
	for _, o := range rets {
		ex.covers = append(ex.covers, &VC{name: prefix + "cover", facts: o.st.facts, goal: False})
	}
}

// closureVarFrame: captured variables outside modifies keep their values.
func (ex *Exec) closureVarFrame(c *Contract, cf *Frame, pre, st *State, goals map[string]*Term, nf *Frame) {
	locs := ex.modLocs(c, cf, pre, pre)
	for k, v := range pre.vars {
		if k.frame <= 0 || k.frame == nf.id {
			continue
		}
		w, ok := st.vars[k]
		if !ok || sameValue(v, w) {
			continue
		}
		allowed := false
		for _, l := range locs {
			if l.kind == "var" && l.key == k || l.kind == "lv" && l.lv.kind == lvVar && l.lv.key == k {
				allowed = true
			}
		}
		if allowed {
			continue
		}
		t1, ok1 := ex.tryTerm(pre, v)
		t2, ok2 := ex.tryTerm(st, w)
		if !ok1 || !ok2 {
			goals["var "+k.obj.Name()] = False
			continue
		}
		goals["var "+k.obj.Name()] = Eq(t1, t2)
	}
}
