package main

import (
	"fmt"
	"go/ast"
	goprinter "go/printer"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// ---- contract application

func (ex *Exec) bindFrame(c *Contract, args []Value) *Frame {
	f := &Frame{id: -100, fn: "contract", bind: map[types.Object]Value{}, pkg: c.pkg, boxed: map[types.Object]bool{}, con: c}
	for i, p := range allParams(c.sig) {
		f.bind[p] = args[i]
	}
	return f
}

// withSpec evaluates in specification mode.
func (ex *Exec) withSpec(old *State, f func()) {
	s, o := ex.spec, ex.specOld
	ex.spec, ex.specOld = true, old
	defer func() { ex.spec, ex.specOld = s, o }()
	f()
}

func (ex *Exec) specTerm(e ast.Expr, st, old *State, fr *Frame) *Term {
	var t *Term
	ex.withSpec(old, func() { t = ex.toTerm(st, ex.eval(e, st, fr)) })
	return t
}

func (ex *Exec) bindLets(c *Contract, fr *Frame, st, old *State) {
	for _, s := range c.lets {
		if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
			ex.withSpec(old, func() {
				for i, l := range a.Lhs {
					o := ex.prog.info.Defs[l.(*ast.Ident)]
					if o != nil {
						fr.bind[o] = ex.coerce(st, ex.eval(a.Rhs[i], st, fr), ex.prog.info.TypeOf(a.Rhs[i]), o.Type())
					}
				}
			})
		}
	}
}

func (ex *Exec) applyContract(c *Contract, args []Value, sig *types.Signature, st *State, pos token.Pos) []Value {
	ex.used[c] = true
	ps := allParams(c.sig)
	if len(ps) != len(args) {
		panic(unsupported("contract %s: argument count", c.name))
	}
	// values as the contract sees them
	fr := ex.bindFrame(c, args)
	// a function passed for a parameter with a callback contract must be
	// known to satisfy it
	for i, p := range ps {
		lit := c.callbacks[p.Name()]
		if lit == nil {
			continue
		}
		f, ok := args[i].(*FuncVal)
		if !ok || f.callback == nil || nodeText(ex.prog, f.callback.Body) != nodeText(ex.prog, lit.Body) {
			ex.emit("pre", shortOf(c.name)+".callback."+p.Name(), False, st, pos)
		}
	}
	return ex.applyClauses(c, fr, c.sig, st, pos, c.name)
}

var litContracts = map[*ast.FuncLit]*Contract{}

func (ex *Exec) litContract(lit *ast.FuncLit) *Contract {
	if c, ok := litContracts[lit]; ok {
		return c
	}
	c := &Contract{name: "func", kind: "lit", sig: ex.prog.info.TypeOf(lit).(*types.Signature), opts: map[string]string{}}
	ex.prog.parseClauses(c, lit.Body.List)
	litContracts[lit] = c
	return c
}

func (ex *Exec) applyLitContract(lit *ast.FuncLit, conFrame *Frame, args []Value, sig *types.Signature, st *State, pos token.Pos, what string) []Value {
	c := ex.litContract(lit)
	fr := ex.bindFrame(c, args)
	fr.parent = conFrame
	return ex.applyClauses(c, fr, c.sig, st, pos, what)
}

func (ex *Exec) applyClauses(c *Contract, fr *Frame, sig *types.Signature, st *State, pos token.Pos, name string) []Value {
	pre := st.clone()
	for i, p := range allParams(c.sig) {
		_ = i
		if c.kind == "contract" {
			if r := c.sig.Recv(); r == p {
				_ = r
			}
		}
	}
	// implicit: the first parameter of a method contract is not nil
	if c.target != nil && c.target.Type().(*types.Signature).Recv() != nil {
		p := allParams(c.sig)[0]
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			if t, ok := fr.bind[p].(*Term); ok {
				ex.emit("safe.nil", "", Neq(RefBase(t), Int(0)), st, pos)
			}
		}
	}
	for _, r := range c.requires {
		ex.emit("pre", shortOf(name)+"."+r.label, ex.specTerm(r.e, st, pre, fr), st, pos)
	}
	if st.dead {
		return ex.deadResults(sig)
	}
	pre = st.clone()
	if _, ok := c.opts["noalloc"]; !ok {
		na := Fresh("alloc", SInt)
		st.assume(Ge(na, st.alloc))
		st.alloc = na
	}
	ex.havocModifies(c, fr, st, pre)
	for _, mp := range c.mayPanic {
		ps := st.clone()
		ps.assumeBranch(ex.specTerm(mp.e, ps, pre, fr))
		pv := Fresh("panicval", SIface)
		ps.assume(Neq(pv, IfaceNil()))
		old := ex.panicTerm
		ex.panicTerm = pv
		for _, op := range c.onPanic {
			ps.assume(ex.specTerm(op.e, ps, pre, fr))
		}
		ex.panicTerm = old
		if !ps.dead {
			ex.side = append(ex.side, &Outcome{kind: oPanic, st: ps, pval: pv})
		}
	}
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		var v Value
		t := Fresh("r_"+shortOf(name), sortOf(r.Type()))
		st.assume(wf(r.Type(), t, st.alloc))
		v = t
		fr.bind[r] = v
		res = append(res, v)
	}
	ex.bindLets(c, fr, st, pre)
	for _, e := range c.ensures {
		st.assume(ex.specTerm(e.e, st, pre, fr))
	}
	return res
}

func shortOf(n string) string {
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

// modLoc is one location a modifies clause allows.
type modLoc struct {
	kind  string // lv, elems, heap, map, var
	lv    *LV
	heap  string
	elem  types.Type
	slice *Term
	mp    *Term
	mt    *types.Map
	key   VarKey
}

func (ex *Exec) modLocs(c *Contract, fr *Frame, st, pre *State) []modLoc {
	var out []modLoc
	for _, m := range c.modifies {
		m := m
		ex.withSpec(pre, func() {
			e := ast.Unparen(m)
			if call, ok := e.(*ast.CallExpr); ok {
				o := ex.calleeObj(call.Fun)
				if ex.isPrelude(o) {
					switch o.Name() {
					case "elems":
						t := ex.prog.info.TypeOf(call.Args[0]).Underlying()
						v := ex.toTerm(st, ex.eval(call.Args[0], st, fr))
						switch u := t.(type) {
						case *types.Slice:
							out = append(out, modLoc{kind: "elems", elem: u.Elem(), slice: v})
						}
						return
					case "mapelems":
						t := ex.prog.info.TypeOf(call.Args[0]).Underlying().(*types.Map)
						v := ex.toTerm(st, ex.eval(call.Args[0], st, fr))
						out = append(out, modLoc{kind: "map", mp: v, mt: t})
						return
					case "heapOf":
						inst := ex.prog.info.Instances[ast.Unparen(call.Fun).(*ast.IndexExpr).X.(*ast.Ident)]
						t := inst.TypeArgs.At(0)
						if mt, ok := t.Underlying().(*types.Map); ok {
							out = append(out, modLoc{kind: "mapheap", mt: mt})
							return
						}
						out = append(out, modLoc{kind: "heap", elem: t, heap: heapName(t)})
						return
					case "local":
						k, _, ok := ex.resolveLocal(call, st)
						if !ok {
							panic(unsupported("local variable not found"))
						}
						if f, bx := ex.boxedKey(k, st); bx {
							out = append(out, modLoc{kind: "lv", lv: f})
							return
						}
						out = append(out, modLoc{kind: "var", key: k})
						return
					}
				}
			}
			lv := ex.lvalue(e, st, fr)
			if lv.kind == lvVar && len(lv.path) == 0 {
				out = append(out, modLoc{kind: "var", key: lv.key})
				return
			}
			out = append(out, modLoc{kind: "lv", lv: lv})
		})
	}
	return out
}

func (ex *Exec) boxedKey(k VarKey, st *State) (*LV, bool) {
	for _, f := range ex.frames {
		for g := f; g != nil; g = g.parent {
			if g.id == k.frame && g.boxed[k.obj] {
				return &LV{kind: lvHeap, ref: st.vars[k].(*Term), typ: k.obj.Type()}, true
			}
		}
	}
	return nil, false
}

func lvType(lv *LV) Sort {
	if len(lv.path) == 0 {
		return sortOf(lv.typ)
	}
	s := lv.path[len(lv.path)-1]
	if s.dt != nil {
		return s.dt.fields[s.idx].sort
	}
	panic(unsupported("modifies array element"))
}

func (ex *Exec) havocModifies(c *Contract, fr *Frame, st, pre *State) {
	for _, m := range ex.modLocs(c, fr, st, pre) {
		switch m.kind {
		case "lv":
			v := Fresh("mod", lvType(m.lv))
			ex.store(m.lv, v, st)
			if ft := lvGoType(m.lv); ft != nil {
				st.assume(wf(ft, v, st.alloc))
			}
		case "elems":
			ex.havocElems(st, m.elem, m.slice)
		case "heap":
			ex.setHeap(st, m.heap, Fresh(m.heap, heapSort(m.elem)))
		case "map":
			dn, vn, d, v := ex.mapHeaps(st, m.mt)
			ks, vs := sortOf(m.mt.Key()), sortOf(m.mt.Elem())
			ex.setHeap(st, dn, Store(d, m.mp, Fresh("dom", SArray(ks, SBool))))
			ex.setHeap(st, vn, Store(v, m.mp, Fresh("vals", SArray(ks, vs))))
		case "mapheap":
			dn, vn, d, v := ex.mapHeaps(st, m.mt)
			ex.setHeap(st, dn, Fresh(dn, d.sort))
			ex.setHeap(st, vn, Fresh(vn, v.sort))
		case "var":
			v := Fresh(m.key.obj.Name(), sortOf(m.key.obj.Type()))
			st.assume(wf(m.key.obj.Type(), v, st.alloc))
			st.vars[m.key] = v
		}
	}
}

func lvGoType(lv *LV) types.Type {
	t := lv.typ
	for _, s := range lv.path {
		if s.dt == nil {
			return nil
		}
		t = t.Underlying().(*types.Struct).Field(s.idx).Type()
	}
	return nil
}

// frameGoals are the obligations that nothing else changed between pre and st.
func (ex *Exec) frameGoals(c *Contract, fr *Frame, pre, st *State) map[string]*Term {
	goals := map[string]*Term{}
	locs := ex.modLocs(c, fr, pre, pre)
	whole := map[string]bool{}
	for _, l := range locs {
		switch l.kind {
		case "heap":
			whole[l.heap] = true
		case "mapheap":
			dn, vn, _, _ := mapNames(l.mt)
			whole[dn], whole[vn] = true, true
		}
	}
	var names []string
	for n := range st.heaps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		h1 := st.heaps[n]
		h0 := ex.heapNamed(pre, n, h1.sort)
		if h0 == h1 || whole[n] {
			continue
		}
		b := BoundVar("b", SInt)
		if strings.HasPrefix(n, "MD$") || strings.HasPrefix(n, "MV$") {
			cond := And(Gt(b, Int(0)), Lt(b, pre.alloc))
			for _, l := range locs {
				if l.kind == "map" {
					dn, vn, _, _ := mapNames(l.mt)
					if dn == n || vn == n {
						cond = And(cond, Neq(b, l.mp))
					}
				}
			}
			s1 := mk("select", mustElem(h1.sort), h1, b)
			goals[n] = Forall([]*Term{b}, Implies(cond, Eq(s1, mk("select", s1.sort, h0, b))), []*Term{s1})
			continue
		}
		i := BoundVar("i", SInt)
		cond := And(Gt(b, Int(0)), Lt(b, pre.alloc))
		extra := True
		type refKey struct{ b, i *Term }
		paths := map[refKey][]*LV{}
		var order []refKey
		for _, l := range locs {
			switch l.kind {
			case "lv":
				if l.lv.kind != lvHeap || heapName(l.lv.typ) != n {
					continue
				}
				cond = And(cond, Not(And(Eq(b, RefBase(l.lv.ref)), Eq(i, RefIdx(l.lv.ref)))))
				k := refKey{RefBase(l.lv.ref), RefIdx(l.lv.ref)}
				if paths[k] == nil {
					order = append(order, k)
				}
				paths[k] = append(paths[k], l.lv)
			case "elems":
				if heapName(l.elem) != n {
					continue
				}
				cond = And(cond, Not(And(Eq(b, SBase(l.slice)), Ge(i, SOff(l.slice)), Lt(i, Add(SOff(l.slice), SLen(l.slice))))))
			}
		}
		for _, k := range order {
			old := Select(Select(h0, k.b), k.i)
			nw := Select(Select(h1, k.b), k.i)
			full := false
			upd := old
			for _, lv := range paths[k] {
				if len(lv.path) == 0 {
					full = true
					break
				}
				t := nw
				for _, s := range lv.path {
					t = Sel(s.dt, s.idx, t)
				}
				upd = updPath(upd, lv.path, t)
			}
			if !full {
				extra = And(extra, Eq(nw, upd))
			}
		}
		es := mustElem(mustElem(h1.sort))
		sb := mk("select", mustElem(h1.sort), h1, b)
		s1 := mk("select", es, sb, i)
		s0 := mk("select", es, mk("select", mustElem(h0.sort), h0, b), i)
		goals[n] = And(Forall([]*Term{b, i}, Implies(cond, Eq(s1, s0)), []*Term{s1}), extra)
	}
	// package-level variables
	for k, v := range st.vars {
		if k.frame != 0 {
			continue
		}
		o, ok := pre.vars[k]
		if !ok || sameValue(o, v) {
			continue
		}
		allowed := false
		for _, l := range locs {
			if l.kind == "var" && l.key == k {
				allowed = true
			}
			if l.kind == "lv" && l.lv.kind == lvVar && l.lv.key == k {
				allowed = true
			}
		}
		if !allowed {
			goals["var "+k.obj.Name()] = Eq(ex.toTerm(st, o), ex.toTerm(st, v))
		}
	}
	return goals
}

func mustElem(s Sort) Sort { _, v := arrayElem(s); return v }

// ---- specification functions

type RecDef struct {
	fn     *types.Func
	name   string
	heaps  []string
	hsorts []Sort
	sorts  []Sort
	ret    Sort
	done   bool
}

var recDefs = map[*types.Func]*RecDef{}
var recState = map[*types.Func]int{} // 1 = collecting heaps
var curFuel *Term

// curGroup are the functions whose definition is being written down: only
// calls within the group use up fuel.
var curGroup []*types.Func
var recKnown = map[*types.Func]bool{}

func (ex *Exec) specCallees(fn *types.Func) []*types.Func {
	fd := ex.prog.specFn[fn]
	if fd == nil || fd.Body == nil {
		return nil
	}
	var out []*types.Func
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if g, ok := ex.calleeObj(c.Fun).(*types.Func); ok {
				if ex.prog.specFn[g] != nil && !ex.isPrelude(g) {
					out = append(out, g)
				}
			}
		}
		return true
	})
	return out
}

// scc returns the functions mutually recursive with fn (nil if fn is not
// recursive).
func (ex *Exec) scc(fn *types.Func) []*types.Func {
	reach := func(from *types.Func) map[*types.Func]bool {
		m := map[*types.Func]bool{}
		var rec func(f *types.Func)
		rec = func(f *types.Func) {
			for _, g := range ex.specCallees(f) {
				if !m[g] {
					m[g] = true
					rec(g)
				}
			}
		}
		rec(from)
		return m
	}
	r := reach(fn)
	if !r[fn] {
		return nil
	}
	var out []*types.Func
	for g := range r {
		if reach(g)[fn] {
			out = append(out, g)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// definedBy is what a function returns, when its contract gives that as an
// expression: it may always be called, changes nothing, and ensures
// r == expression.
func (ex *Exec) definedBy(fn *types.Func, args []Value, st *State) Value {
	c := ex.prog.contract[fn]
	if c == nil || c.invalid != "" || len(c.requires) > 0 || len(c.mayPanic) > 0 || len(c.modifies) > 0 || c.sig.Results().Len() != 1 || len(allParams(c.sig)) != len(args) {
		return nil
	}
	r := c.sig.Results().At(0)
	for _, e := range c.ensures {
		b, ok := e.e.(*ast.BinaryExpr)
		if !ok || b.Op != token.EQL {
			continue
		}
		id, ok := b.X.(*ast.Ident)
		if !ok || ex.prog.info.Uses[id] != types.Object(r) {
			continue
		}
		self := false
		ast.Inspect(b.Y, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && ex.prog.info.Uses[id] == types.Object(r) {
				self = true
			}
			return !self
		})
		if self {
			continue
		}
		ex.used[c] = true
		fr := ex.bindFrame(c, args)
		ex.bindLets(c, fr, st, st)
		return ex.coerce(st, ex.eval(b.Y, st, fr), ex.prog.info.TypeOf(b.Y), r.Type())
	}
	return nil
}

func (ex *Exec) specCall(fn *types.Func, args []Value, st *State) Value {
	sig := fn.Type().(*types.Signature)
	if opaqueFns[fn] {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, ex.toTerm(st, a))
		}
		rt := sig.Results().At(0).Type()
		return UF("spec$"+sanitize(fn.Name()), sortOf(rt), ts...)
	}
	if c := lemmaOf[fn]; c != nil {
		return ex.lemmaInstance(c, args, st)
	}
	fd := ex.prog.specFn[fn]
	if fd == nil {
		if t := ex.definedBy(fn, args, st); t != nil {
			return t
		}
		fd = ex.prog.funcs[fn]
		if fd == nil || fd.Body == nil {
			if fn.Pkg() != nil && purePkgs[fn.Pkg().Path()] {
				var ts []*Term
				for _, a := range args {
					ts = append(ts, ex.toTerm(st, a))
				}
				rt := sig.Results().At(0).Type()
				return UF("ext0$"+sanitize(funcFullName(fn)), sortOf(rt), ts...)
			}
			panic(unsupported("call of %s in a specification", fn.Name()))
		}
		if sig.Results().Len() != 1 {
			panic(unsupported("call of %s in a specification", fn.Name()))
		}
		for _, f := range ex.specStack {
			if f == fn {
				panic(unsupported("recursive code function in a specification"))
			}
		}
		ex.specStack = append(ex.specStack, fn)
		defer func() { ex.specStack = ex.specStack[:len(ex.specStack)-1] }()
		fr := &Frame{id: -200, fn: fn.Name(), bind: map[types.Object]Value{}, pkg: ex.prog.pkgOf[fn], boxed: map[types.Object]bool{}}
		for i, p := range allParams(sig) {
			fr.bind[p] = args[i]
		}
		return ex.specBody(fd.Body.List, st, fr, sig.Results().At(0).Type())
	}
	group := ex.scc(fn)
	if group == nil && namedFns[fn] {
		group = []*types.Func{fn}
	}
	if group == nil {
		fr := &Frame{id: -200, fn: fn.Name(), bind: map[types.Object]Value{}, pkg: ex.prog.pkgOf[fn], boxed: map[types.Object]bool{}}
		for i, p := range allParams(sig) {
			fr.bind[p] = args[i]
		}
		return ex.seeFunc(ex.specBody(fd.Body.List, st, fr, sig.Results().At(0).Type()))
	}
	d := recDefs[fn]
	if d == nil {
		ex.defineRec(group)
		d = recDefs[fn]
	}
	if recState[fn] == 1 {
		for _, n := range d.heaps {
			_ = n
		}
		return Const("dummy$"+sanitizeSort(d.ret), d.ret)
	}
	f := curFuel
	if f == nil || !inGroup(fn) {
		f = fuel2()
	}
	ts := []*Term{f}
	for i, n := range d.heaps {
		ts = append(ts, ex.heapNamed(st, n, d.hsorts[i]))
	}
	for _, a := range args {
		ts = append(ts, ex.toTerm(st, a))
	}
	return ex.seeFunc(mk(d.name, d.ret, ts...))
}

func inGroup(fn *types.Func) bool {
	for _, g := range curGroup {
		if g == fn {
			return true
		}
	}
	return false
}

func (ex *Exec) defineRec(group []*types.Func) {
	savedGroup := curGroup
	curGroup = group
	defer func() { curGroup = savedGroup }()
	savedOn, savedFuel, savedSpec, savedOld, savedEntry, savedIter := ex.onHeap, curFuel, ex.spec, ex.specOld, ex.specEntry, ex.specIter
	defer func() {
		ex.onHeap, curFuel, ex.spec, ex.specOld, ex.specEntry, ex.specIter = savedOn, savedFuel, savedSpec, savedOld, savedEntry, savedIter
	}()
	ex.spec = true
	ex.specOld, ex.specEntry, ex.specIter = nil, nil, nil
	for _, fn := range group {
		sig := fn.Type().(*types.Signature)
		d := &RecDef{fn: fn, name: "spec$" + sanitize(ex.prog.pkgOf[fn].name+"."+fn.Name()), ret: sortOf(sig.Results().At(0).Type())}
		for _, p := range allParams(sig) {
			d.sorts = append(d.sorts, sortOf(p.Type()))
		}
		recDefs[fn] = d
		recState[fn] = 1
	}
	heaps := map[string]Sort{}
	mkState := func() *State {
		return &State{vars: map[VarKey]Value{}, heaps: map[string]*Term{}, alloc: Int(1), defers: map[int][]*Deferred{}}
	}
	body := func(fn *types.Func, st *State, params []*Term) *Term {
		sig := fn.Type().(*types.Signature)
		fr := &Frame{id: -200, fn: fn.Name(), bind: map[types.Object]Value{}, pkg: ex.prog.pkgOf[fn], boxed: map[types.Object]bool{}}
		for i, p := range allParams(sig) {
			fr.bind[p] = params[i]
		}
		return ex.specBody(ex.prog.specFn[fn].Body.List, st, fr, sig.Results().At(0).Type())
	}
	mkParams := func(fn *types.Func) []*Term {
		var ps []*Term
		for i, p := range allParams(fn.Type().(*types.Signature)) {
			ps = append(ps, BoundVar(p.Name(), recDefs[fn].sorts[i]))
		}
		return ps
	}
	for _, fn := range group {
		st := mkState()
		ex.onHeap = func(n string, s Sort) *Term {
			heaps[n] = s
			t := BoundVar("h", s)
			st.heaps[n] = t
			return t
		}
		body(fn, st, mkParams(fn))
	}
	var hn []string
	for n := range heaps {
		hn = append(hn, n)
	}
	sort.Strings(hn)
	for _, fn := range group {
		d := recDefs[fn]
		for _, n := range hn {
			d.heaps = append(d.heaps, n)
			d.hsorts = append(d.hsorts, heaps[n])
		}
		as := append([]Sort{SFuel}, d.hsorts...)
		as = append(as, d.sorts...)
		declFun(d.name, d.ret, as...)
		delete(recState, fn)
	}
	for _, fn := range group {
		d := recDefs[fn]
		st := mkState()
		z := BoundVar("z", SFuel)
		vars := []*Term{z}
		for i, n := range d.heaps {
			h := BoundVar("h", d.hsorts[i])
			st.heaps[n] = h
			vars = append(vars, h)
		}
		ps := mkParams(fn)
		vars = append(vars, ps...)
		ex.onHeap = func(n string, s Sort) *Term { panic(unsupported("heap %s in %s", n, fn.Name())) }
		curFuel = z
		b := body(fn, st, ps)
		lhs := mk(d.name, d.ret, append([]*Term{fuelS(z)}, vars[1:]...)...)
		low := mk(d.name, d.ret, vars...)
		addAxiom(d.name+".def", "definition", Forall(vars, Eq(lhs, b), []*Term{lhs}), d.name)
		addAxiom(d.name+".fuel", "definition", Forall(vars, Eq(lhs, low), []*Term{lhs}), d.name)
	}
}

// specBody evaluates statements as one expression.
func (ex *Exec) specBody(list []ast.Stmt, st *State, fr *Frame, rt types.Type) *Term {
	info := ex.prog.info
	if len(list) == 0 {
		panic(unsupported("specification body without a result"))
	}
	rest := list[1:]
	switch s := list[0].(type) {
	case *ast.ReturnStmt:
		v := ex.eval(s.Results[0], st, fr)
		return ex.toTerm(st, ex.coerce(st, v, info.TypeOf(s.Results[0]), rt))
	case *ast.BlockStmt:
		return ex.specBody(append(append([]ast.Stmt{}, s.List...), rest...), st, fr, rt)
	case *ast.IfStmt:
		if s.Init != nil {
			c := *s
			c.Init = nil
			return ex.specBody(append([]ast.Stmt{s.Init, &c}, rest...), st, fr, rt)
		}
		c := ex.evalCond(s.Cond, st, fr)
		if c == True {
			return ex.specBody(append(append([]ast.Stmt{}, s.Body.List...), rest...), st, fr, rt)
		}
		els := rest
		if s.Else != nil {
			els = append([]ast.Stmt{s.Else}, rest...)
		}
		if c == False {
			return ex.specBody(els, st, fr, rt)
		}
		a := ex.specBody(append(append([]ast.Stmt{}, s.Body.List...), rest...), st, ex.childBind(fr), rt)
		b := ex.specBody(els, st, ex.childBind(fr), rt)
		return Ite(c, a, b)
	case *ast.SwitchStmt:
		if s.Init != nil {
			c := *s
			c.Init = nil
			return ex.specBody(append([]ast.Stmt{s.Init, &c}, rest...), st, fr, rt)
		}
		var tag Value
		if s.Tag != nil {
			tag = ex.eval(s.Tag, st, fr)
		}
		var def []ast.Stmt
		type arm struct {
			c *Term
			b []ast.Stmt
		}
		var arms []arm
		for _, cc := range s.Body.List {
			c := cc.(*ast.CaseClause)
			for _, b := range c.Body {
				if br, ok := b.(*ast.BranchStmt); ok {
					panic(unsupported("%s in a specification switch", br.Tok))
				}
			}
			if c.List == nil {
				def = c.Body
				continue
			}
			cond := False
			for _, e := range c.List {
				if s.Tag == nil {
					cond = Or(cond, ex.evalCond(e, st, fr))
				} else {
					cond = Or(cond, ex.equal(st, tag, info.TypeOf(s.Tag), ex.eval(e, st, fr), info.TypeOf(e)))
				}
			}
			arms = append(arms, arm{cond, c.Body})
		}
		res := ex.specBody(append(append([]ast.Stmt{}, def...), rest...), st, ex.childBind(fr), rt)
		for i := len(arms) - 1; i >= 0; i-- {
			res = Ite(arms[i].c, ex.specBody(append(append([]ast.Stmt{}, arms[i].b...), rest...), st, ex.childBind(fr), rt), res)
		}
		return res
	case *ast.TypeSwitchStmt:
		var x ast.Expr
		bound := false
		switch a := s.Assign.(type) {
		case *ast.AssignStmt:
			x = a.Rhs[0].(*ast.TypeAssertExpr).X
			bound = true
		case *ast.ExprStmt:
			x = a.X.(*ast.TypeAssertExpr).X
		}
		v := ex.toTerm(st, ex.eval(x, st, fr))
		var def *ast.CaseClause
		type arm struct {
			c *Term
			b *Term
		}
		var arms []arm
		for _, cc := range s.Body.List {
			c := cc.(*ast.CaseClause)
			if c.List == nil {
				def = c
				continue
			}
			cond := False
			for _, e := range c.List {
				t := info.TypeOf(e)
				if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
					cond = Or(cond, Eq(v, IfaceNil()))
				} else {
					cond = Or(cond, ex.hasType(v, t))
				}
			}
			f2 := ex.childBind(fr)
			if bound {
				if o := info.Implicits[c]; o != nil {
					if len(c.List) == 1 && !isInterface(o.Type()) {
						f2.bind[o] = Unbox(o.Type(), v)
					} else {
						f2.bind[o] = v
					}
				}
			}
			arms = append(arms, arm{cond, ex.specBody(append(append([]ast.Stmt{}, c.Body...), rest...), st, f2, rt)})
		}
		f2 := ex.childBind(fr)
		var db []ast.Stmt
		if def != nil {
			if o := info.Implicits[def]; o != nil {
				f2.bind[o] = v
			}
			db = def.Body
		}
		res := ex.specBody(append(append([]ast.Stmt{}, db...), rest...), st, f2, rt)
		for i := len(arms) - 1; i >= 0; i-- {
			res = Ite(arms[i].c, arms[i].b, res)
		}
		return res
	case *ast.AssignStmt:
		if s.Tok == token.DEFINE && len(s.Lhs) == len(s.Rhs) {
			f2 := ex.childBind(fr)
			for i, l := range s.Lhs {
				if o := info.Defs[l.(*ast.Ident)]; o != nil {
					f2.bind[o] = ex.coerce(st, ex.eval(s.Rhs[i], st, fr), info.TypeOf(s.Rhs[i]), o.Type())
				}
			}
			return ex.specBody(rest, st, f2, rt)
		}
		if s.Tok == token.DEFINE && len(s.Rhs) == 1 {
			vals := ex.evalCommaOk(s.Rhs[0], len(s.Lhs), st, fr)
			f2 := ex.childBind(fr)
			for i, l := range s.Lhs {
				if o := info.Defs[l.(*ast.Ident)]; o != nil {
					f2.bind[o] = vals[i].v
				}
			}
			return ex.specBody(rest, st, f2, rt)
		}
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if b, ok := ex.calleeObj(c.Fun).(*types.Builtin); ok && b.Name() == "panic" {
				return Const("undef$"+sanitizeSort(sortOf(rt)), sortOf(rt))
			}
		}
	}
	panic(unsupported("statement %T in a pure function", list[0]))
}

func (ex *Exec) childBind(fr *Frame) *Frame {
	return &Frame{id: -200, parent: fr, fn: fr.fn, bind: map[types.Object]Value{}, pkg: fr.pkg, boxed: map[types.Object]bool{}, con: fr.con}
}

// ---- the prelude

func (ex *Exec) typeArg(x *ast.CallExpr, i int) types.Type {
	var id *ast.Ident
	switch f := ast.Unparen(x.Fun).(type) {
	case *ast.Ident:
		id = f
	case *ast.IndexExpr:
		id = f.X.(*ast.Ident)
	case *ast.IndexListExpr:
		id = f.X.(*ast.Ident)
	}
	return ex.prog.info.Instances[id].TypeArgs.At(i)
}

func (ex *Exec) preludeCall(fn *types.Func, x *ast.CallExpr, st *State, fr *Frame) Value {
	wasSpec := ex.spec
	switch fn.Name() {
	case "assert":
		e := x.Args[len(x.Args)-1]
		label := fmt.Sprintf("assert%d", len(ex.vcs))
		if l, ok := litString(x.Args[0]); ok {
			label = l
		}
		var t *Term
		ex.withSpec(ex.entry, func() { t = ex.toTerm(st, ex.eval(e, st, fr)) })
		ex.emit("assert", label, t, st, x.Pos())
		return nil
	case "assume":
		e := x.Args[len(x.Args)-1]
		var t *Term
		ex.withSpec(ex.entry, func() { t = ex.toTerm(st, ex.eval(e, st, fr)) })
		st.assume(t)
		return nil
	}
	ex.spec = true
	defer func() { ex.spec = wasSpec }()
	arg := func(i int) *Term { return ex.toTerm(st, ex.eval(x.Args[i], st, fr)) }
	info := ex.prog.info
	switch fn.Name() {
	case "old":
		if ex.specOld == nil {
			panic(unsupported("old() here"))
		}
		return ex.eval(x.Args[0], ex.specOld, fr)
	case "entry":
		if ex.specEntry == nil {
			panic(unsupported("entry() outside a loop"))
		}
		s := ex.specEntry
		return ex.eval(x.Args[0], s, ex.entryHoles(fr, s))
	case "iter":
		if ex.specIter == nil {
			panic(unsupported("iter() outside a loop"))
		}
		return ex.specIter
	case "ranged":
		if ex.specRanged == nil {
			panic(unsupported("ranged() outside a loop over a slice"))
		}
		return ex.specRanged
	case "local":
		_, v, ok := ex.resolveLocal(x, st)
		if !ok {
			panic(unsupported("local variable not found"))
		}
		return v
	case "panicval":
		return ex.panicTerm
	case "forall", "exists":
		lit, ok := ast.Unparen(x.Args[0]).(*ast.FuncLit)
		if !ok {
			panic(unsupported("quantifier without a literal"))
		}
		sig := info.TypeOf(lit).(*types.Signature)
		f2 := ex.childBind(fr)
		var vars []*Term
		for i := 0; i < sig.Params().Len(); i++ {
			p := sig.Params().At(i)
			v := BoundVar(p.Name(), sortOf(p.Type()))
			vars = append(vars, v)
			f2.bind[p] = v
		}
		saved := ex.trigs
		ex.trigs = nil
		b := ex.specBody(lit.Body.List, st, f2, types.Typ[types.Bool])
		tr := ex.trigs
		ex.trigs = saved
		var trigs [][]*Term
		for _, t := range tr {
			okT := true
			for _, y := range t {
				if !y.bound || len(y.args) == 0 {
					okT = false
				}
			}
			if okT {
				trigs = append(trigs, t)
			}
		}
		if fn.Name() == "forall" {
			return Forall(vars, b, trigs...)
		}
		return Exists(vars, b)
	case "trig":
		var ts []*Term
		for _, a := range x.Args {
			ts = append(ts, ex.toTerm(st, ex.eval(a, st, fr)))
		}
		ex.trigs = append(ex.trigs, ts)
		return True
	case "implies":
		a := arg(0)
		if a == False {
			return True
		}
		return Implies(a, arg(1))
	case "iff":
		return Eq(arg(0), arg(1))
	case "ite":
		c := arg(0)
		rt := ex.typeArg(x, 0)
		cv := func(i int) *Term {
			return ex.toTerm(st, ex.coerce(st, ex.eval(x.Args[i], st, fr), info.TypeOf(x.Args[i]), rt))
		}
		return Ite(c, cv(1), cv(2))
	case "isnil":
		return ex.isNil(st, ex.eval(x.Args[0], st, fr), info.TypeOf(x.Args[0]))
	case "fresh", "owned":
		t := info.TypeOf(x.Args[0])
		v := arg(0)
		al := ex.specOld.alloc
		if fn.Name() == "owned" {
			// made since the function under verification was called
			al = ex.entry.alloc
		}
		switch t.Underlying().(type) {
		case *types.Slice:
			return Or(Ge(SBase(v), al), Eq(SCap(v), Int(0)))
		case *types.Pointer:
			return Ge(RefBase(v), al)
		case *types.Map:
			return Ge(v, al)
		}
		panic(unsupported("fresh of %s", t))
	case "allocated":
		return wf(info.TypeOf(x.Args[0]), arg(0), st.alloc)
	case "sameobj":
		t := info.TypeOf(x.Args[0])
		a, b := arg(0), arg(1)
		switch t.Underlying().(type) {
		case *types.Slice:
			return Eq(SBase(a), SBase(b))
		case *types.Pointer:
			return Eq(RefBase(a), RefBase(b))
		}
		return Eq(a, b)
	case "pointsInto":
		a, b := arg(0), arg(1)
		return And(Eq(RefBase(a), SBase(b)), Ge(RefIdx(a), SOff(b)), Lt(RefIdx(a), Add(SOff(b), SLen(b))))
	case "onceDone":
		return UF("once.done", SBool, arg(0))
	case "offsetIn":
		a, b := arg(0), arg(1)
		return Sub(SOff(a), SOff(b))
	case "separate":
		a, b := arg(0), arg(1)
		return Or(Neq(SBase(a), SBase(b)), Eq(SCap(a), Int(0)), Eq(SCap(b), Int(0)))
	case "unchanged":
		a := arg(0)
		b := ex.toTerm(ex.specOld, ex.eval(x.Args[0], ex.specOld, fr))
		return Eq(a, b)
	case "dyntype":
		t := ex.typeArg(x, 0)
		v := ex.toTerm(st, ex.coerce(st, ex.eval(x.Args[0], st, fr), info.TypeOf(x.Args[0]), types.Universe.Lookup("any").Type()))
		return ex.hasType(v, t)
	case "list":
		v := arg(0)
		et := info.TypeOf(x.Args[0]).Underlying().(*types.Slice).Elem()
		return ex.sliceList(st, et, v)
	case "lnil":
		return ListNil(sortOf(ex.typeArg(x, 0)))
	case "snoc":
		et := ex.typeArg(x, 0)
		l := arg(0)
		v := ex.toTerm(st, ex.coerce(st, ex.eval(x.Args[1], st, fr), info.TypeOf(x.Args[1]), et))
		return ListSnoc(l, v)
	case "lcat":
		return ListCat(arg(0), arg(1))
	case "isNilList":
		l := arg(0)
		return Eq(l, ListNil(listElem(l.sort)))
	case "llast":
		l := arg(0)
		return mk(dts[l.sort].fields[1].name, listElem(l.sort), l)
	case "lfront":
		l := arg(0)
		return mk(dts[l.sort].fields[0].name, l.sort, l)
	case "seq":
		v := arg(0)
		et := info.TypeOf(x.Args[0]).Underlying().(*types.Slice).Elem()
		h := ex.heap(st, et)
		return Mk(seqDT(sortOf(et)), Select(h, SBase(v)), SOff(v), SLen(v))
	case "qat":
		q := arg(0)
		d := dts[q.sort]
		return ex.seeFunc(Select(Sel(d, 0, q), Add(Sel(d, 1, q), arg(1))))
	case "qlen":
		q := arg(0)
		return Sel(dts[q.sort], 2, q)
	case "qlist":
		q := arg(0)
		d := dts[q.sort]
		return ToList(Sel(d, 0, q), Sel(d, 1, q), arg(1))
	case "mapdom":
		m := arg(0)
		mt := info.TypeOf(x.Args[0]).Underlying().(*types.Map)
		k := ex.toTerm(st, ex.coerce(st, ex.eval(x.Args[1], st, fr), info.TypeOf(x.Args[1]), mt.Key()))
		_, ok := ex.mapGet(st, mt, m, k)
		return ok
	case "mapval":
		m := arg(0)
		mt := info.TypeOf(x.Args[0]).Underlying().(*types.Map)
		k := ex.toTerm(st, ex.coerce(st, ex.eval(x.Args[1], st, fr), info.TypeOf(x.Args[1]), mt.Key()))
		v, _ := ex.mapGet(st, mt, m, k)
		return v
	case "visitedKey":
		if len(ex.loops) == 0 {
			panic(unsupported("visitedKey outside a loop"))
		}
		for i := len(ex.loops) - 1; i >= 0; i-- {
			if lc := ex.loops[i]; lc.visited != nil {
				v, ok := st.vars[*lc.visited].(*Term)
				if !ok {
					break
				}
				k := arg(0)
				if kk, _ := arrayElem(v.sort); kk != k.sort {
					break
				}
				return Select(v, k)
			}
		}
		panic(unsupported("visitedKey outside a map loop"))
	}
	panic(unsupported("prelude function %s here", fn.Name()))
}

// entryHoles rebinds candidate holes to their values at loop entry.
func (ex *Exec) entryHoles(fr *Frame, s *State) *Frame {
	if ex.holeAt == nil {
		return fr
	}
	f2 := ex.childBind(fr)
	for o, h := range ex.holeAt {
		if v, ok := h(s); ok {
			f2.bind[o] = v
		}
	}
	return f2
}

// resolveLocal finds the variable named by local[T]("name"): by name, or by
// type when exactly one variable has that type.
func (ex *Exec) resolveLocal(x *ast.CallExpr, st *State) (VarKey, Value, bool) {
	t := ex.typeArg(x, 0)
	name, _ := litString(x.Args[0])
	var byName, byType []VarKey
	seen := map[VarKey]bool{}
	for i := len(ex.frames) - 1; i >= 0; i-- {
		for f := ex.frames[i]; f != nil; f = f.parent {
			for k := range st.vars {
				if k.frame != f.id || seen[k] || !types.Identical(k.obj.Type(), t) {
					continue
				}
				seen[k] = true
				byType = append(byType, k)
				if k.obj.Name() == name {
					byName = append(byName, k)
				}
			}
		}
	}
	pick := func(k VarKey) (VarKey, Value, bool) {
		v := st.vars[k]
		if lv, ok := ex.boxedKey(k, st); ok {
			return k, ex.load(lv, st), true
		}
		return k, ex.seeFunc2(v), true
	}
	if len(byName) >= 1 {
		return pick(byName[0])
	}
	if len(byType) == 1 {
		return pick(byType[0])
	}
	return VarKey{}, nil, false
}

// lemmaInstance is requires => ensures at the given arguments.
func (ex *Exec) lemmaInstance(c *Contract, args []Value, st *State) *Term {
	fr := ex.bindFrame(c, args)
	pre, post := True, True
	for _, r := range c.requires {
		pre = And(pre, ex.toTerm(st, ex.eval(r.e, st, fr)))
	}
	for _, e := range c.ensures {
		post = And(post, ex.toTerm(st, ex.eval(e.e, st, fr)))
	}
	return Implies(pre, post)
}

// nodeText is the source of a node.
func nodeText(prog *Program, n ast.Node) string {
	var b strings.Builder
	goprinter.Fprint(&b, prog.fset, n)
	return b.String()
}
