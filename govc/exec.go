package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type VC struct {
	name  string
	facts *Fact
	goal  *Term
	extra []*Term
	pos   token.Position
	res   *Result
	kind  string
}

type Exec struct {
	prog           *Program
	target         string
	con            *Contract
	top            *Frame
	vcs            []*VC
	quiet          int // >0: no obligations (dry runs)
	dry            int // >0: nested loops only havoc
	spec           bool
	specOld        *State
	specEntry      *State
	specIter       *Term
	specRanged     *Term
	nframe         int
	counts         map[string]int
	side           []*Outcome
	heapSorts      map[string]Sort
	entry          *State
	onHeap         func(n string, s Sort) *Term
	funcTerms      map[*Term]*FuncVal
	funcChoices    map[*Term][]funcChoice // what a merged function variable may be
	assumes        map[string]bool
	used           map[*Contract]bool
	inlined        map[string]bool
	frames         []*Frame
	loops          []*loopCtx
	candsUsed      int
	candsTried     int
	pool           []*Contract
	trace          bool
	loopDepth      int
	conBind        map[types.Object]Value
	results        []Value
	globalsInit    map[types.Object]bool
	panicTerm      *Term
	specLocalFrame *Frame
	trigs          [][]*Term
	specStack      []*types.Func
	holeAt         map[types.Object]func(*State) (Value, bool)
	loopSeq        map[ast.Stmt]int
	loopMemo       map[string][]string
	markers        map[*Term][]*Term
	maxLemma       int
	conFrame       *Frame
	litStack       []*litUse
	litDone        map[*ast.FuncLit]bool
	covers         []*VC
}

type okind int

const (
	oNormal okind = iota
	oReturn
	oBreak
	oContinue
	oPanic
	oFallthrough
)

type Outcome struct {
	kind  okind
	label string
	st    *State
	pval  *Term
}

func newExec(prog *Program, target string) *Exec {
	return &Exec{prog: prog, target: target, counts: map[string]int{}, heapSorts: map[string]Sort{},
		funcTerms: map[*Term]*FuncVal{}, funcChoices: map[*Term][]funcChoice{}, assumes: map[string]bool{}, used: map[*Contract]bool{}, inlined: map[string]bool{},
		globalsInit: map[types.Object]bool{}, conBind: map[types.Object]Value{},
		loopSeq: map[ast.Stmt]int{}, loopMemo: map[string][]string{}, markers: map[*Term][]*Term{}, maxLemma: 1 << 30, litDone: map[*ast.FuncLit]bool{}}
}

func (ex *Exec) newFrame(parent, caller *Frame, name string, sig *types.Signature, pkg *Pkg) *Frame {
	ex.nframe++
	f := &Frame{id: ex.nframe, parent: parent, caller: caller, fn: name, sig: sig, pkg: pkg, boxed: map[types.Object]bool{}}
	if caller != nil {
		f.depth = caller.depth + 1
	}
	if sig != nil {
		for i := 0; i < sig.Results().Len(); i++ {
			f.results = append(f.results, sig.Results().At(i))
		}
	}
	return f
}

func (ex *Exec) emit(kind, label string, goal *Term, st *State, pos token.Pos) {
	if ex.spec {
		return
	}
	if goal == True || st.dead {
		if ex.quiet == 0 {
			n := kind
			if label != "" {
				n += ":" + label
			}
			ex.counts["trivial"]++
			_ = n
		}
		return
	}
	if ex.quiet == 0 {
		n := kind
		if label != "" {
			n += ":" + label
		}
		ex.counts[n]++
		if c := ex.counts[n]; c > 1 || label == "" {
			n = fmt.Sprintf("%s#%d", n, c)
		}
		ex.vcs = append(ex.vcs, &VC{name: ex.target + "/" + n, facts: st.facts, goal: goal, pos: ex.prog.fset.Position(pos), kind: kind})
	}
	st.assume(goal)
}

// ---- variables

func (ex *Exec) frameOf(fr *Frame, st *State, obj types.Object) *Frame {
	for f := fr; f != nil; f = f.parent {
		if _, ok := st.vars[VarKey{f.id, obj}]; ok {
			return f
		}
	}
	return nil
}

func (ex *Exec) isBoxed(fr *Frame, obj types.Object) bool {
	for f := fr; f != nil; f = f.parent {
		if f.boxed[obj] {
			return true
		}
	}
	return false
}

func (ex *Exec) declare(fr *Frame, st *State, obj types.Object, v Value) {
	if obj == nil || obj.Name() == "_" {
		return
	}
	if fr.boxed[obj] {
		t := ex.toTerm(st, v)
		r := ex.allocObj(st, obj.Type(), t)
		st.vars[VarKey{fr.id, obj}] = r
		return
	}
	st.vars[VarKey{fr.id, obj}] = v
}

// allocObj allocates a new object holding v and returns a reference to it.
func (ex *Exec) allocObj(st *State, t types.Type, v *Term) *Term {
	b := ex.newBase(st)
	n := heapName(t)
	h := ex.heap(st, t)
	ex.setHeap(st, n, Store(h, b, Store(Select(h, b), Int(0), v)))
	return MkRef(b, Int(0))
}

func (ex *Exec) newBase(st *State) *Term {
	b := st.alloc
	st.alloc = Add(b, Int(1))
	return b
}

// boxedVars finds the variables of a body whose address is taken with &.
func (ex *Exec) boxedVars(body ast.Node, m map[types.Object]bool) {
	info := ex.prog.info
	ast.Inspect(body, func(n ast.Node) bool {
		u, ok := n.(*ast.UnaryExpr)
		if !ok || u.Op != token.AND {
			return true
		}
		e := ast.Unparen(u.X)
		for {
			switch x := e.(type) {
			case *ast.SelectorExpr:
				if t := info.TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Pointer); ok {
						return true
					}
				}
				return true // &x.f stays a path
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.Ident:
				if o, ok := info.Uses[x].(*types.Var); ok && !o.IsField() && o.Parent() != nil && o.Parent() != o.Pkg().Scope() {
					m[o] = true
				}
			}
			return true
		}
	})
}

// ---- values to terms

func (ex *Exec) tryTerm(st *State, v Value) (*Term, bool) {
	switch x := v.(type) {
	case *Term:
		return x, true
	case *FuncVal:
		return ex.funcTerm(st, x), true
	case *PtrPath:
		if x.lv.kind == lvHeap && len(x.lv.path) == 0 {
			return x.lv.ref, true
		}
	case nil:
		return nil, false
	}
	return nil, false
}

func (ex *Exec) toTerm(st *State, v Value) *Term {
	t, ok := ex.tryTerm(st, v)
	if !ok {
		panic(unsupported("value %T has no term", v))
	}
	return t
}

func (ex *Exec) funcTerm(st *State, f *FuncVal) *Term {
	if f.term != nil {
		return f.term
	}
	for _, a := range f.terms {
		same := true
		for n, h := range a.reads {
			if st == nil || st.heaps[n] != h {
				same = false
			}
		}
		if same {
			return a.term
		}
	}
	if f.fn != nil && f.recv == nil {
		f.term = Const("func$"+sanitize(shortName(f.fn)), SFunc)
	} else {
		f.term = Fresh("closure", SFunc)
	}
	ex.funcTerms[f.term] = f
	addAxiom(f.term.op+".nn", "box", Neq(f.term, FuncNil()), f.term.op)
	if reads := ex.summarize(st, f); len(reads) > 0 {
		t := f.term
		f.terms = append(f.terms, funcAt{reads, t})
		f.term = nil
		return t
	}
	return f.term
}

// ---- statements

func (ex *Exec) execBlock(list []ast.Stmt, st *State, fr *Frame) []*Outcome {
	cur := []*State{st}
	var outs []*Outcome
	for i := 0; i < len(list); i++ {
		s := list[i]
		var next []*State
		for _, c := range cur {
			if c.dead {
				continue
			}
			for _, o := range ex.exec(s, c, fr) {
				if o.kind == oNormal {
					next = append(next, o.st)
				} else {
					outs = append(outs, o)
				}
			}
		}
		cur = ex.mergeAll(next)
		if len(cur) == 0 {
			return outs
		}
	}
	for _, c := range cur {
		if !c.dead {
			outs = append(outs, &Outcome{kind: oNormal, st: c})
		}
	}
	return outs
}

func (ex *Exec) mergeAll(sts []*State) []*State {
	var live []*State
	for _, s := range sts {
		if !s.dead {
			live = append(live, s)
		}
	}
	if len(live) <= 1 {
		return live
	}
	if m, ok := ex.merge(live); ok {
		return []*State{m}
	}
	if len(live) > 32 {
		panic(unsupported("too many unmergeable paths"))
	}
	return live
}

func (ex *Exec) exec(s ast.Stmt, st *State, fr *Frame) []*Outcome {
	saved := ex.side
	ex.side = nil
	outs := ex.exec1(s, st, fr, "")
	outs = append(outs, ex.side...)
	ex.side = saved
	var res []*Outcome
	for _, o := range outs {
		if !o.st.dead {
			res = append(res, o)
		}
	}
	return res
}

func one(st *State) []*Outcome { return []*Outcome{{kind: oNormal, st: st}} }

func (ex *Exec) exec1(s ast.Stmt, st *State, fr *Frame, label string) []*Outcome {
	info := ex.prog.info
	switch s := s.(type) {
	case *ast.BlockStmt:
		return ex.execBlock(s.List, st, fr)
	case *ast.ExprStmt:
		ex.evalMulti(s.X, st, fr)
		return one(st)
	case *ast.EmptyStmt:
		return one(st)
	case *ast.LabeledStmt:
		return ex.exec1(s.Stmt, st, fr, s.Label.Name)
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return one(st)
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					o := info.Defs[n]
					if o != nil {
						ex.declare(fr, st, o, zeroOf(o.Type()))
					}
				}
				continue
			}
			vals := ex.evalList(vs.Values, len(vs.Names), st, fr)
			for i, n := range vs.Names {
				if o := info.Defs[n]; o != nil {
					ex.declare(fr, st, o, ex.coerce(st, vals[i].v, vals[i].t, o.Type()))
				}
			}
		}
		return one(st)
	case *ast.AssignStmt:
		ex.assign(s, st, fr)
		return one(st)
	case *ast.IncDecStmt:
		lv := ex.lvalue(s.X, st, fr)
		v := ex.toTerm(st, ex.load(lv, st))
		if s.Tok == token.INC {
			v = Add(v, Int(1))
		} else {
			v = Sub(v, Int(1))
		}
		ex.store(lv, v, st)
		return one(st)
	case *ast.ReturnStmt:
		if len(s.Results) > 0 {
			var tys []types.Type
			for _, r := range fr.results {
				tys = append(tys, r.Type())
			}
			vals := ex.evalList(s.Results, len(fr.results), st, fr)
			for i, r := range fr.results {
				ex.setResult(fr, st, r, ex.coerce(st, vals[i].v, vals[i].t, tys[i]))
			}
		}
		return []*Outcome{{kind: oReturn, st: st}}
	case *ast.BranchStmt:
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			return []*Outcome{{kind: oBreak, label: l, st: st}}
		case token.CONTINUE:
			return []*Outcome{{kind: oContinue, label: l, st: st}}
		case token.FALLTHROUGH:
			return []*Outcome{{kind: oFallthrough, st: st}}
		}
		panic(unsupported("goto"))
	case *ast.IfStmt:
		if s.Init != nil {
			outs := ex.exec(s.Init, st, fr)
			var res []*Outcome
			for _, o := range outs {
				if o.kind == oNormal {
					c := *s
					c.Init = nil
					res = append(res, ex.exec(&c, o.st, fr)...)
				} else {
					res = append(res, o)
				}
			}
			return res
		}
		c := ex.evalCond(s.Cond, st, fr)
		var outs []*Outcome
		t := st.clone()
		t.assumeBranch(c)
		if !t.dead {
			outs = append(outs, ex.exec(s.Body, t, fr)...)
		}
		f := st
		f.assumeBranch(Not(c))
		if !f.dead {
			if s.Else != nil {
				outs = append(outs, ex.exec(s.Else, f, fr)...)
			} else {
				outs = append(outs, &Outcome{kind: oNormal, st: f})
			}
		}
		return outs
	case *ast.SwitchStmt:
		return ex.execSwitch(s, st, fr, label)
	case *ast.TypeSwitchStmt:
		return ex.execTypeSwitch(s, st, fr, label)
	case *ast.ForStmt:
		return ex.execFor(s, st, fr, label)
	case *ast.RangeStmt:
		return ex.execRange(s, st, fr, label)
	case *ast.DeferStmt:
		d := &Deferred{call: s.Call}
		d.fv, d.args, d.sig = ex.evalCallParts(s.Call, st, fr)
		st.defers[fr.id] = append(append([]*Deferred{}, st.defers[fr.id]...), d)
		return one(st)
	}
	panic(unsupported("statement %T", s))
}

func (ex *Exec) setResult(fr *Frame, st *State, r *types.Var, v Value) {
	k := VarKey{fr.id, r}
	if fr.boxed[r] {
		ref := st.vars[k].(*Term)
		ex.store(&LV{kind: lvHeap, ref: ref, typ: r.Type()}, v, st)
		return
	}
	st.vars[k] = v
}

func (ex *Exec) getResult(fr *Frame, st *State, r *types.Var) Value {
	v := st.vars[VarKey{fr.id, r}]
	if fr.boxed[r] {
		return ex.load(&LV{kind: lvHeap, ref: v.(*Term), typ: r.Type()}, st)
	}
	return v
}

// breakTo handles break outcomes of a switch.
func absorbBreak(outs []*Outcome, label string) []*Outcome {
	for _, o := range outs {
		if o.kind == oBreak && (o.label == "" || o.label == label && label != "") {
			o.kind = oNormal
			o.label = ""
		}
	}
	return outs
}

func (ex *Exec) execSwitch(s *ast.SwitchStmt, st *State, fr *Frame, label string) []*Outcome {
	if s.Init != nil {
		outs := ex.exec(s.Init, st, fr)
		var res []*Outcome
		for _, o := range outs {
			if o.kind == oNormal {
				c := *s
				c.Init = nil
				res = append(res, ex.execSwitch(&c, o.st, fr, label)...)
			} else {
				res = append(res, o)
			}
		}
		return res
	}
	var tag Value
	var tagT types.Type
	if s.Tag != nil {
		tag = ex.eval(s.Tag, st, fr)
		tagT = ex.prog.info.TypeOf(s.Tag)
	}
	var outs []*Outcome
	var clauses []*ast.CaseClause
	for _, c := range s.Body.List {
		clauses = append(clauses, c.(*ast.CaseClause))
	}
	var pendFall []*State // states falling through into the next clause
	cur := st
	bodies := make([][]*State, len(clauses))
	def := -1
	for i, c := range clauses {
		if c.List == nil {
			def = i
			continue
		}
		if cur.dead {
			continue
		}
		cond := False
		for _, e := range c.List {
			if s.Tag == nil {
				cond = Or(cond, ex.evalCond(e, cur, fr))
			} else {
				v := ex.eval(e, cur, fr)
				cond = Or(cond, ex.equal(cur, tag, tagT, v, ex.prog.info.TypeOf(e)))
			}
		}
		t := cur.clone()
		t.assumeBranch(cond)
		if !t.dead {
			bodies[i] = append(bodies[i], t)
		}
		cur.assumeBranch(Not(cond))
	}
	if !cur.dead {
		if def >= 0 {
			bodies[def] = append(bodies[def], cur)
		} else {
			outs = append(outs, &Outcome{kind: oNormal, st: cur})
		}
	}
	for i, c := range clauses {
		in := append(bodies[i], pendFall...)
		pendFall = nil
		for _, b := range ex.mergeAll(in) {
			for _, o := range ex.execBlock(c.Body, b, fr) {
				if o.kind == oFallthrough {
					pendFall = append(pendFall, o.st)
				} else {
					outs = append(outs, o)
				}
			}
		}
	}
	return absorbBreak(outs, label)
}

func (ex *Exec) execTypeSwitch(s *ast.TypeSwitchStmt, st *State, fr *Frame, label string) []*Outcome {
	if s.Init != nil {
		for _, o := range ex.exec(s.Init, st, fr) {
			if o.kind == oNormal {
				st = o.st
			}
		}
	}
	var x ast.Expr
	bound := false
	switch a := s.Assign.(type) {
	case *ast.AssignStmt:
		x = a.Rhs[0].(*ast.TypeAssertExpr).X
		bound = true
	case *ast.ExprStmt:
		x = a.X.(*ast.TypeAssertExpr).X
	}
	v := ex.toTerm(st, ex.eval(x, st, fr))
	ex.sealed(st, v, ex.prog.info.TypeOf(x))
	var outs []*Outcome
	cur := st
	var def *ast.CaseClause
	run := func(c *ast.CaseClause, b *State, val Value) {
		if b.dead {
			return
		}
		if bound {
			if o := ex.prog.info.Implicits[c]; o != nil {
				if val == nil {
					val = v
				}
				ex.declare(fr, b, o, val)
			}
		}
		outs = append(outs, ex.execBlock(c.Body, b, fr)...)
	}
	for _, cc := range s.Body.List {
		c := cc.(*ast.CaseClause)
		if c.List == nil {
			def = c
			continue
		}
		cond := False
		var single types.Type
		for _, e := range c.List {
			t := ex.prog.info.TypeOf(e)
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
				cond = Or(cond, Eq(v, IfaceNil()))
				continue
			}
			cond = Or(cond, ex.hasType(v, t))
			if len(c.List) == 1 {
				single = t
			}
		}
		b := cur.clone()
		b.assumeBranch(cond)
		var val Value
		if single != nil && !isInterface(single) && !b.dead {
			u := Unbox(single, v)
			b.assume(wf(single, u, b.alloc))
			val = u
		}
		run(c, b, val)
		cur.assumeBranch(Not(cond))
	}
	if def != nil {
		run(def, cur, v)
	} else if !cur.dead {
		outs = append(outs, &Outcome{kind: oNormal, st: cur})
	}
	return absorbBreak(outs, label)
}

func (ex *Exec) hasType(v *Term, t types.Type) *Term {
	if isInterface(t) {
		if it := t.Underlying().(*types.Interface); it.Empty() {
			return Neq(v, IfaceNil())
		}
		n := "impl$" + typeKeyFull(t)
		// known tags
		if strings.HasPrefix(v.op, "box$") {
			for _, u := range tagTypes {
				if boxName(u) == v.op {
					if types.Implements(u, t.Underlying().(*types.Interface)) {
						return True
					}
					return False
				}
			}
		}
		return And(Neq(v, IfaceNil()), UF(n, SBool, Dyn(v)))
	}
	return IsDyn(t, v)
}

// sealed adds the closed-world fact of an interface with an unexported method.
func (ex *Exec) sealed(st *State, v *Term, t types.Type) {
	impls := ex.sealedImpls(t)
	if impls == nil || v.bound {
		return
	}
	c := Eq(v, IfaceNil())
	for _, u := range impls {
		c = Or(c, IsDyn(u, v))
	}
	ex.assumes["sealed interface "+t.String()+": only the implementations declared in its package occur"] = true
	st.assume(c)
}

func (ex *Exec) sealedImpls(t types.Type) []types.Type {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var pkg *types.Package
	for i := 0; i < it.NumMethods(); i++ {
		if m := it.Method(i); !m.Exported() && isRepoPkg(m.Pkg()) {
			pkg = m.Pkg()
		}
	}
	if pkg == nil {
		return nil
	}
	var out []types.Type
	names := pkg.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || isInterface(tn.Type()) {
			continue
		}
		if types.Implements(tn.Type(), it) {
			out = append(out, tn.Type())
		}
		if p := types.NewPointer(tn.Type()); types.Implements(p, it) {
			out = append(out, p)
		}
	}
	return out
}

// ---- assignment

type tv struct {
	v Value
	t types.Type
}

// evalList evaluates an expression list that yields n values.
func (ex *Exec) evalList(list []ast.Expr, n int, st *State, fr *Frame) []tv {
	if len(list) == n {
		var out []tv
		for _, e := range list {
			v := ex.eval(e, st, fr)
			out = append(out, tv{v, ex.prog.info.TypeOf(e)})
		}
		return out
	}
	e := list[0]
	v := ex.evalCommaOk(e, n, st, fr)
	return v
}

func (ex *Exec) evalCommaOk(e ast.Expr, n int, st *State, fr *Frame) []tv {
	e = ast.Unparen(e)
	info := ex.prog.info
	boolT := types.Typ[types.Bool]
	switch x := e.(type) {
	case *ast.IndexExpr:
		mt := info.TypeOf(x.X).Underlying().(*types.Map)
		m := ex.toTerm(st, ex.eval(x.X, st, fr))
		k := ex.toTerm(st, ex.coerce(st, ex.eval(x.Index, st, fr), info.TypeOf(x.Index), mt.Key()))
		v, ok := ex.mapGet(st, mt, m, k)
		return []tv{{v, mt.Elem()}, {ok, boolT}}
	case *ast.TypeAssertExpr:
		v := ex.toTerm(st, ex.eval(x.X, st, fr))
		t := info.TypeOf(x.Type)
		ex.sealed(st, v, info.TypeOf(x.X))
		c := ex.hasType(v, t)
		if isInterface(t) {
			return []tv{{Ite(c, v, IfaceNil()), t}, {c, boolT}}
		}
		u := Unbox(t, v)
		st.assume(Implies(c, wf(t, u, st.alloc)))
		return []tv{{Ite(c, u, zeroOf(t)), t}, {c, boolT}}
	}
	vals := ex.evalMulti(e, st, fr)
	tup, ok := info.TypeOf(e).(*types.Tuple)
	if !ok || len(vals) != n {
		panic(unsupported("multi-value expression %T", e))
	}
	var out []tv
	for i := range vals {
		out = append(out, tv{vals[i], tup.At(i).Type()})
	}
	return out
}

func (ex *Exec) assign(s *ast.AssignStmt, st *State, fr *Frame) {
	info := ex.prog.info
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		lv := ex.lvalue(s.Lhs[0], st, fr)
		t := info.TypeOf(s.Lhs[0])
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_NOT_ASSIGN: token.AND_NOT, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR}[s.Tok]
		a := ex.toTerm(st, ex.load(lv, st))
		b := ex.toTerm(st, ex.eval(s.Rhs[0], st, fr))
		ex.store(lv, ex.binary(op, a, b, t, st, fr), st)
		return
	}
	var lvs []*LV
	if s.Tok == token.ASSIGN && !(len(s.Lhs) == 1) {
		for _, l := range s.Lhs {
			lvs = append(lvs, ex.lvalue(l, st, fr))
		}
	}
	vals := ex.evalList(s.Rhs, len(s.Lhs), st, fr)
	for i, l := range s.Lhs {
		id, isId := ast.Unparen(l).(*ast.Ident)
		if isId && id.Name == "_" {
			continue
		}
		if s.Tok == token.DEFINE {
			if o := info.Defs[id]; o != nil {
				ex.declare(fr, st, o, ex.coerce(st, vals[i].v, vals[i].t, o.Type()))
				continue
			}
		}
		var lv *LV
		if lvs != nil {
			lv = lvs[i]
		} else {
			lv = ex.lvalue(l, st, fr)
		}
		val := ex.coerce(st, vals[i].v, vals[i].t, info.TypeOf(l))
		if isId {
			o := info.Uses[id]
			val = ex.attachClosure(o, val, st, fr)
			ex.store(lv, val, st)
			if f, ok := val.(*FuncVal); ok && f.contract != nil {
				ex.verifyClosure(o, f, st, fr)
			}
			continue
		}
		ex.store(lv, val, st)
	}
}

// coerce applies the implicit conversion from one type to another.
func (ex *Exec) coerce(st *State, v Value, from, to types.Type) Value {
	if from == nil || to == nil {
		return v
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return zeroOf(to)
	}
	if isInterface(to) && !isInterface(from) {
		if _, ok := to.(*types.TypeParam); ok {
			return v
		}
		if _, ok := from.(*types.TypeParam); ok {
			return v
		}
		if b, ok := from.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			from = types.Default(from)
		}
		t, ok := ex.tryTerm(st, v)
		if !ok {
			// a pointer into the middle of something: opaque
			if p, isP := v.(*PtrPath); isP {
				r := Fresh("ptr", SRef)
				st.assume(Gt(RefBase(r), Int(0)))
				_ = p
				return Box(from, r)
			}
			panic(unsupported("interface conversion of %T", v))
		}
		return Box(from, t)
	}
	return v
}

func (ex *Exec) evalCond(e ast.Expr, st *State, fr *Frame) *Term {
	return ex.toTerm(st, ex.eval(e, st, fr))
}
