package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"
)

func sortStrings(s []string) { sort.Strings(s) }

// reassigned reports whether a variable is assigned anywhere other than at
// its declaration.
func (prog *Program) reassigned(o types.Object) bool { return prog.assigned[o] }

// A Unit is the outcome of verifying one contract, lemma or client.
type Unit struct {
	Name     string
	Kind     string
	con      *Contract
	vcs      []*VC
	covers   []*VC
	fail     string // could not be verified at all
	used     map[*Contract]bool
	assumes  map[string]bool
	inlined  map[string]bool
	invTried int
	invUsed  int
	ex       *Exec
	dur      time.Duration
}

func (prog *Program) verifyUnit(c *Contract) *Unit {
	u := &Unit{Name: c.name, Kind: c.kind, con: c}
	if c.invalid != "" {
		u.fail = c.invalid
		u.used = map[*Contract]bool{}
		return u
	}
	ex := newExec(prog, c.name)
	ex.con = c
	u.ex = ex
	start := time.Now()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if us, ok := r.(unsupportedErr); ok {
					u.fail = us.msg
					if os.Getenv("GOVC_STACK") != "" {
						panic(r)
					}
					return
				}
				if os.Getenv("GOVC_STACK") != "" {
					panic(r)
				}
				u.fail = fmt.Sprintf("internal error: %v", r)
			}
		}()
		switch c.kind {
		case "contract":
			ex.verifyContract(c)
		case "lemma":
			ex.verifyLemma(c)
		case "client":
			ex.verifyClient(c)
		}
	}()
	u.dur = time.Since(start)
	u.vcs = ex.vcs
	u.covers = ex.covers
	u.used = ex.used
	u.assumes = ex.assumes
	u.inlined = ex.inlined
	u.invTried, u.invUsed = ex.candsTried, ex.candsUsed
	return u
}

func (ex *Exec) initState() *State {
	st := &State{vars: map[VarKey]Value{}, heaps: map[string]*Term{}, alloc: Const("alloc@0", SInt), defers: map[int][]*Deferred{}}
	st.assume(Ge(st.alloc, Int(1)))
	for _, o := range ex.prog.state {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupportedErr); !ok {
						panic(r)
					}
				}
			}()
			ex.globalInit(o, st)
		}()
	}
	return st
}

func (ex *Exec) verifyContract(c *Contract) {
	fn := c.target
	fd := ex.prog.funcs[fn]
	if fd == nil || fd.Body == nil {
		panic(unsupported("no body"))
	}
	st := ex.initState()
	sig := fn.Type().(*types.Signature)
	nf := ex.newFrame(nil, nil, shortName(fn), sig, ex.prog.pkgOf[fn])
	nf.recFn = fn
	ex.top = nf
	cf := &Frame{id: -100, fn: "contract", bind: map[types.Object]Value{}, pkg: c.pkg, boxed: map[types.Object]bool{}, con: c}
	ex.conFrame = cf
	var args []Value
	cps := allParams(c.sig)
	for i, p := range allParams(sig) {
		var v Value
		if lit := c.callbacks[cps[i].Name()]; lit != nil {
			v = &FuncVal{callback: lit, cbFrame: cf, sig: p.Type().Underlying().(*types.Signature), term: Const("cb$"+p.Name(), SFunc), name: p.Name()}
		} else {
			n := p.Name()
			if n == "" || n == "_" {
				n = fmt.Sprintf("p%d", i)
			}
			t := Const("arg$"+sanitize(n), sortOf(p.Type()))
			st.assume(wf(p.Type(), t, st.alloc))
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
				if _, ok := pt.Elem().Underlying().(*types.Struct); ok && structDT(pt.Elem()) != nil {
					// what the caller's memory holds has been allocated
					h := ex.heap(st, pt.Elem())
					st.assume(Implies(Neq(RefBase(t), Int(0)), wf(pt.Elem(), Select(Select(h, RefBase(t)), RefIdx(t)), st.alloc)))
				}
			}
			if i == 0 && sig.Recv() != nil {
				if _, ok := p.Type().Underlying().(*types.Pointer); ok {
					st.assume(Neq(RefBase(t), Int(0)))
				}
			}
			v = t
		}
		args = append(args, v)
		cf.bind[cps[i]] = v
	}
	pre0 := st.clone()
	for _, r := range c.requires {
		st.assume(ex.specTerm(r.e, st, pre0, cf))
	}
	ex.covers = append(ex.covers, &VC{name: "requires", facts: st.facts, goal: False})
	for _, u := range c.uses {
		u := u
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupportedErr); !ok {
						panic(r)
					}
				}
			}()
			st.assume(ex.specTerm(u, st, pre0, cf))
		}()
	}
	ex.boxedVars(fd.Body, nf.boxed)
	ex.entry = st.clone()
	for i, p := range allParams(sig) {
		ex.declare(nf, st, p, args[i])
	}
	for _, r := range nf.results {
		if r.Name() == "" || r.Name() == "_" {
			st.vars[VarKey{nf.id, r}] = zeroOf(r.Type())
		} else {
			ex.declare(nf, st, r, zeroOf(r.Type()))
		}
	}
	ex.frames = append(ex.frames, nf)
	pre := ex.entry
	outs := ex.execBody(nf, fd.Body, st)
	ex.finish(c, cf, nf, pre, outs, "", fd.Pos(), false)
}

func (ex *Exec) verifyLemma(c *Contract) {
	st := ex.initState()
	cf := &Frame{id: -100, fn: "lemma", bind: map[types.Object]Value{}, pkg: c.pkg, boxed: map[types.Object]bool{}, con: c}
	ex.conFrame = cf
	ex.entry = st
	for i, p := range allParams(c.sig) {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("p%d", i)
		}
		t := Const("arg$"+sanitize(n), sortOf(p.Type()))
		cf.bind[p] = t
	}
	for _, r := range c.requires {
		st.assume(ex.specTerm(r.e, st, st, cf))
	}
	ex.covers = append(ex.covers, &VC{name: "requires", facts: st.facts, goal: False})
	ex.maxLemma = c.lemmaPos - 1
	if c.induct != nil {
		id := c.induct.(*ast.Ident)
		o := ex.prog.info.Uses[id]
		n := cf.bind[o].(*Term)
		args := []Value{}
		for _, p := range allParams(c.sig) {
			if types.Object(p) == o {
				args = append(args, Sub(n, Int(1)))
			} else {
				args = append(args, cf.bind[p])
			}
		}
		ex.withSpec(st, func() {
			st.assume(Implies(Gt(n, Int(0)), ex.lemmaInstance(c, args, st)))
		})
		// the other parameters may vary
		var vars []*Term
		args = nil
		for _, p := range allParams(c.sig) {
			v := BoundVar(p.Name(), sortOf(p.Type()))
			vars = append(vars, v)
			args = append(args, v)
		}
		var hyp *Term
		saved := ex.trigs
		ex.trigs = nil
		var tr [][]*Term
		ex.withSpec(st, func() {
			hyp = ex.lemmaInstance(c, args, st)
			tr = ex.lemmaTrigs(c, args, st)
		})
		ex.trigs = saved
		if len(tr) > 0 {
			var nv *Term
			for i, p := range allParams(c.sig) {
				if types.Object(p) == o {
					nv = vars[i]
				}
			}
			st.assume(Forall(vars, Implies(And(Ge(nv, Int(0)), Lt(nv, n)), hyp), tr...))
		}
	}
	if c.inducts != nil {
		// a measure that is a tuple of numbers, in lexicographic order
		var args []Value
		var vars []*Term
		for _, p := range allParams(c.sig) {
			v := BoundVar(p.Name(), sortOf(p.Type()))
			vars = append(vars, v)
			args = append(args, v)
		}
		hf := ex.bindFrame(c, args)
		saved := ex.trigs
		ex.trigs = nil
		var hyp, less *Term
		var tr [][]*Term
		ex.withSpec(st, func() {
			less = False
			for i := len(c.inducts) - 1; i >= 0; i-- {
				a := ex.toTerm(st, ex.eval(c.inducts[i], st, cf))
				b := ex.toTerm(st, ex.eval(c.inducts[i], st, hf))
				less = And(Ge(b, Int(0)), Or(Lt(b, a), And(Eq(b, a), less)))
			}
			hyp = ex.lemmaInstance(c, args, st)
			tr = ex.lemmaTrigs(c, args, st)
		})
		ex.trigs = saved
		if len(tr) == 0 {
			panic(unsupported("lemma %s: induction over a tuple needs trig", c.name))
		}
		st.assume(Forall(vars, Implies(less, hyp), tr...))
	}
	for _, u := range c.uses {
		fn, _ := ex.calleeObj(u.Fun).(*types.Func)
		if l := lemmaOf[fn]; l != nil && l.lemmaPos >= c.lemmaPos {
			if l == c && c.inducts != nil {
				var args []Value
				for _, a := range u.Args {
					args = append(args, ex.specTerm(a, st, st, cf))
				}
				hf := ex.bindFrame(c, args)
				ex.withSpec(st, func() {
					less := False
					for i := len(c.inducts) - 1; i >= 0; i-- {
						a := ex.toTerm(st, ex.eval(c.inducts[i], st, cf))
						b := ex.toTerm(st, ex.eval(c.inducts[i], st, hf))
						less = And(Ge(b, Int(0)), Or(Lt(b, a), And(Eq(b, a), less)))
					}
					st.assume(Implies(less, ex.lemmaInstance(c, args, st)))
				})
				continue
			}
			if l != c || c.induct == nil {
				panic(unsupported("lemma %s uses %s, which is not proved before it", c.name, l.name))
			}
			// an instance of the induction hypothesis: smaller and non-negative
			o := ex.prog.info.Uses[c.induct.(*ast.Ident)]
			for i, p := range allParams(c.sig) {
				if types.Object(p) == o {
					a := ex.specTerm(u.Args[i], st, st, cf)
					st.assume(Implies(And(Ge(a, Int(0)), Lt(a, cf.bind[p].(*Term))), ex.specTerm(u, st, st, cf)))
				}
			}
			continue
		}
		st.assume(ex.specTerm(u, st, st, cf))
	}
	lf := ex.childBind(cf)
	ex.bindLets(c, lf, st, st)
	for _, e := range c.ensures {
		t := ex.specTerm(e.e, st, st, lf)
		gs := []*Term{t}
		if t.op == "and" {
			gs = t.args
		}
		s := st.clone()
		for _, g := range gs {
			ex.emit("ensures", e.label, g, s, c.decl.Pos())
		}
	}
}

// lemmaTrigs evaluates the trig(...) clauses of a lemma.
func (ex *Exec) lemmaTrigs(c *Contract, args []Value, st *State) [][]*Term {
	fr := ex.bindFrame(c, args)
	var out [][]*Term
	for _, t := range c.trigs {
		var ts []*Term
		for _, a := range t.Args {
			ts = append(ts, ex.toTerm(st, ex.eval(a, st, fr)))
		}
		out = append(out, ts)
	}
	return out
}

// publishLemma turns a lemma with triggers into an axiom for later proofs.
func (prog *Program) publishLemma(c *Contract) {
	if len(c.trigs) == 0 || c.invalid != "" {
		return
	}
	ex := newExec(prog, c.name)
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				prog.problems = append(prog.problems, "lemma "+c.name+": "+u.msg)
				return
			}
			panic(r)
		}
	}()
	st := &State{vars: map[VarKey]Value{}, heaps: map[string]*Term{}, alloc: BoundVar("al", SInt), defers: map[int][]*Deferred{}}
	var vars []*Term
	ex.onHeap = func(n string, s Sort) *Term {
		t := BoundVar("h", s)
		st.heaps[n] = t
		vars = append(vars, t)
		return t
	}
	var args []Value
	wfs := True
	for _, p := range allParams(c.sig) {
		v := BoundVar(p.Name(), sortOf(p.Type()))
		vars = append(vars, v)
		args = append(args, v)
		_ = wfs
	}
	ex.spec = true
	ex.specOld = st
	body := ex.lemmaInstance(c, args, st)
	tr := ex.lemmaTrigs(c, args, st)
	var syms []string
	for _, t := range tr[0] {
		mentions(t, func(x *Term) bool {
			if _, ok := funDecls[x.op]; ok {
				syms = append(syms, x.op)
			}
			return false
		})
	}
	addAxiom("lemma$"+c.name, "lemma", Forall(vars, body, tr...), syms...)
	axioms[len(axioms)-1].lemma = c.lemmaPos
}

// verifyClient runs code written in a contract file.
func (ex *Exec) verifyClient(c *Contract) {
	st := ex.initState()
	sig := c.sig
	nf := ex.newFrame(nil, nil, c.name, sig, c.pkg)
	ex.top = nf
	cf := &Frame{id: -100, fn: "client", bind: map[types.Object]Value{}, pkg: c.pkg, boxed: map[types.Object]bool{}, con: c}
	ex.conFrame = cf
	ex.boxedVars(c.decl.Body, nf.boxed)
	for i, p := range allParams(sig) {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("p%d", i)
		}
		t := Const("arg$"+sanitize(n), sortOf(p.Type()))
		st.assume(wf(p.Type(), t, st.alloc))
		ex.declare(nf, st, p, t)
	}
	ex.entry = st.clone()
	ex.frames = append(ex.frames, nf)
	outs := ex.execBody(nf, c.decl.Body, st)
	for _, o := range outs {
		if o.kind == oPanic && !o.st.dead {
			ex.emit("nopanic", "", False, o.st.clone(), c.decl.Pos())
			continue
		}
		ex.covers = append(ex.covers, &VC{name: "cover", facts: o.st.facts, goal: False})
	}
}

// ---- self checks of built-in lemma axioms

// selfCheck proves the frame axioms of list views by induction.
func selfCheck() []*VC {
	var out []*VC
	for _, a := range append([]*Axiom{}, axioms...) {
		if a.kind != "lemma" || !strings.HasSuffix(a.name, ".frame") {
			continue
		}
		fn := strings.TrimSuffix(a.name, ".frame")
		d := funDecls[fn]
		arr, e := d.args[1], mustElem(d.args[1])
		A, o, n, j, v := Fresh("a", arr), Fresh("o", SInt), Fresh("n", SInt), Fresh("j", SInt), Fresh("v", e)
		z := Fresh("z", SFuel)
		t := func(x, m *Term, f *Term) *Term { return mk(fn, d.ret, f, x, o, m) }
		st := mk("store", arr, A, j, v)
		ih := Implies(Or(Lt(j, o), Ge(j, Add(o, Sub(n, Int(1))))), Eq(t(st, Sub(n, Int(1)), z), t(A, Sub(n, Int(1)), z)))
		goal := Implies(Or(Lt(j, o), Ge(j, Add(o, n))), Eq(t(st, n, fuelS(z)), t(A, n, fuelS(z))))
		out = append(out, &VC{name: "builtin/" + a.name, goal: goal, extra: []*Term{Implies(Gt(n, Int(0)), ih)}, kind: "lemma"})
	}
	return out
}

var _ = token.NoPos
