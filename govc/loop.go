package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

// loopCtx is one loop being executed.
type loopCtx struct {
	slice   *Term // what a range loop goes through
	stmt    ast.Stmt
	entry   *State
	itKey   VarKey
	visited *VarKey
	key     string
	counts  map[ast.Stmt]int
	nested  bool
}

// loopDesc says how one loop runs.
type loopDesc struct {
	stmt  ast.Stmt
	label string
	body  *ast.BlockStmt
	cond  ast.Expr
	frame *Frame
	n     *Term // number of iterations of a range loop, when known
	slice *Term // ranged slice
	elem  types.Type
	extra []VarKey
	facts func(st *State) // facts about the pseudo variables, true by construction
	enter func(st *State) (in, out *State)
	post  func(st *State) []*Outcome
}

func (ex *Exec) frameDead(id int) bool {
	if id == 0 {
		return false
	}
	for _, f := range ex.frames {
		for g := f; g != nil; g = g.parent {
			if g.id == id {
				return false
			}
		}
	}
	return true
}

func (ex *Exec) pseudo(name string, t types.Type) VarKey {
	ex.nframe++
	return VarKey{-ex.nframe - 1000, types.NewVar(token.NoPos, nil, name, t)}
}

func (ex *Exec) execFor(s *ast.ForStmt, st *State, fr *Frame, label string) []*Outcome {
	if s.Init != nil {
		outs := ex.exec(s.Init, st, fr)
		var res []*Outcome
		for _, o := range outs {
			if o.kind != oNormal {
				res = append(res, o)
				continue
			}
			c := *s
			c.Init = nil
			res = append(res, ex.execFor1(s, &c, o.st, fr, label)...)
		}
		return res
	}
	return ex.execFor1(s, s, st, fr, label)
}

func (ex *Exec) execFor1(id ast.Stmt, s *ast.ForStmt, st *State, fr *Frame, label string) []*Outcome {
	d := &loopDesc{stmt: id, label: label, body: s.Body, cond: s.Cond, frame: fr}
	d.enter = func(h *State) (*State, *State) {
		if s.Cond == nil {
			out := h.clone()
			out.dead = true
			return h, out
		}
		c := ex.evalCond(s.Cond, h, fr)
		out := h.clone()
		out.assumeBranch(Not(c))
		h.assumeBranch(c)
		return h, out
	}
	d.post = func(b *State) []*Outcome {
		if s.Post == nil {
			return one(b)
		}
		return ex.exec(s.Post, b, fr)
	}
	return ex.runLoop(d, st)
}

func (ex *Exec) execRange(s *ast.RangeStmt, st *State, fr *Frame, label string) []*Outcome {
	info := ex.prog.info
	t := info.TypeOf(s.X)
	d := &loopDesc{stmt: s, label: label, body: s.Body, frame: fr}
	setKV := func(h *State, k, v Value, kt, vt types.Type) {
		set := func(e ast.Expr, val Value, vt types.Type) {
			if e == nil {
				return
			}
			id, ok := ast.Unparen(e).(*ast.Ident)
			if ok && id.Name == "_" {
				return
			}
			if s.Tok == token.DEFINE {
				ex.declare(fr, h, info.Defs[id], val)
				return
			}
			ex.store(ex.lvalue(e, h, fr), ex.coerce(h, val, vt, info.TypeOf(e)), h)
		}
		set(s.Key, k, kt)
		set(s.Value, v, vt)
	}
	d.post = func(b *State) []*Outcome { return one(b) }
	it := ex.pseudo("it", types.Typ[types.Int])
	intT := types.Typ[types.Int]
	curIt := func(h *State) *Term { return h.vars[ex.loops[len(ex.loops)-1].itKey].(*Term) }
	_ = it
	needVal := s.Value != nil
	if id, ok := s.Value.(*ast.Ident); ok && id.Name == "_" {
		needVal = false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Array, *types.Basic:
		isStr := false
		var elem types.Type
		var n *Term
		var get func(h *State, i *Term) Value
		switch u := u.(type) {
		case *types.Slice:
			v := ex.toTerm(st, ex.eval(s.X, st, fr))
			st.assume(wf(t, v, st.alloc))
			elem = u.Elem()
			n = SLen(v)
			d.slice, d.elem = v, elem
			get = func(h *State, i *Term) Value {
				return ex.seen(h, elem, ex.seeFunc(Select(Select(ex.heap(h, elem), SBase(v)), Add(SOff(v), i))))
			}
		case *types.Array:
			v := ex.toTerm(st, ex.eval(s.X, st, fr))
			elem = u.Elem()
			n = Int(u.Len())
			get = func(h *State, i *Term) Value { return ex.seen(h, elem, ex.seeFunc(Select(v, i))) }
		case *types.Basic:
			v := ex.toTerm(st, ex.eval(s.X, st, fr))
			if v.sort == SStr {
				isStr = true
				elem = types.Typ[types.Rune]
				n = StrLen(v)
				get = func(h *State, i *Term) Value { return UF("str.rune", SInt, v, i) }
			} else {
				n = v
				elem = intT
			}
		}
		if isStr {
			// byte positions advance by the width of the rune
			pos := ex.pseudo("pos", intT)
			st.vars[pos] = Int(0)
			d.extra = append(d.extra, pos)
			d.facts = func(h *State) {
				p := h.vars[pos].(*Term)
				h.assume(And(Ge(p, Int(0)), Le(p, n)))
			}
			d.enter = func(h *State) (*State, *State) {
				p := h.vars[pos].(*Term)
				out := h.clone()
				out.assumeBranch(Ge(p, n))
				h.assumeBranch(Lt(p, n))
				if !h.dead {
					var v Value
					if needVal {
						v = get(h, p)
					}
					setKV(h, p, v, intT, elem)
					w := Fresh("width", SInt)
					h.assume(And(Ge(w, Int(1)), Le(w, Int(4)), Le(Add(p, w), n)))
					h.vars[pos] = Add(p, w)
				}
				return h, out
			}
			return ex.runLoop(d, st)
		}
		d.n = n
		d.enter = func(h *State) (*State, *State) {
			i := curIt(h)
			out := h.clone()
			out.assumeBranch(Ge(i, n))
			h.assumeBranch(Lt(i, n))
			if !h.dead {
				var v Value
				if needVal {
					v = get(h, i)
				}
				setKV(h, i, v, intT, elem)
			}
			return h, out
		}
		return ex.runLoop(d, st)
	case *types.Map:
		m := ex.toTerm(st, ex.eval(s.X, st, fr))
		ks := sortOf(u.Key())
		vis := ex.pseudo("visited", types.NewMap(u.Key(), types.Typ[types.Bool]))
		st.vars[vis] = ConstArray(SArray(ks, SBool), False)
		d.extra = append(d.extra, vis)
		_, _, dom0, _ := ex.mapHeaps(st, u)
		dom0 = Select(dom0, m)
		d.enter = func(h *State) (*State, *State) {
			v := h.vars[vis].(*Term)
			_, _, dn, vv := ex.mapHeaps(h, u)
			out := h.clone()
			k := BoundVar("k", ks)
			sv := mk("select", SBool, v, k)
			s0 := Select(dom0, k)
			s1 := Select(Select(dn, m), k)
			out.assumeBranch(Or(Eq(m, Int(0)), Forall([]*Term{k}, Implies(And(s0, s1), sv), []*Term{sv})))
			key := Fresh("key", ks)
			h.assume(wf(u.Key(), key, h.alloc))
			h.assumeBranch(And(Neq(m, Int(0)), Select(Select(dn, m), key), Not(Select(v, key))))
			if !h.dead {
				val := Select(Select(vv, m), key)
				var vval Value
				if needVal {
					vval = ex.seen(h, u.Elem(), ex.seeFunc(val))
				}
				setKV(h, key, vval, u.Key(), u.Elem())
				h.vars[vis] = Store(v, key, True)
			}
			return h, out
		}
		return ex.runLoopV(d, st, &vis)
	}
	panic(unsupported("range over %s", t))
}

type cand struct {
	label string
	f     func(st *State, it *Term) *Term
	side  func(st *State, it *Term) *Term
}

func (ex *Exec) runLoop(d *loopDesc, st *State) []*Outcome { return ex.runLoopV(d, st, nil) }

func (ex *Exec) runLoopV(d *loopDesc, st *State, vis *VarKey) []*Outcome {
	intT := types.Typ[types.Int]
	lc := &loopCtx{stmt: d.stmt, slice: d.slice, itKey: ex.pseudo("it", intT), visited: vis, counts: map[ast.Stmt]int{}}
	if len(ex.loops) > 0 {
		o := ex.loops[len(ex.loops)-1]
		o.counts[d.stmt]++
		o.nested = true
		lc.key = fmt.Sprintf("%s/%d.%d", o.key, d.stmt.Pos(), o.counts[d.stmt])
	} else {
		ex.loopSeq[d.stmt]++
		lc.key = fmt.Sprintf("%d.%d", d.stmt.Pos(), ex.loopSeq[d.stmt])
	}
	st.vars[lc.itKey] = Int(0)
	if d.cond != nil && ex.dry == 0 && ex.plainCond(d.cond) {
		// what the condition reads on entry is well formed
		ex.evalCond(d.cond, st, d.frame)
	}
	entry := st.clone()
	lc.entry = entry
	ex.loops = append(ex.loops, lc)
	defer func() { ex.loops = ex.loops[:len(ex.loops)-1] }()
	ex.loopDepth++
	defer func() { ex.loopDepth-- }()

	// (A) what the loop changes
	mv := map[VarKey]bool{lc.itKey: true}
	for _, k := range d.extra {
		mv[k] = true
	}
	mh := map[string]bool{}
	malloc := false
	ex.quiet++
	ex.dry++
	for round := 0; ; round++ {
		if round > 20 {
			panic(unsupported("loop analysis does not settle"))
		}
		h := ex.loopHead(d, lc, entry, mv, mh, malloc)
		_, backs, _ := ex.iterate(d, lc, h.clone())
		ch := false
		for _, b := range backs {
			for k, v := range b.vars {
				hv, ok := h.vars[k]
				if !ok || sameValue(hv, v) || mv[k] {
					continue
				}
				if _, isT := ex.tryTermQuiet(hv); !isT {
					panic(unsupported("loop changes the function variable %s", k.obj.Name()))
				}
				mv[k] = true
				ch = true
			}
			for n, v := range b.heaps {
				hv, ok := h.heaps[n]
				if !ok {
					hv = Const(n+"@0", v.sort)
				}
				if hv != v && !mh[n] {
					mh[n] = true
					ch = true
				}
			}
			if b.alloc != h.alloc && !malloc {
				malloc = true
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	ex.quiet--
	ex.dry--

	if ex.dry > 0 {
		h := ex.loopHead(d, lc, entry, mv, mh, malloc)
		exits, _, outs := ex.iterate(d, lc, h)
		for _, e := range exits {
			outs = append(outs, &Outcome{kind: oNormal, st: e})
		}
		return outs
	}

	// (B) head state and candidates
	head := ex.loopHead(d, lc, entry, mv, mh, malloc)
	itT := head.vars[lc.itKey].(*Term)
	cands := ex.candidates(d, lc, entry, head, mv, mh)
	prev, known := ex.loopMemo[lc.key]
	if known {
		keep := map[string]bool{}
		for _, l := range prev {
			keep[l] = true
		}
		var cs []*cand
		for _, c := range cands {
			if keep[c.label] {
				cs = append(cs, c)
			}
		}
		cands = cs
	}
	eval := func(c *cand, s *State, it *Term) (t *Term) {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupportedErr); ok {
					if os.Getenv("GOVC_TRACE") != "" {
						fmt.Fprintln(os.Stderr, "candidate", c.label, u.msg)
					}
					t = nil
					return
				}
				panic(r)
			}
		}()
		return c.f(s, it)
	}
	type ct struct {
		c    *cand
		head *Term
	}
	ex.quiet++
	// initiation
	var live []*ct
	{
		var qs []*Query
		var cs []*ct
		for _, c := range cands {
			ti := eval(c, entry.clone(), Int(0))
			hs := head.clone()
			th := eval(c, hs, itT)
			if ti == nil || th == nil || th == True {
				continue
			}
			cs = append(cs, &ct{c, th})
			qs = append(qs, ex.query(entry.facts, ti))
		}
		ex.candsTried += len(qs)
		ok := solveAll(qs)
		for i := range cs {
			if ok[i] {
				live = append(live, cs[i])
			} else if os.Getenv("GOVC_TRACE") != "" {
				fmt.Fprintln(os.Stderr, lc.key, "init fails:", cs[i].c.label)
			}
		}
	}
	// survive candidate: needs one run without invariants
	for _, sc := range ex.surviveCand(d, lc, entry, head, mv, mh, live2cands(live, func(x *ct) string { return x.c.label })) {
		if known && !contains2(prev, sc.label) {
			continue
		}
		if th := eval(sc, head.clone(), itT); th != nil && th != True {
			live = append(live, &ct{sc, th})
		}
	}
	// consecution
	marker := Const(freshName("HMARK"), SBool)
	setMarker := func() {
		var ts []*Term
		for _, x := range live {
			ts = append(ts, x.head)
		}
		ex.markers[marker] = ts
	}
	var backs []*State
	run := func() {
		setMarker()
		h := head.clone()
		h.facts = &Fact{h.facts, marker, factDepth(h.facts) + 1, false}
		_, backs, _ = ex.iterate(d, lc, h)
		backs = ex.mergeAll(backs)
	}
	if len(live) > 0 {
		run()
		for round := 0; len(live) > 0; round++ {
			setMarker()
			var qs []*Query
			var who []int
			for i, x := range live {
				for _, b := range backs {
					t := eval(x.c, b.clone(), b.vars[lc.itKey].(*Term))
					if t == nil {
						t = False
					}
					q := ex.query(b.facts, t)
					q.hard = strings.Contains(x.c.label, ".cand")
					qs = append(qs, q)
					who = append(who, i)
				}
			}
			ok := solveAll(qs)
			bad := map[int]bool{}
			for i := range qs {
				if !ok[i] {
					bad[who[i]] = true
				}
			}
			if len(bad) == 0 {
				break
			}
			var nl []*ct
			for i, x := range live {
				if x.c.label == os.Getenv("GOVC_DUMPCAND") {
					for j := range qs {
						if who[j] == i {
							os.WriteFile(fmt.Sprintf("/tmp/cand%d-%d-%v.smt2", ex.prog.fset.Position(d.stmt.Pos()).Line, j, ok[j]), []byte(qs[j].Script(false)), 0644)
						}
					}
				}
				if !bad[i] {
					nl = append(nl, x)
				} else if os.Getenv("GOVC_TRACE") != "" {
					fmt.Fprintln(os.Stderr, lc.key, "not preserved:", x.c.label)
				}
			}
			live = nl
			if lc.nested && len(live) > 0 {
				run()
			}
		}
	}
	ex.quiet--
	delete(ex.markers, marker)
	var labels []string
	for _, x := range live {
		labels = append(labels, x.c.label)
	}
	ex.loopMemo[lc.key] = labels
	if os.Getenv("GOVC_TRACE") != "" {
		fmt.Fprintln(os.Stderr, ex.target, "loop", ex.prog.fset.Position(d.stmt.Pos()), lc.key, "quiet", ex.quiet, "invariants:", labels)
	}
	// (E) the real run
	if ex.quiet == 0 {
		for _, x := range live {
			t := eval(x.c, entry.clone(), Int(0))
			ex.emit("inv.init", x.c.label, t, entry.clone(), d.stmt.Pos())
		}
		ex.candsUsed += len(live)
	}
	for _, x := range live {
		head.assume(x.head)
	}
	exits, backs2, outs := ex.iterate(d, lc, head)
	if ex.quiet == 0 {
		for _, b := range ex.mergeAll(backs2) {
			for _, x := range live {
				t := eval(x.c, b.clone(), b.vars[lc.itKey].(*Term))
				if t == nil {
					t = False
				}
				ex.emit("inv.pres", x.c.label, t, b.clone(), d.stmt.Pos())
			}
		}
	}
	for _, e := range exits {
		outs = append(outs, &Outcome{kind: oNormal, st: e})
	}
	return outs
}

func live2cands[T any](l []T, f func(T) string) map[string]bool {
	m := map[string]bool{}
	for _, x := range l {
		m[f(x)] = true
	}
	return m
}

func contains2(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (ex *Exec) tryTermQuiet(v Value) (*Term, bool) {
	t, ok := v.(*Term)
	return t, ok
}

// loopHead makes the state at the head of an arbitrary iteration.
func (ex *Exec) loopHead(d *loopDesc, lc *loopCtx, entry *State, mv map[VarKey]bool, mh map[string]bool, malloc bool) *State {
	h := entry.clone()
	if malloc {
		a := Fresh("alloc", SInt)
		h.assume(Ge(a, entry.alloc))
		h.alloc = a
	}
	var keys []VarKey
	for k := range mv {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].frame != keys[j].frame {
			return keys[i].frame < keys[j].frame
		}
		if keys[i].obj.Pos() != keys[j].obj.Pos() {
			return keys[i].obj.Pos() < keys[j].obj.Pos()
		}
		return keys[i].obj.Name() < keys[j].obj.Name()
	})
	for _, k := range keys {
		old, ok := h.vars[k]
		if !ok {
			continue
		}
		t := old.(*Term)
		f := Fresh(k.obj.Name(), t.sort)
		h.vars[k] = f
		if k.frame < -1000 {
			continue
		}
		if ex.keyBoxed(k) {
			h.vars[k] = old // the box itself never moves
			continue
		}
		h.assume(wf(k.obj.Type(), f, h.alloc))
	}
	var hs []string
	for n := range mh {
		hs = append(hs, n)
	}
	sort.Strings(hs)
	for _, n := range hs {
		h.heaps[n] = Fresh(n, ex.heapSorts[n])
	}
	it := h.vars[lc.itKey].(*Term)
	h.assume(Ge(it, Int(0)))
	if d.n != nil {
		h.assume(Le(it, Ite(Ge(d.n, Int(0)), d.n, Int(0))))
	}
	if d.facts != nil {
		d.facts(h)
	}
	return h
}

func (ex *Exec) keyBoxed(k VarKey) bool {
	for _, f := range ex.frames {
		for g := f; g != nil; g = g.parent {
			if g.id == k.frame && g.boxed[k.obj] {
				return true
			}
		}
	}
	return false
}

// iterate runs the loop body once from head.
func (ex *Exec) iterate(d *loopDesc, lc *loopCtx, head *State) (exits, backs []*State, outs []*Outcome) {
	lc.counts = map[ast.Stmt]int{}
	in, out := d.enter(head)
	if !out.dead {
		exits = append(exits, out)
	}
	if in.dead {
		return
	}
	for _, o := range ex.exec(d.body, in, d.frame) {
		switch {
		case o.kind == oNormal, o.kind == oContinue && (o.label == "" || o.label == d.label && d.label != ""):
			for _, p := range d.post(o.st) {
				if p.kind != oNormal {
					outs = append(outs, p)
					continue
				}
				p.st.vars[lc.itKey] = Add(p.st.vars[lc.itKey].(*Term), Int(1))
				backs = append(backs, p.st)
			}
		case o.kind == oBreak && (o.label == "" || o.label == d.label && d.label != ""):
			exits = append(exits, o.st)
		default:
			outs = append(outs, o)
		}
	}
	return
}

// ---- queries

func (ex *Exec) expandFacts(f *Fact) []*Term {
	var out []*Term
	for ; f != nil; f = f.prev {
		out = append(out, f.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	if len(ex.markers) == 0 {
		return out
	}
	var res []*Term
	for _, t := range out {
		if m, ok := ex.markers[t]; ok {
			res = append(res, m...)
			continue
		}
		res = append(res, t)
	}
	return res
}

func (ex *Exec) query(f *Fact, goal *Term) *Query {
	return &Query{facts: ex.expandFacts(f), goal: goal, maxLemma: ex.maxLemma}
}

// solveAll decides many small queries with the quick solver.
func solveAll(qs []*Query) []bool {
	ok := solveEach(qs, quickBackends())
	// A conjunction below a quantifier hides its terms from the solver's
	// matching when it is refuted: try the parts.
	var parts []*Query
	var of []int
	for i, q := range qs {
		if ok[i] || q.goal == False || q.goal.vars == nil {
			continue
		}
		gs := splitGoal(q.goal)
		if len(gs) < 2 || len(gs) > 8 {
			continue
		}
		for _, g := range gs {
			parts = append(parts, &Query{facts: q.facts, goal: g, maxLemma: q.maxLemma})
			of = append(of, i)
		}
	}
	if len(parts) > 0 {
		failed := map[int]bool{}
		for j, r := range solveEach(parts, quickBackends()) {
			if !r {
				failed[of[j]] = true
			}
		}
		for _, i := range of {
			ok[i] = !failed[i]
		}
	}
	var hard []*Query
	of = nil
	for i, q := range qs {
		if !ok[i] && q.hard {
			hard = append(hard, q)
			of = append(of, i)
		}
	}
	for j, r := range solveEach(hard, hardBackends()) {
		ok[of[j]] = r
	}
	return ok
}

// splitGoal gives formulas that together are equivalent to g.
func splitGoal(g *Term) []*Term {
	switch {
	case g.vars != nil && g.op == "forall":
		var r []*Term
		for _, x := range splitGoal(g.args[0]) {
			r = append(r, Forall(g.vars, x, g.trigs...))
		}
		return r
	case g.op == "and":
		var r []*Term
		for _, x := range g.args {
			r = append(r, splitGoal(x)...)
		}
		return r
	case g.op == "=>" && len(g.args) == 2:
		var r []*Term
		for _, x := range splitGoal(g.args[1]) {
			r = append(r, Implies(g.args[0], x))
		}
		return r
	}
	return []*Term{g}
}

func solveEach(qs []*Query, bes []backend) []bool {
	ok := make([]bool, len(qs))
	scripts := make([][2]string, len(qs))
	for i, q := range qs {
		if q.trivial() {
			ok[i] = true
			continue
		}
		if q.goal == False {
			continue
		}
		scripts[i] = q.Scripts()
	}
	parallel(len(qs), func(i int) {
		if scripts[i][0] == "" {
			return
		}
		r := solveScripts(scripts[i], bes)
		if r.verdict == "error" {
			fmt.Fprintln(os.Stderr, "solver error:", clip(r.out, 400))
			dumpScript(scripts[i][0])
		}
		ok[i] = r.verdict == "unsat"
		if ok[i] && r.dur.Seconds() > 0.5 && os.Getenv("GOVC_SLOW") != "" {
			fmt.Fprintln(os.Stderr, "slow candidate:", r.backend, r.dur)
		}
	})
	return ok
}

func dumpScript(s string) {
	if d := os.Getenv("GOVC_DUMP"); d != "" {
		os.WriteFile(d, []byte(s), 0644)
	}
}

// ---- candidate invariants

type hole struct {
	label string
	typ   types.Type
	get   func(st *State) (*Term, bool)
	v     *Term
}

// visible lists the places a candidate may mention: variables of the frames
// on the stack and, one or two levels down, their fields.
func (ex *Exec) visible(st *State) []*hole {
	var out []*hole
	seen := map[VarKey]bool{}
	var frames []*Frame
	for i := len(ex.frames) - 1; i >= 0; i-- {
		for f := ex.frames[i]; f != nil; f = f.parent {
			frames = append(frames, f)
		}
	}
	for fi, f := range frames {
		var ks []VarKey
		for k := range st.vars {
			if k.frame == f.id && !seen[k] {
				seen[k] = true
				ks = append(ks, k)
			}
		}
		sort.Slice(ks, func(i, j int) bool {
			if ks[i].obj.Pos() != ks[j].obj.Pos() {
				return ks[i].obj.Pos() < ks[j].obj.Pos()
			}
			return ks[i].obj.Name() < ks[j].obj.Name()
		})
		for _, k := range ks {
			k := k
			f := f
			if k.obj.Name() == "" || k.obj.Name() == "_" {
				continue
			}
			get := func(s *State) (*Term, bool) {
				v, ok := s.vars[k]
				if !ok {
					return nil, false
				}
				t, ok := v.(*Term)
				if !ok {
					return nil, false
				}
				if f.boxed[k.obj] {
					v = ex.load(&LV{kind: lvHeap, ref: t, typ: k.obj.Type()}, s)
					t, ok = v.(*Term)
				}
				return t, ok
			}
			v, ok := get(st)
			if !ok {
				continue
			}
			lbl := k.obj.Name()
			if fi > 0 {
				lbl = fmt.Sprintf("%s^%d", lbl, fi)
			}
			out = append(out, &hole{lbl, k.obj.Type(), get, v})
			ex.addFields(&out, lbl, k.obj.Type(), get, st, 0)
		}
	}
	return out
}

func (ex *Exec) addFields(out *[]*hole, lbl string, t types.Type, get func(*State) (*Term, bool), st *State, depth int) {
	if depth >= 2 {
		return
	}
	isPtr := false
	t0 := t
	if p, ok := t.Underlying().(*types.Pointer); ok {
		isPtr = true
		t = p.Elem()
	}
	d := structDT(t)
	if d == nil {
		return
	}
	s := t.Underlying().(*types.Struct)
	_ = t0
	for i := 0; i < s.NumFields(); i++ {
		i := i
		ft := s.Field(i).Type()
		g := func(s *State) (*Term, bool) {
			v, ok := get(s)
			if !ok {
				return nil, false
			}
			if isPtr {
				h := ex.heap(s, t)
				v = Select(Select(h, RefBase(v)), RefIdx(v))
			}
			return Sel(d, i, v), true
		}
		v, ok := g(st)
		if !ok {
			continue
		}
		l := lbl + "." + s.Field(i).Name()
		*out = append(*out, &hole{l, ft, g, v})
		ex.addFields(out, l, ft, g, st, depth+1)
	}
}

func (ex *Exec) candidates(d *loopDesc, lc *loopCtx, entry, head *State, mv map[VarKey]bool, mh map[string]bool) []*cand {
	var out []*cand
	add := func(label string, f func(st *State, it *Term) *Term) {
		out = append(out, &cand{label: label, f: f})
	}
	vis := ex.visible(entry)
	// modified variables and fields
	for _, h := range vis {
		h := h
		v0, ok0 := h.get(entry)
		v1, ok1 := h.get(head)
		if !ok0 || !ok1 || v0 == v1 {
			continue
		}
		cur := func(s *State) *Term {
			v, ok := h.get(s)
			if !ok {
				panic(unsupported("variable gone"))
			}
			return v
		}
		switch v0.sort {
		case SInt:
			if _, isMap := h.typ.Underlying().(*types.Map); isMap {
				add("same:"+h.label, func(s *State, it *Term) *Term { return Eq(cur(s), v0) })
				add("newmap:"+h.label, func(s *State, it *Term) *Term { return Or(Eq(cur(s), v0), Ge(cur(s), entry.alloc)) })
				continue
			}
			add("lin+:"+h.label, func(s *State, it *Term) *Term { return Eq(cur(s), Add(v0, it)) })
			add("lin-:"+h.label, func(s *State, it *Term) *Term { return Eq(cur(s), Sub(v0, it)) })
			add("ge:"+h.label, func(s *State, it *Term) *Term { return Ge(cur(s), v0) })
			add("le:"+h.label, func(s *State, it *Term) *Term { return Le(cur(s), v0) })
			add("le+:"+h.label, func(s *State, it *Term) *Term { return Le(cur(s), Add(v0, it)) })
			add("same:"+h.label, func(s *State, it *Term) *Term { return Eq(cur(s), v0) })
		case SSlice:
			add("same:"+h.label, func(s *State, it *Term) *Term { return Eq(cur(s), v0) })
			add("len+:"+h.label, func(s *State, it *Term) *Term { return Eq(SLen(cur(s)), Add(SLen(v0), it)) })
			add("lenle:"+h.label, func(s *State, it *Term) *Term { return Le(SLen(cur(s)), Add(SLen(v0), it)) })
			add("lenge:"+h.label, func(s *State, it *Term) *Term { return Ge(SLen(cur(s)), SLen(v0)) })
			add("off:"+h.label, func(s *State, it *Term) *Term { return Eq(SOff(cur(s)), SOff(v0)) })
			add("base:"+h.label, func(s *State, it *Term) *Term {
				return Or(Eq(SBase(cur(s)), SBase(v0)), Ge(SBase(cur(s)), entry.alloc), Eq(SCap(cur(s)), Int(0)))
			})
			add("place:"+h.label, func(s *State, it *Term) *Term {
				return Or(And(Eq(SBase(cur(s)), SBase(v0)), Eq(SOff(cur(s)), SOff(v0)), Eq(SCap(cur(s)), SCap(v0))), Ge(SBase(cur(s)), entry.alloc), Eq(SCap(cur(s)), Int(0)))
			})
			add("fresh:"+h.label, func(s *State, it *Term) *Term {
				return Or(Eq(SCap(cur(s)), Int(0)), Ge(SBase(cur(s)), ex.entry.alloc))
			})
			add("wf:"+h.label, func(s *State, it *Term) *Term { return wf(h.typ, cur(s), s.alloc) })
		default:
			add("same:"+h.label, func(s *State, it *Term) *Term { return Eq(cur(s), v0) })
		}
	}
	// the loop condition, weakened by one step
	if d.cond != nil {
		for i, c := range conjuncts(d.cond) {
			b, ok := ast.Unparen(c).(*ast.BinaryExpr)
			if !ok {
				continue
			}
			var off int64
			var op token.Token
			switch b.Op {
			case token.LSS:
				op = token.LEQ
			case token.GTR:
				op = token.GEQ
			case token.LEQ:
				op, off = token.LEQ, 1
			case token.GEQ:
				op, off = token.GEQ, -1
			case token.NEQ:
				op = token.LEQ
			default:
				continue
			}
			t := ex.prog.info.TypeOf(b.X)
			if t == nil || sortOf(t) != SInt {
				continue
			}
			add(fmt.Sprintf("cond%d", i), func(s *State, it *Term) *Term {
				var r *Term
				ex.withSpec(nil, func() {
					x := ex.toTerm(s, ex.eval(b.X, s, d.frame))
					y := ex.toTerm(s, ex.eval(b.Y, s, d.frame))
					if op == token.LEQ {
						r = Le(x, Add(y, Int(off)))
					} else {
						r = Ge(x, Add(y, Int(off)))
					}
				})
				return r
			})
		}
	}
	// memory that does not change
	var hs []string
	for n := range mh {
		hs = append(hs, n)
	}
	sort.Strings(hs)
	for _, n := range hs {
		n := n
		h0 := ex.heapNamed(entry, n, ex.heapSorts[n])
		var bases []*Term
		var bl []string
		var ptrs []*Term
		var pl []string
		addB := func(b *Term, l string) {
			if b == Int(0) || b.op == "q" {
				return
			}
			if !contains(bases, b) && len(bases) < 6 {
				bases = append(bases, b)
				bl = append(bl, l)
			}
		}
		type sl struct {
			v *Term
			l string
		}
		var slices []sl
		for _, h := range vis {
			v, ok := h.get(entry)
			if !ok {
				continue
			}
			switch u := h.typ.Underlying().(type) {
			case *types.Pointer:
				if heapName(u.Elem()) == n {
					addB(RefBase(v), h.label)
					if v.op != "q" && len(ptrs) < 6 && !contains(ptrs, v) {
						ptrs = append(ptrs, v)
						pl = append(pl, h.label)
					}
				}
			case *types.Slice:
				if heapName(u.Elem()) == n {
					addB(SBase(v), h.label)
					slices = append(slices, sl{v, h.label})
				}
			case *types.Map:
				dn, vn, _, _ := mapNames(u)
				if dn == n || vn == n {
					addB(v, h.label)
				}
			}
		}
		frame := func(limit *Term, excl []*Term) func(s *State, it *Term) *Term {
			return func(s *State, it *Term) *Term {
				h1 := ex.heapNamed(s, n, h0.sort)
				b := BoundVar("b", SInt)
				c := And(Gt(b, Int(0)), Lt(b, limit))
				for _, x := range excl {
					c = And(c, Neq(b, x))
				}
				s1 := mk("select", mustElem(h0.sort), h1, b)
				return Forall([]*Term{b}, Implies(c, Eq(s1, mk("select", s1.sort, h0, b))), []*Term{s1})
			}
		}
		add("frame:"+n, frame(entry.alloc, nil))
		if c := ex.con; c != nil && c.target != nil && len(c.modifies) > 0 && ex.entry != nil && ex.conFrame != nil {
			// what the contract allows
			add("frameC:"+n, func(s *State, it *Term) *Term {
				if g := ex.frameGoals(c, ex.conFrame, ex.entry, s)[n]; g != nil {
					return g
				}
				return True
			})
		}
		if ex.entry != nil && ex.entry.alloc != entry.alloc {
			add("frameE:"+n, frame(ex.entry.alloc, nil))
		}
		for i, b := range bases {
			add("frame-"+bl[i]+":"+n, frame(entry.alloc, []*Term{b}))
			if ex.entry != nil && ex.entry.alloc != entry.alloc {
				add("frameE-"+bl[i]+":"+n, frame(ex.entry.alloc, []*Term{b}))
			}
		}
		if len(bases) > 1 {
			add("frame-*:"+n, frame(entry.alloc, bases))
		}
		for i, p := range ptrs {
			p := p
			add("around:"+pl[i]+":"+n, func(s *State, it *Term) *Term {
				h1 := ex.heapNamed(s, n, h0.sort)
				i := BoundVar("i", SInt)
				a1, a0 := Select(h1, RefBase(p)), Select(h0, RefBase(p))
				s1 := mk("select", mustElem(a1.sort), a1, i)
				return Forall([]*Term{i}, Implies(Neq(i, RefIdx(p)), Eq(s1, mk("select", s1.sort, a0, i))), []*Term{s1})
			})
		}
		for _, x := range slices {
			x := x
			add("elems:"+x.l, func(s *State, it *Term) *Term {
				h1 := ex.heapNamed(s, n, h0.sort)
				i := BoundVar("i", SInt)
				a1, a0 := Select(h1, SBase(x.v)), Select(h0, SBase(x.v))
				s1 := mk("select", mustElem(a1.sort), a1, i)
				return Forall([]*Term{i}, Implies(And(Ge(i, SOff(x.v)), Lt(i, Add(SOff(x.v), SLen(x.v)))), Eq(s1, mk("select", s1.sort, a0, i))), []*Term{s1})
			})
			add("beyond:"+x.l, func(s *State, it *Term) *Term {
				h1 := ex.heapNamed(s, n, h0.sort)
				i := BoundVar("i", SInt)
				a1, a0 := Select(h1, SBase(x.v)), Select(h0, SBase(x.v))
				s1 := mk("select", mustElem(a1.sort), a1, i)
				return Forall([]*Term{i}, Implies(Or(Lt(i, SOff(x.v)), Ge(i, Add(SOff(x.v), SCap(x.v)))), Eq(s1, mk("select", s1.sort, a0, i))), []*Term{s1})
			})
			add("outside:"+x.l, func(s *State, it *Term) *Term {
				h1 := ex.heapNamed(s, n, h0.sort)
				i := BoundVar("i", SInt)
				a1, a0 := Select(h1, SBase(x.v)), Select(h0, SBase(x.v))
				s1 := mk("select", mustElem(a1.sort), a1, i)
				return Forall([]*Term{i}, Implies(Or(Lt(i, SOff(x.v)), Ge(i, Add(SOff(x.v), SLen(x.v)))), Eq(s1, mk("select", s1.sort, a0, i))), []*Term{s1})
			})
		}
		if d.slice != nil && heapName(d.elem) == n {
			add("rest:"+n, func(s *State, it *Term) *Term {
				h1 := ex.heapNamed(s, n, h0.sort)
				i := BoundVar("i", SInt)
				a1, a0 := Select(h1, SBase(d.slice)), Select(h0, SBase(d.slice))
				s1 := mk("select", mustElem(a1.sort), a1, i)
				return Forall([]*Term{i}, Implies(Ge(i, Add(SOff(d.slice), it)), Eq(s1, mk("select", s1.sort, a0, i))), []*Term{s1})
			})
		}
	}
	// contract candidates
	var cons []*Contract
	if ex.con != nil {
		cons = append(cons, ex.con)
	}
	cons = append(cons, ex.pool...)
	hv := ex.visible(head)
	for _, c := range cons {
		if c.kind != "contract" && c.kind != "client" {
			continue
		}
		for _, k := range c.cands {
			for _, cd := range ex.instantiate(c, k, lc, hv) {
				if !ex.idle(k, lc, cd, entry, head) {
					out = append(out, cd)
				}
			}
		}
	}
	for _, lit := range ex.litStack {
		for _, k := range ex.litContract(lit.lit).cands {
			c := ex.litContract(lit.lit)
			_ = c
			out = append(out, ex.instantiateIn(lit.frame, "lit", k, lc, hv)...)
		}
	}
	return out
}

type litUse struct {
	lit   *ast.FuncLit
	frame *Frame
	old   *State
}

func conjuncts(e ast.Expr) []ast.Expr {
	if b, ok := ast.Unparen(e).(*ast.BinaryExpr); ok && b.Op == token.LAND {
		return append(conjuncts(b.X), conjuncts(b.Y)...)
	}
	return []ast.Expr{e}
}

// idle says that a candidate equates something that the loop does not change
// with something that depends on the number of iterations: it is not worth
// trying.
func (ex *Exec) idle(k *Clause, lc *loopCtx, c *cand, entry, head *State) (r bool) {
	if len(k.vars) == 0 || len(k.lit.Body.List) != 1 {
		return false
	}
	ret, ok := k.lit.Body.List[0].(*ast.ReturnStmt)
	if !ok {
		return false
	}
	eq, ok := ast.Unparen(ret.Results[0]).(*ast.BinaryExpr)
	if !ok || eq.Op != token.EQL {
		return false
	}
	iterates := false
	ast.Inspect(eq.Y, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == "iter" {
			iterates = true
		}
		return true
	})
	if !iterates || c.side == nil {
		return false
	}
	defer func() {
		if e := recover(); e != nil {
			r = false
		}
	}()
	i0 := Int(0)
	return c.side(entry, i0) == c.side(head, i0)
}

func (ex *Exec) instantiate(c *Contract, k *Clause, lc *loopCtx, vis []*hole) []*cand {
	fr := ex.conFrame
	if c != ex.con {
		return nil
	}
	return ex.instantiateIn(fr, shortOf(c.name), k, lc, vis)
}

func (ex *Exec) instantiateIn(fr *Frame, name string, k *Clause, lc *loopCtx, vis []*hole) []*cand {
	var out []*cand
	var choices [][]*hole
	for _, v := range k.vars {
		var hs []*hole
		for _, h := range vis {
			if types.Identical(h.typ, v.Type()) {
				hs = append(hs, h)
			}
		}
		choices = append(choices, hs)
	}
	old := ex.entry
	if len(ex.litStack) > 0 {
		old = ex.litStack[len(ex.litStack)-1].old
	}
	var rec func(i int, pick []*hole)
	rec = func(i int, pick []*hole) {
		if len(out) > 150 {
			return
		}
		if i == len(choices) {
			p := append([]*hole{}, pick...)
			var ls []string
			for _, h := range p {
				ls = append(ls, h.label)
			}
			eval := func(st *State, it *Term, with func(f2 *Frame) *Term) *Term {
				f2 := ex.childBind(fr)
				holeAt := map[types.Object]func(*State) (Value, bool){}
				for j, v := range k.vars {
					h := p[j]
					holeAt[v] = func(s *State) (Value, bool) {
						t, ok := h.get(s)
						return t, ok
					}
					t, ok := h.get(st)
					if !ok {
						panic(unsupported("hole has no value"))
					}
					f2.bind[v] = t
				}
				se, si, sh, sr := ex.specEntry, ex.specIter, ex.holeAt, ex.specRanged
				ex.specEntry, ex.specIter, ex.holeAt, ex.specRanged = lc.entry, it, holeAt, lc.slice
				defer func() { ex.specEntry, ex.specIter, ex.holeAt, ex.specRanged = se, si, sh, sr }()
				var r *Term
				ex.withSpec(old, func() { r = with(f2) })
				return r
			}
			cd := &cand{label: fmt.Sprintf("%s.%s(%s)", name, k.label, strings.Join(ls, ","))}
			cd.f = func(st *State, it *Term) *Term {
				return eval(st, it, func(f2 *Frame) *Term {
					return ex.specBody(k.lit.Body.List, st, f2, types.Typ[types.Bool])
				})
			}
			cd.side = func(st *State, it *Term) *Term {
				eq := ast.Unparen(k.lit.Body.List[0].(*ast.ReturnStmt).Results[0]).(*ast.BinaryExpr)
				return eval(st, it, func(f2 *Frame) *Term { return ex.toTerm(st, ex.eval(eq.X, st, f2)) })
			}
			out = append(out, cd)
			return
		}
		for _, h := range choices[i] {
			dup := false
			for _, q := range pick {
				if q == h {
					dup = true
				}
			}
			if !dup {
				rec(i+1, append(pick, h))
			}
		}
	}
	rec(0, nil)
	return out
}

// surviveCand is: every earlier iteration went round the loop without
// leaving it, expressed over values that the loop does not change.
func (ex *Exec) surviveCand(d *loopDesc, lc *loopCtx, entry, head *State, mv map[VarKey]bool, mh map[string]bool, live map[string]bool) []*cand {
	ex.dry++
	h := head.clone()
	_, backs, outs := ex.iterate(d, lc, h.clone())
	ex.dry--
	if len(outs) == 0 && d.n != nil {
		// no early exit other than break
	}
	if len(backs) == 0 || len(backs) > 8 {
		return nil
	}
	j := BoundVar("j", SInt)
	type lin struct {
		h  *hole
		v0 *Term
		v1 *Term
		up bool
	}
	var lins []lin
	sub := map[*Term]*Term{head.vars[lc.itKey].(*Term): j}
	for _, hl := range ex.visible(entry) {
		v0, ok0 := hl.get(entry)
		v1, ok1 := hl.get(head)
		if !ok0 || !ok1 || v0 == v1 || v0.sort != SInt {
			continue
		}
		if live["same:"+hl.label] {
			sub[v1] = v0
		} else if live["lin+:"+hl.label] {
			sub[v1] = Add(v0, j)
			lins = append(lins, lin{hl, v0, v1, true})
		} else if live["lin-:"+hl.label] {
			sub[v1] = Sub(v0, j)
			lins = append(lins, lin{hl, v0, v1, false})
		}
	}
	// heaps framed as a whole are replaced by their entry versions only when
	// the whole heap is unchanged
	known := map[*Term]bool{}
	markKnown := func(s *State) {
		var rec func(t *Term)
		rec = func(t *Term) {
			if known[t] {
				return
			}
			known[t] = true
			for _, a := range t.args {
				rec(a)
			}
		}
		for _, v := range s.vars {
			if t, ok := v.(*Term); ok {
				rec(t)
			}
		}
		for _, t := range s.heaps {
			rec(t)
		}
		rec(s.alloc)
		for f := s.facts; f != nil; f = f.prev {
			rec(f.t)
		}
	}
	markKnown(entry)
	closed := func(t, q *Term) bool {
		return !mentions(t, func(x *Term) bool {
			if len(x.args) > 0 || x.vars != nil {
				return false
			}
			if known[x] || x == q || x.bound || builtinOps[x.op] {
				return false
			}
			if _, ok := x.intVal(); ok {
				return false
			}
			if _, ok := litOf[x.op]; ok {
				return false
			}
			if strings.HasPrefix(x.op, "iface.nil") || strings.HasPrefix(x.op, "func.") || strings.HasPrefix(x.op, "glob$") || strings.HasSuffix(x.op, "@0") || strings.HasPrefix(x.op, "fuel") {
				return false
			}
			if _, ok := dtOfCons[x.op]; ok {
				return false
			}
			return true
		})
	}
	var res []*cand
	mkc := func(label string, itv *Term, rng func(st *State, it *Term) *Term, x *Term, self *Term) {
		sub2 := map[*Term]*Term{}
		for k, v := range sub {
			sub2[k] = subst(v, map[*Term]*Term{j: itv})
		}
		if self != nil {
			sub2[self] = x
		}
		body := False
		for _, b := range backs {
			conj := True
			for _, f := range factsSince(b.facts, head.facts) {
				if !f.branch {
					continue
				}
				t := subst(f.t, sub2)
				if !closed(t, x) {
					continue
				}
				conj = And(conj, t)
			}
			body = Or(body, conj)
		}
		if body == True || body == False || !body.bound {
			return
		}
		trig := selectTrigger(body, x)
		res = append(res, &cand{label: label, f: func(st *State, it *Term) *Term {
			var tr [][]*Term
			for _, x := range trig {
				tr = append(tr, []*Term{x})
			}
			return Forall([]*Term{x}, Implies(rng(st, it), body), tr...)
		}})
	}
	mkc("survive:it", j, func(st *State, it *Term) *Term { return And(Le(Int(0), j), Lt(j, it)) }, j, nil)
	for _, l := range lins {
		l := l
		x := BoundVar("x", SInt)
		if l.up {
			mkc("survive:"+l.h.label, Sub(x, l.v0), func(st *State, it *Term) *Term {
				v, ok := l.h.get(st)
				if !ok {
					panic(unsupported("gone"))
				}
				return And(Le(l.v0, x), Lt(x, v))
			}, x, l.v1)
		} else {
			mkc("survive:"+l.h.label, Sub(l.v0, x), func(st *State, it *Term) *Term {
				v, ok := l.h.get(st)
				if !ok {
					panic(unsupported("gone"))
				}
				return And(Lt(v, x), Le(x, l.v0))
			}, x, l.v1)
		}
	}
	return res
}

// selectTrigger finds select terms that mention j plainly.
func selectTrigger(t, j *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[1].bound && !t.args[0].bound {
			fb := freeBound(t)
			if len(fb) == 1 && fb[0] == j {
				out = append(out, t)
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	if len(out) > 2 {
		out = out[:2]
	}
	return out
}

// plainCond reports whether evaluating e calls nothing but len and cap.
func (ex *Exec) plainCond(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			b, isB := ex.prog.info.Uses[identOf(n.Fun)].(*types.Builtin)
			if !isB || b.Name() != "len" && b.Name() != "cap" {
				ok = false
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		case *ast.FuncLit:
			ok = false
		}
		return ok
	})
	return ok
}

func identOf(e ast.Expr) *ast.Ident {
	id, _ := ast.Unparen(e).(*ast.Ident)
	return id
}
