package main

import (
	"go/ast"
	"go/types"
	"sort"
	"strings"
)

type Value interface{}

// FuncVal is a function value the executor can see through.
type FuncVal struct {
	lit      *ast.FuncLit
	env      *Frame
	fn       *types.Func
	recv     Value // bound receiver
	recvT    types.Type
	callback *ast.FuncLit // contract of an unknown function
	cbFrame  *Frame
	term     *Term
	terms    []funcAt // when its meaning depends on the state
	sig      *types.Signature
	name     string
	contract *ast.FuncLit // contract of a known closure
	conFrame *Frame
}

// funcAt is a function's term, for states in which these are the heaps it reads.
type funcAt struct {
	reads map[string]*Term
	term  *Term
}

// PtrPath is a pointer to a local variable or to the inside of an object.
type PtrPath struct{ lv *LV }

type Tuple []Value

type Frame struct {
	id      int
	parent  *Frame // lexical (closures)
	caller  *Frame
	fn      string
	sig     *types.Signature
	boxed   map[types.Object]bool
	pkg     *Pkg
	results []*types.Var
	depth   int
	bind    map[types.Object]Value // contract-only bindings
	con     *Contract
	recFn   interface{}
}

type VarKey struct {
	frame int
	obj   types.Object
}

type Fact struct {
	prev   *Fact
	t      *Term
	depth  int
	branch bool
}

type Deferred struct {
	call *ast.CallExpr
	fv   Value
	args []Value
	sig  *types.Signature
}

type State struct {
	vars     map[VarKey]Value
	heaps    map[string]*Term
	alloc    *Term
	facts    *Fact
	dead     bool
	defers   map[int][]*Deferred
	panicVal *Term // while running deferred calls of a panicking frame
	recov    bool
}

func (s *State) clone() *State {
	n := *s
	n.vars = make(map[VarKey]Value, len(s.vars))
	for k, v := range s.vars {
		n.vars[k] = v
	}
	n.heaps = make(map[string]*Term, len(s.heaps))
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.defers = make(map[int][]*Deferred, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = v
	}
	return &n
}

func (s *State) assume(t *Term)       { s.assume1(t, false) }
func (s *State) assumeBranch(t *Term) { s.assume1(t, true) }
func (s *State) assume1(t *Term, br bool) {
	if t == True {
		return
	}
	if t.bound && len(freeBound(t)) > 0 {
		return // said of a quantified variable
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume1(a, br)
		}
		return
	}
	if t == False {
		s.dead = true
	}
	d := 0
	if s.facts != nil {
		d = s.facts.depth + 1
		n := Not(t)
		for f, i := s.facts, 0; f != nil && i < 60; f, i = f.prev, i+1 {
			if f.t == t {
				return
			}
			if f.t == n {
				s.dead = true
			}
		}
	}
	s.facts = &Fact{s.facts, t, d, br}
}

func (s *State) factList() []*Term {
	var out []*Term
	for f := s.facts; f != nil; f = f.prev {
		out = append(out, f.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func factsSince(f, anc *Fact) []*Fact {
	var out []*Fact
	for ; f != nil && f != anc; f = f.prev {
		out = append(out, f)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func factDepth(f *Fact) int {
	if f == nil {
		return -1
	}
	return f.depth
}

func commonAncestor(a, b *Fact) *Fact {
	for factDepth(a) > factDepth(b) {
		a = a.prev
	}
	for factDepth(b) > factDepth(a) {
		b = b.prev
	}
	for a != b {
		a, b = a.prev, b.prev
	}
	return a
}

func (ex *Exec) heap(st *State, t types.Type) *Term {
	return ex.heapNamed(st, heapName(t), heapSort(t))
}

func (ex *Exec) heapNamed(st *State, n string, s Sort) *Term {
	if h, ok := st.heaps[n]; ok {
		return h
	}
	if ex.onHeap != nil {
		return ex.onHeap(n, s)
	}
	h := Const(n+"@0", s)
	st.heaps[n] = h
	ex.heapSorts[n] = s
	return h
}

func (ex *Exec) setHeap(st *State, n string, h *Term) {
	st.heaps[n] = h
	ex.heapSorts[n] = h.sort
}

func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *FuncVal:
		y, ok := b.(*FuncVal)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.term != nil && x.term == y.term {
			return true
		}
		return x.lit != nil && x.lit == y.lit && x.env == y.env || x.fn != nil && x.fn == y.fn && x.recv == nil && y.recv == nil
	case *PtrPath:
		y, ok := b.(*PtrPath)
		return ok && sameLV(x.lv, y.lv)
	case Tuple:
		return false
	}
	return a == b
}

func sameLV(a, b *LV) bool {
	if a == b {
		return true
	}
	if a.kind != b.kind || a.key != b.key || a.ref != b.ref || len(a.path) != len(b.path) || a.mp != b.mp || a.mk != b.mk {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

// funcChoice is a function that a merged variable holds, and when it does.
type funcChoice struct{ guard, f *Term }

// merge joins states that fall through to the same point. ok is false when
// some variable holds function values that differ.
func (ex *Exec) merge(sts []*State) (*State, bool) {
	var live []*State
	for _, s := range sts {
		if !s.dead {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		if len(sts) == 0 {
			return nil, false
		}
		return sts[0], true
	}
	if len(live) == 1 {
		return live[0], true
	}
	sts = live
	for _, s := range sts[1:] {
		if s.panicVal != sts[0].panicVal || s.recov != sts[0].recov {
			return nil, false
		}
		for k := range unionDefers(s.defers, sts[0].defers) {
			a, b := s.defers[k], sts[0].defers[k]
			if len(a) != len(b) {
				return nil, false
			}
			for i := range a {
				if a[i] != b[i] {
					return nil, false
				}
			}
		}
	}
	anc := sts[0].facts
	for _, s := range sts[1:] {
		anc = commonAncestor(anc, s.facts)
	}
	// variables
	type diff struct {
		k  VarKey
		vs []Value
	}
	var diffs []diff
	out := sts[0].clone()
	for k, v0 := range sts[0].vars {
		same := true
		vs := []Value{v0}
		missing := false
		for _, s := range sts[1:] {
			v, ok := s.vars[k]
			if !ok {
				missing = true
				break
			}
			vs = append(vs, v)
			if !sameValue(v, v0) {
				same = false
			}
		}
		if missing {
			delete(out.vars, k)
			continue
		}
		if same {
			continue
		}
		diffs = append(diffs, diff{k, vs})
	}
	for i, d := range diffs {
		for j, v := range d.vs {
			if _, ok := v.(*Term); !ok {
				t, ok := ex.tryTerm(sts[j], v)
				if !ok {
					// a variable of a dead frame may be dropped
					if ex.frameDead(d.k.frame) {
						t = nil
					} else {
						return nil, false
					}
				}
				if t == nil {
					delete(out.vars, d.k)
					diffs[i].vs = nil
					break
				}
				d.vs[j] = t
			}
		}
	}
	guards := make([]*Term, len(sts))
	for i := range sts {
		guards[i] = Fresh("g", SBool)
	}
	out.facts = anc
	eqs := make([][]*Term, len(sts))
	sort.Slice(diffs, func(i, j int) bool {
		a, b := diffs[i].k, diffs[j].k
		if a.frame != b.frame {
			return a.frame < b.frame
		}
		if a.obj.Name() != b.obj.Name() {
			return a.obj.Name() < b.obj.Name()
		}
		return a.obj.Pos() < b.obj.Pos()
	})
	for _, d := range diffs {
		if d.vs == nil {
			continue
		}
		t0 := d.vs[0].(*Term)
		f := Fresh(d.k.obj.Name(), t0.sort)
		out.vars[d.k] = f
		for i, v := range d.vs {
			eqs[i] = append(eqs[i], Eq(f, v.(*Term)))
			if t0.sort == SFunc {
				ex.funcChoices[f] = append(ex.funcChoices[f], funcChoice{guards[i], v.(*Term)})
			}
		}
	}
	// heaps
	names := map[string]bool{}
	for _, s := range sts {
		for n := range s.heaps {
			names[n] = true
		}
	}
	var nl []string
	for n := range names {
		nl = append(nl, n)
	}
	sort.Strings(nl)
	for _, n := range nl {
		var hs []*Term
		same := true
		for _, s := range sts {
			h := ex.heapNamed(s, n, ex.heapSorts[n])
			hs = append(hs, h)
			if h != hs[0] {
				same = false
			}
		}
		if same {
			out.heaps[n] = hs[0]
			continue
		}
		f := Fresh(strings.TrimSuffix(n, "@0"), hs[0].sort)
		out.heaps[n] = f
		for i, h := range hs {
			eqs[i] = append(eqs[i], Eq(f, h))
		}
	}
	sameAlloc := true
	for _, s := range sts {
		if s.alloc != sts[0].alloc {
			sameAlloc = false
		}
	}
	if !sameAlloc {
		f := Fresh("alloc", SInt)
		out.alloc = f
		for i, s := range sts {
			eqs[i] = append(eqs[i], Eq(f, s.alloc))
		}
	}
	for i, s := range sts {
		for _, f := range factsSince(s.facts, anc) {
			out.assume(Implies(guards[i], f.t))
		}
		for _, e := range eqs[i] {
			out.assume(Implies(guards[i], e))
		}
	}
	out.assume(Or(guards...))
	return out, true
}

func unionDefers(a, b map[int][]*Deferred) map[int]bool {
	m := map[int]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return m
}
