package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type FunDecl struct {
	name string
	args []Sort
	ret  Sort
}

var funDecls = map[string]*FunDecl{}

// declFun registers an uninterpreted function symbol.
func declFun(name string, ret Sort, args ...Sort) {
	if _, ok := funDecls[name]; !ok {
		funDecls[name] = &FunDecl{name, args, ret}
	}
}

// UF applies an uninterpreted function, declaring it on first use.
func UF(name string, ret Sort, args ...*Term) *Term {
	var as []Sort
	for _, a := range args {
		as = append(as, a.sort)
	}
	if d, ok := funDecls[name]; ok {
		if len(d.args) != len(as) {
			panic(unsupported("function %s: arity", name))
		}
		for i := range as {
			if d.args[i] != as[i] {
				panic(unsupported("function %s: argument %d has sort %s, want %s", name, i, as[i], d.args[i]))
			}
		}
	}
	declFun(name, ret, as...)
	return mk(name, ret, args...)
}

// An Axiom is included in a query when one of its trigger symbols occurs.
type Axiom struct {
	name  string
	syms  []string // all must occur
	t     *Term
	kind  string // "definition", "string", "box", "user"
	lemma int    // >0: position of the lemma it restates
}

var axioms []*Axiom
var axiomSeen = map[string]bool{}

func addAxiom(name, kind string, t *Term, syms ...string) {
	if axiomSeen[name] {
		return
	}
	axiomSeen[name] = true
	axioms = append(axioms, &Axiom{name: name, syms: syms, t: t, kind: kind})
}

type Query struct {
	facts    []*Term
	goal     *Term
	maxLemma int  // lemmas up to this position may be used
	hard     bool // worth more than the quick solvers
}

func (q *Query) trivial() bool {
	if q.goal == True {
		return true
	}
	for _, f := range q.facts {
		if f == False || f == q.goal {
			return true
		}
	}
	return false
}

func collectSyms(t *Term, seen map[*Term]bool, syms map[string]bool, order *[]*Term) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		collectSyms(a, seen, syms, order)
	}
	for _, tr := range t.trigs {
		for _, x := range tr {
			collectSyms(x, seen, syms, order)
		}
	}
	for _, v := range t.vars {
		seen[v] = true
		addSortSyms(v.sort, syms)
	}
	if t.vars == nil {
		if !syms[t.op] {
			syms[t.op] = true
			*order = append(*order, t)
		}
	}
}

func addSortSyms(s Sort, syms map[string]bool) {}

var builtinOps = map[string]bool{"true": true, "false": true, "and": true, "or": true, "not": true, "=>": true, "ite": true, "=": true, "select": true, "store": true, "+": true, "-": true, "*": true, "<": true, "<=": true, "div": true, "mod": true, "distinct": true, "forall": true, "exists": true, "is": true}

// Script writes the SMT-LIB script of a query.
func (q *Query) Script(shift bool) string {
	facts := append([]*Term{}, q.facts...)
	for i, f := range facts {
		facts[i] = expandQuants(f, true)
	}
	goal := expandQuants(Not(q.goal), true)
	memo := map[*Term]*Term{}
	if shift {
		for i, f := range facts {
			facts[i] = shiftQuants(f, memo)
		}
		goal = shiftQuants(goal, memo)
	}
	// fixpoint over axioms
	seen := map[*Term]bool{}
	syms := map[string]bool{}
	var order []*Term
	for _, f := range facts {
		collectSyms(f, seen, syms, &order)
	}
	collectSyms(goal, seen, syms, &order)
	var axs []*Term
	used := map[*Axiom]bool{}
	for {
		ch := false
		for _, a := range axioms {
			if used[a] || a.lemma > q.maxLemma {
				continue
			}
			ok := true
			for _, s := range a.syms {
				if !syms[s] {
					ok = false
				}
			}
			if ok {
				used[a] = true
				t := a.t
				if shift {
					t = shiftQuants(t, memo)
				}
				axs = append(axs, t)
				collectSyms(a.t, seen, syms, &order)
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	var b strings.Builder
	// sorts and datatypes
	sortSeen := map[Sort]bool{}
	var declSorts []Sort
	var dtOrder []*DT
	var visitSort func(s Sort)
	visitSort = func(s Sort) {
		if sortSeen[s] {
			return
		}
		sortSeen[s] = true
		if strings.HasPrefix(string(s), "(Array ") {
			k, v := arrayElem(s)
			visitSort(k)
			visitSort(v)
			return
		}
		switch s {
		case SBool, SInt, SReal:
			return
		}
		if d, ok := dts[s]; ok {
			for _, f := range d.fields {
				visitSort(f.sort)
			}
			for _, c := range d.more {
				for _, f := range c.fields {
					visitSort(f.sort)
				}
			}
			dtOrder = append(dtOrder, d)
			return
		}
		declSorts = append(declSorts, s)
	}
	for t := range seen {
		_ = t
	}
	// deterministic order: by id
	ts := make([]*Term, 0, len(seen))
	for t := range seen {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for _, t := range ts {
		visitSort(t.sort)
		for _, v := range t.vars {
			visitSort(v.sort)
		}
		if d, ok := funDecls[t.op]; ok {
			for _, a := range d.args {
				visitSort(a)
			}
			visitSort(d.ret)
		}
	}
	for _, s := range declSorts {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	for _, d := range dtOrder {
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) ((", d.name)
		fmt.Fprintf(&b, "(%s", d.cons)
		for _, f := range d.fields {
			fmt.Fprintf(&b, " (%s %s)", f.name, f.sort)
		}
		b.WriteString(")")
		for _, c := range d.more {
			fmt.Fprintf(&b, " (%s", c.name)
			for _, f := range c.fields {
				fmt.Fprintf(&b, " (%s %s)", f.name, f.sort)
			}
			b.WriteString(")")
		}
		b.WriteString(")))\n")
	}
	var lits []string
	for _, t := range order {
		if builtinOps[t.op] || strings.HasPrefix(t.op, "(as const") || strings.HasPrefix(t.op, "(_ is") {
			continue
		}
		if _, ok := selInfo[t.op]; ok {
			continue
		}
		if _, ok := dtOfCons[t.op]; ok {
			continue
		}
		if d, ok := funDecls[t.op]; ok {
			fmt.Fprintf(&b, "(declare-fun %s (", t.op)
			for i, a := range d.args {
				if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(string(a))
			}
			fmt.Fprintf(&b, ") %s)\n", d.ret)
			continue
		}
		if len(t.args) > 0 {
			panic("undeclared function " + t.op)
		}
		if _, ok := t.intVal(); ok {
			continue
		}
		if t.sort == SReal && t.op[0] >= '0' && t.op[0] <= '9' {
			continue
		}
		if t.bound {
			continue
		}
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", t.op, t.sort)
		if _, ok := litOf[t.op]; ok && t.sort == SStr {
			lits = append(lits, t.op)
		}
	}
	catLits := litCats(order, lits, &b)
	for _, c := range catLits {
		if c.fresh {
			lits = append(lits, c.name)
		}
	}
	if len(lits) > 1 {
		sort.Strings(lits)
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(lits, " "))
	}
	for _, c := range catLits {
		fmt.Fprintf(&b, "(assert (= (str.cat %s %s) %s))\n", c.a, c.b, c.name)
	}
	if strings.Contains(b.String(), "(declare-fun str.len_ ") {
		for _, c := range catLits {
			if c.fresh {
				fmt.Fprintf(&b, "(assert (= (str.len_ %s) %d))\n", c.name, c.size)
			}
		}
		for _, l := range lits {
			if _, ok := litOf[l]; !ok {
				continue
			}
			fmt.Fprintf(&b, "(assert (= (str.len_ %s) %d))\n", l, len(litOf[l]))
		}
	}
	pr := &printer{b: &b, defs: map[*Term]string{}, cnt: map[*Term]int{}}
	all := append(append(append([]*Term{}, axs...), facts...), goal)
	for _, t := range all {
		pr.count(t)
	}
	seenP := map[*Term]bool{}
	for _, t := range all {
		pr.patternConsts(t, seenP)
	}
	for _, t := range axs {
		pr.assert(t)
	}
	for _, t := range facts {
		pr.assert(t)
	}
	pr.assert(goal)
	b.WriteString("(check-sat)\n")
	return b.String()
}

type printer struct {
	b     *strings.Builder
	defs  map[*Term]string
	cnt   map[*Term]int
	pat   map[*Term]string // names of closed terms in patterns
	inPat bool
}

func (p *printer) count(t *Term) {
	p.cnt[t]++
	if p.cnt[t] > 1 {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
}

// patternConsts names the closed subterms of patterns that contain logical
// symbols, which may not occur in patterns.
func (p *printer) patternConsts(t *Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		p.patternConsts(a, seen)
	}
	if p.pat == nil {
		p.pat = map[*Term]string{}
	}
	var find func(x *Term)
	find = func(x *Term) {
		if x.bound {
			for _, a := range x.args {
				find(a)
			}
			return
		}
		if x.vars == nil && p.pat[x] == "" && logical(x, map[*Term]bool{}) {
			n := fmt.Sprintf("c!%d", x.id)
			p.define(x, map[*Term]bool{})
			fmt.Fprintf(p.b, "(declare-fun %s () %s)\n(assert (= %s ", n, x.sort, n)
			p.print(x)
			p.b.WriteString("))\n")
			p.pat[x] = n
		}
	}
	for _, tr := range t.trigs {
		for _, x := range tr {
			find(x)
		}
	}
}

func logical(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.op {
	case "ite", "and", "or", "not", "=>", "=", "<", "<=", ">", ">=":
		return true
	}
	for _, a := range t.args {
		if logical(a, seen) {
			return true
		}
	}
	return false
}

func (p *printer) assert(t *Term) {
	p.define(t, map[*Term]bool{})
	p.b.WriteString("(assert ")
	p.print(t)
	p.b.WriteString(")\n")
}

// define emits define-funs for shared closed subterms.
func (p *printer) define(t *Term, seen map[*Term]bool) {
	if seen[t] || p.defs[t] != "" {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		p.define(a, seen)
	}
	if !t.bound && p.cnt[t] > 1 && t.size > 6 && t.vars == nil {
		n := fmt.Sprintf("d!%d", t.id)
		fmt.Fprintf(p.b, "(define-fun %s () %s ", n, t.sort)
		p.print(t)
		p.b.WriteString(")\n")
		p.defs[t] = n
	}
}

func (p *printer) print(t *Term) {
	if p.inPat && p.pat[t] != "" {
		p.b.WriteString(p.pat[t])
		return
	}
	if n, ok := p.defs[t]; ok && n != "" {
		p.b.WriteString(n)
		return
	}
	if t.vars != nil {
		fmt.Fprintf(p.b, "(%s (", t.op)
		for i, v := range t.vars {
			if i > 0 {
				p.b.WriteByte(' ')
			}
			fmt.Fprintf(p.b, "(%s %s)", v.op, v.sort)
		}
		p.b.WriteString(") ")
		if len(t.trigs) > 0 {
			p.b.WriteString("(! ")
		}
		p.print(t.args[0])
		for _, tr := range t.trigs {
			p.b.WriteString(" :pattern (")
			for i, x := range tr {
				if i > 0 {
					p.b.WriteByte(' ')
				}
				p.inPat = true
				p.print(x)
				p.inPat = false
			}
			p.b.WriteString(")")
		}
		if len(t.trigs) > 0 {
			p.b.WriteString(")")
		}
		p.b.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		if d, ok := dtOfCons[t.op]; ok && len(d.more) > 0 && t.op == d.more[0].name {
			p.b.WriteString(t.op)
			return
		}
		p.b.WriteString(t.op)
		return
	}
	p.b.WriteByte('(')
	p.b.WriteString(t.op)
	for _, a := range t.args {
		p.b.WriteByte(' ')
		p.print(a)
	}
	p.b.WriteByte(')')
}

func (t *Term) String() string {
	var b strings.Builder
	p := &printer{b: &b, defs: map[*Term]string{}, cnt: map[*Term]int{}}
	p.print(t)
	return b.String()
}

// ---- running solvers

type Result struct {
	verdict string // unsat, sat, unknown
	backend string
	dur     time.Duration
	out     string
}

var (
	solverSem   = make(chan struct{}, 8)
	cacheMu     sync.Mutex
	resultCache = map[[32]byte]*Result{}
	nQueries    int64
	solverNanos int64
)

type backend struct {
	name  string
	cmd   []string
	opts  string
	shift bool // quantifiers over whole indices (shift.go)
	core  bool // without preprocessing tactics
}

func shifted(b backend) backend {
	b.shift = true
	b.name += "/shift"
	return b
}

const (
	z3Trig  = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"
	z3All   = z3Trig + "(set-option :smt.relevancy 0)\n"
	z3Split = z3Trig + "(set-option :smt.case_split 3)\n(set-option :smt.qi.eager_threshold 100)\n"
)

func z3b(bin, name, opts string, sec int) backend {
	return backend{name: name, cmd: []string{bin, fmt.Sprintf("-T:%d", sec), "-in"}, opts: opts}
}

// smtCore uses the solver without the default tactic, which eliminates
// variables that occur in patterns.
func smtCore(b backend) backend {
	b.core = true
	b.name += "/core"
	return b
}

func quickBackends() []backend {
	return []backend{
		smtCore(z3b("z3-new", "z3-new/ematch", z3Trig, 2)),
		z3b("z3-new", "z3-new/ematch", z3Trig, 2),
		shifted(smtCore(z3b("z3-new", "z3-new/ematch", z3Trig, 2))),
	}
}

func hardBackends() []backend {
	return []backend{
		{name: "cvc5", cmd: []string{"cvc5", "--lang=smt2", "--tlimit=4000", "-"}, opts: "(set-logic ALL)\n"},
		smtCore(z3b("z3-new", "z3-new/ematch", z3Trig, 8)),
		smtCore(z3b("z3-new", "z3-new/split", z3Split, 4)),
		z3b("z3", "z3/default", "", 4),
		z3b("z3", "z3/ematch", z3Trig, 4),
	}
}

func fullBackends(sec int) []backend {
	return []backend{
		smtCore(z3b("z3-new", "z3-new/ematch", z3Trig, 5)),
		z3b("z3-new", "z3-new/ematch", z3Trig, 5),
		shifted(smtCore(z3b("z3-new", "z3-new/ematch", z3Trig, 5))),
		smtCore(z3b("z3-new", "z3-new/split", z3Split, 5)),
		smtCore(z3b("z3-new", "z3-new/all", z3All, 5)),
		z3b("z3-new", "z3-new/split", z3Split, 5),
		z3b("z3", "z3/ematch", z3Trig, 5),
		shifted(z3b("z3", "z3/ematch", z3Trig, 5)),
		{name: "cvc5", cmd: []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d000", sec), "-"}, opts: "(set-logic ALL)\n"},
		z3b("z3", "z3/default", "", 5),
		z3b("z3-new", "z3-new/default", "", sec),
	}
}

func runOne(ctx context.Context, script string, be backend) *Result {
	h := sha256.Sum256([]byte(be.name + strings.Join(be.cmd, " ") + "\n" + script))
	cacheMu.Lock()
	if r, ok := resultCache[h]; ok {
		cacheMu.Unlock()
		return r
	}
	cacheMu.Unlock()
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return &Result{verdict: "unknown", backend: be.name}
	}
	atomic.AddInt64(&nQueries, 1)
	start := time.Now()
	parent := ctx
	ctx, cancel := context.WithTimeout(parent, 90*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, be.cmd[0], be.cmd[1:]...)
	if be.core {
		script = strings.TrimSuffix(script, "(check-sat)\n") + "(check-sat-using smt)\n"
	}
	cmd.Stdin = strings.NewReader(be.opts + script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	d := time.Since(start)
	atomic.AddInt64(&solverNanos, int64(d))
	r := &Result{verdict: "unknown", backend: be.name, dur: d, out: strings.TrimSpace(out.String())}
	for _, l := range strings.Split(r.out, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			r.verdict = "unsat"
		case "sat":
			r.verdict = "sat"
		}
	}
	if strings.Contains(r.out, "(error") {
		r.verdict = "error"
	}
	if r.verdict != "unsat" && parent.Err() != nil {
		return r // not its own answer
	}
	cacheMu.Lock()
	resultCache[h] = r
	cacheMu.Unlock()
	return r
}

// Scripts renders the query, plain and shifted.
func (q *Query) Scripts() [2]string {
	a := q.Script(false)
	b := q.Script(true)
	if a == b {
		b = ""
	}
	return [2]string{a, b}
}

func solveScripts(scripts [2]string, bes []backend) *Result {
	if d := os.Getenv("GOVC_ALLDIR"); d != "" {
		h := sha256.Sum256([]byte(scripts[0]))
		os.WriteFile(fmt.Sprintf("%s/%x.smt2", d, h[:8]), []byte(scripts[0]), 0644)
		if scripts[1] != "" {
			os.WriteFile(fmt.Sprintf("%s/%x.shift", d, h[:8]), []byte(scripts[1]), 0644)
		}
	}
	// Most queries are for the first; the others race.
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var todo []backend
	for _, be := range bes {
		if be.shift && scripts[1] == "" {
			continue
		}
		todo = append(todo, be)
	}
	run := func(be backend) *Result {
		if be.shift {
			return runOne(ctx, scripts[1], be)
		}
		return runOne(ctx, scripts[0], be)
	}
	last := run(todo[0])
	if last.verdict == "unsat" || len(todo) == 1 {
		return last
	}
	ch := make(chan *Result, len(todo))
	for _, be := range todo[1:] {
		be := be
		go func() {
			ch <- run(be)
		}()
	}
	for range todo[1:] {
		r := <-ch
		if r.verdict == "unsat" {
			return r
		}
		if r.verdict == "sat" || last.verdict == "error" {
			last = r
		}
	}
	return last
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

type litCat struct {
	a, b, name string
	size       int
	fresh      bool
}

// litCats is what the string literals of a query about strings only (no heap)
// give with the literals that are appended in it.
func litCats(order []*Term, lits []string, b *strings.Builder) []litCat {
	named := map[string]string{}
	for _, l := range lits {
		named[litOf[l]] = l
	}
	isLit := map[string]bool{}
	for _, l := range lits {
		isLit[l] = true
	}
	tails := map[string]bool{}
	for _, t := range order {
		if strings.HasPrefix(t.op, "H$") {
			return nil
		}
		if t.op == "str.cat" && len(t.args) == 2 && isLit[t.args[1].op] {
			tails[t.args[1].op] = true
		}
	}
	var r []litCat
	n := 0
	for _, x := range lits {
		for _, y := range lits {
			if !tails[y] || litOf[x] == "" || litOf[y] == "" {
				continue
			}
			c := litOf[x] + litOf[y]
			name, ok := named[c]
			if !ok {
				name = fmt.Sprintf("str!cat%d", n)
				n++
				named[c] = name
				fmt.Fprintf(b, "(declare-fun %s () %s)\n", name, SStr)
			}
			r = append(r, litCat{x, y, name, len(c), !ok})
		}
	}
	return r
}
