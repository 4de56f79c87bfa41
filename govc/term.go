package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Sort is an SMT-LIB sort, written out.
type Sort string

const (
	SBool  Sort = "Bool"
	SInt   Sort = "Int"
	SReal  Sort = "Real"
	SStr   Sort = "Str"
	SRef   Sort = "Ref"
	SSlice Sort = "Slice"
	SIface Sort = "Iface"
	SFunc  Sort = "Func"
	SFuel  Sort = "Fuel"
)

func SArray(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// Term is a hash-consed SMT term.
type Term struct {
	op    string
	args  []*Term
	sort  Sort
	id    int
	bound bool    // mentions a bound variable
	vars  []*Term // binders, for quantifiers
	trigs [][]*Term
	size  int
}

type termTable struct {
	m   map[string]*Term
	n   int
	seq map[string]int
}

var tt = &termTable{m: map[string]*Term{}, seq: map[string]int{}}

func mk(op string, sort Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(' ')
	b.WriteString(string(sort))
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{op: op, args: args, sort: sort, id: tt.n, size: 1}
	tt.n++
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
		t.size += a.size
		if t.size > 1<<40 {
			t.size = 1 << 40
		}
	}
	tt.m[k] = t
	return t
}

// fresh returns a name that has not been used before.
func freshName(base string) string {
	base = sanitize(base)
	n := tt.seq[base]
	tt.seq[base] = n + 1
	return fmt.Sprintf("%s!%d", base, n)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '$', r == '!', r == '@':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("@p")
		case r == '[':
			b.WriteString("@l")
		case r == ']':
			b.WriteString("@r")
		case r == '/':
			b.WriteString(".")
		default:
			b.WriteString("_")
		}
	}
	return b.String()
}

func Fresh(base string, s Sort) *Term { return mk(freshName(base), s) }
func Const(name string, s Sort) *Term { return mk(name, s) }

// BoundVar makes a fresh bound variable.
func BoundVar(base string, s Sort) *Term {
	t := mk("q!"+freshName(base), s)
	t.bound = true
	return t
}

var (
	True  = mk("true", SBool)
	False = mk("false", SBool)
)

func Int(n int64) *Term {
	if n < 0 {
		return mk("-", SInt, mk(strconv.FormatInt(-n, 10), SInt))
	}
	return mk(strconv.FormatInt(n, 10), SInt)
}

func (t *Term) intVal() (int64, bool) {
	if t.sort != SInt {
		return 0, false
	}
	if len(t.args) == 0 && t.op[0] >= '0' && t.op[0] <= '9' {
		n, err := strconv.ParseInt(t.op, 10, 64)
		return n, err == nil
	}
	if t.op == "-" && len(t.args) == 1 {
		if n, ok := t.args[0].intVal(); ok {
			return -n, true
		}
	}
	return 0, false
}

func Not(a *Term) *Term {
	if a == True {
		return False
	}
	if a == False {
		return True
	}
	if a.op == "not" {
		return a.args[0]
	}
	return mk("not", SBool, a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == True {
			continue
		}
		if t == False {
			return False
		}
		if t.op == "and" {
			for _, x := range t.args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, t := range out {
		if seen[Not(t)] {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", SBool, out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == False {
			continue
		}
		if t == True {
			return True
		}
		if t.op == "or" {
			for _, x := range t.args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, t := range out {
		if seen[Not(t)] {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", SBool, out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mk("=>", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort != b.sort {
		panic(unsupported("ite of different sorts %s / %s", a.sort, b.sort))
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	return mk("ite", a.sort, c, a, b)
}

func isLit(t *Term) bool {
	if _, ok := t.intVal(); ok {
		return true
	}
	return t.sort == SStr && strings.HasPrefix(t.op, "str!")
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(unsupported("= of different sorts %s / %s (%s, %s)", a.sort, b.sort, a.op, b.op))
	}
	if isLit(a) && isLit(b) {
		return False
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if d := dtOfCons[a.op]; d != nil && dtOfCons[b.op] == d && a.op == b.op && len(a.args) == len(b.args) {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if d := dtOfCons[a.op]; d != nil && dtOfCons[b.op] == d && a.op != b.op {
		return False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}

func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

func Add(a, b *Term) *Term {
	x, okx := a.intVal()
	y, oky := b.intVal()
	if okx && oky {
		return Int(x + y)
	}
	if okx && x == 0 {
		return b
	}
	if oky && y == 0 {
		return a
	}
	// (a + c1) + c2
	if oky && a.op == "+" && len(a.args) == 2 {
		if z, ok := a.args[1].intVal(); ok {
			return Add(a.args[0], Int(z+y))
		}
	}
	if okx {
		return Add(b, a)
	}
	if b.op == "-" && len(b.args) == 2 && b.args[1] == a {
		return b.args[0]
	}
	// a + ((j - a) + c)
	if b.op == "+" && len(b.args) == 2 && b.args[0].op == "-" && len(b.args[0].args) == 2 && b.args[0].args[1] == a {
		return Add(b.args[0].args[0], b.args[1])
	}
	if a.op == "-" && len(a.args) == 2 && a.args[1] == b {
		return a.args[0]
	}
	return mk("+", SInt, a, b)
}

func Sub(a, b *Term) *Term {
	x, okx := a.intVal()
	y, oky := b.intVal()
	if okx && oky {
		return Int(x - y)
	}
	if oky {
		return Add(a, Int(-y))
	}
	if a == b {
		return Int(0)
	}
	if b.op == "-" && len(b.args) == 2 && b.args[0] == a {
		return b.args[1]
	}
	if a.op == "+" && len(a.args) == 2 {
		if a.args[1] == b {
			return a.args[0]
		}
		if a.args[0] == b {
			return a.args[1]
		}
	}
	return mk("-", SInt, a, b)
}

func Mul(a, b *Term) *Term {
	x, okx := a.intVal()
	y, oky := b.intVal()
	if okx && oky {
		return Int(x * y)
	}
	if okx && x == 1 {
		return b
	}
	if oky && y == 1 {
		return a
	}
	return mk("*", SInt, a, b)
}

func cmp(op string, a, b *Term) *Term {
	x, okx := a.intVal()
	y, oky := b.intVal()
	if okx && oky {
		r := false
		switch op {
		case "<":
			r = x < y
		case "<=":
			r = x <= y
		}
		if r {
			return True
		}
		return False
	}
	if a == b {
		if op == "<=" {
			return True
		}
		return False
	}
	return mk(op, SBool, a, b)
}
func Lt(a, b *Term) *Term { return cmp("<", a, b) }
func Le(a, b *Term) *Term { return cmp("<=", a, b) }
func Gt(a, b *Term) *Term { return cmp("<", b, a) }
func Ge(a, b *Term) *Term { return cmp("<=", b, a) }

func arrayElem(s Sort) (k, v Sort) {
	str := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
	depth := 0
	for i := 0; i < len(str); i++ {
		switch str[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(str[:i]), Sort(str[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

func Select(a, i *Term) *Term {
	_, v := arrayElem(a.sort)
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if distinctLit(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if strings.HasPrefix(a.op, "(as const") {
		return a.args[0]
	}
	return mk("select", v, a, i)
}

// distinctLit: syntactically different values.
func distinctLit(a, b *Term) bool {
	if isLit(a) && isLit(b) && a != b {
		return true
	}
	// x+c1 vs x+c2
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	return ba == bb && ca != cb && ba != nil
}

func splitAdd(a *Term) (*Term, int64) {
	if a.sort != SInt {
		return nil, 0
	}
	if a.op == "+" && len(a.args) == 2 {
		if c, ok := a.args[1].intVal(); ok {
			return a.args[0], c
		}
	}
	return a, 0
}

func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	_, vs := arrayElem(a.sort)
	if vs != v.sort {
		panic(unsupported("store: sort mismatch %s <- %s", a.sort, v.sort))
	}
	return mk("store", a.sort, a, i, v)
}

func ConstArray(s Sort, v *Term) *Term {
	return mk("(as const "+string(s)+")", s, v)
}

func Forall(vars []*Term, body *Term, trigs ...[]*Term) *Term {
	return quant("forall", vars, body, trigs)
}
func Exists(vars []*Term, body *Term) *Term { return quant("exists", vars, body, nil) }

func quant(op string, vars []*Term, body *Term, trigs [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	trigs = cleanTrigs(trigs)
	key := op
	for _, v := range vars {
		key += " " + v.op
	}
	for _, tr := range trigs {
		key += " :"
		for _, x := range tr {
			key += " " + strconv.Itoa(x.id)
		}
	}
	t := mk(key, SBool, body)
	if t.vars == nil {
		t.vars = vars
		t.trigs = trigs
		t.op = op
		// recompute boundness
		t.bound = hasOtherBound(body, vars)
	}
	return t
}

func hasOtherBound(body *Term, vars []*Term) bool {
	own := map[*Term]bool{}
	for _, v := range vars {
		own[v] = true
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if !t.bound || seen[t] {
			return false
		}
		seen[t] = true
		if t.vars != nil {
			// nested quantifier: its free bound variables
			for _, v := range freeBound(t) {
				if !own[v] {
					return true
				}
			}
			return false
		}
		if len(t.args) == 0 {
			return !own[t]
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(body)
}

func freeBound(t *Term) []*Term {
	res := map[*Term]bool{}
	var rec func(t *Term, own map[*Term]bool)
	rec = func(t *Term, own map[*Term]bool) {
		if !t.bound {
			return
		}
		if t.vars != nil {
			o2 := map[*Term]bool{}
			for k := range own {
				o2[k] = true
			}
			for _, v := range t.vars {
				o2[v] = true
			}
			own = o2
		} else if len(t.args) == 0 {
			if !own[t] {
				res[t] = true
			}
			return
		}
		for _, a := range t.args {
			rec(a, own)
		}
	}
	rec(t, map[*Term]bool{})
	var out []*Term
	for v := range res {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// subst replaces terms by terms.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// cleanTrigs makes patterns of terms with logical symbols in them, which may
// not occur in patterns: of a conditional, the case that is not the default.
func cleanTrigs(trigs [][]*Term) [][]*Term {
	var out [][]*Term
	for _, tr := range trigs {
		var n []*Term
		for _, t := range tr {
			p := patTerm(t)
			if !p.bound || len(p.args) == 0 {
				n = nil
				break
			}
			n = append(n, p)
		}
		if len(n) > 0 {
			out = append(out, n)
		}
	}
	return out
}

func patTerm(t *Term) *Term {
	if t.vars != nil || !t.bound {
		return t
	}
	switch t.op {
	case "ite":
		if p := patTerm(t.args[1]); p.bound {
			return p
		}
		return patTerm(t.args[2])
	case "not":
		return patTerm(t.args[0])
	case "and", "or", "=>", "=", "<=", "<", ">=", ">":
		for _, a := range t.args {
			if p := patTerm(a); p.bound && len(p.args) > 0 {
				return p
			}
		}
		return t
	}
	var args []*Term
	ch := false
	for _, a := range t.args {
		p := patTerm(a)
		ch = ch || p != a
		args = append(args, p)
	}
	if ch {
		return mk(t.op, t.sort, args...)
	}
	return t
}

func rebuild(t *Term, args []*Term, rec func(*Term) *Term) *Term {
	if t.vars != nil {
		var trigs [][]*Term
		for _, tr := range t.trigs {
			var x []*Term
			for _, y := range tr {
				x = append(x, rec(y))
			}
			trigs = append(trigs, x)
		}
		return quant(t.op, t.vars, args[0], trigs)
	}
	switch t.op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "+":
		if len(args) == 2 {
			return Add(args[0], args[1])
		}
	case "-":
		if len(args) == 2 {
			return Sub(args[0], args[1])
		}
	case "<", "<=":
		return cmp(t.op, args[0], args[1])
	}
	if f := selInfo[t.op]; f != nil && len(args) == 1 {
		return Sel(f.dt, f.idx, args[0])
	}
	return mk(t.op, t.sort, args...)
}

func mentions(t *Term, pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// ---- datatypes

type DT struct {
	name   Sort
	cons   string
	fields []DTField
	// further constructors (lists)
	more []DTCons
}
type DTField struct {
	name string
	sort Sort
}
type DTCons struct {
	name   string
	fields []DTField
}
type selRef struct {
	dt  *DT
	idx int
}

var (
	dts      = map[Sort]*DT{}
	dtOfCons = map[string]*DT{}
	selInfo  = map[string]*selRef{}
)

func declDT(d *DT) *DT {
	dts[d.name] = d
	dtOfCons[d.cons] = d
	for i, f := range d.fields {
		selInfo[f.name] = &selRef{d, i}
	}
	for _, c := range d.more {
		dtOfCons[c.name] = d
	}
	return d
}

// Mk builds a single-constructor datatype value.
func Mk(d *DT, args ...*Term) *Term {
	for i, a := range args {
		if a.sort != d.fields[i].sort {
			panic(unsupported("constructor %s field %s: sort %s, want %s", d.cons, d.fields[i].name, a.sort, d.fields[i].sort))
		}
	}
	// eta: mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && len(d.more) == 0 {
		var x *Term
		ok := true
		for i, a := range args {
			if len(a.args) == 1 && a.op == d.fields[i].name {
				if x == nil {
					x = a.args[0]
				} else if x != a.args[0] {
					ok = false
				}
			} else {
				ok = false
			}
		}
		if ok && x != nil {
			return x
		}
	}
	return mk(d.cons, d.name, args...)
}

func Sel(d *DT, i int, t *Term) *Term {
	if t.op == d.cons && len(t.args) == len(d.fields) {
		return t.args[i]
	}
	if t.op == "ite" && t.sort == d.name {
		a, b := t.args[1], t.args[2]
		if a.op == d.cons || b.op == d.cons {
			return Ite(t.args[0], Sel(d, i, a), Sel(d, i, b))
		}
	}
	return mk(d.fields[i].name, d.fields[i].sort, t)
}

func Upd(d *DT, i int, t, v *Term) *Term {
	args := make([]*Term, len(d.fields))
	for j := range d.fields {
		if j == i {
			args[j] = v
		} else {
			args[j] = Sel(d, j, t)
		}
	}
	return Mk(d, args...)
}

var (
	dtRef   = declDT(&DT{name: SRef, cons: "mkref", fields: []DTField{{"rbase", SInt}, {"ridx", SInt}}})
	dtSlice = declDT(&DT{name: SSlice, cons: "mkslice", fields: []DTField{{"sbase", SInt}, {"soff", SInt}, {"slen", SInt}, {"scap", SInt}}})
)

func MkRef(b, i *Term) *Term         { return Mk(dtRef, b, i) }
func RefBase(r *Term) *Term          { return Sel(dtRef, 0, r) }
func RefIdx(r *Term) *Term           { return Sel(dtRef, 1, r) }
func NilRef() *Term                  { return MkRef(Int(0), Int(0)) }
func MkSlice(b, o, l, c *Term) *Term { return Mk(dtSlice, b, o, l, c) }
func SBase(s *Term) *Term            { return Sel(dtSlice, 0, s) }
func SOff(s *Term) *Term             { return Sel(dtSlice, 1, s) }
func SLen(s *Term) *Term             { return Sel(dtSlice, 2, s) }
func SCap(s *Term) *Term             { return Sel(dtSlice, 3, s) }
func NilSlice() *Term                { return MkSlice(Int(0), Int(0), Int(0), Int(0)) }

// ---- lists

func listSort(e Sort) Sort { return Sort("List$" + sanitizeSort(e)) }

func sanitizeSort(s Sort) string {
	r := strings.NewReplacer("(", "<", ")", ">", " ", "_")
	return r.Replace(string(s))
}

func listDT(e Sort) *DT {
	n := listSort(e)
	if d, ok := dts[n]; ok {
		return d
	}
	return declDT(&DT{name: n, cons: "snoc$" + string(n[5:]),
		fields: []DTField{{"front$" + string(n[5:]), n}, {"last$" + string(n[5:]), e}},
		more:   []DTCons{{name: "nil$" + string(n[5:])}}})
}
func ListNil(e Sort) *Term { d := listDT(e); return mk(d.more[0].name, d.name) }
func ListSnoc(l, x *Term) *Term {
	d := listDT(x.sort)
	return mk(d.cons, d.name, l, x)
}
func listElem(s Sort) Sort { return dts[s].fields[1].sort }

// ---- strings

var (
	strLits = map[string]*Term{}
	litOf   = map[string]string{}
)

func StrLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	t := mk(fmt.Sprintf("str!%d_%s", len(strLits), sanitize(clip(s, 24))), SStr)
	strLits[s] = t
	litOf[t.op] = s
	return t
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return u.msg }

func unsupported(f string, a ...interface{}) unsupportedErr {
	return unsupportedErr{fmt.Sprintf(f, a...)}
}
