package main

import "os"

var noShift = os.Getenv("GOVC_NOSHIFT") != ""

// shiftQuants rewrites quantifiers whose patterns use an index only as
// base+k to range over the whole index instead: instances are then found
// however the index is written.
func shiftQuants(t *Term, memo map[*Term]*Term) *Term {
	if noShift || len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	rec := func(x *Term) *Term { return shiftQuants(x, memo) }
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = rec(a)
		ch = ch || args[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, args, rec)
	}
	if r.vars != nil && len(r.trigs) > 0 {
		r = shiftOne(r)
	}
	memo[t] = r
	return r
}

func shiftOne(t *Term) *Term {
	for _, k := range t.vars {
		if k.sort != SInt {
			continue
		}
		base := shiftBase(t, k)
		if base == nil {
			continue
		}
		m := map[*Term]*Term{k: Sub(k, base)}
		body := subst(t.args[0], m)
		var trigs [][]*Term
		for _, tr := range t.trigs {
			var n []*Term
			for _, x := range tr {
				n = append(n, subst(x, m))
			}
			trigs = append(trigs, n)
		}
		if base.bound && !coverAll(trigs, t.vars) {
			continue
		}
		if q := quant(t.op, t.vars, body, trigs); q.vars != nil && len(q.trigs) == len(t.trigs) {
			t = q
		}
	}
	return t
}

// shiftBase returns the term b when k occurs in the patterns of t only
// as b+k.
func shiftBase(t *Term, k *Term) *Term {
	var base *Term
	ok := true
	var rec func(x *Term)
	rec = func(x *Term) {
		if !ok || !x.bound {
			return
		}
		if x == k || x.vars != nil {
			ok = false
			return
		}
		if x.op == "+" && len(x.args) == 2 {
			var b *Term
			if x.args[1] == k {
				b = x.args[0]
			} else if x.args[0] == k {
				b = x.args[1]
			}
			if b != nil {
				if _, num := b.intVal(); num || base != nil && b != base {
					ok = false
				}
				base = b
				return
			}
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	for _, tr := range t.trigs {
		for _, x := range tr {
			rec(x)
		}
	}
	if !ok || base == nil {
		return nil
	}
	if base.bound {
		// made of other variables of the same quantifier
		own := map[*Term]bool{}
		for _, v := range t.vars {
			own[v] = v != k
		}
		good := true
		var vars func(x *Term)
		vars = func(x *Term) {
			if !x.bound {
				return
			}
			if len(x.args) == 0 {
				good = good && own[x]
			}
			for _, a := range x.args {
				vars(a)
			}
		}
		vars(base)
		if !good {
			return nil
		}
	}
	return base
}

// coverAll tells whether each of the patterns has all of the variables.
func coverAll(trigs [][]*Term, vars []*Term) bool {
	for _, tr := range trigs {
		seen := map[*Term]bool{}
		var rec func(x *Term)
		rec = func(x *Term) {
			seen[x] = true
			if x.bound {
				for _, a := range x.args {
					rec(a)
				}
			}
		}
		for _, x := range tr {
			rec(x)
		}
		for _, v := range vars {
			if !seen[v] {
				return false
			}
		}
	}
	return true
}
