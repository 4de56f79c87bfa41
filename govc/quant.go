package main

// Quantifiers over indices are written for a variable j that is added to a
// slice's offset. E-matching does not see through the addition, so each
// assumed quantifier is restated for the position itself, k = offset + j,
// with the element read as its pattern. The restatements are equivalent.

// expandQuants restates the quantifiers t assumes (pos) or has to show.
func expandQuants(t *Term, pos bool) *Term {
	switch t.op {
	case "and", "or":
		if t.vars != nil {
			return t
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = expandQuants(a, pos)
			ch = ch || args[i] != a
		}
		if !ch {
			return t
		}
		if t.op == "and" {
			return And(args...)
		}
		return Or(args...)
	case "not":
		if a := expandQuants(t.args[0], !pos); a != t.args[0] {
			return Not(a)
		}
		return t
	case "=>":
		a, b := expandQuants(t.args[0], !pos), expandQuants(t.args[1], pos)
		if a != t.args[0] || b != t.args[1] {
			return Implies(a, b)
		}
		return t
	case "forall":
		if pos && t.vars != nil && len(t.trigs) == 0 {
			return expandForall(t)
		}
	case "exists":
		if !pos && t.vars != nil && len(t.trigs) == 0 {
			// not exists x. b
			f := expandForall(Forall(t.vars, Not(t.args[0])))
			return Not(f)
		}
	}
	return t
}

func expandForall(t *Term) *Term {
	own := map[*Term]bool{}
	for _, v := range t.vars {
		own[v] = true
	}
	var hasOwn func(x *Term) bool
	memo := map[*Term]int{}
	hasOwn = func(x *Term) bool {
		if own[x] {
			return true
		}
		if r := memo[x]; r != 0 {
			return r == 1
		}
		r := false
		for _, a := range x.args {
			r = r || hasOwn(a)
		}
		memo[x] = 2
		if r {
			memo[x] = 1
		}
		return r
	}
	type site struct {
		sel  *Term
		rest *Term // idx = v + rest
	}
	sites := map[*Term][]site{}
	seen := map[*Term]bool{}
	other := false
	inner := false
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.vars != nil {
			inner = true
			return
		}
		for _, a := range x.args {
			walk(a)
		}
		if _, ok := funDecls[x.op]; ok && len(x.args) > 0 && hasOwn(x) {
			other = true
		}
		if x.op == "select" && !hasOwn(x.args[0]) && hasOwn(x.args[1]) {
			if v, rest, ok := splitIndex(x.args[1], own, hasOwn); ok {
				sites[v] = append(sites[v], site{x, rest})
			}
		}
	}
	walk(t.args[0])
	if inner {
		return t
	}
	var out []*Term
	shift := func(m map[*Term]*Term, v *Term, s site, nv *Term) {
		m[s.sel.args[1]] = nv
		m[v] = Sub(nv, s.rest)
	}
	if len(t.vars) == 1 {
		v := t.vars[0]
		done := map[*Term]bool{}
		for _, s := range sites[v] {
			nv := BoundVar("k", SInt)
			m := map[*Term]*Term{}
			shift(m, v, s, nv)
			pat := mk("select", s.sel.sort, s.sel.args[0], nv)
			if done[pat] || len(out) >= 4 {
				continue
			}
			done[pat] = true
			out = append(out, Forall([]*Term{nv}, subst(t.args[0], m), []*Term{pat}))
		}
	} else {
		m := map[*Term]*Term{}
		var vars, pats []*Term
		for _, v := range t.vars {
			ss := sites[v]
			if len(ss) == 0 {
				return t
			}
			nv := BoundVar(v.op+"k", SInt)
			shift(m, v, ss[0], nv)
			vars = append(vars, nv)
			pats = append(pats, mk("select", ss[0].sel.sort, ss[0].sel.args[0], nv))
		}
		out = append(out, Forall(vars, subst(t.args[0], m), pats))
	}
	if len(out) == 0 {
		return t
	}
	if other {
		out = append(out, t)
	}
	return And(out...)
}

// splitIndex writes an index as v + rest, for one of the variables.
func splitIndex(x *Term, own map[*Term]bool, hasOwn func(*Term) bool) (v, rest *Term, ok bool) {
	if own[x] {
		return x, Int(0), x.sort == SInt
	}
	if x.vars != nil {
		return
	}
	if x.op == "+" {
		rest = Int(0)
		for _, a := range x.args {
			if hasOwn(a) {
				if v != nil {
					return nil, nil, false
				}
				w, r, ok := splitIndex(a, own, hasOwn)
				if !ok {
					return nil, nil, false
				}
				v = w
				rest = Add(rest, r)
			} else {
				rest = Add(rest, a)
			}
		}
		return v, rest, v != nil
	}
	if x.op == "-" && len(x.args) == 2 && !hasOwn(x.args[1]) {
		w, r, ok := splitIndex(x.args[0], own, hasOwn)
		if !ok {
			return nil, nil, false
		}
		return w, Sub(r, x.args[1]), true
	}
	return nil, nil, false
}
