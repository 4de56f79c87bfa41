package dependency

// walkedAt says when Flatten's callback was called with a number, counting
// the calls with now.
var (
	walkedAt map[int]int
	now      int
)

// rank is any measure that is smaller for a dependency than for its target;
// there is one exactly when the graph has no cycles.
//
//govc:opaque
func rank(n int) int { return 0 }

// within is any set of nodes.
//
//govc:opaque
func within(n int) bool { return true }

func acyclic(g *Graph) bool {
	return forall(func(n, k int) bool {
		return trig(g.nodes[n][k]) && implies(k >= 0 && k < len(g.nodes[n]), rank(g.nodes[n][k]) < rank(n))
	})
}

func closedSet(g *Graph) bool {
	return forall(func(n, k int) bool {
		return trig(g.nodes[n][k]) && implies(within(n) && k >= 0 && k < len(g.nodes[n]), within(g.nodes[n][k]))
	})
}

func walked(n int) bool { return mapdom(walkedAt, n) }

//govc:contract Graph.flatten props=C10
func con_flatten(g *Graph, fn func(int), targets []int, visited map[int]bool) {
	callback(fn, func(n int) {
		requires(!walked(n))
		modifies(now, mapelems(walkedAt))
		ensures(now == old(now)+1)
		ensures(forall(func(k int) bool { return trig(mapdom(walkedAt, k)) && walked(k) == (k == n || old(walked(k))) }))
		ensures(forall(func(k int) bool {
			return trig(mapval(walkedAt, k)) && mapval(walkedAt, k) == ite(k == n, now, old(mapval(walkedAt, k)))
		}))
	})
	requires(visited != nil && walkedAt != nil)
	requires("known", forall(func(n int) bool { return trig(walked(n)) && implies(walked(n), visited[n] && mapval(walkedAt, n) <= now) }))
	modifies(now, mapelems(walkedAt), mapelems(visited))
	ensures("targets", forall(func(k int) bool { return trig(targets[k]) && implies(k >= 0 && k < len(targets), visited[targets[k]]) }))
	ensures("grow", forall(func(n int) bool { return trig(visited[n]) && implies(old(visited[n]), visited[n]) }))
	ensures("once", forall(func(n int) bool {
		return trig(walked(n)) && walked(n) == (old(walked(n)) || visited[n] && !old(visited[n]))
	}))
	ensures("times", now >= old(now) && forall(func(n int) bool {
		return trig(mapval(walkedAt, n)) && implies(walked(n), mapval(walkedAt, n) <= now && ite(old(walked(n)), mapval(walkedAt, n) == old(mapval(walkedAt, n)), mapval(walkedAt, n) > old(now)))
	}))
	ensures("closed", forall(func(n, k int) bool {
		return trig(visited[n], g.nodes[n][k]) && implies(visited[n] && !old(visited[n]) && k >= 0 && k < len(g.nodes[n]), visited[g.nodes[n][k]])
	}))
	ensures("reachable", implies(closedSet(g) && forall(func(k int) bool { return trig(targets[k]) && implies(k >= 0 && k < len(targets), within(targets[k])) }),
		forall(func(n int) bool { return trig(visited[n]) && implies(visited[n] && !old(visited[n]), within(n)) })))
	ensures("order", implies(acyclic(g) && old(above(targets, visited)),
		forall(func(n, k int) bool {
			return trig(visited[n], g.nodes[n][k]) && implies(visited[n] && !old(visited[n]) && k >= 0 && k < len(g.nodes[n]), walked(g.nodes[n][k]) && mapval(walkedAt, g.nodes[n][k]) < mapval(walkedAt, n))
		}) && forall(func(k int) bool { return trig(targets[k]) && implies(k >= 0 && k < len(targets), walked(targets[k])) })))
	candidate(func() bool { return now >= old(now) })
	candidate(func() bool {
		return forall(func(n int) bool { return trig(walked(n)) && implies(walked(n), visited[n] && mapval(walkedAt, n) <= now) })
	})
	candidate(func() bool {
		return forall(func(k int) bool { return trig(targets[k]) && implies(k >= 0 && k < iter(), visited[targets[k]]) })
	})
	candidate(func() bool {
		return forall(func(n int) bool { return trig(visited[n]) && implies(old(visited[n]), visited[n]) })
	})
	candidate(func() bool {
		return forall(func(n int) bool {
			return trig(walked(n)) && walked(n) == (old(walked(n)) || visited[n] && !old(visited[n]))
		})
	})
	candidate(func() bool {
		return forall(func(n int) bool {
			return trig(mapval(walkedAt, n)) && implies(walked(n), ite(old(walked(n)), mapval(walkedAt, n) == old(mapval(walkedAt, n)), mapval(walkedAt, n) > old(now)))
		})
	})
	candidate(func() bool {
		return forall(func(n, k int) bool {
			return trig(visited[n], g.nodes[n][k]) && implies(visited[n] && !old(visited[n]) && k >= 0 && k < len(g.nodes[n]), visited[g.nodes[n][k]])
		})
	})
	candidate(func() bool {
		return implies(closedSet(g) && forall(func(k int) bool { return trig(targets[k]) && implies(k >= 0 && k < len(targets), within(targets[k])) }),
			forall(func(n int) bool { return trig(visited[n]) && implies(visited[n] && !old(visited[n]), within(n)) }))
	})
	candidate(func() bool {
		return implies(acyclic(g) && old(above(targets, visited)),
			forall(func(n, k int) bool {
				return trig(visited[n], g.nodes[n][k]) && implies(visited[n] && !old(visited[n]) && k >= 0 && k < len(g.nodes[n]), walked(g.nodes[n][k]) && mapval(walkedAt, g.nodes[n][k]) < mapval(walkedAt, n))
			}) && forall(func(k int) bool {
				return trig(targets[k]) && implies(k >= 0 && k < iter(), walked(targets[k]))
			}))
	})
	return
}

// above: the nodes being visited all depend on the targets.
func above(targets []int, visited map[int]bool) bool {
	return forall(func(n, k int) bool {
		return trig(visited[n], targets[k]) && implies(visited[n] && !walked(n) && k >= 0 && k < len(targets), rank(n) > rank(targets[k]))
	})
}

//govc:contract Graph.Flatten props=C10
func con_Flatten(g *Graph, walk func(int)) {
	callback(walk, func(n int) {
		requires(!walked(n))
		modifies(now, mapelems(walkedAt))
		ensures(now == old(now)+1)
		ensures(forall(func(k int) bool { return trig(mapdom(walkedAt, k)) && walked(k) == (k == n || old(walked(k))) }))
		ensures(forall(func(k int) bool {
			return trig(mapval(walkedAt, k)) && mapval(walkedAt, k) == ite(k == n, now, old(mapval(walkedAt, k)))
		}))
	})
	requires(walkedAt != nil && now == 0)
	requires(forall(func(n int) bool { return trig(walked(n)) && !walked(n) }))
	modifies(now, mapelems(walkedAt), g.nodes, g.once)
	ensures("targets", forall(func(k int) bool { return trig(g.targets[k]) && implies(k >= 0 && k < len(g.targets), walked(g.targets[k])) }))
	ensures("closed", forall(func(n, k int) bool {
		return trig(walked(n), g.nodes[n][k]) && implies(walked(n) && k >= 0 && k < len(g.nodes[n]), walked(g.nodes[n][k]))
	}))
	ensures("reachable", implies(closedSet(g) && forall(func(k int) bool { return trig(g.targets[k]) && implies(k >= 0 && k < len(g.targets), within(g.targets[k])) }),
		forall(func(n int) bool { return trig(walked(n)) && implies(walked(n), within(n)) })))
	ensures("order", implies(acyclic(g),
		forall(func(n, k int) bool {
			return trig(walked(n), g.nodes[n][k]) && implies(walked(n) && k >= 0 && k < len(g.nodes[n]), mapval(walkedAt, g.nodes[n][k]) < mapval(walkedAt, n))
		})))
	candidate(func(visited map[int]bool) bool {
		return now >= 0 && forall(func(n int) bool {
			return trig(walked(n)) && walked(n) == visited[n] && implies(walked(n), mapval(walkedAt, n) <= now)
		})
	})
	candidate(func(visited map[int]bool) bool {
		return forall(func(n int) bool { return trig(visited[n]) && walked(n) == visited[n] })
	})
	candidate(func(visited map[int]bool) bool {
		return forall(func(k int) bool {
			return trig(g.targets[k]) && implies(k >= 0 && k < iter(), visited[g.targets[k]])
		})
	})
	candidate(func() bool {
		return forall(func(k int) bool {
			return trig(g.targets[k]) && implies(k >= 0 && k < iter(), walked(g.targets[k]))
		})
	})
	candidate(func() bool {
		return forall(func(n, k int) bool {
			return trig(walked(n), g.nodes[n][k]) && implies(walked(n) && k >= 0 && k < len(g.nodes[n]), walked(g.nodes[n][k]))
		})
	})
	candidate(func() bool {
		return implies(closedSet(g) && forall(func(k int) bool { return trig(g.targets[k]) && implies(k >= 0 && k < len(g.targets), within(g.targets[k])) }),
			forall(func(n int) bool { return trig(walked(n)) && implies(walked(n), within(n)) }))
	})
	candidate(func() bool {
		return implies(acyclic(g),
			forall(func(n, k int) bool {
				return trig(walked(n), g.nodes[n][k]) && implies(walked(n) && k >= 0 && k < len(g.nodes[n]), mapval(walkedAt, g.nodes[n][k]) < mapval(walkedAt, n))
			}))
	})
	return
}

func ascending(s []int) bool {
	return forall(func(i, j int) bool { return trig(s[i], s[j]) && implies(i >= 0 && i < j && j < len(s), s[i] < s[j]) })
}

// pos is the number of leading elements of an ascending sequence below x.
func pos(q Seq[int], n, x int) int {
	if n <= 0 {
		return 0
	}
	if qat(q, n-1) < x {
		return n
	}
	return pos(q, n-1, x)
}

//govc:lemma
func posRange(q Seq[int], n, x int) {
	induction(n)
	trig(pos(q, n, x))
	ensures(pos(q, n, x) >= 0 && implies(n >= 0, pos(q, n, x) <= n))
	ensures(implies(pos(q, n, x) > 0, qat(q, pos(q, n, x)-1) < x))
}

//govc:lemma
func posAbove(q Seq[int], n, x, k int) {
	induction(n)
	trig(pos(q, n, x), qat(q, k))
	requires(k >= pos(q, n, x) && k < n)
	ensures(qat(q, k) >= x)
}

// SearchInts finds the place of x in an ascending slice.
//
//govc:extern sort.SearchInts
func externSearchInts(a []int, x int) (r int) {
	ensures(r >= 0 && r <= len(a))
	ensures(implies(ascending(a), r == pos(seq(a), len(a), x)))
	return
}

func place(set []int, x int) int { return pos(seq(set), len(set), x) }
func member(set []int, x int) bool { return place(set, x) < len(set) && set[place(set, x)] == x }

//govc:contract insertUnique props=C10
func con_insertUnique(set []int, x int) (r []int) {
	requires(ascending(set))
	modifies(elems(set[:cap(set)]))
	ensures("ascending", ascending(r))
	ensures("own", fresh(r) || sameobj(r, set) && cap(r) == cap(set))
	ensures("same", implies(old(member(set, x)), len(r) == len(set) && forall(func(k int) bool {
		return trig(r[k]) && implies(k >= 0 && k < len(r), r[k] == old(set[k]))
	})))
	ensures("inserted", implies(!old(member(set, x)), len(r) == len(set)+1 && r[old(place(set, x))] == x && forall(func(k int) bool {
		return trig(r[k]) && implies(k >= 0 && k < len(r) && k != old(place(set, x)), r[k] == old(set[ite(k < place(set, x), k, k-1)]))
	})))
	return
}

// inserted says that the elements of r are those set had and x.
func inserted(r []int, set []int, x int) bool {
	return ite(old(member(set, x)),
		len(r) == old(len(set)) && forall(func(k int) bool {
			return trig(r[k]) && implies(k >= 0 && k < len(r), r[k] == old(set[k]))
		}),
		len(r) == old(len(set))+1 && r[old(place(set, x))] == x && forall(func(k int) bool {
			return trig(r[k]) && implies(k >= 0 && k < len(r) && k != old(place(set, x)), r[k] == old(set[ite(k < place(set, x), k, k-1)]))
		}))
}

// wellFormed graphs are what Add makes of an empty Graph.
func wellFormed(g *Graph) bool {
	return iff(onceDone(g.once), g.nodes != nil) && ascending(g.targets) &&
		forall(func(n int) bool {
			return trig(g.nodes[n]) && separate(g.targets, g.nodes[n]) && allocated(g.nodes[n])
		}) &&
		forall(func(n, i, j int) bool {
			return trig(g.nodes[n][i], g.nodes[n][j]) && implies(i >= 0 && i < j && j < len(g.nodes[n]), g.nodes[n][i] < g.nodes[n][j])
		}) &&
		forall(func(n, m int) bool {
			return trig(g.nodes[n], g.nodes[m]) && implies(n != m, separate(g.nodes[n], g.nodes[m]))
		})
}

//govc:contract Graph.Add props=C10
func con_Add(g *Graph, target, dependency int) {
	requires(wellFormed(g))
	modifies(g.once, g.nodes, g.targets, heapOf[int](), mapelems(g.nodes))
	ensures("form", wellFormed(g))
	ensures("target", inserted(g.targets, old(g.targets), target))
	ensures("edge", inserted(g.nodes[target], old(g.nodes[target]), dependency))
	ensures("others", forall(func(n int) bool {
		return trig(g.nodes[n]) && implies(n != target, len(g.nodes[n]) == old(len(g.nodes[n])))
	}))
	ensures("kept", forall(func(n, k int) bool {
		return trig(g.nodes[n][k]) && implies(n != target && k >= 0 && k < len(g.nodes[n]), g.nodes[n][k] == old(g.nodes[n][k]))
	}))
	return
}
