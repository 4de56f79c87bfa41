package dependency

import (
	"fmt"
	"testing"
)

func TestVerifC10(t *testing.T) {
	v := vStart(t, "C10", "flatten", "random graphs, cyclic and acyclic, with repeated edges, self-edges and any order of insertion: each node once, dependencies first when there are no cycles, the same order every time and whatever the order of insertion",
		"seeded random graphs of up to 40 nodes; every graph of 3 nodes")
	defer v.Done()
	check := func(edges [][2]int) {
		v.Case(fmt.Sprint(edges), len(edges) > 2)
		v.Guard("panic", func() {
			g, h := new(Graph), new(Graph)
			deps := map[int]map[int]bool{}
			nodes := map[int]bool{}
			for _, e := range edges {
				g.Add(e[0], e[1])
				if deps[e[0]] == nil {
					deps[e[0]] = map[int]bool{}
				}
				deps[e[0]][e[1]] = true
				nodes[e[0]], nodes[e[1]] = true, true
			}
			for _, i := range v.R.Perm(len(edges)) {
				h.Add(edges[i][0], edges[i][1])
			}
			if g.Len() != len(deps) {
				v.Fail("Len", fmt.Sprint(len(deps)), g.Len())
			}
			flat := func(g *Graph) []int {
				var s []int
				g.Flatten(func(n int) { s = append(s, n) })
				return s
			}
			got := flat(g)
			if again := flat(g); fmt.Sprint(again) != fmt.Sprint(got) {
				v.Fail("the same order again", fmt.Sprint(got), again)
			}
			if other := flat(h); fmt.Sprint(other) != fmt.Sprint(got) {
				v.Fail("order independent of insertion", fmt.Sprint(got), other)
			}
			at := map[int]int{}
			for i, n := range got {
				if _, dup := at[n]; dup {
					v.Fail("visited once", fmt.Sprintf("%d once", n), got)
				}
				at[n] = i
				if !nodes[n] {
					v.Fail("only nodes of the graph", fmt.Sprint(nodes), got)
				}
			}
			for n := range nodes {
				if _, ok := at[n]; !ok {
					v.Fail("every node visited", fmt.Sprint(n), got)
				}
			}
			if !vCyclic(deps) {
				for n, ds := range deps {
					for d := range ds {
						if at[d] >= at[n] {
							v.Fail("dependencies first", fmt.Sprintf("%d before %d", d, n), got)
						}
					}
				}
			}
		})
	}
	// every graph of three nodes
	for m := 0; m < 1<<9; m++ {
		var edges [][2]int
		for b := 0; b < 9; b++ {
			if m>>b&1 == 1 {
				edges = append(edges, [2]int{b / 3, b % 3})
			}
		}
		check(edges)
	}
	for i := 0; i < v.N(3000, 100000) && v.Time(); i++ {
		n := 1 + v.R.Intn(40)
		base := v.R.Intn(50) - 25
		acyclic := v.R.Intn(2) == 0
		perm := v.R.Perm(n)
		var edges [][2]int
		for k := v.R.Intn(3 * n); k > 0; k-- {
			a, b := v.R.Intn(n), v.R.Intn(n)
			if acyclic && a == b {
				continue
			}
			if acyclic && a < b {
				a, b = b, a
			}
			edges = append(edges, [2]int{base + perm[a], base + perm[b]})
		}
		check(edges)
	}
}

func vCyclic(deps map[int]map[int]bool) bool {
	state := map[int]int{}
	var visit func(n int) bool
	visit = func(n int) bool {
		if state[n] != 0 {
			return state[n] == 1
		}
		state[n] = 1
		for d := range deps[n] {
			if visit(d) {
				return true
			}
		}
		state[n] = 2
		return false
	}
	for n := range deps {
		if visit(n) {
			return true
		}
	}
	return false
}
