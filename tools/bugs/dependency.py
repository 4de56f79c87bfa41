G = "internal/dependency/graph.go"
def T(body): return '''package dependency

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	var g Graph
	var got []int
''' + body + "\n}\n"
def bug(id, edits, needs, breaks, demo): return dict(id=id, property="C10", pkg="internal/dependency", edits=edits, needs=needs, breaks=breaks, demo=T(demo))
BUGS = [
bug("C10-insert-end", [(G, "	if i >= len(set) || set[i] != x {", "	if i < len(set) && set[i] != x || len(set) == 0 || x > set[len(set)-1]+1 {")],
 "a dependency whose number is one above the largest recorded so far", "the dependency is not recorded",
 '''	g.Add(9, 1)
	g.Add(9, 2)
	g.Flatten(func(i int) { got = append(got, i) })
	if fmt.Sprint(got) != "[1 2 9]" {
		t.Fatal(got)
	}'''),
bug("C10-late-mark", [(G, '''			visited[tgt] = true
			g.flatten(fn, g.nodes[tgt], visited)
			fn(tgt)''', '''			if len(g.nodes[tgt]) > 0 {
				visited[tgt] = true
			}
			g.flatten(fn, g.nodes[tgt], visited)
			fn(tgt)''')],
 "a leaf that is reached along two paths", "the leaf is visited twice",
 '''	g.Add(1, 3)
	g.Add(2, 3)
	g.Flatten(func(i int) { got = append(got, i) })
	if fmt.Sprint(got) != "[3 1 2]" {
		t.Fatal(got)
	}'''),
bug("C10-zero", [(G, "	for _, tgt := range targets {\n		if !visited[tgt] {", "	for _, tgt := range targets {\n		if tgt == 0 && len(targets) > 1 {\n			continue\n		}\n		if !visited[tgt] {")],
 "node 0 as one of several dependencies and not a target", "node 0 is never visited",
 '''	g.Add(5, 0)
	g.Add(5, 1)
	g.Flatten(func(i int) { got = append(got, i) })
	if fmt.Sprint(got) != "[0 1 5]" {
		t.Fatal(got)
	}'''),
]
