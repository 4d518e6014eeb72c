// Command depcheck decides the property of package dependency (C40).
package main

import (
	"fmt"
	"sort"

	"aqwari.net/xml/internal/dependency"
	"aqwari.net/xml/verif/mapsched"
	"aqwari.net/xml/verif/mc"
)

type edge struct{ from, to int }

// flatten builds a graph and returns the order of one walk.
func flatten(edges []edge) ([]int, *dependency.Graph) {
	g := new(dependency.Graph)
	for _, e := range edges {
		g.Add(e.from, e.to)
	}
	return walk(g), g
}

func walk(g *dependency.Graph) (out []int) {
	g.Flatten(func(n int) { out = append(out, n) })
	return out
}

// reach computes which nodes can be reached from which.
func reach(edges []edge) map[edge]bool {
	r := map[edge]bool{}
	nodes := map[int]bool{}
	for _, e := range edges {
		r[e] = true
		nodes[e.from], nodes[e.to] = true, true
	}
	for k := range nodes {
		for i := range nodes {
			for j := range nodes {
				if r[edge{i, k}] && r[edge{k, j}] {
					r[edge{i, j}] = true
				}
			}
		}
	}
	return r
}

// judge compares the order of a walk with the edges.
func judge(t *mc.T, edges []edge, order []int) {
	pos := map[int]int{}
	for i, n := range order {
		if _, dup := pos[n]; dup {
			t.Fail("node %d is visited twice: %v\nedges %v", n, order, edges)
		}
		pos[n] = i
	}
	nodes := map[int]bool{}
	for _, e := range edges {
		nodes[e.from], nodes[e.to] = true, true
	}
	for n := range nodes {
		if _, ok := pos[n]; !ok {
			t.Fail("node %d is not visited: %v\nedges %v", n, order, edges)
		}
	}
	if len(pos) != len(nodes) {
		t.Fail("visited %v, which are not all nodes\nedges %v", order, edges)
	}
	r := reach(edges)
	for _, e := range edges {
		t.Compared(1)
		if !r[edge{e.to, e.from}] && pos[e.to] > pos[e.from] {
			t.Fail("%d depends on %d but comes first: %v\nedges %v", e.from, e.to, order, edges)
		}
	}
}

var labels = [][]int{{0, 1, 2, 3, 4}, {3, -7, 1 << 40, 0, -1}, {4, 3, 2, 1, 0}}

func graphs(t *mc.T, n int) {
	l := labels[t.Free("labels", len(labels))]
	var edges []edge
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if t.FreeBool(fmt.Sprintf("%d needs %d", i, j)) {
				edges = append(edges, edge{l[i], l[j]})
			}
		}
	}
	check(t, edges)
}

func check(t *mc.T, edges []edge) {
	t.Input(fmt.Sprint(edges))
	t.Step()
	mapsched.Sorted()
	order, g := flatten(edges)
	judge(t, edges, order)
	targets := map[int]bool{}
	for _, e := range edges {
		targets[e.from] = true
	}
	if g.Len() != len(targets) {
		t.Fail("Len() = %d, but %d nodes have dependencies\nedges %v", g.Len(), len(targets), edges)
	}
	same := func(what string, got []int) {
		t.Compared(1)
		if fmt.Sprint(got) != fmt.Sprint(order) {
			t.Fail("%s: %v\nwas %v\nedges %v", what, got, order, edges)
		}
	}
	same("second walk", walk(g))
	mapsched.Reversed()
	same("other order of map iteration", walk(g))
	mapsched.Sorted()
	// other orders of insertion
	n := len(edges)
	perm := func(what string, f func(i int) int) {
		dup := make([]edge, n)
		for i := range dup {
			dup[i] = edges[f(i)]
		}
		got, g2 := flatten(dup)
		same(what, got)
		if g2.Len() != g.Len() {
			t.Fail("%s: Len() = %d, was %d", what, g2.Len(), g.Len())
		}
	}
	if n > 0 {
		perm("added in reverse order", func(i int) int { return n - 1 - i })
		perm("added in rotated order", func(i int) int { return (i + n/2) % n })
		step := 1
		for _, s := range []int{7, 5, 3, 2} {
			if n%s != 0 {
				step = s
				break
			}
		}
		perm("added in mixed order", func(i int) int { return i * step % n })
		twice, g3 := flatten(append(append([]edge{}, edges...), edges...))
		same("every edge added twice", twice)
		if g3.Len() != g.Len() {
			t.Fail("every edge added twice: Len() = %d, was %d", g3.Len(), g.Len())
		}
		// a graph can grow after a walk
		g4 := new(dependency.Graph)
		for i, e := range edges {
			if i == n/2 {
				judge(t, edges[:i], walk(g4))
			}
			g4.Add(e.from, e.to)
		}
		same("walked while growing", walk(g4))
	}
	t.Outcome(fmt.Sprint(order))
}

func main() {
	mc.Main(mc.Property{
		ID: "C40", Quick: 40, Thorough: 400,
		Harnesses: []mc.Harness{
			{Name: "graphs", Bounds: [2]int{0, 0}, Weight: 4,
				About: "every directed graph of up to 4 nodes (65536, with self-loops and cycles) with 3 ways to number the nodes; each built in 5 orders of insertion, with repeated edges, walked twice, while growing, and in the other map order; oracle: every node once, dependencies first outside of cycles, always the same order",
				Run:   func(t *mc.T) { graphs(t, 4) }},
			{Name: "orders", Bounds: [2]int{0, 0}, Weight: 3,
				About: "every graph of 3 nodes with up to 4 (thorough 5) edges, built in every order of insertion",
				Run: func(t *mc.T) {
					var edges []edge
					max := 4
					if t.Thorough {
						max = 5
					}
					for i := 0; i < 3; i++ {
						for j := 0; j < 3; j++ {
							if len(edges) < max && t.FreeBool(fmt.Sprintf("%d needs %d", i, j)) {
								edges = append(edges, edge{i, j})
							}
						}
					}
					want, _ := flatten(edges)
					var dup []edge
					rest := append([]edge{}, edges...)
					for len(rest) > 0 {
						k := 0
						if len(rest) > 1 {
							k = t.Free("next edge", len(rest))
						}
						dup = append(dup, rest[k])
						rest = append(rest[:k:k], rest[k+1:]...)
					}
					t.Input(fmt.Sprint(dup))
					t.Step()
					got, _ := flatten(dup)
					judge(t, dup, got)
					if fmt.Sprint(got) != fmt.Sprint(want) {
						t.Fail("added as %v: %v\nadded as %v: %v", dup, got, edges, want)
					}
					t.Outcome(fmt.Sprint(got))
				}},
			{Name: "five", Bounds: [2]int{0, 0}, Weight: 8, ThoroughOnly: true,
				About: "every graph of 5 nodes without self-loops, as above",
				Run: func(t *mc.T) {
					var edges []edge
					for i := 0; i < 5; i++ {
						for j := 0; j < 5; j++ {
							if i != j && t.FreeBool(fmt.Sprintf("%d needs %d", i, j)) {
								edges = append(edges, edge{i, j})
							}
						}
					}
					t.Input(fmt.Sprint(edges))
					order, g := flatten(edges)
					judge(t, edges, order)
					if fmt.Sprint(walk(g)) != fmt.Sprint(order) {
						t.Fail("second walk differs\nedges %v", edges)
					}
					t.Outcome(fmt.Sprint(order))
				}},
			{Name: "sparse", Bounds: [2]int{0, 0}, Weight: 2,
				About: "every graph of up to 4 (thorough 5) edges over 8 nodes of which the first edges choose the nodes in canonical order, so that chains, trees and diamonds of up to 8 nodes occur",
				Run: func(t *mc.T) {
					max := 4
					if t.Thorough {
						max = 5
					}
					n := t.Free("edges", max+1)
					var edges []edge
					used := 0
					node := func(label string) int {
						k := t.Free(label, used+1)
						if k == used {
							used++
						}
						return []int{5, 2, 7, 1, 8, 3, 6, 4, 9, 0}[k]
					}
					for i := 0; i < n; i++ {
						edges = append(edges, edge{node("from"), node("to")})
					}
					check(t, edges)
				}},
			{Name: "large", Bounds: [2]int{0, 0}, Weight: 1,
				About: "chains, stars, ladders and rings of 0 to 2000 (thorough 200000) nodes in 3 orders of insertion",
				Run: func(t *mc.T) {
					sizes := []int{0, 1, 2, 3, 10, 100, 2000}
					if t.Thorough {
						sizes = append(sizes, 200000)
					}
					n := sizes[t.Free("size", len(sizes))]
					shape := t.Free("shape", 5)
					var edges []edge
					for i := 0; i < n; i++ {
						switch shape {
						case 0:
							edges = append(edges, edge{i, i + 1})
						case 1:
							edges = append(edges, edge{i + 1, i})
						case 2:
							edges = append(edges, edge{0, i + 1})
						case 3:
							edges = append(edges, edge{i, i + 1}, edge{i, i + 2})
						case 4:
							edges = append(edges, edge{i, (i + 1) % n})
						}
					}
					switch t.Free("order", 3) {
					case 1:
						sort.SliceStable(edges, func(i, j int) bool { return edges[i].from > edges[j].from })
					case 2:
						sort.SliceStable(edges, func(i, j int) bool { return edges[i].from%3 < edges[j].from%3 })
					}
					t.Input(fmt.Sprint(n, shape, len(edges)))
					order, g := flatten(edges)
					pos := map[int]int{}
					for i, x := range order {
						if _, dup := pos[x]; dup {
							t.Fail("node %d is visited twice", x)
						}
						pos[x] = i
					}
					nodes := map[int]bool{}
					for _, e := range edges {
						nodes[e.from], nodes[e.to] = true, true
						if _, ok := pos[e.to]; !ok {
							t.Fail("node %d is not visited", e.to)
						}
						if shape != 4 && pos[e.to] > pos[e.from] {
							t.Fail("%d depends on %d but comes first", e.from, e.to)
						}
					}
					if len(order) != len(nodes) {
						t.Fail("%d nodes, %d visited", len(nodes), len(order))
					}
					if fmt.Sprint(walk(g)) != fmt.Sprint(order) {
						t.Fail("second walk differs")
					}
					t.Outcome(fmt.Sprint(len(order)))
				}},
		},
	})
}
