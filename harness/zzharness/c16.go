package zzharness

import (
	"strconv"

	"github.com/sourcenetwork/zanzi/pkg/types"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

// GraphOps: histories of node and edge insertions on the map graph behave like a set of nodes and a set of edges.
func GraphOps() {
	g := types.New[string]()
	ids := chars("abc")
	data := make([]string, 3) // "" = absent
	var edge [3][3]bool
	idx := func(s string) int {
		for i, x := range ids {
			if x == s {
				return i
			}
		}
		return -1
	}
	for i := 0; i < vx.Param("ops", 4, 5); i++ {
		n := "o" + string(rune('0'+i))
		a := vx.StringOf(n+".a", 1, 1, "abc")
		if vx.Bool(n + ".edge") {
			b := vx.StringOf(n+".b", 1, 1, "abc")
			err := g.SetEdge(a, b)
			x, y := idx(a), idx(b)
			ok := data[x] != "" && data[y] != ""
			vx.Assert((err == nil) == ok, "an edge is accepted exactly when both of its nodes exist")
			if ok {
				edge[x][y] = true
				vx.Reach("edge")
			} else {
				vx.Reach("missing")
			}
			continue
		}
		// a new value marks the node with the operation which wrote it
		d := a + n
		g.SetNode(a, d)
		data[idx(a)] = d
	}
	for i, id := range ids {
		o := g.GetNode(id)
		vx.Assert(o.IsEmpty() == (data[i] == ""), "a node is found exactly when it was set")
		if data[i] != "" {
			vx.Assert(o.Value() == data[i], "a node has other data than was set last")
		}
		var out, in []string
		for j := range ids {
			if edge[i][j] {
				out = append(out, data[j])
			}
			if edge[j][i] {
				in = append(in, data[j])
			}
		}
		sameSet(g.GetSucessors(id), out, "the successors of a node are not the targets of its edges")
		sameSet(g.GetAncestors(id), in, "the ancestors of a node are not the sources of its edges")
	}
}

func sameSet(got, want []string, msg string) {
	vx.Assert(len(got) == len(want), msg)
	for _, w := range want {
		n := 0
		for _, g := range got {
			if g == w {
				n++
			}
		}
		vx.Assert(n == 1, msg)
	}
}

// DiGraphDot: the DOT document of a graph is well formed and has exactly its nodes and edges, whatever the text of
// identifiers and data.
func DiGraphDot() {
	g := types.NewMapDiGraph()
	alphabet := "a\"\\\n"
	n := vx.ConcreteInt(vx.Int("nodes", 0, 2))
	var ids, datas []string
	for i := 0; i < n; i++ {
		k := "n" + string(rune('0'+i))
		id, d := vx.StringOf(k+".id", 1, 2, alphabet), vx.StringOf(k+".data", 0, vx.Param("datalen", 1, 2), alphabet)
		for _, o := range ids {
			vx.Assume(!vx.StrEq(o, id))
		}
		ids, datas = append(ids, id), append(datas, d)
		g.AddNode(&types.GraphNode{Id: id, Data: d})
	}
	var edge [2][2]bool
	total := 0
	for i := range ids {
		for j := range ids {
			if vx.Bool("e" + string(rune('0'+i)) + string(rune('0'+j))) {
				g.AddEdge(&types.GraphEdge{Source: ids[i], Dest: ids[j]})
				edge[i][j] = true
				total++
			}
		}
	}
	for i := range ids {
		got := g.GetNode(ids[i])
		vx.Assert(got != nil && got.Data == datas[i], "a graph node is not found")
	}
	d := vx.ReadDot(types.GraphToDOT(g))
	vx.Assert(d.Valid, "the graph is not rendered as a DOT document")
	vx.Assert(len(d.Order) == n, "the DOT document has other nodes than the graph")
	name := map[string]int{}
	for _, x := range d.Order {
		hit := -1
		for i := range ids {
			if unquote(x) == ids[i] {
				hit = i
			}
		}
		vx.Assert(hit >= 0, "a node of the DOT document is not in the graph")
		vx.Assert(unquote(d.Nodes[x]) == datas[hit], "a node of the DOT document does not show its data")
		name[x] = hit
	}
	vx.Assert(len(d.Edges) == total, "the DOT document has other edges than the graph")
	for _, e := range d.Edges {
		i, ok := name[e.Src]
		j, ok2 := name[e.Dst]
		vx.Assert(ok && ok2 && edge[i][j], "an edge of the DOT document is not in the graph")
		edge[i][j] = false
	}
	vx.Reach("rendered")
}

// GraphText: nodes and edges are told apart whatever their ids, also empty ones and ones which join alike, and a node
// whose data is the zero value exists.
func GraphText() {
	g := types.New[string]()
	var ids, datas []string
	for i := 0; i < 2; i++ {
		k := "n" + string(rune('0'+i))
		id, d := vx.StringOf(k+".id", 0, 2, "a/ "), vx.StringOf(k+".data", 0, 1, "d")
		g.SetNode(id, d)
		same := -1
		for j := range ids {
			if ids[j] == id {
				same = j
			}
		}
		if same >= 0 {
			datas[same] = d
		} else {
			ids, datas = append(ids, id), append(datas, d)
		}
	}
	x := vx.StringOf("x", 0, 2, "a/ ")
	y := vx.StringOf("y", 0, 2, "a/ ")
	find := func(s string) int {
		for i := range ids {
			if ids[i] == s {
				return i
			}
		}
		return -1
	}
	i, j := find(x), find(y)
	err := g.SetEdge(x, y)
	vx.Assert((err == nil) == (i >= 0 && j >= 0), "an edge is accepted exactly when both of its nodes exist")
	for _, s := range []string{x, y} {
		o := g.GetNode(s)
		k := find(s)
		vx.Assert(o.IsEmpty() == (k < 0), "a node is found exactly when it was set")
		if k >= 0 {
			vx.Assert(vx.StrEq(o.Value(), datas[k]), "a node has other data than was set last")
		}
	}
	for k := range ids {
		var out, in []string
		if err == nil && k == i {
			out = append(out, datas[j])
		}
		if err == nil && k == j {
			in = append(in, datas[i])
		}
		sameSet(g.GetSucessors(ids[k]), out, "the successors of a node are not the targets of its edges")
		sameSet(g.GetAncestors(ids[k]), in, "the ancestors of a node are not the sources of its edges")
	}
	if err == nil {
		vx.Reach("edge")
	} else {
		vx.Reach("missing")
	}
}

// GraphLarge: chains, stars and complete graphs of many nodes.
func GraphLarge() {
	n := vx.Param("n", 40, 110)
	num := strconv.Itoa
	shape := pick("shape", 4)
	gap := pick("gap", 3) * (n - 1) / 2
	has := func(i, j int) bool {
		if i == gap && j == (gap+1)%n {
			return false
		}
		switch shape {
		case 0:
			return j == (i+1)%n
		case 1:
			return i == 0
		case 2:
			return j == n-1
		}
		return true
	}
	g, d := types.New[string](), types.NewMapDiGraph()
	for i := 0; i < n; i++ {
		g.SetNode(num(i), "old")
		d.AddNode(&types.GraphNode{Id: num(i), Data: "n" + num(i)})
	}
	total := 0
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if has(i, j) {
				vx.Assert(g.SetEdge(num(i), num(j)) == nil, "an edge between existing nodes is refused")
				d.AddEdge(&types.GraphEdge{Source: num(i), Dest: num(j)})
				total++
			}
		}
	}
	for i := 0; i < n; i++ {
		g.SetNode(num(i), "n"+num(i))
	}
	for i := 0; i < n; i++ {
		var out, in []string
		for j := 0; j < n; j++ {
			if has(i, j) {
				out = append(out, "n"+num(j))
			}
			if has(j, i) {
				in = append(in, "n"+num(j))
			}
		}
		sameSet(g.GetSucessors(num(i)), out, "the successors of a node are not the targets of its edges")
		sameSet(g.GetAncestors(num(i)), in, "the ancestors of a node are not the sources of its edges")
	}
	doc := vx.ReadDot(types.GraphToDOT(d))
	vx.Assert(doc.Valid && len(doc.Order) == n && len(doc.Edges) == total, "the DOT document has other nodes or edges than the graph")
	for _, e := range doc.Edges {
		i, err1 := strconv.Atoi(unquote(e.Src))
		j, err2 := strconv.Atoi(unquote(e.Dst))
		vx.Assert(err1 == nil && err2 == nil && has(i, j), "an edge of the DOT document is not in the graph")
	}
}
