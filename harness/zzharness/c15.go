package zzharness

import (
	"strconv"

	"github.com/sourcenetwork/zanzi/pkg/api"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

func (z *sys) dump(policy string) string {
	resp, err := z.gr.DumpRelationships(ctx, &api.DumpRelationshipsRequest{PolicyId: policy})
	vx.Assert(err == nil, "dumping the relationships of a policy fails")
	d, ok := resp.Dump.(*api.DumpRelationshipResponse_Dot)
	vx.Assert(ok, "the dump is not a DOT document")
	return d.Dot
}

// dumps asserts that the dump shows exactly the relationships.
func dumps(z *sys, policy string, rs []rel) {
	var nodes []subj
	var edges []rel
	index := func(s subj) int {
		for i, n := range nodes {
			if n.eq(s) {
				return i
			}
		}
		nodes = append(nodes, s)
		return len(nodes) - 1
	}
	for _, r := range rs {
		dup := false
		for _, e := range edges {
			dup = dup || e.eq(r)
		}
		if !dup {
			edges = append(edges, r)
			index(subj{sSet, r.res, r.id, r.rel})
			index(r.s)
		}
	}
	d := vx.ReadDot(z.dump(policy))
	vx.Assert(d.Valid, "the dump is not a DOT document")
	root, shown := "", []string{}
	labels := []string{}
	for _, n := range d.Order {
		l := unquote(d.Nodes[n])
		if l == "root" {
			vx.Assert(root == "", "the dump has several roots")
			root = n
			continue
		}
		shown, labels = append(shown, n), append(labels, l)
	}
	vx.Assert(root != "", "the dump has no root")
	vx.Assert(len(shown) >= len(nodes), "the dump omits a node of a relationship")
	vx.Assert(len(shown) <= len(nodes), "the dump shows a node which no relationship has")
	ends := make([][2]int, len(edges))
	for i, r := range edges {
		ends[i] = [2]int{index(subj{sSet, r.res, r.id, r.rel}), index(r.s)}
	}
	// nodes may look alike: any way to match them which fits the edges will do
	names := make([]string, len(nodes))
	used := make([]bool, len(shown))
	why := ""
	var match func(i int) bool
	match = func(i int) bool {
		if i == len(nodes) {
			why = fits(d, root, names, ends)
			return why == ""
		}
		for k, n := range shown {
			if !used[k] && labels[k] == nodes[i].pretty() {
				used[k], names[i] = true, n
				if match(i + 1) {
					return true
				}
				used[k] = false
			}
		}
		return false
	}
	if !match(0) {
		if why == "" {
			why = "the dump shows another node than the relationships have"
		}
		vx.Assert(false, why)
	}
}

// fits: the edges of the document are the relationships, between the nodes so named, and the root reaches every node.
func fits(d *vx.Dot, root string, names []string, ends [][2]int) string {
	reached := map[string]bool{root: true}
	used := make([]bool, len(ends))
	for _, e := range d.Edges {
		if e.Src == root {
			reached[e.Dst] = true
			continue
		}
		hit := false
		for i, r := range ends {
			if !used[i] && !hit && names[r[0]] == e.Src && names[r[1]] == e.Dst {
				used[i], hit = true, true
			}
		}
		if !hit {
			return "the dump shows an edge which is not a relationship, or shows one twice"
		}
	}
	for i := range used {
		if !used[i] {
			return "the dump omits a relationship"
		}
	}
	for more := true; more; {
		more = false
		for _, e := range d.Edges {
			if reached[e.Src] && !reached[e.Dst] {
				reached[e.Dst], more = true, true
			}
		}
	}
	for _, n := range names {
		if !reached[n] {
			return "a node of the dump cannot be reached from its root"
		}
	}
	return ""
}

// DumpShapes: dumps of arbitrary relationships including cycles, shared nodes and other policies.
func DumpShapes() {
	z := newSys()
	w := &world{res: "r", ids: chars("12"), rels: chars("ab"), exprs: []*expr{{kind: eThis}, {kind: eThis}}}
	z.create(w.policy("p"))
	z.create(w.policy("q"))
	z.mustSet("q", rel{"r", "9", "a", subj{sEntity, "u", "x", ""}})
	n := vx.ConcreteInt(vx.Int("n", 0, vx.Param("facts", 3, 4)))
	var rs []rel
	for i := 0; i < n; i++ {
		f := symFact("f"+string(rune('0'+i)), "12", "ab", sSet, sEntity, sWildcard)
		if f.s.kind == sWildcard {
			f.s.res = "u"
		}
		if f.s.kind == sEntity {
			f.s.id = "x"
		}
		z.mustSet("p", f)
		rs = append(rs, f)
	}
	dumps(z, "p", rs)
	if n == 0 {
		vx.Reach("empty")
	} else {
		vx.Reach("some")
	}
}

// DumpText: names with any character appear in a well-formed dump, and nodes whose names run into one another stay apart.
func DumpText() {
	z := newSys()
	z.create(plainPolicy("p"))
	var rs []rel
	for i := 0; i < 2; i++ {
		n := "f" + string(rune('0'+i))
		f := rel{"r", vx.StringOf(n+".id", 1, 2, "a\"\\\n,}"), "a", subj{sEntity, "u", vx.StringOf(n+".sid", 1, 1, "a\"\\*"), ""}}
		if vx.Bool(n + ".set") {
			f.s = subj{sSet, "r", f.s.id, "a"}
		}
		z.mustSet("p", f)
		rs = append(rs, f)
	}
	dumps(z, "p", rs)
	pol := vx.StringOf("policy", 1, 1, "pq")
	format := vx.ConcreteInt(vx.Int("format", 0, 1))
	_, err := z.gr.DumpRelationships(ctx, &api.DumpRelationshipsRequest{PolicyId: pol, Format: api.DumpRelationshipsRequest_DumpFormat(format)})
	vx.Assert(vx.Iff(err == nil, vx.And(vx.StrEq(pol, "p"), format == 0)), "a dump is answered exactly when policy and format exist")
}

// DumpStars: entities named * and wildcards look alike and stay apart.
func DumpStars() {
	z := newSys()
	z.create(plainPolicy("p"))
	var rs []rel
	for i := 0; i < vx.Param("facts", 3, 4); i++ {
		n := "f" + string(rune('0'+i))
		f := rel{"r", vx.StringOf(n+".id", 1, 1, "1*"), "a", subj{2 * pick(n+".wild", 2), "u", "", ""}}
		if f.s.kind == sEntity {
			f.s.id = "*"
		}
		z.mustSet("p", f)
		rs = append(rs, f)
	}
	dumps(z, "p", rs)
}

// DumpLarge: dumps of long chains, cycles and wide sets.
func DumpLarge() {
	z := newSys()
	z.create(plainPolicy("p"))
	n := vx.Param("n", 260, 520)
	num := strconv.Itoa
	var rs []rel
	shape := pick("shape", 4)
	gap := pick("gap", 4) * (n - 1) / 3
	all := vx.Bool("all")
	for i := 0; i < n; i++ {
		f := rel{"r", num(i), "a", subj{sSet, "r", num(i + 1), "a"}}
		switch shape {
		case 1:
			f.s.id = num((i + 1) % n)
		case 2:
			f = rel{"r", "0", "a", subj{sEntity, "u", num(i), ""}}
		case 3:
			f = rel{"r", num(i), "b", subj{sEntity, "u", "0", ""}}
		}
		if i != gap || all {
			z.mustSet("p", f)
			rs = append(rs, f)
		}
	}
	dumps(z, "p", rs)
}

// DumpOrphans: relationships which an updated policy no longer permits are dumped like the others.
func DumpOrphans() {
	z := newSys()
	z.create(selectorPolicy("p"))
	var rs []rel
	for i := 0; i < vx.Param("facts", 2, 3); i++ {
		n := "f" + string(rune('0'+i))
		r := rel{"r", vx.StringOf(n+".id", 1, 1, "12"), oneName(n+".rel", "a", "b"), symSubj(n + ".s")}
		z.mustSet("p", r)
		rs = append(rs, r)
	}
	z.update(shrunk("p"))
	dumps(z, "p", rs)
}
