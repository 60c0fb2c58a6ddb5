package zzharness

import (
	"strconv"
	"strings"

	"github.com/sourcenetwork/zanzi/pkg/api"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

// dotTree is a DOT document as a tree.
type dotTree struct {
	d       *vx.Dot
	ordered bool // the document states the order of the branches
}

func (t *dotTree) kids(n string) []string {
	var out []string
	for _, e := range t.d.Edges {
		if e.Src == n {
			out = append(out, e.Dst)
		}
	}
	return out
}

// unquote reads a quoted DOT string.
func unquote(s string) string {
	if len(s) < 2 || s[0] != '"' {
		return s
	}
	out := ""
	for i := 1; i < len(s)-1; i++ {
		if s[i] == '\\' {
			i++
		}
		out += s[i : i+1]
	}
	return out
}

// jsonTree reads a goal tree in JSON as the same tree in DOT.
func jsonTree(doc string) *dotTree {
	j := vx.ReadJSON(doc)
	vx.Assert(j != nil, "the JSON explanation is not a JSON document")
	t := &dotTree{ordered: true, d: &vx.Dot{Valid: true, Nodes: map[string]string{"root": ""}, Order: []string{"root"}}}
	t.json("root", j)
	return t
}

func (t *dotTree) json(parent string, j *vx.Json) {
	if j == nil || j.Kind == vx.JNull {
		return
	}
	vx.Assert(j.Kind == vx.JObj, "a node of the JSON explanation is not an object")
	id := strconv.Itoa(len(t.d.Order))
	t.d.Order = append(t.d.Order, id)
	t.d.Edges = append(t.d.Edges, vx.DotEdge{Src: parent, Dst: id})
	result := "\nresult: " + j.Get("Result").String()
	if n := j.Get("RelationNode"); n != nil {
		var s subj
		node := n.Get("Node")
		if e := node.Get("EntitySet"); e != nil {
			s = subj{sSet, e.Get("object").Get("resource").String(), e.Get("object").Get("id").String(), e.Get("relation").String()}
		} else if e := node.Get("Entity"); e != nil {
			s = subj{sEntity, e.Get("object").Get("resource").String(), e.Get("object").Get("id").String(), ""}
		} else {
			s = subj{kind: sWildcard, res: node.Get("Wildcard").Get("resource").String()}
		}
		t.d.Nodes[id] = "PathNode " + s.pretty() + "\nreason: " + j.Get("Reason").String() + result
		t.json(id, j.Get("Path"))
		return
	}
	if l := j.Get("Left"); l != nil {
		t.d.Nodes[id] = "DifferenceNode" + result
		t.json(id, l)
		t.json(id, j.Get("Right"))
		return
	}
	// conjunction and disjunction look alike
	t.d.Nodes[id] = "ORNode ANDNode" + result
	vx.Assert(j.Get("Paths") != nil, "a node of the JSON explanation has no branches")
	for _, k := range j.Get("Paths").List() {
		t.json(id, k)
	}
}

func (t *dotTree) label(n string) string { return t.d.Nodes[n] }

// path: dot node n shows exactly the expansion of the subject s.
func (w *world) path(t *dotTree, n string, s subj, trail []subj) bool {
	if !strings.Contains(t.label(n), s.pretty()) {
		return false
	}
	kids := t.kids(n)
	if s.kind != sSet {
		return len(kids) == 0
	}
	for _, x := range trail {
		if x.eq(s) {
			return len(kids) == 0 // a cycle is not entered again
		}
	}
	if len(kids) != 1 {
		return false
	}
	for j, r := range w.rels {
		if r == s.rel {
			return w.shows(t, kids[0], w.exprs[j], s, append(append([]subj{}, trail...), s))
		}
	}
	return false
}

// shows: dot node n shows the expansion of the expression e of s.
func (w *world) shows(t *dotTree, n string, e *expr, s subj, trail []subj) bool {
	kids := t.kids(n)
	kind := "ORNode"
	if e.kind == eOp && e.op == opInter {
		kind = "ANDNode"
	} else if e.kind == eOp && e.op == opDiff {
		kind = "DifferenceNode"
	}
	if !strings.Contains(t.label(n), kind) {
		return false
	}
	if e.kind == eOp {
		if len(kids) != 2 {
			return false
		}
		return w.shows(t, kids[0], e.l, s, trail) && w.shows(t, kids[1], e.r, s, trail) ||
			!t.ordered && w.shows(t, kids[1], e.l, s, trail) && w.shows(t, kids[0], e.r, s, trail)
	}
	var want []subj
	add := func(x subj) {
		for _, y := range want {
			if y.eq(x) {
				return
			}
		}
		want = append(want, x)
	}
	switch e.kind {
	case eCU:
		add(subj{sSet, s.res, s.id, e.x})
	case eThis:
		for _, f := range w.facts {
			if w.from(f, s.id, s.rel) {
				add(f.s)
			}
		}
	case eTTU:
		seen := []subj{}
		for _, f := range w.facts {
			if w.from(f, s.id, e.x) {
				dup := false
				for _, y := range seen {
					dup = dup || y.eq(f.s)
				}
				if !dup {
					seen = append(seen, f.s)
					want = append(want, subj{sSet, f.s.res, f.s.id, e.y})
				}
			}
		}
	}
	if len(want) != len(kids) {
		return false
	}
	used := make([]bool, len(kids))
	for _, x := range want {
		hit := false
		for i, k := range kids {
			if !used[i] && !hit && w.path(t, k, x, trail) {
				used[i], hit = true, true
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

func expandOf(w *world) {
	z := newSys()
	vx.Assume(!w.dangling())
	z.create(w.policy("p"))
	for _, f := range w.facts {
		z.mustSet("p", f)
	}
	root := subj{sSet, "r", "1", "a"}
	resp, err := z.gr.Expand(ctx, &api.ExpandRequest{PolicyId: "p", Root: root.node(), Format: api.ExplainFormat_DOT})
	vx.Assert(err == nil, "expand fails on a valid policy and valid relationships")
	vx.Assert(resp.Format == api.ExplainFormat_DOT, "the expansion does not state its format")
	verdictOf(resp.GoalTree)
	t := &dotTree{d: vx.ReadDot(resp.GoalTree)}
	tops := t.kids("root")
	vx.Assert(w.path(t, tops[0], root, nil), "the expansion does not show exactly the set operations and members of the relation")
	resp, err = z.gr.Expand(ctx, &api.ExpandRequest{PolicyId: "p", Root: root.node(), Format: api.ExplainFormat_JSON})
	vx.Assert(err == nil, "expand fails on a valid policy and valid relationships")
	vx.Assert(resp.Format == api.ExplainFormat_JSON, "the expansion does not state its format")
	t = jsonTree(resp.GoalTree)
	vx.Assert(w.path(t, t.kids("root")[0], root, nil), "the JSON expansion does not show exactly the set operations and members of the relation")
	if len(t.d.Order) > 6 {
		vx.Reach("deep")
	} else {
		vx.Reach("shallow")
	}
}

// ExpandRec: expansions with all operators, usersets and cycles.
func ExpandRec() {
	w := &world{res: "r", ids: chars("12"), rels: chars("ab"), sres: "u", sid: "x"}
	w.exprs = []*expr{symOp("o1", symLeaf("l1", 2, "ab"), symLeaf("l2", 2, "ab")), symLeaf("l3", vx.Param("brules", 1, 2), "ab")}
	for i := 0; i < vx.Param("facts", 2, 3); i++ {
		w.facts = append(w.facts, symFact("f"+string(rune('0'+i)), "12", "ab", sEntity, sSet))
	}
	expandOf(w)
}

// ExpandTTU: expansions through tuple-to-userset rules.
func ExpandTTU() {
	w := &world{res: "r", ids: chars("12"), rels: chars("ab"), sres: "u", sid: "x"}
	w.exprs = []*expr{symOp("o1", symLeaf("l1", 3, "ab"), &expr{kind: eTTU, x: "b", y: vx.StringOf("y", 1, 1, "ab")}), {kind: eThis}}
	for i := 0; i < vx.Param("facts", 2, 3); i++ {
		n := "f" + string(rune('0'+i))
		f := symFact(n, "12", "ab", sSet, sEntity)
		if f.s.kind == sEntity {
			f.s.res, f.s.id = "r", vx.StringOf(n+".oid", 1, 1, "12")
		}
		w.facts = append(w.facts, f)
	}
	expandOf(w)
}

// ExpandLeaf: the expansion of an entity or a wildcard is that node; every format is served, others are rejected.
func ExpandLeaf() {
	z := newSys()
	z.create(plainPolicy("p"))
	z.mustSet("p", rel{"r", "1", "a", subj{sEntity, "u", "x", ""}})
	s := subj{kind: vx.ConcreteInt(vx.Int("kind", 0, 2)), res: vx.StringOf("res", 1, 1, "ru")}
	if s.kind != sWildcard {
		s.id = vx.StringOf("id", 1, 1, "12")
	}
	if s.kind == sSet {
		s.rel = vx.StringOf("rel", 1, 1, "az")
	}
	format := api.ExplainFormat(vx.ConcreteInt(vx.Int("format", 0, 3)))
	pol := vx.StringOf("policy", 1, 1, "pq")
	resp, err := z.gr.Expand(ctx, &api.ExpandRequest{PolicyId: pol, Root: s.node(), Format: format})
	ok := vx.And(format <= 2, vx.StrEq(pol, "p"))
	if s.kind == sSet {
		ok = vx.And(ok, vx.StrEq(s.res, "r"), vx.StrEq(s.rel, "a"))
	}
	vx.Assert(vx.Iff(err == nil, ok), "expand is answered exactly when policy, relation and format exist")
	if err != nil {
		vx.Reach("rejected")
		return
	}
	vx.Assert(resp.Format == format && len(resp.GoalTree) > 0, "the expansion is empty or states another format")
	vx.Reach("answered")
	if format == api.ExplainFormat_DOT && s.kind != sSet {
		t := &dotTree{d: vx.ReadDot(resp.GoalTree)}
		tops := t.kids("root")
		vx.Assert(t.d.Valid && len(tops) == 1 && len(t.kids(tops[0])) == 0 && strings.Contains(t.label(tops[0]), s.pretty()),
			"the expansion of a leaf is not that leaf")
	}
}

// ExpandLarge: expansions of long chains and wide sets.
func ExpandLarge() {
	n := vx.Param("n", 40, 70)
	w := &world{res: "r", rels: chars("ab"), exprs: []*expr{symOp("o", &expr{kind: eThis}, &expr{kind: eCU, x: "b"}), {kind: eThis}}}
	num := strconv.Itoa
	gap := pick("gap", 4) * (n - 1) / 3
	shape := pick("shape", 4)
	for i := 0; i < n; i++ {
		f := rel{"r", num(i + 1), "a", subj{sSet, "r", num(i + 2), "a"}}
		switch shape {
		case 1:
			f = rel{"r", "1", "a", subj{sEntity, "u", num(i), ""}}
		case 2:
			f = rel{"r", "1", "b", subj{sSet, "r", num(i), "b"}}
		case 3:
			f.rel, f.s.rel = "b", "b"
			if i == 0 {
				f.rel = "a"
			}
		}
		if i != gap || vx.Bool("all") {
			w.facts = append(w.facts, f)
		}
	}
	if vx.Bool("cycle") {
		w.facts = append(w.facts, rel{"r", num(n + 1), "a", subj{sSet, "r", num(n / 2), "a"}})
	}
	expandOf(w)
}
