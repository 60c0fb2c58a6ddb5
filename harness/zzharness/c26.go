package zzharness

import (
	"strconv"
	"strings"

	"github.com/sourcenetwork/zanzi/pkg/api"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

// What a node of an explanation states.
const (
	bad     = iota // not what policy and relationships give at this place, or it does not follow from the nodes below
	yes            // SUCCESS
	no             // FAILURE
	open_          // UNKNOWN: not looked at
	circled        // UNKNOWN: met again on its own path
)

func stated(label string) int {
	switch {
	case strings.Contains(label, "result: SUCCESS"):
		return yes
	case strings.Contains(label, "result: FAILURE"):
		return no
	case strings.Contains(label, "result: UNKNOWN"):
		return open_
	}
	return bad
}

// step: node n of the explanation shows subject s, reached for the reason given.
func (w *world) step(t *dotTree, n string, s subj, reason string, trail []subj) int {
	l := t.label(n)
	if !strings.Contains(l, "PathNode") || !strings.Contains(l, s.pretty()) || !strings.Contains(l, reason) {
		return bad
	}
	res, kids := stated(l), t.kids(n)
	if s.kind != sSet {
		if len(kids) != 0 {
			return bad
		}
		found := vx.StrEq(s.res, w.sres)
		if s.kind == sEntity {
			found = vx.And(found, vx.StrEq(s.id, w.sid))
		}
		if res == yes && !found || res == no && found {
			return bad
		}
		return res
	}
	for _, x := range trail {
		if x.eq(s) {
			if len(kids) != 0 || res != open_ {
				return bad
			}
			return circled
		}
	}
	if len(kids) == 0 && res == open_ {
		return open_
	}
	if len(kids) != 1 {
		return bad
	}
	for j, r := range w.rels {
		if vx.StrEq(r, s.rel) {
			if w.follows(t, kids[0], w.exprs[j], s, append(append([]subj{}, trail...), s)) != res {
				return bad
			}
			return res
		}
	}
	return bad
}

// follows: node n shows the expression e of s, with a result which follows from the nodes below.
func (w *world) follows(t *dotTree, n string, e *expr, s subj, trail []subj) int {
	kids := t.kids(n)
	kind := "ORNode"
	if e.kind == eOp && e.op == opInter {
		kind = "ANDNode"
	} else if e.kind == eOp && e.op == opDiff {
		kind = "DifferenceNode"
	}
	res := stated(t.label(n))
	if !strings.Contains(t.label(n), kind) {
		return bad
	}
	if e.kind == eOp {
		if len(kids) != 2 {
			return bad
		}
		a, b := w.follows(t, kids[0], e.l, s, trail), w.follows(t, kids[1], e.r, s, trail)
		if (a == bad || b == bad) && !t.ordered {
			b, a = w.follows(t, kids[0], e.r, s, trail), w.follows(t, kids[1], e.l, s, trail)
		}
		ok := res == open_
		switch {
		case a == bad || b == bad:
			return bad
		case res == open_:
		case e.op == opUnion:
			ok = res == yes && (a == yes || b == yes) || res == no && a == no && b == no
		case e.op == opInter:
			ok = res == yes && a == yes && b == yes || res == no && (a == no || b == no)
		default:
			ok = res == yes && a == yes && b == no || res == no && (a == no || b == yes)
		}
		if !ok {
			return bad
		}
		return res
	}
	var want []subj
	reason := "This"
	switch e.kind {
	case eCU:
		reason = "Computed Userset: " + e.x
		want = append(want, subj{sSet, s.res, s.id, e.x})
	default:
		rl := s.rel
		if e.kind == eTTU {
			reason = "Tuple To Userset: " + e.x + " " + e.y
			rl = e.x
		}
		var seen []subj
		for _, f := range w.facts {
			dup := !w.from(f, s.id, rl)
			for _, y := range seen {
				dup = dup || y.eq(f.s)
			}
			if dup {
				continue
			}
			seen = append(seen, f.s)
			if e.kind == eTTU {
				want = append(want, subj{sSet, f.s.res, f.s.id, e.y})
			} else {
				want = append(want, f.s)
			}
		}
	}
	if len(want) != len(kids) {
		return bad
	}
	used := make([]bool, len(kids))
	hit, left := false, false
	for _, x := range want {
		r := bad
		for i, k := range kids {
			if !used[i] && r == bad {
				if r = w.step(t, k, x, reason, trail); r != bad {
					used[i] = true
				}
			}
		}
		if r == bad {
			return bad
		}
		hit = hit || r == yes
		left = left || r == open_
	}
	if res == yes && !hit || res == no && (hit || left) {
		return bad
	}
	return res
}

func prove(w *world) {
	z := newSys()
	vx.Assume(!w.dangling())
	z.create(w.policy("p"))
	for _, f := range w.facts {
		z.mustSet("p", f)
	}
	format := api.ExplainFormat_DOT
	if vx.Bool("json") {
		format = api.ExplainFormat_JSON
	}
	ex, err := z.explain("p", "r", "1", "a", w.sres, w.sid, format)
	vx.Assert(err == nil, "explain fails on a valid policy and valid relationships")
	var t *dotTree
	if format == api.ExplainFormat_DOT {
		t = &dotTree{d: vx.ReadDot(ex.GoalTree)}
	} else {
		t = jsonTree(ex.GoalTree)
	}
	tops := t.kids("root")
	vx.Assert(t.d.Valid && len(tops) == 1, "the explanation is not one tree")
	got := w.step(t, tops[0], subj{sSet, "r", "1", "a"}, "Request", nil)
	vx.Assert(got == yes || got == no, "a step of the explanation is not what the policy and the relationships give, or does not follow from those below it")
	vx.Assert(ex.Authorized == (got == yes), "the explanation proves another verdict")
	if got == yes {
		vx.Reach("granted")
	} else {
		vx.Reach("denied")
	}
}

// ProveRec: all operators, usersets, wildcards and cycles.
func ProveRec() {
	w := &world{res: "r", ids: chars("12"), rels: chars("ab"), sres: "u", sid: "x"}
	w.exprs = []*expr{symOp("o1", symLeaf("l1", 2, "ab"), symLeaf("l2", 2, "ab")), symLeaf("l3", vx.Param("brules", 1, 2), "ab")}
	for i := 0; i < vx.Param("facts", 2, 3); i++ {
		w.facts = append(w.facts, symFact("f"+string(rune('0'+i)), "12", "ab", sEntity, sSet, sWildcard))
	}
	prove(w)
}

// ProveTTU: tuple-to-userset rules.
func ProveTTU() {
	w := &world{res: "r", ids: chars("12"), rels: chars("ab"), sres: "r", sid: "2"}
	w.exprs = []*expr{symOp("o1", symLeaf("l1", 2, "ab"), &expr{kind: eTTU, x: "b", y: vx.StringOf("y", 1, 1, "ab")}), {kind: eThis}}
	for i := 0; i < vx.Param("facts", 2, 3); i++ {
		n := "f" + string(rune('0'+i))
		f := symFact(n, "12", "ab", sSet, sEntity)
		if f.s.kind == sEntity {
			f.s.res, f.s.id = "r", vx.StringOf(n+".oid", 1, 1, "12")
		}
		w.facts = append(w.facts, f)
	}
	prove(w)
}

// ProveOps: nested operators.
func ProveOps() {
	w := &world{res: "r", ids: chars("1"), rels: chars("abc"), sres: "u", sid: "x"}
	l1, l2, l3 := symLeaf("l1", 2, "bc"), symLeaf("l2", 2, "bc"), symLeaf("l3", 2, "bc")
	var e *expr
	if vx.Bool("leftdeep") {
		e = symOp("o2", symOp("o1", l1, l2), l3)
	} else {
		e = symOp("o2", l1, symOp("o1", l2, l3))
	}
	w.exprs = []*expr{e, {kind: eThis}, {kind: eThis}}
	for i := 0; i < vx.Param("facts", 2, 3); i++ {
		w.facts = append(w.facts, symFact("f"+string(rune('0'+i)), "1", "abc", sEntity, sWildcard))
	}
	prove(w)
}

// ProveLarge: long chains and wide sets.
func ProveLarge() {
	n := vx.Param("n", 24, 60)
	w := &world{res: "r", rels: chars("ab"), sres: "u", sid: "x", exprs: []*expr{symOp("o", &expr{kind: eThis}, &expr{kind: eCU, x: "b"}), {kind: eThis}}}
	num := strconv.Itoa
	shape := pick("shape", 3)
	gap := pick("gap", 4) * (n - 1) / 3
	for i := 0; i < n; i++ {
		f := rel{"r", num(i + 1), "a", subj{sSet, "r", num(i + 2), "a"}}
		switch shape {
		case 1:
			f = rel{"r", "1", "a", subj{sEntity, "u", num(i), ""}}
			if i == gap {
				f.s.id = "x"
			}
		case 2:
			f = rel{"r", "1", "a", subj{sSet, "r", num(i + 2), "b"}}
		}
		if shape == 1 || i != gap || vx.Bool("all") {
			w.facts = append(w.facts, f)
		}
	}
	w.facts = append(w.facts, rel{"r", num(n + 1), oneName("endrel", "a", "b"), subj{sEntity, "u", "x", ""}})
	if vx.Bool("b") {
		w.facts = append(w.facts, rel{"r", "1", "b", subj{sWildcard, "u", "", ""}})
	}
	if vx.Bool("cycle") {
		w.facts = append(w.facts, rel{"r", num(n / 2), "a", subj{sSet, "r", "1", "a"}})
	}
	prove(w)
}
