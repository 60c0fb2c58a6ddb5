package zzharness

import (
	"strconv"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

// symFact is an arbitrary relationship on resource r: kinds of subject as given.
func symFact(name, ids, rels string, kinds ...int) rel {
	f := rel{res: "r", id: vx.StringOf(name+".id", 1, 1, ids), rel: vx.StringOf(name+".rel", 1, 1, rels)}
	k := kinds[0]
	if len(kinds) > 1 {
		k = kinds[vx.ConcreteInt(vx.Int(name+".kind", 0, len(kinds)-1))]
	}
	f.s.kind = k
	switch k {
	case sEntity:
		f.s.res, f.s.id = "u", vx.StringOf(name+".sid", 1, 1, "xy")
	case sSet:
		f.s.res, f.s.id, f.s.rel = "r", vx.StringOf(name+".sid", 1, 1, ids), vx.StringOf(name+".srel", 1, 1, rels)
	default:
		f.s.res = vx.StringOf(name+".sres", 1, 1, "ur")
	}
	return f
}

func chars(s string) []string {
	var out []string
	for i := range s {
		out = append(out, s[i:i+1])
	}
	return out
}

func decide(w *world, strata int) {
	z := newSys()
	vx.Assume(vx.And(w.stratified(), !w.dangling()))
	z.create(w.policy("p"))
	for _, f := range w.facts {
		z.mustSet("p", f)
	}
	got, err := z.check("p", "r", w.ids[0], w.rels[0], w.sres, w.sid)
	vx.Assert(err == nil, "check fails on a valid policy and valid relationships")
	want := w.model(strata)[0]
	vx.Observe("verdict", got)
	if got {
		vx.Reach("granted")
	} else {
		vx.Reach("denied")
	}
	vx.Assert(vx.Iff(got, want), "check disagrees with the set semantics of the policy")
}

// CheckExpr: one relation with an arbitrary three-leaf expression over two plain relations.
func CheckExpr() {
	w := &world{res: "r", ids: chars("1"), rels: chars("abc"), sres: "u", sid: "x"}
	l1, l2, l3 := symLeaf("l1", 2, "bc"), symLeaf("l2", 2, "bc"), symLeaf("l3", 2, "bc")
	var e *expr
	if vx.Bool("leftdeep") {
		e = symOp("o2", symOp("o1", l1, l2), l3)
	} else {
		e = symOp("o2", l1, symOp("o1", l2, l3))
	}
	w.exprs = []*expr{e, {kind: eThis}, {kind: eThis}}
	for i := 0; i < vx.Param("facts", 2, 3); i++ {
		w.facts = append(w.facts, symFact("f"+string(rune('0'+i)), "1", "abc", sEntity, sWildcard))
	}
	decide(w, 1)
}

// CheckRec: chains and cycles of relationships and computed usersets.
func CheckRec() {
	w := &world{res: "r", ids: chars("12"), rels: chars("ab"), sres: "u", sid: "x"}
	ea := symOp("o1", symLeaf("l1", 2, "ab"), symLeaf("l2", 2, "ab"))
	eb := symLeaf("l3", 2, "ab")
	w.exprs = []*expr{ea, eb}
	for i := 0; i < vx.Param("facts", 2, 3); i++ {
		w.facts = append(w.facts, symFact("f"+string(rune('0'+i)), "12", "ab", sEntity, sSet))
	}
	decide(w, 2)
}

// CheckTTU: tuple-to-userset rules.
func CheckTTU() {
	w := &world{res: "r", ids: chars("12"), rels: chars("ab"), sres: "r", sid: "2"}
	ea := symOp("o1", symLeaf("l1", 3, "ab"), symLeaf("l2", 3, "ab"))
	w.exprs = []*expr{ea, {kind: eThis}}
	for i := 0; i < vx.Param("facts", 2, 3); i++ {
		n := "f" + string(rune('0'+i))
		f := symFact(n, "12", "ab", sSet, sEntity)
		if f.s.kind == sEntity {
			f.s.res, f.s.id = "r", vx.StringOf(n+".oid", 1, 1, "12")
		}
		w.facts = append(w.facts, f)
	}
	decide(w, 2)
}

func oneName(name string, of ...string) string {
	return of[vx.ConcreteInt(vx.Int(name, 0, len(of)-1))]
}

// CheckMutual: relations which refer to one another in every way, so that a node is met both inside and outside of a
// cycle.  One object; a, b, c have operators over computed usersets, d is direct.
func CheckMutual() {
	w := &world{res: "r", ids: chars("1"), rels: chars("abcd"), sres: "u", sid: "x"}
	two := func(n, rels string, ops int) *expr {
		return &expr{kind: eOp, op: vx.ConcreteInt(vx.Int(n, 0, ops)), l: &expr{kind: eCU, x: vx.StringOf(n+".l", 1, 1, rels)}, r: &expr{kind: eCU, x: vx.StringOf(n+".r", 1, 1, rels)}}
	}
	k := vx.Param("ops", 1, 2)
	w.exprs = []*expr{two("a", "bc", 2), two("b", "bcd", k), two("c", "bcd", k), {kind: eThis}}
	w.facts = append(w.facts, rel{"r", "1", vx.StringOf("rel", 1, 1, "cd"), subj{sEntity, "u", "x", ""}})
	decide(w, 2)
}

// CheckNames: direct relationships whose names, ids and relations extend one another or look like wildcards and
// separators.
func CheckNames() {
	z := newSys()
	names := []string{"r", "rr", "r/"}
	var rs []*domain.Resource
	for _, n := range names {
		rs = append(rs, resource(n, relation("a", domain.ThisNode()), relation("a/", domain.ThisNode())))
	}
	z.create(&domain.Policy{Id: "p", Resources: rs})
	id := func(n string) string { return vx.StringOf(n, 1, 2, "r*") }
	obj := func(n string) (string, string, string) {
		return oneName(n+".res", names...), id(n + ".id"), oneName(n+".rel", "a", "a/")
	}
	f := rel{s: subj{kind: vx.ConcreteInt(vx.Int("kind", 0, 2))}}
	f.res, f.id, f.rel = obj("f")
	f.s.res = oneName("s.res", names...)
	if f.s.kind != sWildcard {
		f.s.id = id("s.id")
	}
	if f.s.kind == sSet {
		f.s.rel = oneName("s.rel", "a", "a/")
	}
	z.mustSet("p", f)
	// what the userset contains, if it is one
	m := rel{"r", "r", "a", subj{sEntity, "r", "rr", ""}}
	z.mustSet("p", m)
	q := rel{s: subj{kind: sEntity}}
	q.res, q.rel = "r", "a"
	q.id = id("q.id")
	q.s.res, q.s.id = oneName("q.sres", "r", "rr"), "rr"
	got, err := z.check("p", q.res, q.id, q.rel, q.s.res, q.s.id)
	vx.Assert(err == nil, "check fails on a valid policy and valid relationships")
	at := func(r rel) bool { return vx.And(vx.StrEq(r.res, q.res), vx.StrEq(r.id, q.id), vx.StrEq(r.rel, q.rel)) }
	inM := vx.And(vx.StrEq(q.s.res, m.s.res), vx.StrEq(q.s.id, m.s.id))
	inF := false
	switch f.s.kind {
	case sEntity:
		inF = vx.And(vx.StrEq(q.s.res, f.s.res), vx.StrEq(q.s.id, f.s.id))
	case sWildcard:
		inF = vx.StrEq(q.s.res, f.s.res)
	default:
		inF = vx.And(vx.StrEq(f.s.res, m.res), vx.StrEq(f.s.id, m.id), vx.StrEq(f.s.rel, m.rel), inM)
	}
	want := vx.Or(vx.And(at(m), inM), vx.And(at(f), inF))
	vx.Observe("verdict", got)
	if got {
		vx.Reach("granted")
	} else {
		vx.Reach("denied")
	}
	vx.Assert(vx.Iff(got, want), "check disagrees with the set semantics of the policy")
}

// CheckLarge: long chains of usersets, of computed usersets and of tuple-to-userset rules, and wide sets, with one
// link possibly missing or the chain closed to a cycle; asked directly and through an exclusion.
func CheckLarge() {
	z, ask, member, want := largeWorld(vx.Param("n", 110, 260))
	got, err := z.check("p", "r", "0", ask, "u", member)
	vx.Assert(err == nil, "check fails on a valid policy and valid relationships")
	vx.Observe("verdict", got)
	if got {
		vx.Reach("granted")
	} else {
		vx.Reach("denied")
	}
	vx.Assert(got == want, "check on a long chain or wide set disagrees with the set semantics of the policy")
}

// CheckLong: chains of many links, whole or without the last one.
func CheckLong() {
	z, ask, member, want := largeWorld(vx.Param("n", 610, 1030))
	got, err := z.check("p", "r", "0", ask, "u", member)
	vx.Assert(err == nil, "check fails on a valid policy and valid relationships")
	vx.Observe("verdict", got)
	if got {
		vx.Reach("granted")
	} else {
		vx.Reach("denied")
	}
	vx.Assert(got == want, "check on a very long chain disagrees with the set semantics of the policy")
}

// largeWorld returns what to ask of object 0, for which member, and the answer.
func largeWorld(n int) (*sys, string, string, bool) {
	z := newSys()
	num := strconv.Itoa
	long := n > 600 // chains only, whole or without the last link
	top, gaps := 5, 3
	if long {
		top, gaps = 2, 1
	}
	shape := vx.ConcreteInt(vx.Int("shape", 0, top))
	gap := [...]int{-1, n - 1, 0, n / 2}[vx.ConcreteInt(vx.Int("gap", 0, gaps))]
	cycle := !long && vx.Bool("cycle")
	ea := &expr{kind: eThis}
	rels := []*domain.Relation{}
	var fs []rel
	member := subj{sEntity, "u", "x", ""}
	switch shape {
	case 0:
		for i := 0; i < n; i++ {
			fs = append(fs, rel{"r", num(i), "a", subj{sSet, "r", num(i + 1), "a"}})
		}
		fs = append(fs, rel{"r", num(n), "a", member})
	case 1:
		ea = &expr{kind: eCU, x: "a0"}
		for i := 0; i < n; i++ {
			x := "a" + num(i+1)
			if i == gap {
				x = "b"
			}
			rels = append(rels, relation("a"+num(i), (&expr{kind: eCU, x: x}).pb()))
		}
		rels = append(rels, relation("a"+num(n), (&expr{kind: eThis}).pb()))
		fs = append(fs, rel{"r", "0", "a" + num(n), member})
	case 2:
		ea = &expr{kind: eOp, op: opUnion, l: &expr{kind: eTTU, x: "p", y: "a"}, r: &expr{kind: eThis}}
		for i := 0; i < n; i++ {
			fs = append(fs, rel{"r", num(i), "p", subj{sEntity, "r", num(i + 1), ""}})
		}
		fs = append(fs, rel{"r", num(n), "a", member})
	case 3:
		for i := 0; i < n; i++ {
			fs = append(fs, rel{"r", "0", "a", subj{sEntity, "u", num(i), ""}})
		}
		member = subj{sEntity, "u", num(vx.ConcreteInt(vx.Int("member", 0, 2)) * (n - 1) / 2), ""}
	case 4:
		for i := 0; i < n; i++ {
			fs = append(fs, rel{"r", "0", "a", subj{sSet, "r", "g" + num(i), "b"}})
		}
		fs = append(fs, rel{"r", "g" + num(vx.ConcreteInt(vx.Int("member", 0, 2))*(n-1)/2), "b", member})
	default:
		e := &expr{kind: eCU, x: "b0"}
		for i := 1; i < n; i++ {
			if vx.Param("right", 0, 0) == 1 {
				e = &expr{kind: eOp, op: opUnion, l: &expr{kind: eCU, x: "b" + num(i)}, r: e}
			} else {
				e = &expr{kind: eOp, op: opUnion, l: e, r: &expr{kind: eCU, x: "b" + num(i)}}
			}
		}
		ea = e
		for i := 0; i < n; i++ {
			rels = append(rels, relation("b"+num(i), domain.ThisNode()))
		}
		fs = append(fs, rel{"r", "0", "b" + num(vx.ConcreteInt(vx.Int("member", 0, 2))*(n-1)/2), member})
	}
	rels = append(rels, relation("a", ea.pb()), relation("p", domain.ThisNode()), relation("b", domain.ThisNode()),
		relation("d", (&expr{kind: eOp, op: opDiff, l: &expr{kind: eCU, x: "all"}, r: &expr{kind: eCU, x: "a"}}).pb()), relation("all", domain.ThisNode()))
	z.create(&domain.Policy{Id: "p", Resources: []*domain.Resource{resource("r", rels...), resource("u")}})
	for i, f := range fs {
		if i == gap && shape != 1 {
			continue
		}
		z.mustSet("p", f)
	}
	z.mustSet("p", rel{"r", "0", "all", subj{kind: sWildcard, res: "u"}})
	if cycle {
		z.mustSet("p", rel{"r", num(n), "a", subj{sSet, "r", "0", "a"}})
	}
	want := false
	switch shape {
	case 0, 1, 2:
		want = gap < 0
	case 5:
		want = gap != 0
	case 3:
		want = gap < 0 || member.id != num(gap)
	case 4:
		want = gap < 0 || fs[n].id != "g"+num(gap)
	}
	ask := "a"
	if !long && vx.Bool("excluded") {
		ask, want = "d", !want
	}
	return z, ask, member.id, want
}

// CheckDeep: an operator is met only after a number of steps of one kind, and its verdict passes back through them.
func CheckDeep() {
	num := strconv.Itoa
	z := newSys()
	d := vx.ConcreteInt(vx.Int("depth", 1, vx.Param("deep", 6, 12)))
	kind := vx.ConcreteInt(vx.Int("step", 0, 3))
	root := vx.ConcreteInt(vx.Int("root", 0, 3))
	op := vx.ConcreteInt(vx.Int("op", 0, 2))
	cu := func(x string) *expr { return &expr{kind: eCU, x: x} }
	two := func(op int, l, r *expr) *expr { return &expr{kind: eOp, op: op, l: l, r: r} }
	ttu := &expr{kind: eTTU, x: "p", y: "a"}
	inB, inC := vx.Bool("b"), vx.Bool("c")
	want := false
	switch op {
	case opUnion:
		want = inB || inC
	case opInter:
		want = inB && inC
	default:
		want = inB && !inC
	}
	var rels []*domain.Relation
	add := func(n string, e *expr) { rels = append(rels, relation(n, e.pb())) }
	var fs []rel
	end := num(d)
	switch kind {
	case 0: // usersets
		add("a", &expr{kind: eThis})
		for i := 0; i < d-1; i++ {
			fs = append(fs, rel{"r", num(i), "a", subj{sSet, "r", num(i + 1), "a"}})
		}
		fs = append(fs, rel{"r", num(d - 1), "a", subj{sSet, "r", end, "e"}})
	case 1: // relations
		end = "0"
		add("a", cu("a0"))
		for i := 0; i < d-1; i++ {
			add("a"+num(i), cu("a"+num(i+1)))
		}
		add("a"+num(d-1), cu("e"))
	default: // objects
		e := two(opUnion, ttu, cu("e"))
		if kind == 3 { // an exclusion at each
			e = two(opUnion, two(opDiff, ttu, cu("x")), cu("e"))
			if k := vx.ConcreteInt(vx.Int("excluded", -1, d)); k >= 0 {
				fs = append(fs, rel{"r", num(k), "x", subj{sEntity, "u", "x", ""}})
				want = want && k == d
			}
		}
		add("a", e)
		for i := 0; i < d; i++ {
			fs = append(fs, rel{"r", num(i), "p", subj{sEntity, "r", num(i + 1), ""}})
		}
	}
	if inB {
		fs = append(fs, rel{"r", end, "b", subj{sEntity, "u", "x", ""}})
	}
	if inC {
		fs = append(fs, rel{"r", end, "c", [...]subj{{sEntity, "u", "x", ""}, {sWildcard, "u", "", ""}, {sSet, "r", "g", "b"}}[vx.ConcreteInt(vx.Int("c.kind", 0, 2))]})
		fs = append(fs, rel{"r", "g", "b", subj{sEntity, "u", "x", ""}})
	}
	add("e", two(op, cu("b"), cu("c")))
	for _, n := range []string{"b", "c", "p", "x", "all", "none"} {
		add(n, &expr{kind: eThis})
	}
	add("t", [...]*expr{cu("a"), two(opDiff, cu("all"), cu("a")), two(opInter, cu("all"), cu("a")), two(opDiff, cu("a"), cu("none"))}[root])
	if root == 1 {
		want = !want
	}
	z.create(&domain.Policy{Id: "p", Resources: []*domain.Resource{resource("r", rels...), resource("u")}})
	for _, f := range fs {
		z.mustSet("p", f)
	}
	z.mustSet("p", rel{"r", "0", "all", subj{sEntity, "u", "x", ""}})
	got, err := z.check("p", "r", "0", "t", "u", "x")
	vx.Assert(err == nil, "check fails on a valid policy and valid relationships")
	vx.Observe("verdict", got)
	if got {
		vx.Reach("granted")
	} else {
		vx.Reach("denied")
	}
	vx.Assert(got == want, "check through several steps disagrees with the set semantics of the policy")
}

// CheckHistory: a check answers for the state at that moment: after other checks, after the policy or relationships
// changed, and whatever other policies and other instances hold.
func CheckHistory() {
	leaf := func(n string) *expr { return symLeaf(n, 2, "bc") }
	world1 := func(n string) *world {
		return &world{res: "r", ids: chars("1"), rels: chars("abc"), sres: "u", sid: "x", exprs: []*expr{leaf(n), {kind: eThis}, {kind: eThis}}}
	}
	fact := func(n string) rel { return rel{"r", "1", vx.StringOf(n, 1, 1, "abc"), subj{sEntity, "u", "x", ""}} }
	ask := func(z *sys, p string, w *world) {
		got, err := z.check(p, "r", "1", "a", "u", "x")
		vx.Assert(err == nil, "check fails on a valid policy and valid relationships")
		vx.Assert(vx.Iff(got, w.model(1)[0]), "check does not answer for the current policy and relationships")
		if got {
			vx.Reach("granted")
		} else {
			vx.Reach("denied")
		}
	}
	z := newSys()
	w := world1("e0")
	z.create(w.policy("p"))
	f := fact("f0")
	z.mustSet("p", f)
	w.facts = []rel{f}
	ask(z, "p", w)
	switch vx.ConcreteInt(vx.Int("then", 0, 5)) {
	case 0: // another expression
		v := world1("e1")
		v.facts = w.facts
		_, err := z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: definition(v.policy("p"))})
		vx.Assert(err == nil, "a policy cannot be updated")
		ask(z, "p", v)
	case 1: // another policy
		v := world1("e1")
		z.create(v.policy("q"))
		g := fact("f1")
		z.mustSet("q", g)
		v.facts = []rel{g}
		ask(z, "q", v)
		ask(z, "p", w)
	case 2: // another instance
		y := newSys()
		v := world1("e1")
		y.create(v.policy("p"))
		g := fact("f1")
		y.mustSet("p", g)
		v.facts = []rel{g}
		ask(y, "p", v)
		ask(z, "p", w)
	case 3: // other relationships
		z.pol.DeleteRelationship(ctx, &api.DeleteRelationshipRequest{PolicyId: "p", Relationship: f.pb()})
		w.facts = nil
		ask(z, "p", w)
		g := fact("f1")
		z.mustSet("p", g)
		w.facts = []rel{g}
		ask(z, "p", w)
	case 4: // the policy deleted and created again
		_, err := z.pol.DeletePolicy(ctx, &api.DeletePolicyRequest{Id: "p"})
		vx.Assert(err == nil, "a policy cannot be deleted")
		_, err = z.check("p", "r", "1", "a", "u", "x")
		vx.Assert(err != nil, "a check in a deleted policy is answered")
		v := world1("e1")
		z.create(v.policy("p"))
		ask(z, "p", v)
	default: // opened again on the same store
		z = open(z.kv)
		ask(z, "p", w)
		g := fact("f1")
		z.mustSet("p", g)
		w.facts = append(w.facts, g)
		ask(z, "p", w)
	}
}

// CheckWide: an object with very many direct subjects and usersets, of which one, the last or none matters.
func CheckWide() {
	z := newSys()
	n := vx.Param("n", 300, 1100)
	num := strconv.Itoa
	z.create(&domain.Policy{Id: "p", Resources: []*domain.Resource{resource("r", relation("a", domain.ThisNode()), relation("b", domain.ThisNode()),
		relation("c", domain.NewOpNode(domain.CUNode("a"), domain.Operator_DIFFERENCE, domain.CUNode("b")))), resource("u")}})
	sets := vx.Bool("sets")
	through := [...]int{-1, 0, n / 2, n - 1}[pick("through", 4)]
	for i := 0; i < n; i++ {
		s := subj{sEntity, "u", num(i), ""}
		if sets {
			s = subj{sSet, "r", "s" + num(i), "a"}
		}
		z.mustSet("p", rel{"r", "0", "a", s})
		z.mustSet("p", rel{"r", "0", "b", subj{sEntity, "u", "b" + num(i), ""}})
	}
	want := through >= 0
	who := num(through)
	if sets && want {
		z.mustSet("p", rel{"r", "s" + num(through), "a", subj{sEntity, "u", who, ""}})
	}
	ask := oneName("ask", "a", "c")
	if vx.Bool("banned") {
		z.mustSet("p", rel{"r", "0", "b", subj{sEntity, "u", who, ""}})
		want = want && ask == "a"
	}
	got, err := z.check("p", "r", "0", ask, "u", who)
	vx.Assert(err == nil, "check fails on a valid policy and valid relationships")
	vx.Observe("verdict", got)
	if got {
		vx.Reach("granted")
	} else {
		vx.Reach("denied")
	}
	vx.Assert(got == want, "check on a very wide set disagrees with the set semantics of the policy")
}
