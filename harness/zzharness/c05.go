package zzharness

import (
	"strconv"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

// sel is a selector: kinds 0 exact, 1 by resource, 2 wildcard (relation: 0 by name, 2 wildcard).
type sel struct {
	okind    int
	ores, ob string
	rkind    int
	rel      string
	skind    int
	sres     string
	s        subj
}

func (q sel) pb() *domain.RelationshipSelector {
	w := &domain.WildcardSelector{}
	out := &domain.RelationshipSelector{ObjectSelector: &domain.ObjectSelector{}, RelationSelector: &domain.RelationSelector{}, SubjectSelector: &domain.SubjectSelector{}}
	switch q.okind {
	case 0:
		out.ObjectSelector.Selector = &domain.ObjectSelector_ObjectSpec{ObjectSpec: &domain.Entity{Resource: q.ores, Id: q.ob}}
	case 1:
		out.ObjectSelector.Selector = &domain.ObjectSelector_ResourceSpec{ResourceSpec: q.ores}
	default:
		out.ObjectSelector.Selector = &domain.ObjectSelector_Wildcard{Wildcard: w}
	}
	if q.rkind == 0 {
		out.RelationSelector.Selector = &domain.RelationSelector_RelationName{RelationName: q.rel}
	} else {
		out.RelationSelector.Selector = &domain.RelationSelector_Wildcard{Wildcard: w}
	}
	switch q.skind {
	case 0:
		out.SubjectSelector.Selector = &domain.SubjectSelector_SubjectSpec{SubjectSpec: q.s.pb()}
	case 1:
		out.SubjectSelector.Selector = &domain.SubjectSelector_ResourceSpec{ResourceSpec: q.sres}
	default:
		out.SubjectSelector.Selector = &domain.SubjectSelector_Wildcard{Wildcard: w}
	}
	return out
}

func (q sel) matches(r rel) bool {
	v := true
	switch q.okind {
	case 0:
		v = vx.And(vx.StrEq(q.ores, r.res), vx.StrEq(q.ob, r.id))
	case 1:
		v = vx.StrEq(q.ores, r.res)
	}
	if q.rkind == 0 {
		v = vx.And(v, vx.StrEq(q.rel, r.rel))
	}
	switch q.skind {
	case 0:
		v = vx.And(v, q.s.eq(r.s))
	case 1:
		v = vx.And(v, vx.StrEq(q.sres, r.s.res))
	}
	return v
}

func symSubj(n string) subj {
	s := subj{kind: vx.ConcreteInt(vx.Int(n+".kind", 0, 2))}
	switch s.kind {
	case sEntity:
		s.res, s.id = vx.StringOf(n+".res", 1, 1, "ur"), "1"
	case sSet:
		s.res, s.id, s.rel = vx.StringOf(n+".res", 1, 1, "rv"), "1", "a"
	default:
		s.res = vx.StringOf(n+".res", 1, 1, "ur")
	}
	return s
}

func symSel() sel {
	q := sel{okind: vx.ConcreteInt(vx.Int("q.okind", 0, 2)), rkind: 2 * vx.ConcreteInt(vx.Int("q.rkind", 0, 1)), skind: vx.ConcreteInt(vx.Int("q.skind", 0, 2))}
	if q.okind != 2 {
		q.ores = vx.StringOf("q.ores", 1, 1, "rvz")
	}
	if q.okind == 0 {
		q.ob = vx.StringOf("q.ob", 1, 1, "12")
	}
	if q.rkind == 0 {
		q.rel = vx.StringOf("q.rel", 1, 1, "abz")
	}
	switch q.skind {
	case 0:
		q.s = symSubj("q.s")
	case 1:
		q.sres = vx.StringOf("q.sres", 1, 1, "urvz")
	}
	return q
}

func selectorPolicy(id string) *domain.Policy {
	return &domain.Policy{Id: id, Resources: []*domain.Resource{
		resource("r", relation("a", domain.ThisNode()), relation("b", domain.ThisNode())),
		resource("u"), resource("v", relation("a", domain.ThisNode()))}}
}

// selWorld stores relationships in policy p, and one in policy q.
func selWorld(z *sys, facts int) *refMap {
	z.create(selectorPolicy("p"))
	z.create(selectorPolicy("q"))
	m := &refMap{}
	put := func(p string, r rel) {
		_, err := z.pol.SetRelationship(ctx, &api.SetRelationshipRequest{PolicyId: p, Relationship: r.pb(), AppData: []byte("d")})
		vx.Assert(err == nil, "a permitted relationship is rejected")
		m.put(p, r, "d")
	}
	for i := 0; i < facts; i++ {
		n := "f" + string(rune('0'+i))
		r := rel{res: "r", id: vx.StringOf(n+".id", 1, 1, "12"), rel: "a"}
		if vx.Bool(n + ".v") {
			r.res = "v"
		} else {
			r.rel = vx.StringOf(n+".rel", 1, 1, "ab")
		}
		r.s = symSubj(n + ".s")
		put("p", r)
	}
	put("q", rel{"r", "1", "a", subj{sEntity, "u", "1", ""}})
	return m
}

// SelectFind: a selector returns exactly the matching relationships, or is rejected if it names what the policy lacks.
func SelectFind() {
	z := newSys()
	m := selWorld(z, vx.Param("facts", 2, 3))
	q := symSel()
	ok := true
	if q.okind != 2 {
		ok = vx.And(ok, !vx.StrEq(q.ores, "z"))
	}
	if q.rkind == 0 {
		has := vx.Or(vx.StrEq(q.rel, "a"), vx.StrEq(q.rel, "b"))
		if q.okind != 2 {
			has = vx.Or(vx.And(vx.StrEq(q.rel, "a"), oneOf(q.ores, "r", "v")), vx.And(vx.StrEq(q.rel, "b"), vx.StrEq(q.ores, "r")))
		}
		ok = vx.And(ok, has)
	}
	if q.skind == 1 {
		ok = vx.And(ok, !vx.StrEq(q.sres, "z"))
	}
	selects(z, m, q, ok)
}

// selects asserts that the selector finds exactly what it matches, if it is valid.
func selects(z *sys, m *refMap, q sel, ok bool) {
	resp, err := z.pol.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: q.pb()})
	vx.Assert(vx.Iff(err == nil, ok), "a selector is rejected although it names what the policy has, or accepted although it does not")
	if err != nil {
		vx.Reach("rejected")
		return
	}
	var found []rel
	for _, rec := range resp.Result.Records {
		vx.Assert(rec != nil, "the result has an empty record")
		r, ok := fromPb(rec.Relationship)
		vx.Assert(ok, "the result has a malformed relationship")
		vx.Assert(vx.And(q.matches(r), m.stored("p", r, rec.AppData)), "a selector returns a relationship which it does not match or the policy does not have")
		for _, o := range found {
			vx.Assert(!o.eq(r), "a selector returns a relationship twice")
		}
		found = append(found, r)
	}
	for _, e := range m.es {
		in := false
		for _, r := range found {
			in = vx.Or(in, r.eq(e.r))
		}
		vx.Assert(vx.Implies(vx.And(e.present, vx.StrEq(e.policy, "p"), q.matches(e.r)), in), "a selector misses a relationship which it matches")
	}
	if len(found) > 0 {
		vx.Reach("found")
	} else {
		vx.Reach("none")
	}
}

// SelectDelete: deleting by selector removes exactly the matching relationships and reports their number.
func SelectDelete() {
	z := newSys()
	m := selWorld(z, vx.Param("facts", 2, 3))
	removes(z, m, symSel())
}

// removes asserts that deleting by the selector removes exactly what it matches.
func removes(z *sys, m *refMap, q sel) {
	want := 0
	for _, e := range m.es {
		hit := vx.And(e.present, vx.StrEq(e.policy, "p"), q.matches(e.r))
		want = want + vx.IteInt(hit, 1, 0)
		e.present = vx.And(e.present, !hit)
	}
	resp, err := z.pol.DeleteRelationships(ctx, &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: q.pb()})
	vx.Assert(err == nil, "deleting by a complete selector fails")
	vx.Assert(int(resp.RecordsAffected) == want, "the number of deleted relationships is wrong")
	if resp.RecordsAffected > 0 {
		vx.Reach("deleted")
	} else {
		vx.Reach("none")
	}
	m.compare(z, "p", "q")
}

// SelectNames: resources and relations whose names differ in spaces and case only.
func SelectNames() {
	z := newSys()
	ress, rels := []string{"r", "r ", "R", " r"}, []string{"a", "A"}
	var rs []*domain.Resource
	for _, n := range ress {
		rs = append(rs, resource(n, relation("a", domain.ThisNode()), relation("A", domain.ThisNode())))
	}
	z.create(&domain.Policy{Id: "p", Resources: rs})
	z.create(&domain.Policy{Id: "q", Resources: rs})
	m := &refMap{}
	r := rel{oneName("f.res", ress...), vx.StringOf("f.id", 1, 1, "1 "), oneName("f.rel", rels...), subj{sEntity, oneName("f.sres", ress...), "1", ""}}
	vx.Assert(setData(z, "p", r, "") == nil, "a permitted relationship is rejected")
	m.put("p", r, "")
	q := sel{okind: pick("q.okind", 3), rkind: 2 * pick("q.rkind", 2), skind: 1 + pick("q.skind", 2)}
	ok := true
	if q.okind != 2 {
		q.ores = vx.StringOf("q.ores", 1, 2, "rR ")
		ok = vx.And(ok, oneOf(q.ores, ress...))
	}
	if q.okind == 0 {
		q.ob = vx.StringOf("q.ob", 1, 1, "1 ")
	}
	if q.rkind == 0 {
		q.rel = vx.StringOf("q.rel", 1, 2, "aA ")
		ok = vx.And(ok, oneOf(q.rel, rels...))
	}
	if q.skind == 1 {
		q.sres = vx.StringOf("q.sres", 1, 2, "rR ")
		ok = vx.And(ok, oneOf(q.sres, ress...))
	}
	if vx.Bool("delete") {
		vx.Assume(ok)
		removes(z, m, q)
	} else {
		selects(z, m, q, ok)
	}
}

// SelectMany: selectors over many relationships.
func SelectMany() {
	z := newSys()
	z.create(selectorPolicy("p"))
	z.create(selectorPolicy("q"))
	m := &refMap{}
	n := vx.Param("n", 70, 130)
	for i := 0; i < n; i++ {
		r := rel{"r", strconv.Itoa(i % 2), "a", subj{kind: i % 3, res: "u", id: strconv.Itoa(i / 3)}}
		switch {
		case i%5 == 0:
			r.res = "v"
		case i%7 == 0:
			r.rel = "b"
		}
		switch r.s.kind {
		case sSet:
			r.s.res, r.s.rel = "r", "a"
		case sWildcard:
			r.id += strconv.Itoa(i)
			r.s.id = ""
		}
		d := strconv.Itoa(i)
		vx.Assert(setData(z, "p", r, d) == nil, "a permitted relationship is rejected")
		m.put("p", r, d)
	}
	r := rel{"r", "1", "a", subj{sEntity, "u", "1", ""}}
	vx.Assert(setData(z, "q", r, "q") == nil, "a permitted relationship is rejected")
	m.put("q", r, "q")
	q := sel{okind: pick("q.okind", 3), rkind: 2 * pick("q.rkind", 2), skind: pick("q.skind", 3)}
	if q.okind != 2 {
		q.ores = oneName("q.ores", "r", "v")
	}
	q.ob, q.rel, q.sres = "1", "a", oneName("q.sres", "u", "r")
	q.s = subj{kind: sWildcard, res: q.sres}
	if vx.Bool("delete") {
		removes(z, m, q)
	} else {
		selects(z, m, q, true)
	}
}

// SelectOrphans: selectors over relationships which an updated policy no longer permits.
func SelectOrphans() {
	z := newSys()
	m := selWorld(z, 1)
	small := shrunk("p")
	z.update(small)
	q := sel{okind: 2 * pick("q.okind", 2), rkind: 2 * pick("q.rkind", 2), skind: pick("q.skind", 3)}
	ok := true
	if q.okind == 0 {
		q.okind = pick("q.object", 2)
		q.ores, q.ob = oneName("q.ores", "r", "v"), vx.StringOf("q.ob", 1, 1, "12")
		ok = ok && small.GetResourceByName(q.ores) != nil
	}
	if q.rkind == 0 {
		q.rel = oneName("q.rel", "a", "b")
		has := false
		for _, res := range small.Resources {
			if q.okind == 2 || res.Name == q.ores {
				has = has || res.GetRelationByName(q.rel) != nil
			}
		}
		ok = ok && has
	}
	switch q.skind {
	case 0:
		q.s = subj{kind: pick("q.s.kind", 3), res: oneName("q.s.res", "u", "r")}
		if q.s.kind != sWildcard {
			q.s.id = "1"
		}
		if q.s.kind == sSet {
			q.s.res, q.s.rel = oneName("q.s.of", "r", "v"), "a"
		}
		ok = ok && small.GetResourceByName(q.s.res) != nil
	case 1:
		q.sres = oneName("q.sres", "u", "r")
		ok = ok && small.GetResourceByName(q.sres) != nil
	}
	if vx.Bool("delete") {
		removes(z, m, q)
	} else {
		selects(z, m, q, ok)
	}
}

// SelectSubjects: subjects which differ in one part only.
func SelectSubjects() {
	z := newSys()
	for _, p := range []string{"p", "q"} {
		z.create(&domain.Policy{Id: p, Resources: []*domain.Resource{
			resource("r", relation("a", domain.ThisNode()), relation("ab", domain.ThisNode())), resource("rr", relation("a", domain.ThisNode()), relation("ab", domain.ThisNode()))}})
	}
	sym := func(n string) subj {
		s := subj{kind: pick(n+".kind", 3), res: oneName(n+".res", "r", "rr")}
		if s.kind != sWildcard {
			s.id = vx.StringOf(n+".id", 1, 2, "1r")
		}
		if s.kind == sSet {
			s.rel = oneName(n+".rel", "a", "ab")
		}
		return s
	}
	m := &refMap{}
	for i := 0; i < vx.Param("facts", 1, 2); i++ {
		n := "f" + string(rune('0'+i))
		r := rel{"r", "1", "a", sym(n)}
		vx.Assert(setData(z, "p", r, n) == nil, "a permitted relationship is rejected")
		m.put("p", r, n)
	}
	q := sel{okind: 2, rkind: 2, skind: 0, s: sym("q")}
	if vx.Bool("resource") {
		q.skind, q.sres = 1, oneName("q.sres", "r", "rr")
	}
	if vx.Bool("delete") {
		removes(z, m, q)
	} else {
		selects(z, m, q, true)
	}
}
