package zzharness

import (
	"strconv"
	"strings"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

// anySelector matches every relationship.
func anySelector() *domain.RelationshipSelector {
	w := &domain.WildcardSelector{}
	return &domain.RelationshipSelector{
		ObjectSelector:   &domain.ObjectSelector{Selector: &domain.ObjectSelector_Wildcard{Wildcard: w}},
		RelationSelector: &domain.RelationSelector{Selector: &domain.RelationSelector_Wildcard{Wildcard: w}},
		SubjectSelector:  &domain.SubjectSelector{Selector: &domain.SubjectSelector_Wildcard{Wildcard: w}},
	}
}

// entry of the reference map: present is a formula.
type entry struct {
	policy  string
	r       rel
	data    string
	present bool
}

type refMap struct{ es []*entry }

func (m *refMap) is(e *entry, policy string, r rel) bool {
	return vx.And(vx.StrEq(e.policy, policy), e.r.eq(r))
}

func (m *refMap) has(policy string, r rel) bool {
	v := false
	for _, e := range m.es {
		v = vx.Or(v, vx.And(e.present, m.is(e, policy, r)))
	}
	return v
}

func (m *refMap) remove(policy string, r rel) {
	for _, e := range m.es {
		e.present = vx.And(e.present, !m.is(e, policy, r))
	}
}

func (m *refMap) put(policy string, r rel, data string) {
	m.remove(policy, r)
	m.es = append(m.es, &entry{policy, r, data, true})
}

// stored: (policy, r) is present with this data.
func (m *refMap) stored(policy string, r rel, data []byte) bool {
	v := false
	for _, e := range m.es {
		v = vx.Or(v, vx.And(e.present, m.is(e, policy, r), vx.BytesEq([]byte(e.data), data)))
	}
	return v
}

// compare asserts that the policies hold exactly the relationships of the map, by listing and by lookup.
func (m *refMap) compare(z *sys, policies ...string) {
	for _, p := range policies {
		resp, err := z.pol.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: p, Selector: anySelector()})
		vx.Assert(err == nil, "listing the relationships of a policy fails")
		var listed []rel
		for _, rec := range resp.Result.Records {
			vx.Assert(rec != nil, "the listing has an empty record")
			r, ok := fromPb(rec.Relationship)
			vx.Assert(ok, "the listing has a malformed relationship")
			vx.Assert(vx.StrEq(rec.PolicyId, p), "a listed record names another policy")
			vx.Assert(rec.CreatedAt != nil, "a listed record has no creation time")
			vx.Assert(m.stored(p, r, rec.AppData), "a policy lists a relationship (or data) which was not set in it")
			for _, o := range listed {
				vx.Assert(!o.eq(r), "a relationship is listed twice")
			}
			listed = append(listed, r)
		}
		for _, e := range m.es {
			in := false
			for _, r := range listed {
				in = vx.Or(in, r.eq(e.r))
			}
			vx.Assert(vx.Implies(vx.And(e.present, vx.StrEq(e.policy, p)), in), "a policy does not list a relationship which was set in it")
			m.lookup(z, p, e.r)
		}
	}
}

func (m *refMap) lookup(z *sys, p string, r rel) {
	got, err := z.pol.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: p, Relationship: r.pb()})
	vx.Assert(err == nil, "looking up a relationship fails")
	if got.Record == nil {
		vx.Assert(!m.has(p, r), "a relationship which was set is not found")
		return
	}
	g, ok := fromPb(got.Record.Relationship)
	vx.Assert(ok, "a looked up relationship is malformed")
	vx.Assert(vx.And(g.eq(r), vx.StrEq(got.Record.PolicyId, p)), "looking up a relationship returns another one")
	vx.Assert(m.stored(p, r, got.Record.AppData), "looking up a relationship returns data which was not set for it")
}

func plainPolicy(id string) *domain.Policy {
	return &domain.Policy{Id: id, Resources: []*domain.Resource{
		resource("r", relation("a", domain.ThisNode()), relation("b", domain.ThisNode()), relation("ab", domain.ThisNode())),
		resource("u"), resource("ru", relation("a", domain.ThisNode()))}}
}

// op performs one arbitrary operation on both the system and the map.
func (m *refMap) op(z *sys, name string, policy string, r rel) {
	data := vx.StringOf(name+".data", 1, 1, "de")
	m.opData(z, name, policy, r, data)
}

func (m *refMap) opData(z *sys, name string, policy string, r rel, data string) {
	switch vx.ConcreteInt(vx.Int(name+".op", 0, 1)) {
	case 0:
		had := m.has(policy, r)
		resp, err := z.pol.SetRelationship(ctx, &api.SetRelationshipRequest{PolicyId: policy, Relationship: r.pb(), AppData: []byte(data)})
		vx.Assert(err == nil, "a permitted relationship is rejected")
		vx.Assert(vx.Iff(resp.RecordOverwritten, had), "set reports an overwrite wrongly")
		m.put(policy, r, data)
		vx.Reach("set")
	case 1:
		m.opDelete(z, policy, r)
	}
}

func (m *refMap) opDelete(z *sys, policy string, r rel) {
	had := m.has(policy, r)
	resp, err := z.pol.DeleteRelationship(ctx, &api.DeleteRelationshipRequest{PolicyId: policy, Relationship: r.pb()})
	vx.Assert(err == nil, "deleting a relationship fails")
	vx.Assert(vx.Iff(resp.Found, had), "delete reports presence wrongly")
	m.remove(policy, r)
	vx.Reach("delete")
}

// HistoryOps: sequences of operations on two policies behave like one map per policy.
func HistoryOps() {
	z := newSys()
	z.create(plainPolicy("p"))
	z.create(plainPolicy("pq"))
	m := &refMap{}
	m.put("p", rel{"r", "1", "a", subj{sEntity, "u", "1", ""}}, "z")
	z.pol.SetRelationship(ctx, &api.SetRelationshipRequest{PolicyId: "p", Relationship: m.es[0].r.pb(), AppData: []byte("z")})
	for i := 0; i < vx.Param("ops", 3, 4); i++ {
		n := "o" + string(rune('0'+i))
		policy := "p"
		if vx.Bool(n + ".second") {
			policy = "pq"
		}
		r := rel{"r", vx.StringOf(n+".id", 1, 1, "12"), "a", subj{kind: vx.ConcreteInt(vx.Int(n+".kind", 0, 2)), res: "u"}}
		switch r.s.kind {
		case sEntity:
			r.s.id = vx.StringOf(n+".sid", 1, 1, "12")
		case sSet:
			r.s.res, r.s.id, r.s.rel = "r", "1", vx.StringOf(n+".srel", 1, 1, "ab")
		}
		if i == 0 && vx.Bool("nodata") {
			m.opData(z, n, policy, r, "")
		} else {
			m.op(z, n, policy, r)
		}
	}
	m.compare(z, "p", "pq")
}

// HistoryNames: two relationships (and two policies) with arbitrary names, which may concatenate to the same text,
// are never confused.
func HistoryNames() {
	z := newSys()
	p1, p2 := "p", vx.StringOf("policy2", 1, 3, "pq/")
	z.create(plainPolicy(p1))
	vx.Assume(!vx.StrEq(p1, p2))
	z.create(plainPolicy(p2))
	m := &refMap{}
	sym := func(n string) rel {
		r := rel{res: "r", id: vx.StringOf(n+".id", 1, 2, "ab/"), rel: "a"}
		if vx.Bool(n + ".ru") {
			r.res = "ru"
		} else if vx.Bool(n + ".ab") {
			r.rel = "ab"
		}
		switch vx.ConcreteInt(vx.Int(n+".kind", 0, 2)) {
		case 0:
			r.s = subj{sEntity, "u", vx.StringOf(n+".sid", 1, 2, "ab*"), ""}
		case 1:
			r.s = subj{sSet, "r", vx.StringOf(n+".sid", 1, 2, "ab"), "a"}
			if vx.Bool(n + ".srel") {
				r.s.rel = "ab"
			}
		default:
			r.s = subj{kind: sWildcard, res: "u"}
		}
		return r
	}
	r1, r2 := sym("r1"), sym("r2")
	z.pol.SetRelationship(ctx, &api.SetRelationshipRequest{PolicyId: p1, Relationship: r1.pb(), AppData: []byte("1")})
	m.put(p1, r1, "1")
	pol := p1
	if vx.Bool("other") {
		pol = p2
	}
	m.op(z, "op", pol, r2)
	m.compare(z, p1, p2)
}

// HistoryMany: many relationships, of which one is overwritten or deleted.
func HistoryMany() {
	z := newSys()
	z.create(plainPolicy("p"))
	z.create(plainPolicy("q"))
	m := &refMap{}
	n := vx.Param("n", 70, 130)
	mk := func(i int) rel {
		r := rel{"r", strconv.Itoa(i % 5), []string{"a", "b", "ab"}[i%3], subj{i % 2, "u", strconv.Itoa(i), ""}}
		if r.s.kind == sSet {
			r.s.res, r.s.rel = "r", "a"
		}
		return r
	}
	for i := 0; i < n; i++ {
		d := "d" + strconv.Itoa(i)
		pol := []string{"p", "p", "q"}[i%3]
		vx.Assert(setData(z, pol, mk(i), d) == nil, "a permitted relationship is rejected")
		m.put(pol, mk(i), d)
	}
	m.op(z, "o", oneName("policy", "p", "q"), mk(pick("which", n+1)))
	m.compare(z, "p", "q")
}

// HistoryLong: long names which differ only far from their beginning.
func HistoryLong() {
	z := newSys()
	long := strings.Repeat("x", vx.Param("long", 300, 1100))
	m := &refMap{}
	p1, p2 := long+"p", long+vx.StringOf("policy2", 1, 1, "qr")
	z.create(plainPolicy(p1))
	z.create(plainPolicy(p2))
	sym := func(n string) rel {
		r := rel{"r", long + vx.StringOf(n+".id", 0, 1, "12"), "a", subj{kind: pick(n+".kind", 3), res: "u"}}
		switch r.s.kind {
		case sEntity:
			r.s.id = long + vx.StringOf(n+".sid", 0, 1, "12")
		case sSet:
			r.s = subj{sSet, "r", long + vx.StringOf(n+".sid", 0, 1, "12"), "b"}
		}
		return r
	}
	r1, r2 := sym("r1"), sym("r2")
	d := long + long + "d"
	vx.Assert(setData(z, p1, r1, d) == nil, "a permitted relationship is rejected")
	m.put(p1, r1, d)
	pol := p1
	if vx.Bool("other") {
		pol = p2
	}
	m.op(z, "op", pol, r2)
	m.compare(z, p1, p2)
}

// shrunk is a policy which lacks, or does not permit, some of what relationships set under a larger one refer to.
func shrunk(id string) *domain.Policy {
	this := func(n string) *domain.Relation { return relation(n, domain.ThisNode()) }
	switch pick("shrunk", 5) {
	case 0: // a relation less
		return &domain.Policy{Id: id, Resources: []*domain.Resource{resource("r", this("b")), resource("u"), resource("v", this("a"))}}
	case 1: // the object's resource is gone
		return &domain.Policy{Id: id, Resources: []*domain.Resource{resource("u"), resource("v", this("a"))}}
	case 2: // the subject's resource is gone
		return &domain.Policy{Id: id, Resources: []*domain.Resource{resource("r", this("a"), this("b")), resource("v", this("a"))}}
	case 3: // the subjects are restricted
		a := relation("a", domain.ThisNode())
		a.SubjectRestriction = restrict([]restr{{res: "v"}})
		return &domain.Policy{Id: id, Resources: []*domain.Resource{resource("r", a, this("b")), resource("u"), resource("v", this("a"))}}
	}
	return &domain.Policy{Id: id}
}

func (z *sys) update(p *domain.Policy) {
	_, err := z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: definition(p)})
	vx.Assert(err == nil, "updating a policy fails")
}

// HistoryOrphans: relationships which an updated policy no longer permits stay until they are deleted.
func HistoryOrphans() {
	z := newSys()
	z.create(selectorPolicy("p"))
	z.create(selectorPolicy("q"))
	m := &refMap{}
	var rs []rel
	for i := 0; i < 2; i++ {
		n := "f" + string(rune('0'+i))
		r := rel{"r", vx.StringOf(n+".id", 1, 1, "12"), "a", symSubj(n + ".s")}
		rs = append(rs, r)
		vx.Assert(setData(z, "p", r, n) == nil, "a permitted relationship is rejected")
		m.put("p", r, n)
	}
	vx.Assert(setData(z, "q", rs[0], "q") == nil, "a permitted relationship is rejected")
	m.put("q", rs[0], "q")
	z.update(shrunk("p"))
	m.compare(z, "p", "q")
	if vx.Bool("delete") {
		m.opDelete(z, "p", rs[0])
		m.compare(z, "p", "q")
	}
	z.update(selectorPolicy("p"))
	m.compare(z, "p", "q")
}
