package zzharness

import (
	"strconv"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

type restr struct {
	set      bool
	res, rel string
}

func (r restr) pb() *domain.SubjectRestrictionSet_Restriction {
	if r.set {
		return &domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_EntitySet{
			EntitySet: &domain.EntitySetRestriction{ResourceName: r.res, RelationName: r.rel}}}
	}
	return &domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_Entity{
		Entity: &domain.EntityRestriction{ResourceName: r.res}}}
}

func restrict(rs []restr) *domain.SubjectRestriction {
	set := &domain.SubjectRestrictionSet{}
	for _, r := range rs {
		set.Restrictions = append(set.Restrictions, r.pb())
	}
	return &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_RestrictionSet{RestrictionSet: set}}
}

func symRestr(name, ress, rels string) restr {
	r := restr{set: vx.Bool(name + ".set"), res: vx.StringOf(name+".res", 1, 1, ress)}
	if r.set {
		r.rel = vx.StringOf(name+".rel", 1, 1, rels)
	}
	return r
}

func oneOf(s string, in ...string) bool {
	v := false
	for _, x := range in {
		v = vx.Or(v, vx.StrEq(s, x))
	}
	return v
}

// admits: the subject is allowed by some entry of the restriction list.
func admits(rs []restr, s subj) bool {
	v := false
	for _, r := range rs {
		switch {
		case s.kind == sSet && r.set:
			v = vx.Or(v, vx.And(vx.StrEq(r.res, s.res), vx.StrEq(r.rel, s.rel)))
		case s.kind != sSet && !r.set:
			v = vx.Or(v, vx.StrEq(r.res, s.res))
		}
	}
	return v
}

// SetAdmission: SetRelationship accepts exactly the relationships the policy permits and a rejection changes nothing.
//
// policy p: resource g with relations m (restricted), n (any subject); resource h with a relation m (any subject);
// resource u without relations.
func SetAdmission() {
	z := newSys()
	var rs []restr
	n := vx.ConcreteInt(vx.Int("entries", 0, vx.Param("entries", 2, 2)))
	for i := 0; i < n; i++ {
		rs = append(rs, symRestr("e"+string(rune('0'+i)), "ghu", "mn"))
	}
	valid := true
	for _, r := range rs {
		if r.set {
			valid = vx.And(valid, vx.Or(vx.StrEq(r.res, "g"), vx.And(vx.StrEq(r.res, "h"), vx.StrEq(r.rel, "m"))))
		}
	}
	vx.Assume(valid)
	m := relation("m", domain.ThisNode())
	m.SubjectRestriction = restrict(rs)
	z.create(&domain.Policy{Id: "p", Resources: []*domain.Resource{resource("g", m, relation("n", domain.ThisNode())),
		resource("h", relation("m", domain.ThisNode())), resource("u")}})

	f := rel{res: vx.StringOf("res", 0, 1, "ghux"), id: vx.StringOf("id", 0, 1, "1"), rel: vx.StringOf("rel", 0, 1, "mnx")}
	f.s.kind = vx.ConcreteInt(vx.Int("kind", 0, 2))
	f.s.res = vx.StringOf("sres", 0, 1, "ghux")
	if f.s.kind != sWildcard {
		f.s.id = vx.StringOf("sid", 0, 1, "1")
	}
	if f.s.kind == sSet {
		f.s.rel = vx.StringOf("srel", 0, 1, "mnx")
	}
	pid := vx.StringOf("policy", 0, 1, "pq")

	has := func(res, rl string) bool {
		return vx.Or(vx.And(vx.StrEq(res, "g"), oneOf(rl, "m", "n")), vx.And(vx.StrEq(res, "h"), vx.StrEq(rl, "m")))
	}
	ok := vx.And(pid == "p", f.id != "", has(f.res, f.rel))
	switch f.s.kind {
	case sEntity:
		ok = vx.And(ok, oneOf(f.s.res, "g", "h", "u"), f.s.id != "")
	case sSet:
		ok = vx.And(ok, f.s.id != "", has(f.s.res, f.s.rel))
	default:
		ok = vx.And(ok, oneOf(f.s.res, "g", "h", "u"))
	}
	ok = vx.And(ok, vx.Or(vx.StrEq(f.rel, "n"), vx.StrEq(f.res, "h"), admits(rs, f.s)))

	before := z.kv.snapshot()
	resp, err := z.pol.SetRelationship(ctx, &api.SetRelationshipRequest{PolicyId: pid, Relationship: f.pb(), AppData: []byte("d")})
	vx.Observe("accepted", err == nil)
	vx.Assert(vx.Iff(err == nil, ok), "the relationship is accepted although the policy forbids it, or rejected although the policy permits it")
	if err != nil {
		vx.Reach("rejected")
		same(before, z.kv)
		return
	}
	vx.Reach("accepted")
	vx.Assert(!resp.RecordOverwritten, "a new relationship is reported as an overwrite")
	got, err := z.pol.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: pid, Relationship: f.pb()})
	vx.Assert(err == nil && got.Record != nil, "an accepted relationship is not stored")
}

// same: the store did not change.
func same(a, b *kvStore) {
	vx.Assert(len(a.keys) == len(b.keys), "a rejected call changed the store")
	for i := range a.keys {
		vx.Assert(vx.And(vx.BytesEq(a.keys[i], b.keys[i]), vx.BytesEq(a.vals[i], b.vals[i])), "a rejected call changed the store")
	}
}

// SetNames: names which join alike are told apart: resources g, g/ and g/m, relations m, /m and m/m.
func SetNames() {
	z := newSys()
	names, rels := []string{"g", "g/", "g/m"}, []string{"m", "/m", "m/m"}
	has := func(res, rl string) bool { return vx.And(oneOf(res, names...), oneOf(rl, "m", "/m")) }
	e := restr{set: vx.Bool("set"), res: oneName("e.res", names...)}
	if e.set {
		e.rel = oneName("e.rel", "m", "/m")
	}
	var rs []*domain.Resource
	for i, n := range names {
		m := relation("m", domain.ThisNode())
		if i == 0 {
			m.SubjectRestriction = restrict([]restr{e})
		}
		rs = append(rs, resource(n, m, relation("/m", domain.ThisNode())))
	}
	z.create(&domain.Policy{Id: "p", Resources: rs})
	f := rel{res: oneName("res", "g", "g/", "g/m", "g/m/"), id: "1", rel: oneName("rel", rels...), s: subj{kind: pick("kind", 3)}}
	f.s.res = vx.StringOf("s.res", 1, 3, "g/m")
	if f.s.kind != sWildcard {
		f.s.id = "1"
	}
	if f.s.kind == sSet {
		f.s.rel = vx.StringOf("s.rel", 1, 3, "/m")
	}
	ok := has(f.res, f.rel)
	if f.s.kind == sSet {
		ok = vx.And(ok, has(f.s.res, f.s.rel))
	} else {
		ok = vx.And(ok, oneOf(f.s.res, names...))
	}
	if f.res == "g" && f.rel == "m" {
		ok = vx.And(ok, admits([]restr{e}, f.s))
	}
	_, err := z.set("p", f)
	vx.Assert(vx.Iff(err == nil, ok), "a relationship is accepted or rejected wrongly because names join alike")
	if err == nil {
		vx.Reach("accepted")
	} else {
		vx.Reach("rejected")
	}
}

// SetMany: a relation restricted to many entries admits each of them and nothing else; a policy with many resources
// and relations.
func SetMany() {
	z := newSys()
	n := vx.Param("n", 34, 70)
	num := strconv.Itoa
	var rs []*domain.Resource
	var es []restr
	for i := 0; i < n; i++ {
		rs = append(rs, resource("g"+num(i), relation("m", domain.ThisNode()), relation("n", domain.ThisNode())))
		switch i % 3 {
		case 0:
			es = append(es, restr{res: "g" + num(i)})
		case 1:
			es = append(es, restr{set: true, res: "g" + num(i), rel: "m"})
		}
	}
	var rl []*domain.Relation
	for i := 0; i < n; i++ {
		rl = append(rl, relation("u"+num(i), domain.ThisNode()))
	}
	a := relation("a", domain.ThisNode())
	a.SubjectRestriction = restrict(es)
	rs = append(rs, resource("f", append(rl, a)...))
	z.create(&domain.Policy{Id: "p", Resources: rs})
	k := pick("subject", n+1)
	s := subj{kind: pick("kind", 3), res: "g" + num(k)}
	if s.kind != sWildcard {
		s.id = "1"
	}
	if s.kind == sSet {
		s.rel = oneName("rel", "m", "n")
	}
	ok := k < n
	if vx.Bool("restricted") {
		_, err := z.set("p", rel{"f", "1", "a", s})
		ok = ok && (s.kind != sSet && k%3 == 0 || s.kind == sSet && k%3 == 1 && s.rel == "m")
		vx.Assert((err == nil) == ok, "a relation restricted to many subjects admits another, or not one of them")
	} else {
		j := pick("relation", n+1)
		_, err := z.set("p", rel{"f", "1", "u" + num(j), s})
		ok = ok && j < n
		vx.Assert((err == nil) == ok, "an unrestricted relation rejects a subject, or an undefined one is accepted")
	}
	if ok {
		vx.Reach("accepted")
	} else {
		vx.Reach("rejected")
	}
}
