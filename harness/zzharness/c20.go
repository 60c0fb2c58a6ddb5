package zzharness

import (
	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

// answers is everything an instance says about policy p.
type answers struct {
	policy   *api.GetPolicyResponse
	ids      *api.ListPolicyIdsResponse
	found    *api.FindRelationshipRecordsResponse
	one      *api.GetRelationshipResponse
	check    int
	explain  string
	expand   string
	dump     string
	refusals int
}

func (a *answers) refused(err error) bool {
	a.refusals *= 2
	if err != nil {
		a.refusals++
	}
	return err != nil
}

func ask(z *sys) *answers {
	a := &answers{}
	var err error
	a.policy, err = z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: "p"})
	a.refused(err)
	a.ids, err = z.pol.ListPolicyIds(ctx, &api.ListPolicyIdsRequest{})
	a.refused(err)
	a.found, err = z.pol.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: anySelector()})
	a.refused(err)
	a.one, err = z.pol.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: "p", Relationship: rel{"r", "1", "a", subj{sEntity, "u", "x", ""}}.pb()})
	a.refused(err)
	ok, err := z.check("p", "r", "1", "a", "u", "x")
	a.refused(err)
	if ok {
		a.check = 1
	}
	if r, err := z.explain("p", "r", "1", "a", "u", "x", api.ExplainFormat_DOT); !a.refused(err) {
		a.explain = r.GoalTree
		if r.Authorized {
			a.check += 2
		}
	}
	if r, err := z.gr.Expand(ctx, &api.ExpandRequest{PolicyId: "p", Root: subj{sSet, "r", "1", "a"}.node(), Format: api.ExplainFormat_DOT}); !a.refused(err) {
		a.expand = r.GoalTree
	}
	if r, err := z.gr.DumpRelationships(ctx, &api.DumpRelationshipsRequest{PolicyId: "p"}); !a.refused(err) {
		a.dump = r.GetDot()
	}
	return a
}

func (a *answers) same(b *answers, msg string) {
	vx.Assert(a.refusals == b.refusals, msg)
	vx.Assert(a.check == b.check, msg)
	vx.Assert(vx.And(proto.Equal(a.policy, b.policy), proto.Equal(a.ids, b.ids), proto.Equal(a.one, b.one)), msg)
	vx.Assert(proto.Equal(a.found, b.found), msg)
	for _, d := range [][2]string{{a.explain, b.explain}, {a.expand, b.expand}, {a.dump, b.dump}} {
		vx.Assert((d[0] == "") == (d[1] == ""), msg)
		if d[0] != "" {
			vx.Assert(sameDot(d[0], d[1]), msg)
		}
	}
}

func storedPolicy(id, expr, name string) *domain.Policy {
	p := &domain.Policy{Id: id, Name: name, Description: "doc", Attributes: map[string]string{"k": name}, Resources: []*domain.Resource{
		resource("r", relationExpr("a", expr), relation("b", domain.ThisNode())), resource("u")}}
	// what relation b admits differs along with the expression of a
	admitted := "u"
	if expr == "_this" {
		admitted = "r"
	}
	p.Resources[0].Relations[1].SubjectRestriction = restrict([]restr{{res: admitted}})
	return p
}

// step is one call on policy p with messages of its own, all of which it hands back.
func step(z *sys, n string) (req, was, resp proto.Message) { return drawStep(n)(z) }

func drawStep(n string) func(z *sys) (req, was, resp proto.Message) {
	r := rel{"r", "1", vx.StringOf(n+".rel", 1, 1, "ab"), subj{sEntity, "u", vx.StringOf(n+".s", 1, 1, "xy"), ""}}
	expr := "_this"
	if vx.Bool(n + ".e") {
		expr = "_this + b"
	}
	op := pick(n+".op", 8)
	return func(z *sys) (proto.Message, proto.Message, proto.Message) { return z.step(op, r, expr, n) }
}

func (z *sys) step(op int, r rel, expr, n string) (req, was, resp proto.Message) {
	data := []byte("d" + n)
	var err error
	switch op {
	case 0:
		q := &api.SetRelationshipRequest{PolicyId: "p", Relationship: r.pb(), AppData: data}
		req, was = q, proto.Clone(q)
		resp, err = z.pol.SetRelationship(ctx, q)
	case 1:
		q := &api.DeleteRelationshipRequest{PolicyId: "p", Relationship: r.pb()}
		req, was = q, proto.Clone(q)
		resp, err = z.pol.DeleteRelationship(ctx, q)
	case 2:
		q := &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: anySelector()}
		q.Selector.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_RelationName{RelationName: r.rel}}
		req, was = q, proto.Clone(q)
		resp, err = z.pol.DeleteRelationships(ctx, q)
	case 3:
		q := &api.CreatePolicyRequest{PolicyDefinition: definition(storedPolicy("p", expr, n)), AppData: data}
		req, was = q, proto.Clone(q)
		resp, err = z.pol.CreatePolicy(ctx, q)
	case 4:
		q := &api.UpdatePolicyRequest{PolicyDefinition: definition(storedPolicy("p", expr, n)), AppData: data}
		req, was = q, proto.Clone(q)
		resp, err = z.pol.UpdatePolicy(ctx, q)
	case 5:
		q := &api.DeletePolicyRequest{Id: "p"}
		req, was = q, proto.Clone(q)
		resp, err = z.pol.DeletePolicy(ctx, q)
	case 6:
		q := &api.GetRelationshipRequest{PolicyId: "p", Relationship: r.pb()}
		req, was = q, proto.Clone(q)
		resp, err = z.pol.GetRelationship(ctx, q)
	default:
		q := &api.GetPolicyRequest{Id: "p"}
		req, was = q, proto.Clone(q)
		resp, err = z.pol.GetPolicy(ctx, q)
	}
	if err != nil {
		resp = nil
		vx.Reach("refused")
	} else {
		vx.Reach("answered")
	}
	return
}

func instance() *sys {
	z := newSys()
	z.create(storedPolicy("p", "_this + b", "n"))
	vx.Assert(setData(z, "p", rel{"r", "1", "b", subj{sEntity, "u", "x", ""}}, "o") == nil, "a permitted relationship is rejected")
	return z
}

// FreshAnswers: after any calls, an instance answers like one just started on the same storage, and reading changes
// nothing.
func FreshAnswers() {
	z := instance()
	if vx.Bool("asked") {
		ask(z)
	}
	for i := 0; i < vx.Param("calls", 2, 3); i++ {
		step(z, "s"+string(rune('0'+i)))
	}
	before := z.kv.snapshot()
	first := ask(z)
	same(before, z.kv)
	first.same(ask(z), "the same question is answered differently the second time")
	same(before, z.kv)
	ask(open(before.snapshot())).same(first, "an instance started on the same storage answers differently")
	vx.Assert(z.kv.open == 0, "an iterator is left open: the in-memory back end blocks the next write forever")
	stands(z)
}

// stands asserts that decisions follow from what is stored now, whatever the process remembers.
func stands(z *sys) {
	pol, err := z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: "p"})
	vx.Assert(err == nil, "getting a policy fails")
	u := subj{sEntity, "u", "x", ""}
	if pol.Record == nil {
		_, err = z.set("p", rel{"r", "2", "b", u})
		vx.Assert(err != nil, "a relationship is accepted by a policy which does not exist")
		return
	}
	relB := pol.Record.Policy.GetResourceByName("r").GetRelationByName("b")
	admits := relB.SubjectRestriction.GetRestrictionSet().Restrictions[0].GetEntity().ResourceName
	has := func(relation string) bool {
		got, err := z.pol.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: "p", Relationship: rel{"r", "1", relation, u}.pb()})
		vx.Assert(err == nil, "looking up a relationship fails")
		return got.Record != nil
	}
	want := has("a") || admits == "u" && has("b")
	granted, err := z.check("p", "r", "1", "a", "u", "x")
	vx.Assert(err == nil && granted == want, "a check is decided by something else than what is stored")
	_, err = z.set("p", rel{"r", "2", "b", u})
	vx.Assert((err == nil) == (admits == "u"), "a relationship is admitted by something else than the stored policy")
}

// RestartedWrites: a sequence of calls does the same whether or not the process restarts between them.
func RestartedWrites() {
	z := instance()
	y := open(z.kv.snapshot())
	for i := 0; i < vx.Param("calls", 3, 4); i++ {
		n := "s" + string(rune('0'+i))
		do := drawStep(n)
		_, _, a := do(z)
		y = open(y.kv)
		_, _, b := do(y)
		vx.Assert((a == nil) == (b == nil), "a call is refused depending on a restart before it")
		if x, ok := a.(*api.DeletePolicyResponse); ok {
			vx.Assert(proto.Equal(x, b), "a call reports something else depending on a restart before it")
		}
		if x, ok := a.(*api.SetRelationshipResponse); ok {
			vx.Assert(proto.Equal(x, b), "a call reports something else depending on a restart before it")
		}
		if x, ok := a.(*api.DeleteRelationshipsResponse); ok {
			vx.Assert(proto.Equal(x, b), "a call reports something else depending on a restart before it")
		}
	}
	va, ea := z.check("p", "r", "1", "a", "u", "x")
	vb, eb := y.check("p", "r", "1", "a", "u", "x")
	vx.Assert(va == vb && (ea == nil) == (eb == nil), "a check is decided differently depending on restarts")
}
