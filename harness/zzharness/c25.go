package zzharness

import (
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

// clean: the call just made has left nothing behind.
func clean(z *sys) {
	vx.Assert(z.kv.open == 0, "an iterator is left open after a call")
	vx.Assert(vx.Leftover() == 0, "something a call started is still running, or waits forever, after the call returned")
}

// LeaveExpressions: a policy with an expression of any length, well formed or wrong in any place.
func LeaveExpressions() {
	n := 1 + pick("terms", vx.Param("terms", 9, 20))
	at := pick("at", 2*n)
	piece := pick("piece", 8)
	s := ""
	for i := 0; i < 2*n-1; i++ {
		switch {
		case i == at:
			s += [...]string{"$", ")", "(", "", "-", "_this", "b->", "b b"}[piece]
		case i%2 == 0:
			s += "b"
		default:
			s += "+"
		}
	}
	z := newSys()
	p := storedPolicy("p", s, "n")
	var err error
	switch pick("via", 3) {
	case 0:
		_, err = z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: definition(p)})
	case 1:
		z.create(storedPolicy("p", "_this", "n"))
		clean(z)
		_, err = z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: definition(p)})
	default:
		// a flaw elsewhere in the policy
		p.Resources = append(p.Resources, resource("t", relationExpr("c", "b"), relationExpr("d", s)))
		_, err = z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: definition(p)})
	}
	clean(z)
	if err != nil {
		vx.Reach("refused")
	} else {
		vx.Reach("accepted")
		_, err := z.check("p", "r", "1", "a", "u", "x")
		vx.Assert(err == nil, "a valid call fails")
		clean(z)
	}
}

// LeaveCalls: any call, with a storage failure anywhere or none, and then any other.
func LeaveCalls() {
	z := newSys()
	z.create(storedPolicy("p", oneName("expr", "_this + b", "b & _this", "_this - (b + b->a)"), "n"))
	for i := 0; i < vx.Param("facts", 2, 3); i++ {
		f := symFact("f"+string(rune('0'+i)), "12", "a", sSet, sEntity)
		vx.Assert(setData(z, "p", f, "d") == nil, "a permitted relationship is rejected")
	}
	inject(z.kv)
	policy := oneName("policy", "p", "n")
	malformed := vx.Bool("malformed")
	call := func(n int) (err error) {
		r := rel{"r", "1", "a", subj{sEntity, "u", "x", ""}}
		if malformed {
			switch n {
			case 0:
				_, err = z.gr.Check(ctx, &api.CheckRequest{PolicyId: policy, AccessRequest: &domain.AccessRequest{Object: r.pb().Object, Relation: "none", Subject: &domain.Entity{}}})
			case 1:
				_, err = z.explain(policy, "r", "1", "a", "u", "x", 77)
			case 2:
				_, err = z.gr.Expand(ctx, &api.ExpandRequest{PolicyId: policy})
			case 3:
				_, err = z.gr.DumpRelationships(ctx, &api.DumpRelationshipsRequest{PolicyId: policy, Format: 77})
			case 4:
				_, err = z.pol.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: policy})
			case 5:
				_, err = z.pol.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: policy, Relationship: &domain.Relationship{Relation: "a"}})
			case 8:
				_, err = z.pol.SetRelationship(ctx, &api.SetRelationshipRequest{PolicyId: policy})
			case 9:
				_, err = z.pol.DeleteRelationship(ctx, &api.DeleteRelationshipRequest{PolicyId: policy})
			case 10:
				_, err = z.pol.DeleteRelationships(ctx, &api.DeleteRelationshipsRequest{PolicyId: policy})
			case 11:
				_, err = z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: definition(&domain.Policy{Id: policy, Resources: []*domain.Resource{nil}})})
			case 12:
				_, err = z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{})
			default:
				_, err = z.pol.DeletePolicy(ctx, &api.DeletePolicyRequest{})
			}
			return
		}
		switch n {
		case 0:
			_, err = z.check(policy, "r", "1", "a", "u", "x")
		case 1:
			_, err = z.explain(policy, "r", "1", "a", "u", "x", api.ExplainFormat_DOT)
		case 2:
			_, err = z.gr.Expand(ctx, &api.ExpandRequest{PolicyId: policy, Root: subj{sSet, "r", "1", "a"}.node(), Format: api.ExplainFormat_DOT})
		case 3:
			_, err = z.gr.DumpRelationships(ctx, &api.DumpRelationshipsRequest{PolicyId: policy})
		case 4:
			_, err = z.pol.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: policy, Selector: anySelector()})
		case 5:
			_, err = z.pol.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: policy, Relationship: r.pb()})
		case 6:
			_, err = z.pol.ListPolicyIds(ctx, &api.ListPolicyIdsRequest{})
		case 7:
			_, err = z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: policy})
		case 8:
			_, err = z.set(policy, r)
		case 9:
			_, err = z.pol.DeleteRelationship(ctx, &api.DeleteRelationshipRequest{PolicyId: policy, Relationship: r.pb()})
		case 10:
			_, err = z.pol.DeleteRelationships(ctx, &api.DeleteRelationshipsRequest{PolicyId: policy, Selector: anySelector()})
		case 11:
			_, err = z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: definition(storedPolicy(policy, "_this", "m"))})
		case 12:
			_, err = z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: definition(storedPolicy(policy, "_this", "m"))})
		default:
			_, err = z.pol.DeletePolicy(ctx, &api.DeletePolicyRequest{Id: policy})
		}
		return
	}
	if call(pick("call", 14)) != nil {
		vx.Reach("refused")
	} else {
		vx.Reach("answered")
	}
	clean(z)
	heal(z.kv)
	// the calls which follow are not held up
	policy, malformed = "p", false
	vx.Assert(call(6) == nil, "a valid call fails")
	clean(z)
	if p, err := z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: "p"}); err == nil && p.Record != nil {
		vx.Assert(call(8) == nil, "a valid call fails")
		clean(z)
	}
	_, err := z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: definition(&domain.Policy{Id: "other"})})
	vx.Assert(err == nil, "a valid call fails")
	clean(z)
}
