package zzharness

import (
	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

func spoilEntity(e *domain.Entity) {
	if e != nil {
		e.Resource, e.Id = "spoilt", "spoilt"
	}
}

func spoilRelationship(r *domain.Relationship) {
	if r == nil {
		return
	}
	spoilEntity(r.Object)
	r.Relation = "spoilt"
	if s := r.Subject; s != nil {
		spoilEntity(s.GetEntity())
		spoilEntity(s.GetEntitySet().GetEntity())
	}
}

func spoilBytes(b []byte) {
	for i := range b {
		b[i] = '!'
	}
}

func spoilTree(t *domain.RelationExpressionTree) {
	switch n := t.GetNode().(type) {
	case *domain.RelationExpressionTree_Rule:
		n.Rule.Rule = &domain.Rule_Cu{Cu: &domain.ComputedUserset{TargetRelation: "spoilt"}}
	case *domain.RelationExpressionTree_OpNode:
		n.OpNode.Operator = domain.Operator_DIFFERENCE
		spoilTree(n.OpNode.Left)
		spoilTree(n.OpNode.Right)
	}
}

func spoilPolicy(p *domain.Policy) {
	if p == nil {
		return
	}
	p.Id, p.Name, p.Description = "spoilt", "spoilt", "spoilt"
	if p.Attributes != nil {
		p.Attributes["k"] = "spoilt"
	}
	for _, r := range p.Resources {
		r.Name = "spoilt"
		for _, l := range r.Relations {
			l.Name = "spoilt"
			spoilTree(l.RelationExpression.GetTree())
			if e, ok := l.RelationExpression.GetExpression().(*domain.RelationExpression_Expr); ok {
				e.Expr = "spoilt"
			}
			if s := l.SubjectRestriction.GetRestrictionSet(); s != nil {
				s.Restrictions = nil
			}
		}
	}
}

func spoilDefinition(d *api.PolicyDefinition) { spoilPolicy(d.GetPolicy()) }

func spoil(m proto.Message) {
	switch m := m.(type) {
	case *api.SetRelationshipRequest:
		m.PolicyId = "spoilt"
		spoilRelationship(m.Relationship)
		spoilBytes(m.AppData)
	case *api.DeleteRelationshipRequest:
		m.PolicyId = "spoilt"
		spoilRelationship(m.Relationship)
	case *api.DeleteRelationshipsRequest:
		m.PolicyId = "spoilt"
		m.Selector.RelationSelector = nil
	case *api.CreatePolicyRequest:
		spoilDefinition(m.PolicyDefinition)
		spoilBytes(m.AppData)
	case *api.UpdatePolicyRequest:
		spoilDefinition(m.PolicyDefinition)
		spoilBytes(m.AppData)
	case *api.DeletePolicyRequest:
		m.Id = "spoilt"
	case *api.GetRelationshipRequest:
		m.PolicyId = "spoilt"
		spoilRelationship(m.Relationship)
	case *api.GetPolicyRequest:
		m.Id = "spoilt"
	case *api.CreatePolicyResponse:
		spoilPolicy(m.GetRecord().GetPolicy())
		spoilBytes(m.GetRecord().GetAppData())
	case *api.GetPolicyResponse:
		spoilPolicy(m.GetRecord().GetPolicy())
		spoilBytes(m.GetRecord().GetAppData())
	case *api.GetRelationshipResponse:
		spoilRelationship(m.GetRecord().GetRelationship())
		spoilBytes(m.GetRecord().GetAppData())
	case *api.FindRelationshipRecordsResponse:
		for _, r := range m.GetResult().GetRecords() {
			spoilRelationship(r.Relationship)
			spoilBytes(r.AppData)
			r.PolicyId = "spoilt"
		}
	case *api.ListPolicyIdsResponse:
		for _, r := range m.Records {
			r.Id = "spoilt"
		}
	}
}

// OwnMessages: a call leaves its request as it is, and what its caller does with request and response afterwards
// changes nothing.
func OwnMessages() {
	z := instance()
	for i := 0; i < vx.Param("calls", 2, 3); i++ {
		req, was, resp := step(z, "s"+string(rune('0'+i)))
		vx.Assert(proto.Equal(req, was), "a call changes the request it was given")
		before := z.kv.snapshot()
		spoil(req)
		if resp != nil {
			spoil(resp)
		}
		same(before, z.kv)
	}
	before := z.kv.snapshot()
	a := ask(z)
	ask(open(before.snapshot())).same(a, "what a caller does with its messages after a call changes later answers")
	spoil(a.policy)
	spoil(a.ids)
	if a.found != nil {
		spoil(a.found)
	}
	if a.one != nil {
		spoil(a.one)
	}
	same(before, z.kv)
	ask(z).same(ask(open(before)), "what a caller does with an answer changes later answers")
}

// OwnReads: calls which read leave their requests as they are.
func OwnReads() {
	z := instance()
	r := rel{"r", "1", vx.StringOf("rel", 1, 1, "abz"), subj{pick("kind", 3), "u", vx.StringOf("s", 1, 1, "xy"), ""}}
	if r.s.kind == sSet {
		r.s.res, r.s.rel = "r", "b"
	}
	keep := func(m proto.Message) func() {
		was := proto.Clone(m)
		return func() { vx.Assert(proto.Equal(m, was), "a call changes the request it was given") }
	}
	before := z.kv.snapshot()
	access := &domain.AccessRequest{Object: &domain.Entity{Resource: "r", Id: "1"}, Relation: r.rel, Subject: &domain.Entity{Resource: "u", Id: r.s.id}}
	switch pick("op", 6) {
	case 0:
		q := &api.CheckRequest{PolicyId: "p", AccessRequest: access}
		f := keep(q)
		z.gr.Check(ctx, q)
		f()
	case 1:
		q := &api.ExplainCheckRequest{PolicyId: "p", AccessRequest: access, Format: api.ExplainFormat(pick("format", 3))}
		f := keep(q)
		z.gr.ExplainCheck(ctx, q)
		f()
	case 2:
		q := &api.ExpandRequest{PolicyId: "p", Root: r.s.node(), Format: api.ExplainFormat_DOT}
		f := keep(q)
		z.gr.Expand(ctx, q)
		f()
	case 3:
		q := &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: symSel().pb()}
		f := keep(q)
		z.pol.FindRelationshipRecords(ctx, q)
		f()
	case 4:
		q := &api.GetRelationshipRequest{PolicyId: "p", Relationship: r.pb()}
		f := keep(q)
		z.pol.GetRelationship(ctx, q)
		f()
	default:
		q := &api.DumpRelationshipsRequest{PolicyId: "p"}
		f := keep(q)
		z.gr.DumpRelationships(ctx, q)
		f()
	}
	same(before, z.kv)
	vx.Reach("read")
}

// OwnPolicies: a policy given as a message in any order of its parts, accepted or not, stays as it is and is stored so.
func OwnPolicies() {
	z := newSys()
	var rels []*domain.Relation
	for _, n := range []string{"0", "1"} {
		tree := domain.ThisNode()
		if vx.Bool("op" + n) {
			tree = domain.NewOpNode(domain.CUNode(vx.StringOf("cu"+n, 1, 1, "ab")), domain.Operator(vx.Int("operator"+n, 0, 2)), domain.ThisNode())
		}
		r := relation(vx.StringOf("rel"+n, 1, 1, "aAb"), tree)
		r.Description = "doc " + n
		rels = append(rels, r)
	}
	if vx.Bool("text") {
		rels[0].RelationExpression = &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: " ( _this )"}}
	}
	if vx.Bool("restricted") {
		rels[1].SubjectRestriction = restrict([]restr{symRestr("x", "yz", "ab"), symRestr("y", "yz", "ab")})
	}
	p := &domain.Policy{Id: "p", Name: " Name ", Description: "doc", Attributes: map[string]string{"k": "v", "K": "", "": "w"}, Resources: []*domain.Resource{
		resource(vx.StringOf("res0", 1, 1, "yz"), rels...), resource(vx.StringOf("res1", 1, 1, "yz"))}}
	update := vx.Bool("update")
	if update {
		z.create(storedPolicy("p", "_this", "n"))
	}
	was := proto.Clone(p).(*domain.Policy)
	data := []byte("d")
	var err error
	if update {
		_, err = z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: definition(p), AppData: data})
	} else {
		_, err = z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: definition(p), AppData: data})
	}
	vx.Assert(proto.Equal(p, was), "a call changes the policy it was given")
	spoilPolicy(p)
	spoilBytes(data)
	if err != nil {
		vx.Reach("refused")
		return
	}
	vx.Reach("stored")
	got, err := z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: "p"})
	vx.Assert(err == nil && got.Record != nil, "a stored policy is not found")
	vx.Assert(proto.Equal(got.Record.Policy, was), "a policy is stored otherwise than it was given")
	vx.Assert(string(got.Record.AppData) == "d", "the data of a policy is stored otherwise than it was given")
}
