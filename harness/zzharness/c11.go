package zzharness

import (
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

// The partial builders return every shape of a message: absent, empty, and with any of its parts absent.

func pick(name string, n int) int { return vx.ConcreteInt(vx.Int(name, 0, n-1)) }

func partEntity(n string) *domain.Entity {
	switch pick(n, 3) {
	case 0:
		return nil
	case 1:
		return &domain.Entity{}
	}
	return &domain.Entity{Resource: vx.StringOf(n+".res", 1, 1, "rux"), Id: "1"}
}

func partSubject(n string) *domain.Subject {
	switch pick(n, 8) {
	case 0:
		return nil
	case 1:
		return &domain.Subject{}
	case 2:
		return &domain.Subject{Subject: &domain.Subject_Entity{Entity: partEntity(n + ".e")}}
	case 3:
		return &domain.Subject{Subject: &domain.Subject_EntitySet{}}
	case 4:
		return &domain.Subject{Subject: &domain.Subject_EntitySet{EntitySet: &domain.EntitySet{
			Entity: partEntity(n + ".e"), Relation: vx.StringOf(n+".rel", 0, 1, "ax")}}}
	case 5:
		return &domain.Subject{Subject: &domain.Subject_ResourceSet{}}
	case 6:
		return &domain.Subject{Subject: &domain.Subject_ResourceSet{ResourceSet: &domain.ResourceSet{ResourceName: vx.StringOf(n+".rs", 0, 1, "ux")}}}
	}
	return &domain.Subject{Subject: &domain.Subject_Entity{}}
}

func partRelationship(n string) *domain.Relationship {
	if vx.Bool(n + ".nil") {
		return nil
	}
	return &domain.Relationship{Object: partEntity(n + ".o"), Relation: vx.StringOf(n+".rel", 0, 1, "ax"), Subject: partSubject(n + ".s")}
}

func partSelector(n string) *domain.RelationshipSelector {
	if vx.Bool(n + ".nil") {
		return nil
	}
	w := &domain.WildcardSelector{}
	s := &domain.RelationshipSelector{}
	switch pick(n+".o", 7) {
	case 0:
	case 1:
		s.ObjectSelector = &domain.ObjectSelector{}
	case 2:
		s.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ObjectSpec{ObjectSpec: partEntity(n + ".oe")}}
	case 3:
		s.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ResourceSpec{ResourceSpec: vx.StringOf(n+".ores", 0, 1, "rx")}}
	case 4:
		s.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_Wildcard{}}
	case 5:
		s.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ObjectSpec{}}
	default:
		s.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_Wildcard{Wildcard: w}}
	}
	switch pick(n+".r", 4) {
	case 0:
	case 1:
		s.RelationSelector = &domain.RelationSelector{}
	case 2:
		s.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_RelationName{RelationName: vx.StringOf(n+".rel", 0, 1, "ax")}}
	default:
		s.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_Wildcard{Wildcard: w}}
	}
	switch pick(n+".s", 6) {
	case 0:
	case 1:
		s.SubjectSelector = &domain.SubjectSelector{}
	case 2:
		s.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_SubjectSpec{SubjectSpec: partSubject(n + ".ss")}}
	case 3:
		s.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_ResourceSpec{ResourceSpec: vx.StringOf(n+".sres", 0, 1, "ux")}}
	case 4:
		s.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_Wildcard{}}
	default:
		s.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_Wildcard{Wildcard: w}}
	}
	return s
}

func partAccess(n string) *domain.AccessRequest {
	if vx.Bool(n + ".nil") {
		return nil
	}
	return &domain.AccessRequest{Object: partEntity(n + ".o"), Relation: vx.StringOf(n+".rel", 0, 1, "ax"), Subject: partEntity(n + ".s")}
}

func partNode(n string) *domain.RelationNode {
	switch pick(n, 8) {
	case 0:
		return nil
	case 1:
		return &domain.RelationNode{}
	case 2:
		return &domain.RelationNode{Node: &domain.RelationNode_EntitySet{}}
	case 3:
		return &domain.RelationNode{Node: &domain.RelationNode_EntitySet{EntitySet: &domain.EntitySetNode{
			Object: partEntity(n + ".e"), Relation: vx.StringOf(n+".rel", 0, 1, "ax")}}}
	case 4:
		return &domain.RelationNode{Node: &domain.RelationNode_Entity{}}
	case 5:
		return &domain.RelationNode{Node: &domain.RelationNode_Entity{Entity: &domain.EntityNode{Object: partEntity(n + ".e")}}}
	case 6:
		return &domain.RelationNode{Node: &domain.RelationNode_Wildcard{}}
	}
	return &domain.RelationNode{Node: &domain.RelationNode_Wildcard{Wildcard: &domain.WildcardNode{Resource: vx.StringOf(n+".res", 0, 1, "ux")}}}
}

func partRule(n string) *domain.Rule {
	switch pick(n, 8) {
	case 0:
		return nil
	case 1:
		return &domain.Rule{}
	case 2:
		return &domain.Rule{Rule: &domain.Rule_This{}}
	case 3:
		return &domain.Rule{Rule: &domain.Rule_Cu{}}
	case 4:
		return &domain.Rule{Rule: &domain.Rule_Ttu{}}
	case 5:
		return &domain.Rule{Rule: &domain.Rule_This{This: &domain.This{}}}
	case 6:
		return &domain.Rule{Rule: &domain.Rule_Cu{Cu: &domain.ComputedUserset{TargetRelation: vx.StringOf(n+".x", 0, 1, "ax")}}}
	}
	return &domain.Rule{Rule: &domain.Rule_Ttu{Ttu: &domain.TupleToUserset{
		TuplesetRelation: vx.StringOf(n+".x", 0, 1, "ax"), ComputedUsersetRelation: vx.StringOf(n+".y", 0, 1, "ax")}}}
}

func partExpr(n string, depth int) *domain.RelationExpressionTree {
	kinds := 3
	if depth > 0 {
		kinds = 6
	}
	switch pick(n, kinds) {
	case 0:
		return nil
	case 1:
		return &domain.RelationExpressionTree{}
	case 2:
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: partRule(n + ".rule")}}
	case 3:
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_OpNode{}}
	case 4:
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_OpNode{OpNode: &domain.OpNode{}}}
	}
	return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_OpNode{OpNode: &domain.OpNode{
		Left: partExpr(n+".l", depth-1), Operator: domain.Operator(pick(n+".op", 4)), Right: partExpr(n+".r", depth-1)}}}
}

func partRestriction(n string) *domain.SubjectRestriction {
	set := func(es ...*domain.SubjectRestrictionSet_Restriction) *domain.SubjectRestriction {
		return &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_RestrictionSet{
			RestrictionSet: &domain.SubjectRestrictionSet{Restrictions: es}}}
	}
	switch pick(n, 9) {
	case 0:
		return nil
	case 1:
		return &domain.SubjectRestriction{}
	case 2:
		return &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_UniversalSet{}}
	case 3:
		return &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_RestrictionSet{}}
	case 4:
		return set()
	case 5:
		return set(nil)
	case 6:
		return set(&domain.SubjectRestrictionSet_Restriction{})
	case 7:
		return set(&domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_Entity{}})
	}
	return set(&domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_EntitySet{}})
}

func partPolicyDef(n string) *api.PolicyDefinition {
	one := func(r *domain.Relation) *api.PolicyDefinition {
		return definition(&domain.Policy{Id: "m", Resources: []*domain.Resource{{Name: "r", Relations: []*domain.Relation{r}}}})
	}
	switch pick(n, 11) {
	case 0:
		return nil
	case 1:
		return &api.PolicyDefinition{}
	case 2:
		return &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{}}
	case 3:
		return definition(&domain.Policy{})
	case 4:
		return definition(&domain.Policy{Id: "m", Resources: []*domain.Resource{nil}})
	case 5:
		return definition(&domain.Policy{Id: "m", Resources: []*domain.Resource{{}}})
	case 6:
		return one(nil)
	case 7:
		return one(&domain.Relation{})
	case 8:
		return one(&domain.Relation{Name: "a", RelationExpression: &domain.RelationExpression{}})
	case 9:
		return one(&domain.Relation{Name: "a", RelationExpression: &domain.RelationExpression{Expression: &domain.RelationExpression_Tree{
			Tree: partExpr(n+".t", 1)}}, SubjectRestriction: universal()})
	}
	return one(&domain.Relation{Name: "a", RelationExpression: &domain.RelationExpression{Expression: &domain.RelationExpression_Tree{
		Tree: domain.ThisNode()}}, SubjectRestriction: partRestriction(n + ".sr")})
}

// partWorld holds a policy whose relations cover all rules, with one relationship.
func partWorld() *sys {
	z := newSys()
	z.create(&domain.Policy{Id: "p", Resources: []*domain.Resource{resource("r", relation("a", domain.ThisNode())), resource("u")}})
	z.mustSet("p", rel{"r", "1", "a", subj{sEntity, "u", "1", ""}})
	return z
}

func answered(what string, resp bool, err error) {
	vx.Observe(what, err == nil)
	vx.Assert(resp == (err == nil), "a call returns neither a response nor an error, or both")
	if err == nil {
		vx.Reach("answered")
	} else {
		vx.Reach("rejected")
	}
}

// intact: after whatever was asked, the stored policy still answers.
func intact(z *sys) {
	ok, err := z.check("p", "r", "1", "a", "u", "1")
	vx.Assert(err == nil && ok, "a malformed request damages stored data")
	vx.Assert(z.kv.open == 0, "an iterator is left open: the in-memory back end blocks the next write forever")
}

// PartialReads: read requests with absent parts are answered or rejected, and change nothing.
func PartialReads() {
	z := partWorld()
	before := z.kv.snapshot()
	pid := vx.StringOf("policy", 0, 1, "pq")
	switch pick("rpc", 7) {
	case 0:
		r, err := z.gr.Check(ctx, &api.CheckRequest{PolicyId: pid, AccessRequest: partAccess("a")})
		answered("check", r != nil && r.Result != nil, err)
	case 1:
		r, err := z.gr.ExplainCheck(ctx, &api.ExplainCheckRequest{PolicyId: pid, AccessRequest: partAccess("a"), Format: api.ExplainFormat(pick("format", 4))})
		answered("explain", r != nil, err)
	case 2:
		r, err := z.gr.Expand(ctx, &api.ExpandRequest{PolicyId: pid, Root: partNode("n"), Format: api.ExplainFormat(pick("format", 4))})
		answered("expand", r != nil, err)
	case 3:
		r, err := z.pol.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: pid, Relationship: partRelationship("r")})
		answered("get", r != nil, err)
	case 4:
		r, err := z.pol.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: pid, Selector: partSelector("s")})
		answered("find", r != nil && r.Result != nil, err)
	case 5:
		r, err := z.gr.DumpRelationships(ctx, &api.DumpRelationshipsRequest{PolicyId: pid, Format: api.DumpRelationshipsRequest_DumpFormat(pick("format", 2))})
		answered("dump", r != nil, err)
	default:
		r, err := z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: pid})
		answered("policy", r != nil, err)
	}
	same(before, z.kv)
	intact(z)
}

// PartialWrites: write requests with absent parts are performed or rejected; a rejection changes nothing.
func PartialWrites() {
	z := partWorld()
	before := z.kv.snapshot()
	pid := vx.StringOf("policy", 0, 1, "pq")
	var err error
	switch pick("rpc", 4) {
	case 0:
		var r *api.SetRelationshipResponse
		r, err = z.pol.SetRelationship(ctx, &api.SetRelationshipRequest{PolicyId: pid, Relationship: partRelationship("r")})
		answered("set", r != nil, err)
	case 1:
		var r *api.DeleteRelationshipResponse
		r, err = z.pol.DeleteRelationship(ctx, &api.DeleteRelationshipRequest{PolicyId: pid, Relationship: partRelationship("r")})
		answered("delete", r != nil, err)
		if err == nil && r.Found {
			return
		}
	case 2:
		var r *api.DeleteRelationshipsResponse
		r, err = z.pol.DeleteRelationships(ctx, &api.DeleteRelationshipsRequest{PolicyId: pid, Selector: partSelector("s")})
		answered("deletes", r != nil, err)
		if err == nil && r.RecordsAffected > 0 {
			return
		}
	default:
		var r *api.DeletePolicyResponse
		r, err = z.pol.DeletePolicy(ctx, &api.DeletePolicyRequest{Id: pid})
		answered("deletepolicy", r != nil, err)
		if err == nil && r.Found {
			return
		}
	}
	if err != nil {
		same(before, z.kv)
	}
	intact(z)
}

// PartialPolicies: policies with absent parts are stored or rejected; one that is stored can be used and removed.
func PartialPolicies() {
	z := partWorld()
	before := z.kv.snapshot()
	def := partPolicyDef("d")
	var err error
	if vx.Bool("update") {
		z.create(&domain.Policy{Id: "m"})
		before = z.kv.snapshot()
		var r *api.UpdatePolicyResponse
		r, err = z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: def})
		answered("update", r != nil, err)
	} else {
		var r *api.CreatePolicyResponse
		r, err = z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: def})
		answered("create", r != nil, err)
	}
	intact(z)
	if err != nil {
		same(before, z.kv)
		return
	}
	z.set("m", rel{"r", "1", "a", subj{sEntity, "r", "2", ""}})
	z.set("m", rel{"r", "1", "a", subj{kind: sWildcard, res: "r"}})
	z.set("m", rel{"r", "1", "a", subj{sSet, "r", "2", "a"}})
	z.check("m", "r", "1", "a", "r", "2")
	z.gr.Expand(ctx, &api.ExpandRequest{PolicyId: "m", Root: subj{sSet, "r", "1", "a"}.node(), Format: api.ExplainFormat_DOT})
	_, err = z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: "m"})
	vx.Assert(err == nil, "a stored policy cannot be read")
	_, err = z.pol.DeletePolicy(ctx, &api.DeletePolicyRequest{Id: "m"})
	vx.Assert(err == nil, "a stored policy cannot be deleted")
	intact(z)
}
