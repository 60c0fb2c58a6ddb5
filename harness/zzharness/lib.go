package zzharness

import (
	"context"

	"github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/types"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

var ctx = context.Background()

// sys is one zanzi instance over a harness store.
type sys struct {
	kv  *kvStore
	pol api.PolicyServiceServer
	gr  api.RelationGraphServer
}

func open(kv *kvStore) *sys {
	z, err := zanzi.New(zanzi.WithKVStore(kv), zanzi.WithLogger(&types.NoopLogger{}))
	if err != nil {
		panic(err)
	}
	return &sys{kv: kv, pol: z.GetPolicyService(), gr: z.GetRelationGraphService()}
}

func newSys() *sys { return open(newKV()) }

// ---- subjects and relationships ----

const (
	sEntity = iota
	sSet
	sWildcard
)

type subj struct {
	kind         int
	res, id, rel string
}

type rel struct {
	res, id, rel string
	s            subj
}

func (s subj) pb() *domain.Subject {
	switch s.kind {
	case sEntity:
		return &domain.Subject{Subject: &domain.Subject_Entity{Entity: &domain.Entity{Resource: s.res, Id: s.id}}}
	case sSet:
		return &domain.Subject{Subject: &domain.Subject_EntitySet{EntitySet: &domain.EntitySet{
			Entity: &domain.Entity{Resource: s.res, Id: s.id}, Relation: s.rel}}}
	}
	return &domain.Subject{Subject: &domain.Subject_ResourceSet{ResourceSet: &domain.ResourceSet{ResourceName: s.res}}}
}

func (r rel) pb() *domain.Relationship {
	return &domain.Relationship{Object: &domain.Entity{Resource: r.res, Id: r.id}, Relation: r.rel, Subject: r.s.pb()}
}

// eq without forking.
func (s subj) eq(t subj) bool {
	if s.kind != t.kind {
		return false
	}
	switch s.kind {
	case sEntity:
		return vx.And(vx.StrEq(s.res, t.res), vx.StrEq(s.id, t.id))
	case sSet:
		return vx.And(vx.StrEq(s.res, t.res), vx.StrEq(s.id, t.id), vx.StrEq(s.rel, t.rel))
	}
	return vx.StrEq(s.res, t.res)
}

func (r rel) eq(t rel) bool {
	return vx.And(vx.StrEq(r.res, t.res), vx.StrEq(r.id, t.id), vx.StrEq(r.rel, t.rel), r.s.eq(t.s))
}

// fromPb reads a relationship back; ok is false when it is malformed.
func fromPb(r *domain.Relationship) (out rel, ok bool) {
	if r == nil || r.Object == nil || r.Subject == nil {
		return
	}
	out.res, out.id, out.rel = r.Object.Resource, r.Object.Id, r.Relation
	switch s := r.Subject.Subject.(type) {
	case *domain.Subject_Entity:
		out.s = subj{kind: sEntity, res: s.Entity.Resource, id: s.Entity.Id}
	case *domain.Subject_EntitySet:
		out.s = subj{kind: sSet, res: s.EntitySet.Entity.Resource, id: s.EntitySet.Entity.Id, rel: s.EntitySet.Relation}
	case *domain.Subject_ResourceSet:
		out.s = subj{kind: sWildcard, res: s.ResourceSet.ResourceName}
	default:
		return
	}
	return out, true
}

// ---- policies ----

func universal() *domain.SubjectRestriction {
	return &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_UniversalSet{UniversalSet: &domain.UniversalSet{}}}
}

func relation(name string, tree *domain.RelationExpressionTree) *domain.Relation {
	return &domain.Relation{
		Name:               name,
		RelationExpression: &domain.RelationExpression{Expression: &domain.RelationExpression_Tree{Tree: tree}},
		SubjectRestriction: universal(),
	}
}

func relationExpr(name, expr string) *domain.Relation {
	return &domain.Relation{
		Name:               name,
		RelationExpression: &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: expr}},
		SubjectRestriction: universal(),
	}
}

func resource(name string, rels ...*domain.Relation) *domain.Resource {
	return &domain.Resource{Name: name, Relations: rels}
}

func definition(p *domain.Policy) *api.PolicyDefinition {
	return &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: p}}
}

func (z *sys) create(p *domain.Policy) {
	_, err := z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: definition(p)})
	if err != nil {
		vx.Observe("err", err.Error())
		vx.Assert(false, "a well-formed policy is rejected")
	}
}

func (z *sys) set(policy string, r rel) (*api.SetRelationshipResponse, error) {
	return z.pol.SetRelationship(ctx, &api.SetRelationshipRequest{PolicyId: policy, Relationship: r.pb()})
}

func (z *sys) mustSet(policy string, r rel) {
	_, err := z.set(policy, r)
	vx.Assert(err == nil, "a permitted relationship is rejected")
}

func (z *sys) check(policy, res, id, relation, sres, sid string) (bool, error) {
	r, err := z.gr.Check(ctx, &api.CheckRequest{PolicyId: policy, AccessRequest: &domain.AccessRequest{
		Object: &domain.Entity{Resource: res, Id: id}, Relation: relation, Subject: &domain.Entity{Resource: sres, Id: sid}}})
	if err != nil {
		return false, err
	}
	return r.Result.Authorized, nil
}
