package zanzi_test

import (
	"context"
	"errors"
	"strings"
	"testing"

	rcdb "github.com/sourcenetwork/raccoondb"

	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

var (
	ctx  = context.Background()
	_    = errors.New
	_    = strings.Contains
	_    = types.NewMapDiGraph
	_    rcdb.KVStore
	_    domain.Operator
)

type zz struct {
	t   *testing.T
	pol api.PolicyServiceServer
	gr  api.RelationGraphServer
}

func open(t *testing.T, kv rcdb.KVStore) *zz {
	z, err := zanzi.New(zanzi.WithKVStore(kv), zanzi.WithLogger(&types.NoopLogger{}))
	if err != nil {
		t.Fatal(err)
	}
	return &zz{t, z.GetPolicyService(), z.GetRelationGraphService()}
}

func fresh(t *testing.T) *zz { return open(t, rcdb.NewMemKV()) }

func yamlDef(y string) *api.PolicyDefinition {
	return &api.PolicyDefinition{Definition: &api.PolicyDefinition_PolicyYaml{PolicyYaml: strings.ReplaceAll(y, "\t", "  ")}}
}

func (z *zz) create(y string) {
	z.t.Helper()
	if _, err := z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: yamlDef(y)}); err != nil {
		z.t.Fatal(err)
	}
}

func entity(s string) *domain.Entity {
	r, i, _ := strings.Cut(s, ":")
	return &domain.Entity{Resource: r, Id: i}
}

// subject: "u:1", "r:1#a" or "u" (every u)
func subject(s string) *domain.Subject {
	if e, rel, ok := strings.Cut(s, "#"); ok {
		return &domain.Subject{Subject: &domain.Subject_EntitySet{EntitySet: &domain.EntitySet{Entity: entity(e), Relation: rel}}}
	}
	if !strings.Contains(s, ":") {
		return &domain.Subject{Subject: &domain.Subject_ResourceSet{ResourceSet: &domain.ResourceSet{ResourceName: s}}}
	}
	return &domain.Subject{Subject: &domain.Subject_Entity{Entity: entity(s)}}
}

// rel: "r:1#a" and a subject
func rel(o, s string) *domain.Relationship {
	e, r, _ := strings.Cut(o, "#")
	return &domain.Relationship{Object: entity(e), Relation: r, Subject: subject(s)}
}

func (z *zz) trySet(o, s, data string) (*api.SetRelationshipResponse, error) {
	return z.pol.SetRelationship(ctx, &api.SetRelationshipRequest{PolicyId: "p", Relationship: rel(o, s), AppData: []byte(data)})
}

func (z *zz) set(o, s string) {
	z.t.Helper()
	if _, err := z.trySet(o, s, ""); err != nil {
		z.t.Fatal(err)
	}
}

func access(o, s string) *domain.AccessRequest {
	e, r, _ := strings.Cut(o, "#")
	return &domain.AccessRequest{Object: entity(e), Relation: r, Subject: entity(s)}
}

func (z *zz) check(o, s string) bool {
	z.t.Helper()
	resp, err := z.gr.Check(ctx, &api.CheckRequest{PolicyId: "p", AccessRequest: access(o, s)})
	if err != nil {
		z.t.Fatal(err)
	}
	return resp.Result.Authorized
}

func all() *domain.RelationshipSelector {
	b := domain.SelectorBuilder{}
	s := b.AnyObject().AnyRelation().AnySubject().Build()
	return &s
}

func (z *zz) list() []*domain.RelationshipRecord {
	z.t.Helper()
	resp, err := z.pol.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: all()})
	if err != nil {
		z.t.Fatal(err)
	}
	return resp.Result.Records
}

func want(t *testing.T, ok bool, msg string) {
	t.Helper()
	if !ok {
		t.Fatal(msg)
	}
}
