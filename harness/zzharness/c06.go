package zzharness

import (
	"strconv"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

type polEntry struct {
	id, name, data string
	created        *timestamppb.Timestamp
}

type polMap struct {
	es []*polEntry
}

// find forks on the identity of the policy.
func (m *polMap) find(id string) *polEntry {
	for _, e := range m.es {
		if e.id == id {
			return e
		}
	}
	return nil
}

func (m *polMap) remove(x *polEntry) {
	var es []*polEntry
	for _, e := range m.es {
		if e != x {
			es = append(es, e)
		}
	}
	m.es = es
}

func namedPolicy(id, name string) *domain.Policy {
	p := plainPolicy(id)
	p.Name, p.Description = name, "doc"
	return p
}

func (m *polMap) verify(z *sys, id string) {
	resp, err := z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: id})
	vx.Assert(err == nil, "getting a policy fails")
	e := m.find(id)
	vx.Assert((resp.Record != nil) == (e != nil), "a policy is found although it does not exist, or not found although it does")
	if e == nil {
		return
	}
	vx.Assert(proto.Equal(resp.Record.Policy, namedPolicy(e.id, e.name)), "a policy is not the one which was stored")
	vx.Assert(vx.BytesEq(resp.Record.AppData, []byte(e.data)), "the application data of a policy is not what was stored")
	vx.Assert(proto.Equal(resp.Record.CreatedAt, e.created), "the creation time of a policy changed")
}

func (m *polMap) list(z *sys) {
	resp, err := z.pol.ListPolicyIds(ctx, &api.ListPolicyIdsRequest{})
	vx.Assert(err == nil, "listing policies fails")
	vx.Assert(len(resp.Records) == len(m.es), "the number of listed policies is wrong")
	for _, e := range m.es {
		n := 0
		for _, r := range resp.Records {
			n += vx.IteInt(vx.StrEq(r.Id, e.id), 1, 0)
		}
		vx.Assert(n == 1, "a policy is not listed exactly once")
	}
	vx.Assert(z.kv.open == 0, "an iterator is left open: the in-memory back end blocks the next write forever")
}

// PolicyOps: create, update, delete, get and list behave like a map from ids to policies; deleting a policy removes
// its relationships and no others.
func PolicyOps() {
	z := newSys()
	m, rm := &polMap{}, &refMap{}
	// relationships live in policies "p" and "p/" which the operations may create and delete
	for i := 0; i < vx.Param("ops", 4, 5); i++ {
		n := "o" + string(rune('0'+i))
		id := vx.StringOf(n+".id", 1, 2, "p/")
		name := vx.StringOf(n+".name", 1, 1, "st")
		data := ""
		if i%2 == 0 {
			data = name
		}
		e := m.find(id)
		switch vx.ConcreteInt(vx.Int(n+".op", 0, 3)) {
		case 0:
			resp, err := z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: definition(namedPolicy(id, name)), AppData: []byte(data)})
			vx.Assert((err == nil) == (e == nil), "creating succeeds exactly when the id is free")
			if err == nil {
				vx.Assert(resp.Record != nil && resp.Record.CreatedAt != nil, "a created policy has no creation time")
				vx.Assert(proto.Equal(resp.Record.Policy, namedPolicy(id, name)), "the created policy is not the requested one")
				m.es = append(m.es, &polEntry{id, name, data, resp.Record.CreatedAt})
				vx.Reach("created")
			} else {
				vx.Reach("exists")
			}
		case 1:
			_, err := z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: definition(namedPolicy(id, name)), AppData: []byte(data)})
			vx.Assert((err == nil) == (e != nil), "updating succeeds exactly when the policy exists")
			if err == nil {
				e.name, e.data = name, data
				vx.Reach("updated")
			}
		case 2:
			resp, err := z.pol.DeletePolicy(ctx, &api.DeletePolicyRequest{Id: id})
			vx.Assert(err == nil, "deleting a policy fails")
			vx.Assert(resp.Found == (e != nil), "delete reports presence wrongly")
			want := 0
			for _, r := range rm.es {
				hit := vx.And(r.present, vx.StrEq(r.policy, id))
				want += vx.IteInt(hit, 1, 0)
				r.present = vx.And(r.present, !hit)
			}
			vx.Assert(int(resp.RelationshipsRemoved) == want, "the number of relationships removed along with a policy is wrong")
			if e != nil {
				m.remove(e)
				vx.Reach("deleted")
			}
		default:
			r := rel{"r", name, "a", subj{sEntity, "u", "1", ""}}
			_, err := z.set(id, r)
			vx.Assert((err == nil) == (e != nil), "setting a relationship succeeds exactly when the policy exists")
			if err == nil {
				rm.put(id, r, "")
				vx.Reach("set")
			}
		}
		m.verify(z, id)
	}
	m.list(z)
	for _, e := range m.es {
		m.verify(z, e.id)
		rm.compare(z, e.id)
	}
	// a policy created again after its deletion starts without relationships
	if id := vx.StringOf("again", 1, 2, "p/"); m.find(id) == nil {
		z.create(namedPolicy(id, "s"))
		rm.compare(z, id)
	}
}

// PolicyMany: many policies with many relationships, one of which is deleted or updated.
func PolicyMany() {
	z := newSys()
	m, rm := &polMap{}, &refMap{}
	n, k := vx.Param("policies", 24, 70), vx.Param("facts", 10, 40)
	for i := 0; i < n; i++ {
		id := "p" + strconv.Itoa(i)
		resp, err := z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: definition(namedPolicy(id, id)), AppData: []byte(id)})
		vx.Assert(err == nil, "a well-formed policy is rejected")
		m.es = append(m.es, &polEntry{id, id, id, resp.Record.CreatedAt})
		facts := 1
		if i < 2 {
			facts = k
		}
		for j := 0; j < facts; j++ {
			r := rel{"r", strconv.Itoa(j / 2), "a", subj{kind: 2 * (j % 2), res: "u"}}
			if r.s.kind == sEntity {
				r.s.id = "1"
			}
			z.mustSet(id, r)
			rm.put(id, r, "")
		}
	}
	id := "p" + strconv.Itoa(pick("which", n+1))
	e := m.find(id)
	if vx.Bool("update") {
		_, err := z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: definition(namedPolicy(id, "new")), AppData: nil})
		vx.Assert((err == nil) == (e != nil), "updating succeeds exactly when the policy exists")
		if e != nil {
			e.name, e.data = "new", ""
		}
	} else {
		resp, err := z.pol.DeletePolicy(ctx, &api.DeletePolicyRequest{Id: id})
		vx.Assert(err == nil, "deleting a policy fails")
		vx.Assert(resp.Found == (e != nil), "delete reports presence wrongly")
		want := 0
		for _, r := range rm.es {
			if r.present && r.policy == id {
				r.present = false
				want++
			}
		}
		vx.Assert(int(resp.RelationshipsRemoved) == want, "the number of relationships removed along with a policy is wrong")
		m.remove(e)
	}
	m.list(z)
	for _, e := range m.es {
		m.verify(z, e.id)
	}
	for _, p := range []string{"p0", "p1", "p" + strconv.Itoa(n-1)} {
		if m.find(p) != nil {
			rm.compare(z, p)
		}
	}
	if m.find(id) == nil {
		vx.Reach("recreated")
		z.create(namedPolicy(id, "s"))
		rm.compare(z, id)
	} else {
		vx.Reach("kept")
	}
}

// PolicyOrphans: deleting a policy also removes the relationships which it no longer permits.
func PolicyOrphans() {
	z := newSys()
	m := selWorld(z, vx.Param("facts", 2, 3))
	z.update(shrunk("p"))
	want := 0
	for _, e := range m.es {
		hit := vx.And(e.present, vx.StrEq(e.policy, "p"))
		want += vx.IteInt(hit, 1, 0)
		e.present = vx.And(e.present, !hit)
	}
	resp, err := z.pol.DeletePolicy(ctx, &api.DeletePolicyRequest{Id: "p"})
	vx.Assert(err == nil && resp.Found, "deleting a policy fails")
	vx.Assert(int(resp.RelationshipsRemoved) == want, "the number of relationships removed along with a policy is wrong")
	z.create(selectorPolicy("p"))
	m.compare(z, "p", "q")
}

// PolicyIds: policies whose ids differ in spaces, case or length only.
func PolicyIds() {
	z := newSys()
	m, rm := &polMap{}, &refMap{}
	var ids []string
	for i := 0; i < vx.Param("policies", 2, 3); i++ {
		n := "p" + string(rune('0'+i))
		id := vx.StringOf(n, 1, 2, "pP \n\x00/")
		for _, o := range ids {
			vx.Assume(!vx.StrEq(o, id))
		}
		ids = append(ids, id)
		resp, err := z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: definition(namedPolicy(id, n)), AppData: []byte(n)})
		vx.Assert(err == nil, "creating succeeds exactly when the id is free")
		m.es = append(m.es, &polEntry{id, n, n, resp.Record.CreatedAt})
		r := rel{"r", n, "a", subj{sEntity, "u", "1", ""}}
		z.mustSet(id, r)
		rm.put(id, r, "")
	}
	switch pick("op", 3) {
	case 0:
		_, err := z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: definition(namedPolicy(ids[0], "new")), AppData: []byte("new")})
		vx.Assert(err == nil, "updating succeeds exactly when the policy exists")
		m.es[0].name, m.es[0].data = "new", "new"
	case 1:
		resp, err := z.pol.DeletePolicy(ctx, &api.DeletePolicyRequest{Id: ids[0]})
		vx.Assert(err == nil && resp.Found && resp.RelationshipsRemoved == 1, "deleting a policy fails")
		m.remove(m.es[0])
		rm.es[0].present = false
	default:
		_, err := z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: definition(namedPolicy(ids[1], "new"))})
		vx.Assert(err != nil, "creating succeeds exactly when the id is free")
	}
	m.list(z)
	for _, e := range m.es {
		m.verify(z, e.id)
		rm.compare(z, e.id)
	}
	vx.Reach("verified")
}

// bulk is a relationship by number; the even ones are of relation a, the odd ones of b.
func bulk(i int) rel {
	return rel{"r", strconv.Itoa(i / 2), []string{"a", "b"}[i%2], subj{sEntity, "u", strconv.Itoa(i % 7), ""}}
}

// bulkListed asserts that the policy lists exactly the relationships lo, lo+step, ... below n.
func bulkListed(z *sys, policy string, lo, step, n int) {
	resp, err := z.pol.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: policy, Selector: anySelector()})
	vx.Assert(err == nil, "listing the relationships of a policy fails")
	want := map[rel]bool{}
	for i := lo; i < n; i += step {
		want[bulk(i)] = true
	}
	vx.Assert(len(resp.Result.Records) == len(want), "a policy lists fewer or more relationships than it has")
	for _, rec := range resp.Result.Records {
		r, ok := fromPb(rec.Relationship)
		vx.Assert(ok && want[r], "a policy lists a relationship twice or one which it does not have")
		delete(want, r)
	}
}

// PolicyBulk: the relationships of a policy are all removed along with it, however many.
func PolicyBulk() {
	z := newSys()
	n := vx.Param("n", 520, 1100)
	for _, p := range []string{"p", "q"} {
		z.create(namedPolicy(p, p))
	}
	for i := 0; i < n; i++ {
		z.mustSet("p", bulk(i))
	}
	z.mustSet("q", bulk(0))
	if vx.Bool("part") {
		q := anySelector()
		q.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_RelationName{RelationName: "b"}}
		resp, err := z.pol.DeleteRelationships(ctx, &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: q})
		vx.Assert(err == nil && int(resp.RecordsAffected) == n/2, "the number of deleted relationships is wrong")
		bulkListed(z, "p", 0, 2, n)
	} else {
		bulkListed(z, "p", 0, 1, n)
		resp, err := z.pol.DeletePolicy(ctx, &api.DeletePolicyRequest{Id: "p"})
		vx.Assert(err == nil && resp.Found, "deleting a policy fails")
		vx.Assert(int(resp.RelationshipsRemoved) == n, "the number of relationships removed along with a policy is wrong")
		z.create(namedPolicy("p", "s"))
		bulkListed(z, "p", 0, 1, 0)
	}
	bulkListed(z, "q", 0, 1, 1)
	vx.Reach("verified")
}
