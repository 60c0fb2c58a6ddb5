package zzharness

import (
	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

// inject makes an arbitrary storage operation from now on fail, once or for good.
func inject(kv *kvStore) {
	kv.faultAt = kv.ops + vx.Int("at", 0, 63)
	kv.persistent = vx.Bool("persistent")
}

func heal(kv *kvStore) { kv.faultAt, kv.persistent = -1, false }

// FaultWrites: a storage operation fails during a call which writes.  The call reports an error, or has done all its
// work; either way the store is consistent, and the call can be repeated.
func FaultWrites() {
	w := crashSetup()
	s := crashState{r: may{true, ""}, keep: may{false, "k"}, policy: may{false, "o"}, created: may{true, ""}}
	if w.before {
		s.r = may{false, "o"}
	}
	z := w.z
	inject(z.kv)
	err := w.run(z)
	if err != nil {
		vx.Reach("reported")
		vx.Assert(z.kv.faulted, "a valid call fails")
	} else if z.kv.faulted {
		vx.Reach("tolerated")
	}
	heal(z.kv)
	s = s.after(w.op, err == nil)
	w.survey(z, s)
	if err := w.run(z); err != nil {
		w.refused(z, s)
		return
	}
	w.survey(z, s.after(w.op, true))
}

// FaultReads: a storage operation fails during a call which reads.  The call reports an error or returns what it would
// have returned without the failure.
func FaultReads() {
	z := newSys()
	z.create(&domain.Policy{Id: "p", Resources: []*domain.Resource{
		resource("r", relation("a", symOp("o", &expr{kind: eThis}, &expr{kind: eTTU, x: "b", y: "a"}).pb()),
			relation("b", domain.ThisNode())), resource("u")}})
	z.create(plainPolicy("q"))
	for i := 0; i < vx.Param("facts", 2, 3); i++ {
		n := "f" + string(rune('0'+i))
		f := symFact(n, "12", "ab", sSet, sEntity)
		if f.s.kind == sEntity && vx.Bool(n+".obj") {
			f.s.res, f.s.id = "r", "2"
		} else if f.s.kind == sEntity {
			f.s.id = "x"
			vx.Assume(f.rel == "a") // a tupleset subject needs the relation
		}
		vx.Assert(setData(z, "p", f, "d") == nil, "a permitted relationship is rejected")
	}
	ref := open(z.kv.snapshot())
	inject(z.kv)
	rpc := pick("rpc", 8)
	var err, rerr error
	equal := true
	switch rpc {
	case 0:
		var a, b bool
		a, err = z.check("p", "r", "1", "a", "u", "x")
		b, rerr = ref.check("p", "r", "1", "a", "u", "x")
		equal = a == b
	case 1:
		var a, b *api.ExplainCheckResponse
		a, err = z.explain("p", "r", "1", "a", "u", "x", api.ExplainFormat_DOT)
		b, rerr = ref.explain("p", "r", "1", "a", "u", "x", api.ExplainFormat_DOT)
		if err == nil && rerr == nil {
			equal = a.Authorized == b.Authorized && sameDot(a.GoalTree, b.GoalTree)
		}
	case 2:
		q := &api.ExpandRequest{PolicyId: "p", Root: subj{sSet, "r", "1", "a"}.node(), Format: api.ExplainFormat_DOT}
		var a, b *api.ExpandResponse
		a, err = z.gr.Expand(ctx, q)
		b, rerr = ref.gr.Expand(ctx, q)
		if err == nil && rerr == nil {
			equal = sameDot(a.GoalTree, b.GoalTree)
		}
	case 3:
		var a, b *api.DumpRelationshipResponse
		a, err = z.gr.DumpRelationships(ctx, &api.DumpRelationshipsRequest{PolicyId: "p"})
		b, rerr = ref.gr.DumpRelationships(ctx, &api.DumpRelationshipsRequest{PolicyId: "p"})
		if err == nil && rerr == nil {
			equal = sameDot(a.GetDot(), b.GetDot())
		}
	case 4:
		q := &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: anySelector()}
		var a, b *api.FindRelationshipRecordsResponse
		a, err = z.pol.FindRelationshipRecords(ctx, q)
		b, rerr = ref.pol.FindRelationshipRecords(ctx, q)
		equal = err != nil || proto.Equal(a, b)
	case 5:
		q := &api.GetRelationshipRequest{PolicyId: "p", Relationship: symFact("g", "1", "a", sSet, sEntity).pb()}
		var a, b *api.GetRelationshipResponse
		a, err = z.pol.GetRelationship(ctx, q)
		b, rerr = ref.pol.GetRelationship(ctx, q)
		equal = err != nil || proto.Equal(a, b)
	case 6:
		var a, b *api.ListPolicyIdsResponse
		a, err = z.pol.ListPolicyIds(ctx, &api.ListPolicyIdsRequest{})
		b, rerr = ref.pol.ListPolicyIds(ctx, &api.ListPolicyIdsRequest{})
		equal = err != nil || proto.Equal(a, b)
	default:
		var a, b *api.GetPolicyResponse
		a, err = z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: "p"})
		b, rerr = ref.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: "p"})
		equal = err != nil || proto.Equal(a, b)
	}
	vx.Assert(rerr == nil, "a valid call fails")
	vx.Assert(z.kv.open == 0, "an iterator is left open: the in-memory back end blocks the next write forever")
	if err != nil {
		vx.Reach("reported")
		vx.Assert(z.kv.faulted, "a valid call fails")
		return
	}
	vx.Reach("answered")
	vx.Assert(equal, "a storage failure is not reported and the answer is wrong")
}

func sameDot(a, b string) bool {
	x, y := vx.ReadDot(a), vx.ReadDot(b)
	if !x.Valid || !y.Valid || len(x.Order) != len(y.Order) || len(x.Edges) != len(y.Edges) {
		return false
	}
	used := make([]bool, len(y.Order))
	for _, n := range x.Order {
		hit := false
		for i, m := range y.Order {
			if !hit && !used[i] && x.Nodes[n] == y.Nodes[m] {
				used[i], hit = true, true
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

// FaultRefused: a call which is refused without failures is refused, and changes nothing, with one too.
func FaultRefused() {
	z := newSys()
	z.create(plainPolicy("p"))
	z.create(&domain.Policy{Id: "e"})
	keep := rel{"r", "1", "a", subj{sEntity, "u", "1", ""}}
	z.mustSet("p", keep)
	before := z.kv.snapshot()
	inject(z.kv)
	var err error
	bad := &domain.Policy{Id: "p", Resources: []*domain.Resource{resource("r", relation("a", domain.CUNode("x")))}}
	switch pick("call", 12) {
	case 0:
		_, err = z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: definition(updatedPolicy())})
	case 1:
		_, err = z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: definition(plainPolicy("e"))})
	case 2:
		_, err = z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: definition(plainPolicy("n"))})
	case 3:
		_, err = z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: definition(bad)})
	case 4:
		_, err = z.set("n", keep)
	case 5:
		_, err = z.set("e", keep)
	case 6:
		_, err = z.set("p", rel{"r", "1", "x", subj{sEntity, "u", "1", ""}})
	case 7:
		_, err = z.set("p", rel{"r", "1", "a", subj{sSet, "u", "1", "a"}})
	case 8:
		_, err = z.check("n", "r", "1", "a", "u", "1")
	case 9:
		_, err = z.check("p", "r", "1", "x", "u", "1")
	case 10:
		_, err = z.gr.DumpRelationships(ctx, &api.DumpRelationshipsRequest{PolicyId: "n"})
	default:
		_, err = z.gr.Expand(ctx, &api.ExpandRequest{PolicyId: "p", Root: subj{sSet, "r", "1", "x"}.node(), Format: api.ExplainFormat_DOT})
	}
	vx.Assert(err != nil, "a call which must be refused succeeds because of a storage failure")
	if z.kv.faulted {
		vx.Reach("faulted")
	} else {
		vx.Reach("refused")
	}
	heal(z.kv)
	same(before, z.kv)
	ok, err := z.check("p", "r", "1", "a", "u", "1")
	vx.Assert(err == nil && ok, "a refused call damages stored data")
}

// FaultMany: a failure anywhere while many relationships are listed, checked or removed.
func FaultMany() {
	z := newSys()
	z.create(plainPolicy("p"))
	n := vx.Param("n", 14, 24)
	var rs []rel
	for i := 0; i < n; i++ {
		r := rel{"r", string(rune('0' + i%2)), "a", subj{sEntity, "u", string(rune('a' + i)), ""}}
		if i == n-1 {
			r.s = subj{sSet, "r", "0", "a"}
			r.id = "1"
		}
		rs = append(rs, r)
		vx.Assert(setData(z, "p", r, "d") == nil, "a permitted relationship is rejected")
	}
	z.kv.faultAt = z.kv.ops + pick("at", vx.Param("points", 110, 190))
	z.kv.persistent = vx.Bool("persistent")
	state := func(gone func(r rel) bool, strict bool) {
		heal(z.kv)
		vx.Assert(z.kv.open == 0, "an iterator is left open: the in-memory back end blocks the next write forever")
		got, err := z.pol.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: anySelector()})
		vx.Assert(err == nil, "after a failure the relationships cannot be listed")
		for _, r := range rs {
			in := 0
			for _, rec := range got.Result.Records {
				if x, ok := fromPb(rec.Relationship); ok && x.eq(r) && string(rec.AppData) == "d" {
					in++
				}
			}
			one, err := z.pol.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: "p", Relationship: r.pb()})
			vx.Assert(err == nil, "after a failure a relationship cannot be looked up")
			vx.Assert((one.Record != nil) == (in == 1) && in <= 1, "after a failure lookup and listing disagree on a relationship")
			if !gone(r) {
				vx.Assert(in == 1, "a failed or partial removal takes relationships which it does not match")
			} else if strict {
				vx.Assert(in == 0, "a removal reports success and leaves a relationship")
			}
		}
		vx.Assert(len(got.Result.Records) <= len(rs), "after a failure a relationship appears which was never set")
	}
	kept := func(rel) bool { return false }
	var err error
	switch pick("call", 5) {
	case 0:
		s := anySelector()
		s.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ObjectSpec{ObjectSpec: &domain.Entity{Resource: "r", Id: "1"}}}
		q := &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: s}
		var resp *api.DeleteRelationshipsResponse
		resp, err = z.pol.DeleteRelationships(ctx, q)
		gone := func(r rel) bool { return r.id == "1" }
		state(gone, err == nil)
		if err == nil {
			vx.Assert(int(resp.RecordsAffected) == n/2, "a removal which reports success reports a wrong number")
		}
		_, again := z.pol.DeleteRelationships(ctx, q)
		vx.Assert(again == nil, "a failed removal cannot be repeated")
		state(gone, true)
	case 1:
		var resp *api.DeletePolicyResponse
		resp, err = z.pol.DeletePolicy(ctx, &api.DeletePolicyRequest{Id: "p"})
		heal(z.kv)
		if err == nil {
			vx.Assert(resp.Found && int(resp.RelationshipsRemoved) == n, "a removal which reports success reports a wrong number")
		} else if p, e := z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: "p"}); e == nil && p.Record != nil {
			state(func(rel) bool { return true }, false)
			_, again := z.pol.DeletePolicy(ctx, &api.DeletePolicyRequest{Id: "p"})
			vx.Assert(again == nil, "a failed removal cannot be repeated")
		} else {
			vx.Assert(e == nil, "after a failure a policy cannot be read")
		}
		z.create(plainPolicy("p"))
		got, e := z.pol.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: anySelector()})
		vx.Assert(e == nil && len(got.Result.Records) == 0, "a policy created anew has relationships of a deleted one")
	case 2:
		var got *api.FindRelationshipRecordsResponse
		got, err = z.pol.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: anySelector()})
		vx.Assert(err != nil || len(got.Result.Records) == n, "a storage failure is not reported and the answer is wrong")
		state(kept, false)
	case 3:
		who := string(rune('a' + (n-2)*pick("who", 2)))
		var ok bool
		ok, err = z.check("p", "r", "1", "a", "u", who)
		vx.Assert(err != nil || ok, "a storage failure is not reported and the answer is wrong")
		state(kept, false)
	default:
		var ok bool
		ok, err = z.check("p", "r", "1", "a", "u", "none")
		vx.Assert(err != nil || !ok, "a storage failure is not reported and the answer is wrong")
		state(kept, false)
	}
	if err != nil {
		vx.Assert(z.kv.faulted, "a valid call fails")
		vx.Reach("reported")
	} else {
		vx.Reach("answered")
	}
}
