package zzharness

import (
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

// crashWorld: policies p and q; p holds others besides what the interrupted call works on.
type crashWorld struct {
	z      *sys
	op     int
	r      rel   // what the call works on
	keep   []rel // relationships of p no call touches (deleting p aside)
	before bool  // r is stored before the call
}

const (
	cSet = iota
	cOverwrite
	cDelete
	cDeleteMany
	cDeletePolicy
	cCreate
	cUpdate
	cOps
)

func setData(z *sys, p string, r rel, d string) error {
	_, err := z.pol.SetRelationship(ctx, &api.SetRelationshipRequest{PolicyId: p, Relationship: r.pb(), AppData: []byte(d)})
	return err
}

func crashSetup() *crashWorld {
	w := &crashWorld{z: newSys(), op: pick("op", cOps)}
	z := w.z
	z.create(plainPolicy("p"))
	z.create(plainPolicy("q"))
	w.r = rel{"r", vx.StringOf("id", 1, 1, "12"), "a", subj{kind: pick("kind", 3), res: "u"}}
	switch w.r.s.kind {
	case sEntity:
		w.r.s.id = vx.StringOf("sid", 1, 1, "12")
	case sSet:
		w.r.s = subj{sSet, "r", vx.StringOf("sid", 1, 1, "12"), "b"}
	}
	w.keep = []rel{
		{"r", "1", "b", subj{sEntity, "u", "1", ""}},
		{"r", vx.StringOf("kid", 1, 1, "12"), vx.StringOf("krel", 1, 1, "ab"), subj{sEntity, "u", vx.StringOf("ksid", 1, 1, "13"), ""}},
	}
	for _, k := range w.keep {
		// deleting by selector takes the object and relation of r
		vx.Assume(!vx.And(vx.StrEq(k.id, w.r.id), vx.StrEq(k.rel, w.r.rel)))
		vx.Assert(setData(z, "p", k, "k") == nil, "a permitted relationship is rejected")
	}
	vx.Assert(setData(z, "q", w.r, "q") == nil, "a permitted relationship is rejected")
	w.before = w.op != cSet
	if w.before {
		vx.Assert(setData(z, "p", w.r, "o") == nil, "a permitted relationship is rejected")
	}
	return w
}

func updatedPolicy() *domain.Policy {
	p := plainPolicy("p")
	p.Name = "updated"
	return p
}

func (w *crashWorld) run(z *sys) error {
	var err error
	switch w.op {
	case cSet, cOverwrite:
		err = setData(z, "p", w.r, "n")
	case cDelete:
		_, err = z.pol.DeleteRelationship(ctx, &api.DeleteRelationshipRequest{PolicyId: "p", Relationship: w.r.pb()})
	case cDeleteMany:
		s := anySelector()
		s.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ObjectSpec{ObjectSpec: &domain.Entity{Resource: "r", Id: w.r.id}}}
		s.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_RelationName{RelationName: w.r.rel}}
		_, err = z.pol.DeleteRelationships(ctx, &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: s})
	case cDeletePolicy:
		_, err = z.pol.DeletePolicy(ctx, &api.DeletePolicyRequest{Id: "p"})
	case cCreate:
		_, err = z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: definition(plainPolicy("n"))})
	case cUpdate:
		_, err = z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: definition(updatedPolicy())})
	}
	return err
}

// view of one relationship of policy p through every way of asking.
func (w *crashWorld) view(z *sys, r rel, listed []*domain.RelationshipRecord) (present bool, data []byte) {
	got, err := z.pol.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: "p", Relationship: r.pb()})
	vx.Assert(err == nil, "after an interrupted call a lookup fails")
	inList := false
	for _, rec := range listed {
		x, _ := fromPb(rec.Relationship)
		if x.eq(r) {
			vx.Assert(!inList, "after an interrupted call a relationship is listed twice")
			inList = true
			data = rec.AppData
		}
	}
	vx.Assert(inList == (got.Record != nil), "after an interrupted call lookup and listing disagree on a relationship")
	if inList {
		vx.Assert(vx.BytesEq(got.Record.AppData, data), "after an interrupted call lookup and listing disagree on data")
		vx.Assert(got.Record.CreatedAt != nil, "after an interrupted call a relationship has no creation time")
	}
	sres, sid := r.s.res, r.s.id
	if r.s.kind == sEntity {
		ok, err := z.check("p", r.res, r.id, r.rel, sres, sid)
		vx.Assert(err == nil, "after an interrupted call a check fails")
		if !inList {
			// a wildcard might grant the same
			for _, rec := range listed {
				x, _ := fromPb(rec.Relationship)
				if x.s.kind == sWildcard && x.id == r.id && x.rel == r.rel {
					return inList, data
				}
			}
		}
		vx.Assert(ok == inList, "after an interrupted call check and listing disagree on a relationship")
	}
	return inList, data
}

func (w *crashWorld) list(z *sys) []*domain.RelationshipRecord {
	resp, err := z.pol.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: anySelector()})
	vx.Assert(err == nil, "after an interrupted call the relationships cannot be listed")
	for _, rec := range resp.Result.Records {
		vx.Assert(rec != nil, "after an interrupted call the listing has an empty record")
		x, ok := fromPb(rec.Relationship)
		vx.Assert(ok, "after an interrupted call the listing has a malformed relationship")
		known := x.eq(w.r)
		for _, k := range w.keep {
			known = vx.Or(known, x.eq(k))
		}
		vx.Assert(known, "after an interrupted call a relationship appears which was never set")
	}
	return resp.Result.Records
}

// may is the set of states a relationship can be in: absent, or present with one of the data values.
type may struct {
	absent bool
	data   string // one letter per possible value
}

func (m may) check(present bool, data []byte) {
	if !present {
		vx.Assert(m.absent, "a relationship which was set, and which no call removed, is absent")
		return
	}
	ok := false
	for _, d := range chars(m.data) {
		ok = ok || string(data) == d
	}
	vx.Assert(ok, "a relationship which was removed is still there, or has data which was not set for it")
}

type crashState struct {
	r, keep may
	policy  may // of p: data is o(riginal) or u(pdated)
	created may // policy n
}

// after: the states once the call ran (done) or died somewhere.
func (s crashState) after(op int, done bool) crashState {
	n := s
	switch op {
	case cSet, cOverwrite:
		n.r = may{false, "n"}
	case cDelete, cDeleteMany:
		n.r = may{true, ""}
	case cDeletePolicy:
		n.r, n.keep, n.policy = may{true, ""}, may{true, ""}, may{true, ""}
	case cCreate:
		n.created = may{false, "o"}
	case cUpdate:
		n.policy = may{false, "u"}
	}
	if !done {
		n.r = may{n.r.absent || s.r.absent, n.r.data + s.r.data}
		n.keep = may{n.keep.absent || s.keep.absent, n.keep.data + s.keep.data}
		n.policy = may{n.policy.absent || s.policy.absent, n.policy.data + s.policy.data}
		n.created = may{n.created.absent || s.created.absent, n.created.data + s.created.data}
	}
	return n
}

// survey looks at everything and compares it with the possible states.
func (w *crashWorld) survey(z *sys, s crashState) {
	// the other policy is untouched
	got, err := z.pol.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: "q", Relationship: w.r.pb()})
	vx.Assert(err == nil && got.Record != nil && string(got.Record.AppData) == "q", "an interrupted call damages another policy")

	pol := w.policy(z, "p", s.policy)
	w.policy(z, "n", s.created)
	if !pol {
		// nothing of it may come back
		z = open(z.kv.snapshot())
		z.create(plainPolicy("p"))
		vx.Assert(len(w.list(z)) == 0, "a policy created anew has relationships of a deleted one")
		return
	}
	listed := w.list(z)
	for _, k := range w.keep {
		present, data := w.view(z, k, listed)
		s.keep.check(present, data)
	}
	present, data := w.view(z, w.r, listed)
	s.r.check(present, data)
}

func (w *crashWorld) policy(z *sys, id string, m may) bool {
	pol, err := z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: id})
	vx.Assert(err == nil, "after an interrupted call a policy cannot be read")
	ids, err := z.pol.ListPolicyIds(ctx, &api.ListPolicyIdsRequest{})
	vx.Assert(err == nil, "after an interrupted call the policies cannot be listed")
	n := 0
	for _, x := range ids.Records {
		if x.Id == id {
			n++
		}
	}
	if pol.Record == nil {
		vx.Assert(n == 0, "a policy which cannot be read is listed")
		vx.Assert(m.absent, "an interrupted call loses a policy")
		return false
	}
	vx.Assert(n == 1, "a policy which can be read is not listed once")
	ok := false
	for _, d := range chars(m.data) {
		ok = ok || (d == "u") == (pol.Record.Policy.Name == "updated")
	}
	vx.Assert(ok, "a policy is neither the old nor the new one, or exists although it was deleted")
	return true
}

// Crash: the process dies before an arbitrary storage write of an arbitrary call, restarts and performs another
// arbitrary call, which may die likewise.  What no call worked on stays intact, what one worked on is in its old or new
// state by every way of asking, and a call which is repeated completes.
func Crash() {
	w := crashSetup()
	s := crashState{r: may{true, ""}, keep: may{false, "k"}, policy: may{false, "o"}, created: may{true, ""}}
	if w.before {
		s.r = may{false, "o"}
	}
	z := w.z
	for c := 0; c < vx.Param("crashes", 2, 3); c++ {
		if c > 0 {
			w.op = pick("op"+string(rune('0'+c)), cOps)
		}
		z.kv.failAt, z.kv.failed = z.kv.writes+vx.Int("at"+string(rune('0'+c)), 0, vx.Param("points", 15, 15)), false
		var err error
		died := vx.Try(func() { err = w.run(z) })
		vx.Assert(died == z.kv.failed, "a call panics")
		if !died && err != nil {
			w.refused(z, s)
			return
		}
		s = s.after(w.op, !died)
		z = open(z.kv.snapshot())
		w.survey(z, s)
		if died {
			vx.Reach("died")
		} else {
			vx.Reach("completed")
			break
		}
	}
	if err := w.run(z); err != nil {
		w.refused(z, s)
		return
	}
	w.survey(z, s.after(w.op, true))
}

// refused: the call failed without dying, which only a missing (or already existing) policy justifies.
func (w *crashWorld) refused(z *sys, s crashState) {
	vx.Reach("refused")
	switch w.op {
	case cSet, cOverwrite, cUpdate:
		vx.Assert(!w.policy(z, "p", s.policy), "a call fails although its policy exists")
	case cCreate:
		vx.Assert(w.policy(z, "n", s.created), "creating a policy fails although it does not exist")
	default:
		vx.Assert(false, "a call cannot be repeated after it was interrupted")
	}
}

// CrashMany: the process dies anywhere while many relationships are removed, by selector or with their policy.
func CrashMany() {
	z := newSys()
	z.create(plainPolicy("p"))
	z.create(plainPolicy("pp"))
	n := vx.Param("n", 12, 24)
	var rs []rel
	for i := 0; i < n; i++ {
		r := rel{"r", string(rune('0' + i%2)), "a", subj{sEntity, "u", string(rune('a' + i)), ""}}
		switch i % 3 {
		case 1:
			r.s = subj{sSet, "r", string(rune('a' + i)), "a"}
		case 2:
			r.rel = "b"
		}
		rs = append(rs, r)
		vx.Assert(setData(z, "p", r, "d") == nil && setData(z, "pp", r, "e") == nil, "a permitted relationship is rejected")
	}
	// listed: which relationships of the policy there are, by listing and by lookup
	listed := func(p, data string) []bool {
		got, err := z.pol.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: p, Selector: anySelector()})
		vx.Assert(err == nil, "after an interrupted call the relationships cannot be listed")
		out, total := make([]bool, n), 0
		for i, r := range rs {
			for _, rec := range got.Result.Records {
				if x, ok := fromPb(rec.Relationship); ok && x.eq(r) && string(rec.AppData) == data {
					out[i] = true
					total++
				}
			}
			one, err := z.pol.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: p, Relationship: r.pb()})
			vx.Assert(err == nil && (one.Record != nil) == out[i], "after an interrupted call lookup and listing disagree on a relationship")
			if r.s.kind == sEntity {
				ok, err := z.check(p, r.res, r.id, r.rel, r.s.res, r.s.id)
				vx.Assert(err == nil && ok == out[i], "after an interrupted call check and listing disagree on a relationship")
			}
		}
		vx.Assert(total == len(got.Result.Records), "after an interrupted call a relationship appears which was never set, or appears twice")
		return out
	}
	whole := vx.Bool("policy")
	run := func() {
		var err error
		if whole {
			_, err = z.pol.DeletePolicy(ctx, &api.DeletePolicyRequest{Id: "p"})
		} else {
			s := anySelector()
			s.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_RelationName{RelationName: "a"}}
			_, err = z.pol.DeleteRelationships(ctx, &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: s})
		}
		vx.Assert(err == nil, "a call cannot be repeated after it was interrupted")
	}
	z.kv.failAt = z.kv.writes + pick("at", vx.Param("points", 60, 110))
	if vx.Try(run) {
		vx.Reach("died")
	} else {
		vx.Reach("completed")
	}
	z.kv = z.kv.snapshot()
	z = open(z.kv)
	others := func() {
		for _, ok := range listed("pp", "e") {
			vx.Assert(ok, "an interrupted call damages another policy")
		}
	}
	others()
	exists := func() bool {
		p, err := z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: "p"})
		vx.Assert(err == nil, "after an interrupted call a policy cannot be read")
		return p.Record != nil
	}
	if exists() {
		in := listed("p", "d")
		for i, r := range rs {
			vx.Assert(in[i] || whole || r.rel == "a", "an interrupted call removes what it does not work on")
		}
		run()
	} else {
		vx.Assert(whole, "an interrupted call removes what it does not work on")
	}
	others()
	if whole {
		vx.Assert(!exists(), "a policy whose deletion was repeated exists")
		z.create(plainPolicy("p"))
	}
	in := listed("p", "d")
	for i, r := range rs {
		vx.Assert(in[i] == (!whole && r.rel == "b"), "a repeated call does not complete, or does too much")
	}
}
