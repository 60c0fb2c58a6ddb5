package zzharness

import (
	"sort"
	"strconv"
	"strings"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

// Two calls run at once over one store.  The first is interrupted before an arbitrary storage operation, where the
// second runs; the second is interrupted likewise, where the first goes on to its end.

const (
	pSet = iota
	pSetOther
	pDelete
	pDeleteMany
	pDeletePolicy
	pCreate
	pUpdate
	pWrites
	pCheck = iota - 1
	pExplain
	pExpand
	pGet
	pFind
	pDump
	pPolicies
	pGetPolicy
	pOps
)

func parallelPolicy(updated bool) *domain.Policy {
	c := domain.NewOpNode(domain.CUNode("a"), domain.Operator_DIFFERENCE, domain.CUNode("b"))
	p := &domain.Policy{Id: "p", Name: "one"}
	if updated {
		c = domain.NewOpNode(domain.CUNode("b"), domain.Operator_DIFFERENCE, domain.CUNode("a"))
		p.Name = "two"
	}
	p.Resources = []*domain.Resource{
		resource("r", relation("a", domain.ThisNode()), relation("b", domain.ThisNode()), relation("c", c)),
		resource("u"),
	}
	return p
}

type call struct {
	op   int
	data string
}

// outcome is what the caller sees, times aside.
func (c call) run(z *sys) string {
	u := subj{sEntity, "u", "1", ""}
	ra, rb := rel{"r", "1", "a", u}, rel{"r", "1", "b", u}
	switch c.op {
	case pSet, pSetOther:
		r := ra
		if c.op == pSetOther {
			r = rb
		}
		resp, err := z.pol.SetRelationship(ctx, &api.SetRelationshipRequest{PolicyId: "p", Relationship: r.pb(), AppData: []byte(c.data)})
		if err != nil {
			return "refused"
		}
		return strconv.FormatBool(resp.RecordOverwritten)
	case pDelete:
		resp, err := z.pol.DeleteRelationship(ctx, &api.DeleteRelationshipRequest{PolicyId: "p", Relationship: ra.pb()})
		if err != nil {
			return "refused"
		}
		return strconv.FormatBool(resp.Found)
	case pDeleteMany:
		resp, err := z.pol.DeleteRelationships(ctx, &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: anySelector()})
		if err != nil {
			return "refused"
		}
		return strconv.Itoa(int(resp.RecordsAffected))
	case pDeletePolicy:
		resp, err := z.pol.DeletePolicy(ctx, &api.DeletePolicyRequest{Id: "p"})
		if err != nil {
			return "refused"
		}
		return strconv.FormatBool(resp.Found) + strconv.Itoa(int(resp.RelationshipsRemoved))
	case pCreate:
		_, err := z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: definition(parallelPolicy(false)), AppData: []byte(c.data)})
		if err != nil {
			return "refused"
		}
		return "created"
	case pUpdate:
		_, err := z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: definition(parallelPolicy(true)), AppData: []byte(c.data)})
		if err != nil {
			return "refused"
		}
		return "updated"
	case pCheck:
		ok, err := z.check("p", "r", "1", "c", "u", "1")
		if err != nil {
			return "refused"
		}
		return strconv.FormatBool(ok)
	case pExplain:
		resp, err := z.explain("p", "r", "1", "c", "u", "1", api.ExplainFormat_DOT)
		if err != nil {
			return "refused"
		}
		return strconv.FormatBool(resp.Authorized) + dotText(resp.GoalTree)
	case pExpand:
		resp, err := z.gr.Expand(ctx, &api.ExpandRequest{PolicyId: "p", Root: subj{sSet, "r", "1", "c"}.node(), Format: api.ExplainFormat_DOT})
		if err != nil {
			return "refused"
		}
		return dotText(resp.GoalTree)
	case pGet:
		resp, err := z.pol.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: "p", Relationship: ra.pb()})
		if err != nil {
			return "refused"
		}
		return recordText(resp.Record)
	case pFind:
		return relationsText(z)
	case pDump:
		resp, err := z.gr.DumpRelationships(ctx, &api.DumpRelationshipsRequest{PolicyId: "p"})
		if err != nil {
			return "refused"
		}
		if d, ok := resp.Dump.(*api.DumpRelationshipResponse_Dot); ok {
			return dotText(d.Dot)
		}
		return "none"
	case pPolicies:
		return policiesText(z)
	case pGetPolicy:
		return policyText(z)
	}
	panic("no such call")
}

// dotText is what a document shows, in some fixed order.
func dotText(doc string) string {
	d := vx.ReadDot(doc)
	vx.Assert(d.Valid, "not a DOT document")
	var lines []string
	for _, n := range d.Order {
		lines = append(lines, d.Nodes[n])
	}
	for _, e := range d.Edges {
		lines = append(lines, d.Nodes[e.Src]+">"+d.Nodes[e.Dst])
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

func recordText(r *domain.RelationshipRecord) string {
	if r == nil {
		return "none"
	}
	x, ok := fromPb(r.Relationship)
	if !ok {
		return "malformed"
	}
	return x.res + ":" + x.id + "#" + x.rel + "@" + x.s.res + ":" + x.s.id + "=" + string(r.AppData) + ";"
}

func relationsText(z *sys) string {
	resp, err := z.pol.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: anySelector()})
	if err != nil {
		return "refused"
	}
	out := ""
	for _, r := range resp.Result.Records {
		out += recordText(r)
	}
	return out
}

func policiesText(z *sys) string {
	resp, err := z.pol.ListPolicyIds(ctx, &api.ListPolicyIdsRequest{})
	if err != nil {
		return "refused"
	}
	out := ""
	for _, r := range resp.Records {
		out += r.Id + ";"
	}
	return out
}

func policyText(z *sys) string {
	resp, err := z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: "p"})
	if err != nil {
		return "refused"
	}
	if resp.Record == nil {
		return "none"
	}
	return resp.Record.Policy.Name + string(resp.Record.AppData)
}

// stateText: everything there is, including what a policy created anew would inherit.
func stateText(z *sys) string {
	z = open(z.kv.snapshot())
	out := policiesText(z) + policyText(z) + relationsText(z)
	if _, err := z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: definition(parallelPolicy(false))}); err == nil {
		out += "/" + relationsText(z)
	}
	return out + strconv.FormatBool(must(z.check("p", "r", "1", "c", "u", "1")))
}

func must(b bool, err error) bool { return b && err == nil }

// interleave runs b inside a.
func interleave(z *sys, a, b interface{ run(*sys) string }, k, j int) (ra, rb string) {
	inB, started, done := false, false, false
	nA, nB := 0, 0
	t := vx.ThreadNew(func() { rb = b.run(z) })
	z.kv.onOp = func() {
		if !inB {
			if !started && nA == k {
				started = true
				inB = true
				vx.ThreadRun(t)
				inB = false
			}
			nA++
			return
		}
		n := nB
		nB++
		if !done && n == j {
			vx.Reach("both-interrupted")
			vx.ThreadPause()
		}
	}
	z.kv.shared = true
	ra = a.run(z)
	done = true
	inB = true
	vx.ThreadJoin(t)
	z.kv.onOp = nil
	z.kv.shared = false
	if started {
		vx.Reach("interrupted")
	}
	return
}

// Parallel: whatever two calls do at once, they answer and leave behind what they would one after the other.
func Parallel() {
	a, b := call{pick("a", pOps), "a"}, call{pick("b", pOps), "b"}
	z := newSys()
	if vx.Bool("policy") {
		z.create(parallelPolicy(false))
		for i, name := range []string{"a", "b"} {
			if vx.Bool("stored-" + name) {
				vx.Assert(setData(z, "p", rel{"r", "1", name, subj{sEntity, "u", "1", ""}}, "o") == nil, "a permitted relationship is rejected")
			}
			_ = i
		}
	}
	k, j := vx.Int("k", 0, vx.Param("points", 40, 40)), vx.Int("j", 0, vx.Param("points", 40, 40))
	before := z.kv.snapshot()
	ra, rb := interleave(z, a, b, k, j)
	final := stateText(z)

	z1 := open(before.snapshot())
	a1 := a.run(z1)
	b1 := b.run(z1)
	z2 := open(before)
	b2 := b.run(z2)
	a2 := a.run(z2)
	first := vx.And(ra == a1, rb == b1, final == stateText(z1))
	second := vx.And(ra == a2, rb == b2, final == stateText(z2))
	if !vx.Or(first, second) {
		vx.Observe("first call", ra)
		vx.Observe("second call", rb)
		vx.Observe("state", final)
		vx.Observe("one after the other", a1+" | "+b1+" | "+stateText(z1))
		vx.Observe("or", a2+" | "+b2+" | "+stateText(z2))
	}
	vx.Assert(vx.Or(first, second), "two calls at once do what neither order of them would")
}

func readPolicy(id string) *domain.Policy {
	a, b := domain.CUNode("a"), domain.CUNode("b")
	op := domain.Operator_DIFFERENCE
	if id == "q" {
		op = domain.Operator_UNION
	}
	return &domain.Policy{Id: id, Name: id, Resources: []*domain.Resource{
		resource("r", relation("a", domain.ThisNode()), relation("b", domain.ThisNode()), relation("p", domain.ThisNode()),
			relation("c", domain.NewOpNode(a, op, b)), relation("d", domain.TTUNode("p", "a")), relation("e", domain.TTUNode("p", "b"))),
		resource("u"),
	}}
}

type reading struct {
	op          int
	policy, rel string
}

func drawReading(n string, policies int) reading {
	c := reading{op: pick(n, 5), policy: "p"}
	if policies > 1 && vx.Bool(n+".q") {
		c.policy = "q"
	}
	if c.op < 3 {
		c.rel = []string{"c", "d", "e"}[pick(n+".rel", 3)]
	}
	return c
}

func (c reading) run(z *sys) string {
	switch c.op {
	case 0:
		ok, err := z.check(c.policy, "r", "1", c.rel, "u", "x")
		if err != nil {
			return "refused"
		}
		return strconv.FormatBool(ok)
	case 1:
		resp, err := z.explain(c.policy, "r", "1", c.rel, "u", "x", api.ExplainFormat_DOT)
		if err != nil {
			return "refused"
		}
		return strconv.FormatBool(resp.Authorized) + dotText(resp.GoalTree)
	case 2:
		resp, err := z.gr.Expand(ctx, &api.ExpandRequest{PolicyId: c.policy, Root: subj{sSet, "r", "1", c.rel}.node(), Format: api.ExplainFormat_DOT})
		if err != nil {
			return "refused"
		}
		return dotText(resp.GoalTree)
	case 3:
		resp, err := z.gr.DumpRelationships(ctx, &api.DumpRelationshipsRequest{PolicyId: c.policy})
		if err != nil {
			return "refused"
		}
		return dotText(resp.GetDot())
	}
	resp, err := z.pol.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: c.policy, Selector: anySelector()})
	if err != nil {
		return "refused"
	}
	out := ""
	for _, r := range resp.Result.Records {
		out += recordText(r)
	}
	return out
}

// ParallelReads: two different questions asked at once are answered as if each were asked alone.
func ParallelReads() {
	a, b := drawReading("a", 1), drawReading("b", 2)
	z := newSys()
	for _, id := range []string{"p", "q"} {
		z.create(readPolicy(id))
	}
	set := func(id string, r rel) {
		vx.Assert(setData(z, id, r, "o") == nil, "a permitted relationship is rejected")
	}
	x := subj{sEntity, "u", "x", ""}
	set("p", rel{"r", "1", "p", subj{sEntity, "r", "2", ""}})
	set("q", rel{"r", "1", "p", subj{sEntity, "r", "3", ""}})
	set("q", rel{"r", "3", "b", x})
	set("p", rel{"r", "1", "a", x})
	if vx.Bool("stored-a") {
		set("p", rel{"r", "2", "a", x})
	} else {
		set("p", rel{"r", "2", "b", x})
	}
	k, j := vx.Int("k", 0, vx.Param("points", 40, 40)), vx.Int("j", 0, vx.Param("points", 40, 40))
	alone, alone2 := a.run(open(z.kv.snapshot())), b.run(open(z.kv.snapshot()))
	ra, rb := interleave(z, a, b, k, j)
	vx.Assert(vx.And(ra == alone, rb == alone2), "a question is answered differently because another is asked at the same time")
}
