package zzharness

import (
	"strings"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

func (z *sys) explain(policy, res, id, relation, sres, sid string, format api.ExplainFormat) (*api.ExplainCheckResponse, error) {
	return z.gr.ExplainCheck(ctx, &api.ExplainCheckRequest{PolicyId: policy, Format: format, AccessRequest: &domain.AccessRequest{
		Object: &domain.Entity{Resource: res, Id: id}, Relation: relation, Subject: &domain.Entity{Resource: sres, Id: sid}}})
}

// verdictOf reads the verdict a DOT goal tree states at its top, and checks the document's shape: one tree under
// "root", every node labelled with a result.
func verdictOf(doc string, hits ...string) bool { return verdict(vx.ReadDot(doc), hits...) }

func verdict(d *vx.Dot, hits ...string) bool {
	vx.Assert(d.Valid, "the DOT explanation is not a DOT document")
	parents := map[string]int{}
	for _, e := range d.Edges {
		parents[e.Dst]++
		_, ok := d.Nodes[e.Src]
		_, ok2 := d.Nodes[e.Dst]
		vx.Assert(ok && ok2, "the DOT explanation has an edge without its node")
	}
	top := ""
	for _, n := range d.Order {
		if n == "root" {
			continue
		}
		vx.Assert(parents[n] == 1, "the DOT explanation is not a tree")
	}
	for _, e := range d.Edges {
		if e.Src == "root" {
			vx.Assert(top == "", "the DOT explanation has several tops")
			top = e.Dst
		}
	}
	vx.Assert(top != "", "the DOT explanation is empty")
	l := d.Nodes[top]
	yes := strings.Contains(l, "result: SUCCESS")
	no := strings.Contains(l, "result: FAILURE")
	vx.Assert(yes != no, "the DOT explanation states no verdict")
	if yes && len(hits) > 0 {
		hit := false
		for _, n := range d.Order {
			l := d.Nodes[n]
			for _, h := range hits {
				hit = hit || strings.Contains(l, h) && strings.Contains(l, "result: SUCCESS")
			}
		}
		vx.Assert(hit, "a granting explanation does not show where the subject was found")
	}
	return yes
}

func agree(z *sys, id, relation, sres, sid string, hits ...string) (granted bool) {
	return agreeIn(z, api.ExplainFormat(vx.ConcreteInt(vx.Int("format", 0, 3))), id, relation, sres, sid, hits...)
}

func agreeIn(z *sys, format api.ExplainFormat, id, relation, sres, sid string, hits ...string) bool {
	got, err := z.check("p", "r", id, relation, sres, sid)
	ex, xerr := z.explain("p", "r", id, relation, sres, sid, format)
	if format > 2 {
		vx.Assert(xerr != nil, "an unknown explanation format is accepted")
		vx.Reach("bad-format")
		return got
	}
	vx.Assert((err == nil) == (xerr == nil), "explain and check disagree on whether the request fails")
	if err != nil {
		vx.Reach("failed")
		return false
	}
	vx.Assert(vx.Iff(ex.Authorized, got), "explain and check return different verdicts")
	vx.Assert(ex.Format == format, "the explanation does not state its format")
	vx.Assert(len(ex.GoalTree) > 0, "the explanation is empty")
	if got {
		vx.Reach("granted")
	} else {
		vx.Reach("denied")
	}
	if format == api.ExplainFormat_DOT {
		vx.Assert(vx.Iff(verdictOf(ex.GoalTree, hits...), got), "the DOT explanation contradicts the verdict")
	}
	if format == api.ExplainFormat_JSON {
		vx.Assert(vx.Iff(verdict(jsonTree(ex.GoalTree).d, hits...), got), "the JSON explanation contradicts the verdict")
	}
	return got
}

// ExplainRec: the explanation agrees with the check on policies with cycles, all operators and failing requests.
func ExplainRec() {
	w := &world{res: "r", ids: chars("12"), rels: chars("ab"), sres: "u", sid: "x"}
	w.exprs = []*expr{symOp("o1", symLeaf("l1", 3, "ab"), symLeaf("l2", 2, "ab")), {kind: eThis}}
	z := newSys()
	z.create(w.policy("p"))
	n := vx.Param("facts", 1, 2)
	more := vx.Bool("more")
	if more {
		n++
	}
	for i := 0; i < n; i++ {
		f := symFact("f"+string(rune('0'+i)), "12", "ab", sEntity, sSet, sWildcard)
		z.mustSet("p", f)
	}
	if more {
		agreeIn(z, api.ExplainFormat_DOT, "1", "a", "u", "x", "(u:x)", "(u:*)")
		return
	}
	agree(z, "1", vx.StringOf("rel", 1, 1, "abz"), "u", "x", "(u:x)", "(u:*)")
}

// ExplainText: names with any printable character appear in well-formed explanations.
func ExplainText() {
	z := newSys()
	z.create(&domain.Policy{Id: "p", Resources: []*domain.Resource{resource("r", relation("a", (&expr{kind: eThis}).pb())), resource("u")}})
	id := vx.StringOf("id", 1, vx.Param("len", 2, 3), "a\"\\ \n{}<>|;->/*:%")
	sid := vx.StringOf("sid", 1, 1, "a\"\\\n}")
	z.mustSet("p", rel{"r", id, "a", subj{kind: sEntity, res: "u", id: sid}})
	agree(z, id, "a", "u", sid)
}

// ExplainLarge: explanations of long chains and wide sets.
func ExplainLarge() {
	z, ask, member, want := largeWorld(vx.Param("n", 40, 110))
	ok := agree(z, "0", ask, "u", member)
	vx.Assert(ok == want, "the explained verdict disagrees with the set semantics of the policy")
}
