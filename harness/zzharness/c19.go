package zzharness

import (
	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/domain"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

func char(n string) string { return vx.String(n, 1, 1) }

func text(n string) string { return vx.String(n, 0, vx.Param("len", 2, 3)) }

// BuildMessages: relationships, entities, nodes, trees and records hold what they were made from, each in its place.
func BuildMessages() {
	b := &domain.RelationshipBuilder{}
	a := [6]string{text("0"), text("1"), text("2"), text("3"), text("4"), text("5")}
	r := rel{a[0], a[1], a[2], subj{kind: pick("kind", 3)}}
	var got domain.Relationship
	switch r.s.kind {
	case sEntity:
		r.s.res, r.s.id = a[3], a[4]
		got = b.Relationship(a[0], a[1], a[2], a[3], a[4])
	case sSet:
		r.s.res, r.s.id, r.s.rel = a[3], a[4], a[5]
		got = b.EntitySet(a[0], a[1], a[2], a[3], a[4], a[5])
	default:
		r.s.res = a[3]
		got = b.Wildcard(a[0], a[1], a[2], a[3])
	}
	vx.Assert(proto.Equal(&got, r.pb()), "a built relationship is not the one asked for")
	// the builder has no memory
	other := b.Relationship("x", "y", "z", "v", "w")
	vx.Assert(proto.Equal(&got, r.pb()), "building a relationship changes one built before")
	vx.Assert(proto.Equal(&other, rel{"x", "y", "z", subj{sEntity, "v", "w", ""}}.pb()), "a built relationship is not the one asked for")
	vx.Assert(vx.StrEq(got.Subject.GetResourceName(), a[3]), "a subject is of another resource than it was built with")
	e := domain.NewEntity(a[0], a[1])
	vx.Assert(vx.And(vx.StrEq(e.Resource, a[0]), vx.StrEq(e.Id, a[1])), "a built entity is not the one asked for")

	rec := domain.NewRelationshipRecord(a[5], &got, []byte(a[4]))
	vx.Assert(vx.And(vx.StrEq(rec.PolicyId, a[5]), vx.BytesEq(rec.AppData, []byte(a[4]))), "a relationship record has another policy or data than it was built with")
	vx.Assert(proto.Equal(rec.Relationship, r.pb()) && rec.CreatedAt != nil, "a relationship record has another relationship than it was built with, or no time")
	p := &domain.Policy{Id: a[0], Name: a[1]}
	prec := domain.NewPolicyRecord(p, []byte(a[2]))
	vx.Assert(vx.And(proto.Equal(prec.Policy, &domain.Policy{Id: a[0], Name: a[1]}), vx.BytesEq(prec.AppData, []byte(a[2]))), "a policy record has another policy or data than it was built with")
	vx.Assert(prec.CreatedAt != nil, "a policy record has no time")
}

func plainRule(r *domain.Rule) *domain.RelationExpressionTree {
	return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: r}}
}

type leafTree struct {
	got, want *domain.RelationExpressionTree
	rules     []*domain.Rule
}

func builtLeaf(n string) leafTree {
	x, y := char(n+"x"), char(n+"y")
	var got *domain.RelationExpressionTree
	var want *domain.Rule
	switch pick(n, 3) {
	case 0:
		got, want = domain.ThisNode(), &domain.Rule{Rule: &domain.Rule_This{This: &domain.This{}}}
	case 1:
		got, want = domain.CUNode(x), &domain.Rule{Rule: &domain.Rule_Cu{Cu: &domain.ComputedUserset{TargetRelation: x}}}
	default:
		got, want = domain.TTUNode(x, y), &domain.Rule{Rule: &domain.Rule_Ttu{Ttu: &domain.TupleToUserset{TuplesetRelation: x, ComputedUsersetRelation: y}}}
	}
	return leafTree{got, plainRule(want), []*domain.Rule{want}}
}

func builtOp(n string, l, r leafTree) leafTree {
	op := [3]domain.Operator{domain.Operator_UNION, domain.Operator_INTERSECTION, domain.Operator_DIFFERENCE}[pick(n, 3)]
	var got *domain.RelationExpressionTree
	if vx.Bool(n + ".new") {
		got = domain.NewOpNode(l.got, op, r.got)
	} else if op == domain.Operator_UNION {
		got = domain.UnionNode(l.got, r.got)
	} else if op == domain.Operator_INTERSECTION {
		got = domain.IntersectionNode(l.got, r.got)
	} else {
		got = domain.DifferenceNode(l.got, r.got)
	}
	want := &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_OpNode{OpNode: &domain.OpNode{Left: l.want, Operator: op, Right: r.want}}}
	return leafTree{got, want, append(append([]*domain.Rule{}, l.rules...), r.rules...)}
}

// BuildTrees: expression trees hold the operators and operands given, and list their rules from left to right.
func BuildTrees() {
	t := builtLeaf("a")
	for i := 0; i < vx.Param("ops", 2, 3); i++ {
		n := "o" + string(rune('0'+i))
		switch pick(n+".side", 3) {
		case 0:
			t = builtOp(n, t, builtLeaf(n+"l"))
		case 1:
			t = builtOp(n, builtLeaf(n+"l"), t)
		default:
			continue
		}
		vx.Reach("operator")
	}
	vx.Assert(proto.Equal(t.got, t.want), "a built expression is not the one asked for")
	rules := t.got.GetRules()
	vx.Assert(len(rules) == len(t.rules), "an expression does not list each of its rules")
	for i := range rules {
		vx.Assert(proto.Equal(rules[i], t.rules[i]), "an expression does not list its rules from left to right")
	}
	vx.Assert(proto.Equal(t.got, t.want), "listing the rules of an expression changes it")
}

// BuildSelectors: a selector has what was last set in its builder, and keeps it whatever the builder does next.
func BuildSelectors() {
	b := &domain.SelectorBuilder{}
	cur := &domain.RelationshipSelector{}
	var built []*domain.RelationshipSelector
	var want []*domain.RelationshipSelector
	take := func() {
		s := b.Build()
		built = append(built, &s)
		want = append(want, proto.Clone(cur).(*domain.RelationshipSelector))
	}
	for i := 0; i < vx.Param("calls", 4, 5); i++ {
		n := "c" + string(rune('0'+i))
		var ret *domain.SelectorBuilder
		switch pick(n, 8) {
		case 0:
			ret = b.AnyObject()
			cur.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}}
		case 1:
			x, y := char(n+"x"), char(n+"y")
			ret = b.WithObject(&domain.Entity{Resource: x, Id: y})
			cur.ObjectSelector = &domain.ObjectSelector{Selector: &domain.ObjectSelector_ObjectSpec{ObjectSpec: &domain.Entity{Resource: x, Id: y}}}
		case 2:
			ret = b.AnyRelation()
			cur.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}}
		case 3:
			x := char(n + "x")
			ret = b.WithRelation(x)
			cur.RelationSelector = &domain.RelationSelector{Selector: &domain.RelationSelector_RelationName{RelationName: x}}
		case 4:
			ret = b.AnySubject()
			cur.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}}
		case 5:
			s := subj{sEntity, char(n + "x"), char(n + "y"), ""}
			ret = b.WithSubject(s.pb())
			cur.SubjectSelector = &domain.SubjectSelector{Selector: &domain.SubjectSelector_SubjectSpec{SubjectSpec: s.pb()}}
		case 6:
			b.Reset()
			cur = &domain.RelationshipSelector{}
			vx.Reach("reset")
			ret = b
		default:
			take()
			ret = b
		}
		vx.Assert(ret == b, "a step of a selector builder returns another builder")
	}
	take()
	for i := range built {
		vx.Assert(proto.Equal(built[i], want[i]), "a built selector is not the one asked for")
	}
	vx.Reach("built")
}

// LookUp: a policy's resources and relations are found by their own names only.
func LookUp() {
	p := &domain.Policy{Id: "p"}
	names := [3]string{text("r0"), text("r1"), text("r2")}
	for i, n := range names {
		p.Resources = append(p.Resources, &domain.Resource{Name: n, Relations: []*domain.Relation{
			{Name: names[(i+1)%3]}, {Name: names[(i+2)%3]}}})
	}
	vx.Assume(vx.And(!vx.StrEq(names[0], names[1]), !vx.StrEq(names[1], names[2]), !vx.StrEq(names[0], names[2])))
	ask := text("ask")
	found := -1
	for i, n := range names {
		if ask == n {
			found = i
		}
	}
	r := p.GetResourceByName(ask)
	vx.Assert((r != nil) == (found >= 0), "a resource is found although there is none of that name, or not although there is")
	if found >= 0 {
		vx.Reach("found")
		vx.Assert(r == p.Resources[found], "another resource is found than the one named")
	} else {
		vx.Reach("missing")
	}
	for i := range p.Resources {
		a := p.Resources[i].GetRelationByName(ask)
		var want *domain.Relation
		if found == (i+1)%3 {
			want = p.Resources[i].Relations[0]
		} else if found == (i+2)%3 {
			want = p.Resources[i].Relations[1]
		}
		vx.Assert(a == want, "a relation is found under another name, or not under its own")
	}
}
