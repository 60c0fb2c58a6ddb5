package zzharness

import (
	"strings"

	"github.com/sourcenetwork/zanzi/pkg/domain"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

func (s subj) node() *domain.RelationNode {
	switch s.kind {
	case sEntity:
		return &domain.RelationNode{Node: &domain.RelationNode_Entity{Entity: &domain.EntityNode{
			Object: &domain.Entity{Resource: s.res, Id: s.id}}}}
	case sSet:
		return &domain.RelationNode{Node: &domain.RelationNode_EntitySet{EntitySet: &domain.EntitySetNode{
			Object: &domain.Entity{Resource: s.res, Id: s.id}, Relation: s.rel}}}
	}
	return &domain.RelationNode{Node: &domain.RelationNode_Wildcard{Wildcard: &domain.WildcardNode{Resource: s.res}}}
}

func (s subj) pretty() string {
	switch s.kind {
	case sEntity:
		return "(" + s.res + ":" + s.id + ")"
	case sSet:
		return "(" + s.res + ":" + s.id + ", " + s.rel + ")"
	}
	return "(" + s.res + ":*)"
}

func symNode(n string, max int) subj {
	s := subj{kind: vx.ConcreteInt(vx.Int(n+".kind", 0, 2))}
	s.res = vx.String(n+".res", 0, max)
	if s.kind != sWildcard {
		s.id = vx.String(n+".id", 0, max)
	}
	if s.kind == sSet {
		s.rel = vx.String(n+".rel", 0, max)
	}
	return s
}

// NodeIds: two nodes have the same id exactly when they are the same node, whatever bytes their fields consist of.
func NodeIds() {
	max := vx.Param("len", 3, 5)
	a, b := symNode("a", max), symNode("b", max)
	x, y := a.node().Id(), b.node().Id()
	vx.Assert(vx.Iff(vx.StrEq(x, y), a.eq(b)), "distinct nodes share an id, or equal nodes have distinct ids")
	if a.kind == b.kind {
		vx.Reach("same-kind")
	} else {
		vx.Reach("other-kind")
	}
	vx.Assert(a.node().IsTerminalNode() == (a.kind != sSet), "a node is classified as a leaf wrongly")
	vx.Assert(a.node().IsEntity() == (a.kind == sEntity), "a node is classified as an entity wrongly")
}

// NodeLong: nodes with long fields which differ in one place only.  An id of fewer than 128 bits cannot tell long nodes
// apart: distinct nodes which share one are then found by chance.
func NodeLong() {
	long := strings.Repeat("x", vx.Param("long", 300, 1100))
	a := subj{pick("a.kind", 3), long + "r", long + "i", long + "l"}
	b := subj{pick("b.kind", 3), a.res, a.id, a.rel}
	c := vx.StringOf("c", 0, 1, "xy")
	switch pick("where", 5) {
	case 4: // a field of 256 bytes and more, which a length of one byte does not tell from a short one
		x, y := vx.String("x", 1, 1), vx.String("y", 1, 1)
		long = strings.Repeat("x", 255)
		a.res, a.id = x+long, "i"
		b.res, b.id = "", long+y+"i"
	case 0:
		b.res = long + c
	case 1:
		b.id = c + long
	case 2:
		b.rel = long[:len(long)/2] + c + long[len(long)/2:]
	default: // a character moved from one field to the next
		a.res, b.id = a.res+c, c+b.id
	}
	clean := func(s *subj) {
		if s.kind == sWildcard {
			s.id = ""
		}
		if s.kind != sSet {
			s.rel = ""
		}
	}
	clean(&a)
	clean(&b)
	x, y := a.node().Id(), b.node().Id()
	vx.Assert(vx.Iff(vx.StrEq(x, y), a.eq(b)), "distinct nodes share an id, or equal nodes have distinct ids")
	vx.Assert(len(x) >= 22, "the id of a node is too short to tell nodes apart")
	if a.kind == b.kind {
		vx.Reach("same-kind")
	} else {
		vx.Reach("other-kind")
	}
}
