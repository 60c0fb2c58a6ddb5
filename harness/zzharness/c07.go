package zzharness

import (
	"strconv"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

// submit offers a policy by create or by update (of an existing policy with the same id) and compares the verdict.
func submit(p *domain.Policy, valid bool) {
	z := newSys()
	var err error
	if vx.Bool("update") && p.Id != "" {
		z.create(&domain.Policy{Id: p.Id, Resources: []*domain.Resource{resource("old")}})
		before := z.kv.snapshot()
		_, err = z.pol.UpdatePolicy(ctx, &api.UpdatePolicyRequest{PolicyDefinition: definition(p)})
		if err != nil {
			same(before, z.kv)
		}
	} else {
		before := z.kv.snapshot()
		_, err = z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: definition(p)})
		if err != nil {
			same(before, z.kv)
		}
	}
	vx.Observe("accepted", err == nil)
	vx.Assert(vx.Iff(err == nil, valid), "an invalid policy is accepted or a valid one is rejected")
	if err == nil {
		vx.Reach("accepted")
	} else {
		vx.Reach("rejected")
	}
}

func name(n string) string { return vx.StringOf(n, 0, 2, "ab") }

// PolicyNames: names are required and unique in their scope.
func PolicyNames() {
	id := vx.StringOf("id", 0, 1, "p")
	r1, r2 := name("r1"), name("r2")
	a, b, c := name("a"), name("b"), name("c")
	p := &domain.Policy{Id: id, Resources: []*domain.Resource{
		resource(r1, relation(a, domain.ThisNode()), relation(b, domain.ThisNode())),
		resource(r2, relation(c, domain.ThisNode())),
	}}
	valid := vx.And(id != "", r1 != "", r2 != "", a != "", b != "", c != "", !vx.StrEq(r1, r2), !vx.StrEq(a, b))
	submit(p, valid)
}

// refExpr is an arbitrary small expression together with whether every relation it names is defined.
func refExpr(n string) (*expr, bool) {
	e := symLeaf(n, 3, "abcx")
	ok := true
	if e.kind != eThis {
		ok = vx.Or(vx.StrEq(e.x, "a"), vx.StrEq(e.x, "b"))
	}
	return e, ok
}

// text is the expression in the relation expression language.
func (e *expr) text() string {
	switch e.kind {
	case eThis:
		return "_this"
	case eCU:
		return e.x
	case eTTU:
		return e.x + "->" + e.y
	}
	return "(" + e.l.text() + " " + [...]string{"+", "&", "-"}[e.op] + " " + e.r.text() + ")"
}

// PolicyRefs: expressions may name only relations of their own resource.
func PolicyRefs() {
	l, ok := refExpr("l")
	e := l
	if vx.Bool("op") {
		r, okr := refExpr("r")
		e, ok = symOp("o", l, r), vx.And(ok, okr)
	}
	rel := relation("a", e.pb())
	if vx.Bool("text") {
		rel = relationExpr("a", e.text())
	}
	p := &domain.Policy{Id: "p", Resources: []*domain.Resource{
		resource(oneName("other", "s", "x"), relation("c", domain.ThisNode())),
		resource("r", relation("b", domain.ThisNode()), rel),
	}}
	submit(p, ok)
}

// PolicyRestrictions: subject restrictions may name only defined resources and relations.
func PolicyRestrictions() {
	a := relation("a", domain.ThisNode())
	ok := true
	switch vx.ConcreteInt(vx.Int("kind", 0, 3)) {
	case 0:
	case 1:
		a.SubjectRestriction = nil
	case 2:
		a.SubjectRestriction = &domain.SubjectRestriction{}
		ok = false
	default:
		var rs []restr
		n := vx.ConcreteInt(vx.Int("entries", 0, 3))
		for i := 0; i < n; i++ {
			r := symRestr("e"+string(rune('0'+i)), "rsx", "acx")
			rs = append(rs, r)
			if r.set {
				ok = vx.And(ok, vx.Or(vx.And(vx.StrEq(r.res, "r"), vx.StrEq(r.rel, "a")), vx.And(vx.StrEq(r.res, "s"), vx.StrEq(r.rel, "c"))))
			} else {
				ok = vx.And(ok, oneOf(r.res, "r", "s"))
			}
		}
		a.SubjectRestriction = restrict(rs)
		if vx.Bool("emptyEntry") {
			set := a.SubjectRestriction.GetRestrictionSet()
			set.Restrictions = append(set.Restrictions, &domain.SubjectRestrictionSet_Restriction{})
			ok = false
		}
	}
	p := &domain.Policy{Id: "p", Resources: []*domain.Resource{
		resource("r", a), resource("s", relation("c", domain.ThisNode()))}}
	submit(p, ok)
}

// partTree is an expression tree in which parts may be missing.
func partTree(n string, depth int) (t *domain.RelationExpressionTree, complete bool) {
	kinds := 7
	if depth > 0 {
		kinds = 8
	}
	switch vx.ConcreteInt(vx.Int(n, 0, kinds)) {
	case 0:
		return domain.ThisNode(), true
	case 1:
		return domain.CUNode("b"), true
	case 2:
		return domain.TTUNode("b", "q"), true
	case 3:
		return nil, false
	case 4:
		return &domain.RelationExpressionTree{}, false
	case 5:
		return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{}}}, false
	case 6:
		return domain.CUNode(""), false
	case 7:
		return domain.TTUNode("", "q"), false
	}
	l, okl := partTree(n+"l", depth-1)
	r, okr := partTree(n+"r", depth-vx.Param("skew", 2, 1))
	op := vx.Int(n+".op", -1, 4)
	return domain.NewOpNode(l, domain.Operator(op), r), vx.And(okl, okr, op >= 0, op <= 2)
}

// PolicyTrees: incomplete expression trees and unknown operators are rejected.
func PolicyTrees() {
	t, ok := partTree("t", vx.Param("depth", 2, 2))
	a := relation("a", t)
	p := &domain.Policy{Id: "p", Resources: []*domain.Resource{resource("r", a, relation("b", domain.ThisNode()))}}
	submit(p, ok)
}

// PolicySlash: names which join alike: resource s/b with relation c, resource s with relations b, b/c or /b, and rules
// and restrictions which name something like them.
func PolicySlash() {
	x := vx.StringOf("x", 1, 3, "bc/")
	own := []string{"b", "/b", "b/c"}[pick("own", 3)]
	a := relation("a", domain.ThisNode())
	ok := true
	switch pick("kind", 4) {
	case 0:
		a = relation("a", domain.CUNode(x))
		ok = vx.StrEq(x, own)
	case 1:
		a = relation("a", domain.TTUNode(x, "zz"))
		ok = vx.StrEq(x, own)
	case 2:
		e := restr{set: true, res: vx.StringOf("res", 1, 3, "sb/"), rel: x}
		a.SubjectRestriction = restrict([]restr{e})
		ok = vx.Or(vx.And(vx.StrEq(e.res, "s/b"), vx.StrEq(x, "c")), vx.And(vx.StrEq(e.res, "s"), vx.StrEq(x, own)))
	default:
		e := restr{res: vx.StringOf("res", 1, 3, "sb/")}
		a.SubjectRestriction = restrict([]restr{e})
		ok = oneOf(e.res, "s/b", "s")
	}
	p := &domain.Policy{Id: "p", Resources: []*domain.Resource{
		resource("s/b", relation("c", domain.ThisNode())),
		resource("s", relation(own, domain.ThisNode()), a)}}
	submit(p, ok)
}

// PolicyFlaw: one flaw anywhere in a policy of many resources, relations and nested operators is found.
func PolicyFlaw() {
	n := vx.Param("n", 20, 40)
	num := strconv.Itoa
	flaw, at, depth := pick("flaw", 9), pick("at", n), pick("depth", 3)*2
	var rs []*domain.Resource
	ok := true
	for i := 0; i < n; i++ {
		e := domain.ThisNode()
		for j := 0; j < 6; j++ {
			l := domain.CUNode("r" + num((i+j)%n))
			if i == at && flaw < 2 && depth == j {
				ok = false
				l = [...]*domain.RelationExpressionTree{domain.CUNode("x"), domain.TTUNode("x", "r0")}[flaw]
			}
			op := domain.Operator(j % 3)
			if (i+j)%2 == 0 {
				e = domain.NewOpNode(e, op, l)
			} else {
				e = domain.NewOpNode(l, op, e)
			}
		}
		var rels []*domain.Relation
		for j := 0; j < n; j++ {
			rels = append(rels, relation("r"+num(j), domain.ThisNode()))
		}
		rels[(i+1)%n] = relation("r"+num((i+1)%n), e)
		rels[i].SubjectRestriction = restrict([]restr{{res: "s" + num((i+3)%n)}, {set: true, res: "s" + num((i+5)%n), rel: "r" + num(i)}})
		name := "s" + num(i)
		if i == at {
			switch flaw {
			case 2:
				rels[n-1].Name, ok = "r0", n == 1
			case 3:
				rels[n/2].Name, ok = "", false
			case 4:
				rels[i].SubjectRestriction = restrict([]restr{{res: "s0"}, {res: "x"}})
				ok = false
			case 5:
				rels[i].SubjectRestriction = restrict([]restr{{res: "s0"}, {set: true, res: "s0", rel: "x"}})
				ok = false
			case 6:
				name, ok = "s"+num((i+1)%n), false
			case 7:
				rels[n-1] = relation("r"+num(n-1), domain.NewOpNode(domain.ThisNode(), 0, nil))
				ok = false
			}
		}
		rs = append(rs, resource(name, rels...))
	}
	submit(&domain.Policy{Id: "p", Resources: rs}, ok)
}

// PolicySpelling: names which differ in spaces or case only are different names, and so are equal names of different
// kinds: a reference is to exactly the relation which it spells.
func PolicySpelling() {
	spell := func(n string) string { return vx.StringOf(n, 1, 2, "aA ") }
	p := &domain.Policy{Id: "p", Resources: []*domain.Resource{resource("a"), resource("aA", relation("Aa", domain.ThisNode()))}}
	switch pick("which", 4) {
	case 0: // resources
		n := spell("resource")
		p.Resources = append(p.Resources, resource(n, relation("a", domain.ThisNode())))
		submit(p, !oneOf(n, "a", "aA"))
	case 1: // relations
		n := spell("relation")
		p.Resources = append(p.Resources, resource("r", relation("aA", domain.ThisNode()), relation("a", domain.ThisNode()), relation(n, domain.ThisNode())))
		submit(p, !oneOf(n, "a", "aA"))
	case 2: // expressions
		n := spell("target")
		t := domain.CUNode(n)
		if vx.Bool("ttu") {
			t = domain.TTUNode(n, spell("computed"))
		}
		p.Resources = append(p.Resources, resource("r", relation("b", t), relation("a ", domain.ThisNode())))
		submit(p, oneOf(n, "b", "a "))
	default: // restrictions
		e := restr{set: vx.Bool("set"), res: spell("res")}
		ok := oneOf(e.res, "a", "aA", "r")
		if e.set {
			e.rel = spell("rel")
			ok = vx.And(vx.StrEq(e.res, "aA"), vx.StrEq(e.rel, "Aa"))
		}
		l := relation("b", domain.ThisNode())
		l.SubjectRestriction = restrict([]restr{e})
		p.Resources = append(p.Resources, resource("r", l))
		submit(p, ok)
	}
}
