package zzharness

import (
	"github.com/sourcenetwork/zanzi/pkg/domain"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

// ---- relation expressions ----

const (
	eThis = iota
	eCU
	eTTU
	eOp
)

const (
	opUnion = iota
	opInter
	opDiff
)

type expr struct {
	kind int
	x, y string // cu: x; ttu: x->y
	op   int
	l, r *expr
}

func (e *expr) pb() *domain.RelationExpressionTree {
	switch e.kind {
	case eThis:
		return domain.ThisNode()
	case eCU:
		return domain.CUNode(e.x)
	case eTTU:
		return domain.TTUNode(e.x, e.y)
	}
	var op domain.Operator
	switch e.op {
	case opUnion:
		op = domain.Operator_UNION
	case opInter:
		op = domain.Operator_INTERSECTION
	default:
		op = domain.Operator_DIFFERENCE
	}
	return domain.NewOpNode(e.l.pb(), op, e.r.pb())
}

// symLeaf is an arbitrary rule over the relation names; kinds bounds the rule kinds.
func symLeaf(name string, kinds int, rels string) *expr {
	k := 0
	if kinds > 1 {
		k = vx.ConcreteInt(vx.Int(name+".rule", 0, kinds-1))
	}
	e := &expr{kind: k}
	if k == eCU || k == eTTU {
		e.x = vx.StringOf(name+".x", 1, 1, rels)
	}
	if k == eTTU {
		e.y = vx.StringOf(name+".y", 1, 1, rels)
	}
	return e
}

func symOp(name string, l, r *expr) *expr {
	return &expr{kind: eOp, op: vx.ConcreteInt(vx.Int(name, 0, 2)), l: l, r: r}
}

// ---- reference semantics: the well-founded model of the rules, as formulas ----

// universe: object nodes (id, relation) of one resource
type world struct {
	res   string // the resource with relations
	ids   []string
	rels  []string
	exprs []*expr
	facts []rel
	sres  string // the subject asked about
	sid   string
}

func (w *world) n() int          { return len(w.ids) * len(w.rels) }
func (w *world) at(i, j int) int { return i*len(w.rels) + j }
func (w *world) id(n int) string { return w.ids[n/len(w.rels)] }
func (w *world) rl(n int) string { return w.rels[n%len(w.rels)] }
func (w *world) ex(n int) *expr  { return w.exprs[n%len(w.rels)] }
func (w *world) falses() []bool  { return make([]bool, w.n()) }

// from: fact k is stored under node (id, relation).
func (w *world) from(k rel, id, rl string) bool {
	return vx.And(vx.StrEq(k.res, w.res), vx.StrEq(k.id, id), vx.StrEq(k.rel, rl))
}

// points: subject s is the node n.
func (w *world) points(s subj, n int) bool {
	if s.kind != sSet {
		return false
	}
	return vx.And(vx.StrEq(s.res, w.res), vx.StrEq(s.id, w.id(n)), vx.StrEq(s.rel, w.rl(n)))
}

// eval: expression e of node (id, relation) contains the subject; m gives positive uses, neg excluded ones.
func (w *world) eval(e *expr, id, rl string, m, neg []bool) bool {
	switch e.kind {
	case eThis:
		v := false
		for _, k := range w.facts {
			in := false
			switch k.s.kind {
			case sEntity:
				in = vx.And(vx.StrEq(k.s.res, w.sres), vx.StrEq(k.s.id, w.sid))
			case sWildcard:
				in = vx.StrEq(k.s.res, w.sres)
			default:
				for n := 0; n < w.n(); n++ {
					in = vx.Or(in, vx.And(w.points(k.s, n), m[n]))
				}
			}
			v = vx.Or(v, vx.And(w.from(k, id, rl), in))
		}
		return v
	case eCU:
		return w.look(id, e.x, m)
	case eTTU:
		v := false
		for _, k := range w.facts {
			if k.s.kind == sWildcard {
				continue
			}
			v = vx.Or(v, vx.And(w.from(k, id, e.x), vx.StrEq(k.s.res, w.res), w.lookSym(k.s.id, e.y, m)))
		}
		return v
	}
	l, r := w.eval(e.l, id, rl, m, neg), false
	switch e.op {
	case opDiff:
		r = w.eval(e.r, id, rl, neg, m)
		return vx.And(l, !r)
	case opUnion:
		r = w.eval(e.r, id, rl, m, neg)
		return vx.Or(l, r)
	}
	r = w.eval(e.r, id, rl, m, neg)
	return vx.And(l, r)
}

// look: value of node (id, symbolic relation).
func (w *world) look(id, rl string, m []bool) bool {
	v := false
	for n := 0; n < w.n(); n++ {
		if w.id(n) == id {
			v = vx.Or(v, vx.And(vx.StrEq(rl, w.rl(n)), m[n]))
		}
	}
	return v
}

func (w *world) lookSym(id, rl string, m []bool) bool {
	v := false
	for n := 0; n < w.n(); n++ {
		v = vx.Or(v, vx.And(vx.StrEq(id, w.id(n)), vx.StrEq(rl, w.rl(n)), m[n]))
	}
	return v
}

// lfp is the least fixpoint with excluded uses fixed to neg.
func (w *world) lfp(neg []bool) []bool {
	m := w.falses()
	for it := 0; it < w.n(); it++ {
		next := make([]bool, w.n())
		for n := range next {
			next[n] = w.eval(w.ex(n), w.id(n), w.rl(n), m, neg)
		}
		m = next
	}
	return m
}

// model: truth of every node, exact when no node depends on itself through an exclusion.
func (w *world) model(strata int) []bool {
	m := w.lfp(w.falses())
	for i := 0; i < strata; i++ {
		m = w.lfp(m)
	}
	return m
}

// deps adds to pos/neg the dependencies of node n through e.
func (w *world) deps(e *expr, id, rl string, neg bool, dep, ndep []bool) {
	add := func(t int, c bool) {
		dep[t] = vx.Or(dep[t], c)
		if neg {
			ndep[t] = vx.Or(ndep[t], c)
		}
	}
	switch e.kind {
	case eThis:
		for _, k := range w.facts {
			if k.s.kind != sSet {
				continue
			}
			for t := 0; t < w.n(); t++ {
				add(t, vx.And(w.from(k, id, rl), w.points(k.s, t)))
			}
		}
	case eCU:
		for t := 0; t < w.n(); t++ {
			if w.id(t) == id {
				add(t, vx.StrEq(e.x, w.rl(t)))
			}
		}
	case eTTU:
		for _, k := range w.facts {
			if k.s.kind == sWildcard {
				continue
			}
			for t := 0; t < w.n(); t++ {
				add(t, vx.And(w.from(k, id, e.x), vx.StrEq(k.s.res, w.res), vx.StrEq(k.s.id, w.id(t)), vx.StrEq(e.y, w.rl(t))))
			}
		}
	default:
		w.deps(e.l, id, rl, neg, dep, ndep)
		w.deps(e.r, id, rl, neg || e.op == opDiff, dep, ndep)
	}
}

// graph is the dependency relation and its transitive closure.
func (w *world) graph() (dep, ndep, reach [][]bool) {
	n := w.n()
	for i := 0; i < n; i++ {
		d, nd := w.falses(), w.falses()
		w.deps(w.ex(i), w.id(i), w.rl(i), false, d, nd)
		dep, ndep = append(dep, d), append(ndep, nd)
		reach = append(reach, append([]bool{}, d...))
		reach[i][i] = true
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				reach[i][j] = vx.Or(reach[i][j], vx.And(reach[i][k], reach[k][j]))
			}
		}
	}
	return
}

// stratified: no node depends on itself through an exclusion.
func (w *world) stratified() bool {
	_, nd, reach := w.graph()
	bad := false
	for i := range nd {
		for j := range nd {
			bad = vx.Or(bad, vx.And(nd[i][j], reach[j][i]))
		}
	}
	return !bad
}

// dangling: some tuple-to-userset rule meets a subject whose resource lacks the relation.
func (w *world) dangling() bool {
	bad := false
	var walk func(e *expr)
	walk = func(e *expr) {
		switch e.kind {
		case eOp:
			walk(e.l)
			walk(e.r)
		case eTTU:
			for _, k := range w.facts {
				out := vx.StrEq(k.rel, e.x)
				if k.s.kind != sWildcard {
					out = vx.And(out, !vx.StrEq(k.s.res, w.res))
				}
				bad = vx.Or(bad, out)
			}
		}
	}
	for _, e := range w.exprs {
		walk(e)
	}
	return bad
}

func (w *world) policy(id string) *domain.Policy {
	var rels []*domain.Relation
	for j, r := range w.rels {
		rels = append(rels, relation(r, w.exprs[j].pb()))
	}
	return &domain.Policy{Id: id, Resources: []*domain.Resource{resource(w.res, rels...), resource("u")}}
}
