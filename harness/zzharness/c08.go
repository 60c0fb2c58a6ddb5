package zzharness

import (
	"strings"

	parser "github.com/sourcenetwork/zanzi/internal/relation_expression_parser"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

// ---- reference reader of the relation expression language ----

type rdr struct {
	s  string
	i  int
	ok bool
}

func identByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
}

func (r *rdr) spaces() {
	for r.i < len(r.s) && (r.s[r.i] == ' ' || r.s[r.i] >= 9 && r.s[r.i] <= 13) {
		r.i++
	}
}

func (r *rdr) word() string {
	r.spaces()
	j := r.i
	for r.i < len(r.s) && identByte(r.s[r.i]) {
		r.i++
	}
	return r.s[j:r.i]
}

func (r *rdr) arrow() bool {
	r.spaces()
	if r.i+1 < len(r.s) && r.s[r.i] == '-' && r.s[r.i+1] == '>' {
		r.i += 2
		return true
	}
	return false
}

func (r *rdr) term() *expr {
	r.spaces()
	if r.i < len(r.s) && r.s[r.i] == '(' {
		r.i++
		e := r.expr()
		r.spaces()
		if e == nil || r.i >= len(r.s) || r.s[r.i] != ')' {
			return nil
		}
		r.i++
		return e
	}
	w := r.word()
	if w == "" {
		return nil
	}
	if w == "_this" {
		return &expr{kind: eThis}
	}
	if r.arrow() {
		y := r.word()
		if y == "" || y == "_this" {
			return nil
		}
		return &expr{kind: eTTU, x: w, y: y}
	}
	return &expr{kind: eCU, x: w}
}

func (r *rdr) expr() *expr {
	e := r.term()
	for e != nil {
		r.spaces()
		if r.i >= len(r.s) {
			return e
		}
		op := -1
		switch r.s[r.i] {
		case '+':
			op = opUnion
		case '&':
			op = opInter
		case '-':
			op = opDiff
			if r.i+1 < len(r.s) && r.s[r.i+1] == '>' {
				return e
			}
		}
		if op < 0 {
			return e
		}
		r.i++
		t := r.term()
		if t == nil {
			return nil
		}
		e = &expr{kind: eOp, op: op, l: e, r: t}
	}
	return nil
}

// read is nil when s is not an expression.
func read(s string) *expr {
	r := &rdr{s: s}
	e := r.expr()
	r.spaces()
	if e == nil || r.i != len(s) {
		return nil
	}
	return e
}

// sameTree compares without forking on names.
func sameTree(t *domain.RelationExpressionTree, e *expr) bool {
	switch n := t.GetNode().(type) {
	case *domain.RelationExpressionTree_OpNode:
		if e.kind != eOp || n.OpNode == nil {
			return false
		}
		want := [...]domain.Operator{domain.Operator_UNION, domain.Operator_INTERSECTION, domain.Operator_DIFFERENCE}[e.op]
		return vx.And(n.OpNode.Operator == want, sameTree(n.OpNode.Left, e.l), sameTree(n.OpNode.Right, e.r))
	case *domain.RelationExpressionTree_Rule:
		switch r := n.Rule.GetRule().(type) {
		case *domain.Rule_This:
			return e.kind == eThis
		case *domain.Rule_Cu:
			return e.kind == eCU && vx.StrEq(r.Cu.TargetRelation, e.x)
		case *domain.Rule_Ttu:
			return e.kind == eTTU && vx.And(vx.StrEq(r.Ttu.TuplesetRelation, e.x), vx.StrEq(r.Ttu.ComputedUsersetRelation, e.y))
		}
	}
	return false
}

func parse(s string) {
	vx.Observe("text", s)
	t, err := parser.Parse(s)
	want := read(s)
	vx.Assert((err == nil) == (want != nil), "the parser accepts what is not an expression, or rejects what is")
	if want == nil {
		vx.Reach("rejected")
		return
	}
	vx.Reach("parsed")
	if want.kind == eOp {
		vx.Reach("operator")
	}
	vx.Assert(sameTree(t, want), "the parser builds another tree than the grammar gives")
}

// ParseBytes: every byte string of bounded length over the language's characters and others.
func ParseBytes() {
	parse(vx.StringOf("s", 0, vx.Param("len", 5, 6), "a1_()->+& \t$"))
}

// ParseForeign: characters which are no part of the language, invalid bytes among them, anywhere in an expression.
func ParseForeign() {
	words := []string{"a", "_this", "b->c", "(a", "a+", " "}
	c := vx.String("c", 1, 1)
	parse(words[pick("before", len(words))] + c + words[pick("after", len(words))])
}

var pieces = []string{"a", "b1", "_this", "_thisx", "->", "+", "-", "&", "(", ")", " ", "$"}

// ParsePieces: every sequence of bounded length of the language's words.
func ParsePieces() {
	s := ""
	n := vx.ConcreteInt(vx.Int("n", 0, vx.Param("pieces", 4, 6)))
	for i := 0; i < n; i++ {
		s += pieces[vx.ConcreteInt(vx.Int("p"+string(rune('0'+i)), 0, len(pieces)-1))]
	}
	parse(s)
}

// ParseLong: a chain of terms and operators is read from left to right, whatever its spacing and grouping.
func ParseLong() {
	s := ""
	n := vx.Param("terms", 4, 6)
	sp := ""
	if vx.Bool("spaced") {
		sp = " "
	}
	for i := 0; i < n; i++ {
		k := string(rune('0' + i))
		if i > 0 {
			s += sp + [...]string{"+", "&", "-"}[vx.ConcreteInt(vx.Int("op"+k, 0, 2))] + sp
		}
		s += [...]string{"a", "_this", "b->c", "(a+b)", "(_this)"}[vx.ConcreteInt(vx.Int("t"+k, 0, 4))]
	}
	parse(s)
}

// ParseAny: arbitrary bytes, also invalid or non-ASCII text: no crash, no hang, and what is accepted is stable under
// printing.
func ParseAny() {
	s := vx.String("s", 0, vx.Param("any", 4, 5))
	t, err := parser.Parse(s)
	if err != nil {
		vx.Reach("rejected")
		return
	}
	vx.Reach("parsed")
	p := t.RelationExpression()
	t2, err := parser.Parse(p)
	vx.Assert(err == nil, "an accepted expression is rejected once printed")
	vx.Assert(vx.StrEq(t2.RelationExpression(), p), "an accepted expression changes once printed")
}

// ParseDeep: long chains, deep nesting, long identifiers and long runs of whitespace, with one symbolic irregularity.
func ParseDeep() {
	n := vx.Param("n", 40, 70)
	odd := pick("odd", 4) * (n - 1) / 3
	piece := oneName("piece", "a", "(a", "a)", "b->c", "", "_this", "a b", "-", "+ +", "$")
	op := func(i int) string {
		if i == odd {
			return oneName("op", "+", "&", "-", "->", " ")
		}
		return []string{"+", "&", "-"}[i%3]
	}
	s := ""
	switch pick("shape", 6) {
	case 0: // a chain
		for i := 0; i < n; i++ {
			t := "t"
			if i == odd {
				t = piece
			}
			if i > 0 {
				s += op(i)
			}
			s += t
		}
	case 1: // nested to the left
		s = strings.Repeat("(", n)
		for i := 0; i < n; i++ {
			t := "t"
			if i == odd {
				t = piece
			}
			if i > 0 {
				s += op(i)
			}
			s += t + ")"
		}
	case 2: // nested to the right
		for i := 0; i < n; i++ {
			t := "t"
			if i == odd {
				t = piece
			}
			s += "(" + t + op(i)
		}
		s += "t" + strings.Repeat(")", n)
	case 3: // redundant parentheses
		s = strings.Repeat("(", n) + piece + strings.Repeat(")", n-1+pick("close", 3))
	case 4: // long identifiers
		c := vx.StringOf("c", 1, 1, "aZ09_$ -")
		s = strings.Repeat("x", odd) + c + strings.Repeat("y", n-odd) + op(odd) + strings.Repeat("z", n) + "->" + strings.Repeat("w", n) + c
	default: // whitespace
		sp := strings.Repeat(" \t\n\r", n)
		s = sp + piece + sp + op(odd) + sp + "(" + sp + "b" + sp + "->" + sp + "c" + sp + ")" + sp
	}
	parse(s)
}

// ParseStored: what the service does with an expression is what the parser reads.
func ParseStored() {
	s := ""
	n := 1 + pick("n", vx.Param("pieces", 3, 4))
	for i := 0; i < n; i++ {
		s += []string{"a", "b", "_this", "->", "+", "-", "&", "(", ")", " "}[pick("p"+string(rune('0'+i)), 10)]
	}
	want := read(s)
	if want != nil && !want.only("a", "b") {
		want = nil
	}
	z := newSys()
	def := definition(&domain.Policy{Id: "p", Resources: []*domain.Resource{resource("r", relationExpr("a", s), relation("b", domain.ThisNode())), resource("u")}})
	_, err := z.pol.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: def})
	vx.Assert((err == nil) == (want != nil), "a policy with a text expression is accepted although the text is no expression, or rejected although it is one")
	if err != nil {
		vx.Reach("rejected")
		return
	}
	vx.Reach("parsed")
	got, err := z.pol.GetPolicy(ctx, &api.GetPolicyRequest{Id: "p"})
	vx.Assert(err == nil && got.Record != nil, "a stored policy cannot be read")
	t := got.Record.Policy.Resources[0].Relations[0].RelationExpression.GetTree()
	if t == nil {
		t, err = parser.Parse(got.Record.Policy.Resources[0].Relations[0].RelationExpression.GetExpr())
		vx.Assert(err == nil, "a stored expression is not an expression")
	}
	vx.Assert(sameTree(t, want), "a policy with a text expression is stored with another expression")
}

// only: the expression names no relation of its resource but these.
func (e *expr) only(names ...string) bool {
	switch e.kind {
	case eThis:
		return true
	case eOp:
		return e.l.only(names...) && e.r.only(names...)
	}
	return oneOf(e.x, names...)
}
