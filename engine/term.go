package main

// Hash-consed bit-vector / boolean terms with local simplification.  One TermCtx per worker.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota // bitvector constant (Val), width W
	OVar
	OTrue
	OFalse
	ONot
	OAnd // n-ary
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OBvAdd
	OBvSub
	OBvMul
	OBvUdiv
	OBvUrem
	OBvSdiv
	OBvSrem
	OBvAnd
	OBvOr
	OBvXor
	OBvShl
	OBvLshr
	OBvAshr
	OBvNot
	OBvNeg
	OZext
	OSext
	OExtract // low bits: W
)

// Term of width W (0 = Bool)
type Term struct {
	Op   Op
	W    int
	Val  uint64
	Lo   int
	Name string
	Args []*Term
	ID   int
	vars []int // sorted var term ids
	neg  *Term
}

type termKey struct {
	op   Op
	w    int
	val  uint64
	lo   int
	name string
	a    string
}

type TermCtx struct {
	tab   map[termKey]*Term
	all   []*Term
	True  *Term
	False *Term
	// byte value sets known for a variable, as unsigned [lo,hi] bounds
	bounds map[int][2]uint64
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, bounds: map[int][2]uint64{}}
	c.True = c.mk(OTrue, 0, 0, 0, "", nil)
	c.False = c.mk(OFalse, 0, 0, 0, "", nil)
	return c
}

func argKey(args []*Term) string {
	if len(args) == 0 {
		return ""
	}
	b := make([]byte, 0, len(args)*4)
	for _, a := range args {
		b = append(b, byte(a.ID), byte(a.ID>>8), byte(a.ID>>16), byte(a.ID>>24))
	}
	return string(b)
}

func (c *TermCtx) mk(op Op, w int, val uint64, lo int, name string, args []*Term) *Term {
	k := termKey{op, w, val, lo, name, argKey(args)}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, W: w, Val: val, Lo: lo, Name: name, Args: args, ID: len(c.all)}
	c.all = append(c.all, t)
	c.tab[k] = t
	if op == OVar {
		t.vars = []int{t.ID}
	} else if len(args) == 1 {
		t.vars = args[0].vars
	} else if len(args) > 1 {
		set := map[int]bool{}
		same := true
		for i, a := range args {
			for _, v := range a.vars {
				set[v] = true
			}
			if i > 0 && len(a.vars) != 0 {
				same = false
			}
		}
		if same {
			t.vars = args[0].vars
		} else {
			t.vars = make([]int, 0, len(set))
			for v := range set {
				t.vars = append(t.vars, v)
			}
			sort.Ints(t.vars)
		}
	}
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-uint(w))) >> (64 - uint(w))
}

func (c *TermCtx) Const(v uint64, w int) *Term { return c.mk(OConst, w, v&mask(w), 0, "", nil) }
func (c *TermCtx) Var(name string, w int) *Term {
	return c.mk(OVar, w, 0, 0, name, nil)
}
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *TermCtx) Not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return c.False
	case OFalse:
		return c.True
	case ONot:
		return a.Args[0]
	}
	if a.neg == nil {
		a.neg = c.mk(ONot, 0, 0, 0, "", []*Term{a})
	}
	return a.neg
}

func (c *TermCtx) nary(op Op, unit, zero *Term, as []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == zero {
			return false
		}
		if a == unit {
			return true
		}
		if a.Op == op {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.ID] {
			return true
		}
		if a.Op == ONot {
			if seen[a.Args[0].ID] {
				return false
			}
		} else if a.neg != nil && seen[a.neg.ID] {
			return false
		}
		seen[a.ID] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return c.mk(op, 0, 0, 0, "", out)
}

func (c *TermCtx) And(as ...*Term) *Term { return c.nary(OAnd, c.True, c.False, as) }
func (c *TermCtx) Or(as ...*Term) *Term  { return c.nary(OOr, c.False, c.True, as) }

// unsigned range of a term, cheap
func (c *TermCtx) urange(t *Term) (uint64, uint64) {
	switch t.Op {
	case OConst:
		return t.Val, t.Val
	case OVar:
		if b, ok := c.bounds[t.ID]; ok {
			return b[0], b[1]
		}
	case OZext:
		return c.urange(t.Args[0])
	case OIte:
		l1, h1 := c.urange(t.Args[1])
		l2, h2 := c.urange(t.Args[2])
		return min(l1, l2), max(h1, h2)
	case OBvAdd:
		l1, h1 := c.urange(t.Args[0])
		l2, h2 := c.urange(t.Args[1])
		s, carry := bits.Add64(h1, h2, 0)
		if carry == 0 && s <= mask(t.W) {
			return l1 + l2, s
		}
	case OBvAnd:
		_, h1 := c.urange(t.Args[0])
		_, h2 := c.urange(t.Args[1])
		return 0, min(h1, h2)
	}
	return 0, mask(t.W)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.W, b.W))
	}
	if a.W == 0 {
		if a.Op == OTrue {
			return b
		}
		if b.Op == OTrue {
			return a
		}
		if a.Op == OFalse {
			return c.Not(b)
		}
		if b.Op == OFalse {
			return c.Not(a)
		}
	}
	if a.Op == OConst && b.Op == OConst {
		return c.Bool(a.Val == b.Val)
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.Op == OConst {
		switch a.Op {
		case OZext:
			if b.Val > mask(a.Args[0].W) {
				return c.False
			}
			return c.Eq(a.Args[0], c.Const(b.Val, a.Args[0].W))
		case OIte:
			x, y := a.Args[1], a.Args[2]
			if x.Op == OConst || y.Op == OConst {
				return c.Or(c.And(a.Args[0], c.Eq(x, b)), c.And(c.Not(a.Args[0]), c.Eq(y, b)))
			}
		case OBvAdd:
			if a.Args[1].Op == OConst {
				return c.Eq(a.Args[0], c.Const(b.Val-a.Args[1].Val, a.W))
			}
		}
		l, h := c.urange(a)
		if b.Val < l || b.Val > h {
			return c.False
		}
	} else if a.W > 0 {
		if a.Op == OZext && b.Op == OZext && a.Args[0].W == b.Args[0].W {
			return c.Eq(a.Args[0], b.Args[0])
		}
		l1, h1 := c.urange(a)
		l2, h2 := c.urange(b)
		if h1 < l2 || h2 < l1 {
			return c.False
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, 0, "", []*Term{a, b})
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	l1, h1 := c.urange(a)
	l2, h2 := c.urange(b)
	if h1 < l2 {
		return c.True
	}
	if l1 >= h2 {
		return c.False
	}
	if a.Op == OZext && b.Op == OConst {
		return c.Ult(a.Args[0], c.Const(b.Val, a.Args[0].W))
	}
	if b.Op == OZext && a.Op == OConst {
		return c.Ult(c.Const(a.Val, b.Args[0].W), b.Args[0])
	}
	if b.Op == OZext && a.Op == OZext && a.Args[0].W == b.Args[0].W {
		return c.Ult(a.Args[0], b.Args[0])
	}
	return c.mk(OUlt, 0, 0, 0, "", []*Term{a, b})
}

func (c *TermCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.Op == OConst && b.Op == OConst {
		return c.Bool(sext(a.Val, a.W) < sext(b.Val, b.W))
	}
	half := mask(a.W) >> 1
	_, h1 := c.urange(a)
	_, h2 := c.urange(b)
	if h1 <= half && h2 <= half {
		return c.Ult(a, b)
	}
	if h1 <= half && b.Op == OConst && b.Val > half {
		return c.False
	}
	if h2 <= half && a.Op == OConst && a.Val > half {
		return c.True
	}
	return c.mk(OSlt, 0, 0, 0, "", []*Term{a, b})
}
func (c *TermCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.Op == OTrue || a == b {
		return a
	}
	if cond.Op == OFalse {
		return b
	}
	if a.W == 0 {
		return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
	}
	return c.mk(OIte, a.W, 0, 0, "", []*Term{cond, a, b})
}

func (c *TermCtx) Zext(a *Term, w int) *Term {
	if a.W == w {
		return a
	}
	if a.W > w {
		return c.Extract(a, w)
	}
	if a.Op == OConst {
		return c.Const(a.Val, w)
	}
	if a.Op == OZext {
		return c.Zext(a.Args[0], w)
	}
	return c.mk(OZext, w, 0, 0, "", []*Term{a})
}

func (c *TermCtx) Sext(a *Term, w int) *Term {
	if a.W == w {
		return a
	}
	if a.W > w {
		return c.Extract(a, w)
	}
	if a.Op == OConst {
		return c.Const(uint64(sext(a.Val, a.W)), w)
	}
	_, h := c.urange(a)
	if h <= mask(a.W)>>1 {
		return c.Zext(a, w)
	}
	return c.mk(OSext, w, 0, 0, "", []*Term{a})
}

func (c *TermCtx) Extract(a *Term, w int) *Term { // low w bits
	if a.W == w {
		return a
	}
	if a.Op == OConst {
		return c.Const(a.Val, w)
	}
	if a.Op == OZext || a.Op == OSext {
		x := a.Args[0]
		if x.W == w {
			return x
		}
		if x.W > w {
			return c.Extract(x, w)
		}
		if a.Op == OZext {
			return c.Zext(x, w)
		}
		return c.Sext(x, w)
	}
	return c.mk(OExtract, w, 0, 0, "", []*Term{a})
}

func evalBin(op Op, x, y uint64, w int) uint64 {
	m := mask(w)
	switch op {
	case OBvAdd:
		return (x + y) & m
	case OBvSub:
		return (x - y) & m
	case OBvMul:
		return (x * y) & m
	case OBvUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OBvUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OBvSdiv:
		if y == 0 {
			return m
		}
		if sext(y, w) == -1 {
			return (-x) & m
		}
		return uint64(sext(x, w)/sext(y, w)) & m
	case OBvSrem:
		if y == 0 {
			return x
		}
		if sext(y, w) == -1 {
			return 0
		}
		return uint64(sext(x, w)%sext(y, w)) & m
	case OBvAnd:
		return x & y
	case OBvOr:
		return x | y
	case OBvXor:
		return x ^ y
	case OBvShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OBvLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OBvAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic("evalBin")
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return c.Const(evalBin(op, a.Val, b.Val, a.W), a.W)
	}
	switch op {
	case OBvAdd:
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op == OConst {
			if b.Val == 0 {
				return a
			}
			if a.Op == OBvAdd && a.Args[1].Op == OConst {
				return c.Bin(OBvAdd, a.Args[0], c.Const(a.Args[1].Val+b.Val, a.W))
			}
		}
	case OBvSub:
		if b.Op == OConst {
			return c.Bin(OBvAdd, a, c.Const(-b.Val, a.W))
		}
		if a == b {
			return c.Const(0, a.W)
		}
	case OBvMul:
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op == OConst && b.Val == 1 {
			return a
		}
		if b.Op == OConst && b.Val == 0 {
			return b
		}
	case OBvAnd:
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op == OConst && b.Val == 0 {
			return b
		}
		if b.Op == OConst && b.Val == mask(a.W) {
			return a
		}
		if a == b {
			return a
		}
	case OBvOr, OBvXor:
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op == OConst && b.Val == 0 {
			return a
		}
	case OBvShl, OBvLshr, OBvAshr:
		if b.Op == OConst && b.Val == 0 {
			return a
		}
	}
	return c.mk(op, a.W, 0, 0, "", []*Term{a, b})
}

// ---- evaluation under an assignment ----

func (c *TermCtx) Eval(t *Term, m map[int]uint64) uint64 {
	memo := map[int]uint64{}
	return c.eval(t, m, memo)
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
func (c *TermCtx) eval(t *Term, m map[int]uint64, memo map[int]uint64) uint64 {
	switch t.Op {
	case OConst:
		return t.Val
	case OTrue:
		return 1
	case OFalse:
		return 0
	case OVar:
		if v, ok := m[t.ID]; ok {
			return v
		}
		if b, ok := c.bounds[t.ID]; ok {
			return b[0]
		}
		return 0
	}
	if v, ok := memo[t.ID]; ok {
		return v
	}
	var r uint64
	switch t.Op {
	case ONot:
		r = 1 - c.eval(t.Args[0], m, memo)
	case OAnd:
		r = 1
		for _, a := range t.Args {
			if c.eval(a, m, memo) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for _, a := range t.Args {
			if c.eval(a, m, memo) == 1 {
				r = 1
				break
			}
		}
	case OEq:
		r = b2u(c.eval(t.Args[0], m, memo) == c.eval(t.Args[1], m, memo))
	case OUlt:
		r = b2u(c.eval(t.Args[0], m, memo) < c.eval(t.Args[1], m, memo))
	case OSlt:
		w := t.Args[0].W
		r = b2u(sext(c.eval(t.Args[0], m, memo), w) < sext(c.eval(t.Args[1], m, memo), w))
	case OIte:
		if c.eval(t.Args[0], m, memo) == 1 {
			r = c.eval(t.Args[1], m, memo)
		} else {
			r = c.eval(t.Args[2], m, memo)
		}
	case OZext:
		r = c.eval(t.Args[0], m, memo)
	case OSext:
		r = uint64(sext(c.eval(t.Args[0], m, memo), t.Args[0].W)) & mask(t.W)
	case OExtract:
		r = c.eval(t.Args[0], m, memo) & mask(t.W)
	case OBvNot:
		r = ^c.eval(t.Args[0], m, memo) & mask(t.W)
	case OBvNeg:
		r = -c.eval(t.Args[0], m, memo) & mask(t.W)
	default:
		r = evalBin(t.Op, c.eval(t.Args[0], m, memo), c.eval(t.Args[1], m, memo), t.W)
	}
	memo[t.ID] = r
	return r
}

// ---- SMT-LIB printing ----

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

var smtOps = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OIte: "ite",
	OBvAdd: "bvadd", OBvSub: "bvsub", OBvMul: "bvmul", OBvUdiv: "bvudiv", OBvUrem: "bvurem", OBvSdiv: "bvsdiv", OBvSrem: "bvsrem",
	OBvAnd: "bvand", OBvOr: "bvor", OBvXor: "bvxor", OBvShl: "bvshl", OBvLshr: "bvlshr", OBvAshr: "bvashr", OBvNot: "bvnot", OBvNeg: "bvneg"}

func varName(t *Term) string { return "|" + t.Name + "|" }

// Print writes t; nodes with more than one parent inside the query are let-bound by the caller through names.
func (c *TermCtx) print(sb *strings.Builder, t *Term, names map[int]string) {
	if n, ok := names[t.ID]; ok {
		sb.WriteString(n)
		return
	}
	switch t.Op {
	case OConst:
		fmt.Fprintf(sb, "(_ bv%d %d)", t.Val, t.W)
	case OTrue:
		sb.WriteString("true")
	case OFalse:
		sb.WriteString("false")
	case OVar:
		sb.WriteString(varName(t))
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) ", t.W-t.Args[0].W)
		c.print(sb, t.Args[0], names)
		sb.WriteString(")")
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) ", t.W-t.Args[0].W)
		c.print(sb, t.Args[0], names)
		sb.WriteString(")")
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d 0) ", t.W-1)
		c.print(sb, t.Args[0], names)
		sb.WriteString(")")
	default:
		sb.WriteString("(")
		sb.WriteString(smtOps[t.Op])
		for _, a := range t.Args {
			sb.WriteString(" ")
			c.print(sb, a, names)
		}
		sb.WriteString(")")
	}
}

// size of shared DAG; used to decide on definitions
func (c *TermCtx) shared(ts []*Term) []*Term {
	cnt := map[int]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		cnt[t.ID]++
		if cnt[t.ID] > 1 || len(t.Args) == 0 {
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
		order = append(order, t)
	}
	for _, t := range ts {
		walk(t)
	}
	var out []*Term
	for _, t := range order {
		if cnt[t.ID] > 1 && len(t.Args) > 0 {
			out = append(out, t)
		}
	}
	return out
}
