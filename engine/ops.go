package main

// Equality, ordering, maps, calls, channels, type assertions.

import (
	"unsafe"

	"crypto/sha256"
	"fmt"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func decodeRuneConc(b []byte) (rune, int) { return utf8.DecodeRune(b) }

// storeInto writes v through the pointer, keeping the identity of fields and elements.
func storeInto(pv *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if old, ok := (*pv).(Struct); ok && len(old) == len(x) {
			if len(x) > 0 && &old[0] == &x[0] {
				return
			}
			for i := range x {
				storeInto(&old[i], x[i])
			}
			return
		}
		*pv = copyVal(x)
	case Array:
		if old, ok := (*pv).(Array); ok && len(old) == len(x) {
			if len(x) > 0 && &old[0] == &x[0] {
				return
			}
			for i := range x {
				storeInto(&old[i], x[i])
			}
			return
		}
		*pv = copyVal(x)
	default:
		*pv = v
	}
}

// ---- equality ----

func (p *Path) eq(t types.Type, x, y Value) *Term {
	c := p.ctx
	if ps, ok := x.(*Poison); ok {
		unsup("poison eq: %s", ps.why)
	}
	if ps, ok := y.(*Poison); ok {
		unsup("poison eq: %s", ps.why)
	}
	switch a := x.(type) {
	case nil:
		return c.Bool(y == nil)
	case bool, uint64, *Term, *BlkByte:
		if p.outsideAlphabet(x, y) || p.outsideAlphabet(y, x) {
			return c.False
		}
		w := 0
		if wi, _, ok := intInfo(t); ok {
			w = wi
		} else if tt, ok := x.(*Term); ok {
			w = tt.W
		}
		return c.Eq(p.term(x, w), p.term(y, w))
	case float64:
		return c.Bool(a == y.(float64))
	case string, *SymStr:
		if s1, ok := x.(string); ok {
			if s2, ok := y.(string); ok {
				return c.Bool(s1 == s2)
			}
		}
		return p.seqEq(strElems(x), strElems(y))
	case *Value:
		b, ok := y.(*Value)
		return c.Bool(ok && a == b)
	case *MapV:
		return c.Bool(a == y.(*MapV))
	case *ChanV:
		return c.Bool(a == y.(*ChanV))
	case *Closure:
		return c.Bool(a == y.(*Closure))
	case Slice:
		b := y.(Slice)
		if a == nil || b == nil {
			return c.Bool(a == nil && b == nil)
		}
		p.cur.panicStr("comparing uncomparable type slice")
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			unsup("iface eq %T", y)
		}
		if a.T == nil || b.T == nil {
			return c.Bool(a.T == nil && b.T == nil)
		}
		if !types.Identical(a.T, b.T) {
			return c.False
		}
		switch under(a.T).(type) {
		case *types.Slice, *types.Map, *types.Signature:
			p.cur.panicStr("comparing uncomparable type " + a.T.String())
		}
		return p.eq(a.T, a.V, b.V)
	case Struct:
		b := y.(Struct)
		st, _ := under(t).(*types.Struct)
		r := c.True
		for i := range a {
			var ft types.Type = types.Typ[types.Invalid]
			if st != nil {
				if st.Field(i).Name() == "_" {
					continue
				}
				ft = st.Field(i).Type()
			}
			r = c.And(r, p.eq(ft, a[i], b[i]))
		}
		return r
	case Array:
		b := y.(Array)
		es := make([]Value, len(a))
		copy(es, a)
		if w, _, ok := intInfo(under(t).(*types.Array).Elem()); ok && w == 8 {
			return p.seqEq(a, b)
		}
		r := c.True
		for i := range a {
			r = c.And(r, p.eq(under(t).(*types.Array).Elem(), a[i], b[i]))
		}
		return r
	case *iterV:
		return c.Bool(x == y)
	}
	panic(fmt.Sprintf("eq %T", x))
}

// outsideAlphabet: y is a constant that no byte of x's encoding can be.
func (p *Path) outsideAlphabet(x, y Value) bool {
	bb, ok := x.(*BlkByte)
	if !ok {
		return false
	}
	k, ok := y.(uint64)
	if !ok {
		return false
	}
	switch bb.b.kind {
	case "base64":
		return k > 127 || !strings.ContainsRune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_", rune(k))
	case "hex":
		return k > 127 || !strings.ContainsRune("0123456789abcdef", rune(k))
	}
	return false
}

func blkAt(b []Value, i int) *Block {
	f, ok := b[i].(*BlkByte)
	if !ok || f.i != 0 || i+f.b.n > len(b) {
		return nil
	}
	if wholeBlock(b[i:i+f.b.n]) == nil {
		return nil
	}
	return f.b
}

// seqEq: equality of byte sequences; digests are compared through their (injective) inputs.
func (p *Path) seqEq(a, b []Value) *Term {
	c := p.ctx
	if len(a) != len(b) {
		return c.False
	}
	var cs []*Term
	for i := 0; i < len(a); {
		switch x := a[i].(type) {
		case uint64:
			if y, ok := b[i].(uint64); ok {
				if x != y {
					return c.False
				}
				i++
				continue
			}
		}
		ba, bb := blkAt(a, i), blkAt(b, i)
		if ba != nil && bb != nil && ba.n == bb.n {
			e := p.blkEq(ba, bb)
			if e == c.False {
				return e
			}
			cs = append(cs, e)
			i += ba.n
			continue
		}
		_, ia := a[i].(*BlkByte)
		_, ib := b[i].(*BlkByte)
		if ia || ib {
			xa, oka := a[i].(*BlkByte)
			xb, okb := b[i].(*BlkByte)
			if oka && okb && xa.b == xb.b && xa.i == xb.i {
				i++
				continue
			}
			// an opaque image never equals bytes that are not that image (digest assumption)
			return c.False
		}
		e := c.Eq(p.term(a[i], 8), p.term(b[i], 8))
		if e == c.False {
			return e
		}
		cs = append(cs, e)
		i++
	}
	return c.And(cs...)
}

func (p *Path) blkEq(a, b *Block) *Term {
	if a == b {
		return p.ctx.True
	}
	if a.kind != b.kind {
		return p.ctx.False
	}
	if a.isC && b.isC {
		return p.ctx.Bool(a.conc == b.conc)
	}
	if a.inner != nil || b.inner != nil {
		if a.inner == nil || b.inner == nil {
			return p.ctx.False
		}
		return p.blkEq(a.inner, b.inner)
	}
	return p.deepEq(a.in, b.in, a.typ, eqProto)
}

// deepEq compares payloads structurally.
type eqMode int

const (
	eqProto   eqMode = iota // message equality: ignores internal bookkeeping fields
	eqReflect               // reflect.DeepEqual
)

func (p *Path) deepEq(x, y Value, t types.Type, mode eqMode) *Term {
	c := p.ctx
	switch a := x.(type) {
	case []Value:
		b, ok := y.([]Value)
		if !ok {
			return c.False
		}
		return p.seqEq(a, b)
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return c.False
		}
		if a == b {
			return c.True
		}
		if a == nil || b == nil {
			return c.False
		}
		var et types.Type
		if t != nil {
			if pt, ok := under(t).(*types.Pointer); ok {
				et = pt.Elem()
			}
		}
		r := p.deepEq(*a, *b, et, mode)
		if mode == eqReflect && isProtoStruct(et) {
			// reflect.DeepEqual also sees the message-state word which is set once the runtime touched the message
			r = c.And(r, c.Bool(p.touched[a] == p.touched[b]))
		}
		return r
	case Struct:
		b, ok := y.(Struct)
		if !ok {
			return c.False
		}
		var st *types.Struct
		if t != nil {
			st, _ = under(t).(*types.Struct)
		}
		r := c.True
		for i := range a {
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
				n := st.Field(i).Name()
				if n == "state" || n == "sizeCache" || n == "unknownFields" {
					continue
				}
			}
			r = c.And(r, p.deepEq(a[i], b[i], ft, mode))
			if r == c.False {
				return r
			}
		}
		return r
	case Array:
		b := y.(Array)
		r := c.True
		for i := range a {
			r = c.And(r, p.deepEq(a[i], b[i], elemType(t), mode))
		}
		return r
	case Slice:
		b, ok := y.(Slice)
		if !ok || len(a) != len(b) {
			return c.False
		}
		if mode == eqReflect && (a == nil) != (b == nil) {
			return c.False
		}
		et := elemType(t)
		if et != nil {
			if w, _, ok := intInfo(et); ok && w == 8 {
				return p.seqEq(a, b)
			}
		}
		r := c.True
		for i := range a {
			r = c.And(r, p.deepEq(a[i], b[i], et, mode))
			if r == c.False {
				return r
			}
		}
		return r
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return c.False
		}
		if a.T == nil || b.T == nil {
			return c.Bool(a.T == nil && b.T == nil)
		}
		if !types.Identical(a.T, b.T) {
			return c.False
		}
		return p.deepEq(a.V, b.V, a.T, mode)
	case *MapV:
		b, ok := y.(*MapV)
		if !ok {
			return c.False
		}
		if a == b {
			return c.True
		}
		if mode == eqReflect && (a == nil) != (b == nil) {
			return c.False
		}
		na, nb := 0, 0
		if a != nil {
			na = a.nlive
		}
		if b != nil {
			nb = b.nlive
		}
		if na != nb {
			return c.False
		}
		if na == 0 {
			return c.True
		}
		var et types.Type
		if mt, ok := under(t).(*types.Map); ok {
			et = mt.Elem()
		}
		r := c.True
		for _, e := range a.entries {
			if e.dead {
				continue
			}
			f := p.mapGet(b, e.k)
			if f == nil {
				return c.False
			}
			r = c.And(r, p.deepEq(e.v, f.v, et, mode))
		}
		return r
	case *Closure:
		b, _ := y.(*Closure)
		return c.Bool(a == nil && b == nil)
	}
	if t == nil {
		t = types.Typ[types.Invalid]
	}
	return p.eq(t, x, y)
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	}
	return nil
}

func isProtoStruct(t types.Type) bool {
	if t == nil {
		return false
	}
	st, ok := under(t).(*types.Struct)
	return ok && st.NumFields() > 0 && st.Field(0).Name() == "state"
}

// ---- ordering ----

func (p *Path) seqCompare(a, b []Value) int {
	c := p.ctx
	i := 0
	for i < len(a) && i < len(b) {
		ba, bb := blkAt(a, i), blkAt(b, i)
		if ba != nil && bb != nil && ba.n == bb.n {
			if p.Branch(p.blkEq(ba, bb)) {
				i += ba.n
				continue
			}
			return p.blkOrder(ba, bb)
		}
		if ba != nil && i+ba.n <= len(b) {
			if r := extremes(b[i : i+ba.n]); r != 0 {
				return r
			}
		}
		if bb != nil && i+bb.n <= len(a) {
			if r := extremes(a[i : i+bb.n]); r != 0 {
				return -r
			}
		}
		x, okx := a[i].(uint64)
		y, oky := b[i].(uint64)
		if okx && oky {
			if x < y {
				return -1
			}
			if x > y {
				return 1
			}
			i++
			continue
		}
		if xb, ok := a[i].(*BlkByte); ok {
			if yb, ok := b[i].(*BlkByte); ok && xb.b == yb.b && xb.i == yb.i {
				i++
				continue
			}
		}
		tx, ty := p.term(a[i], 8), p.term(b[i], 8)
		if p.Branch(c.Eq(tx, ty)) {
			i++
			continue
		}
		if p.Branch(c.Ult(tx, ty)) {
			return -1
		}
		return 1
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

// extremes: order of a digest against all-zero (+1) or all-ones (-1) bytes.
func extremes(b []Value) int {
	z, f := true, true
	for _, e := range b {
		u, ok := e.(uint64)
		if !ok {
			return 0
		}
		z = z && u == 0
		f = f && u == 0xff
	}
	if z {
		return 1
	}
	if f {
		return -1
	}
	return 0
}

// blkOrder orders two different opaque images: by their real digests when the inputs are concrete, otherwise in
// any order (forked) or in order of creation.
func (p *Path) blkOrder(a, b *Block) int {
	if a.inner != nil && b.inner != nil {
		return p.blkOrder(a.inner, b.inner)
	}
	if a.isC && b.isC && a.kind == "sha256" && b.kind == "sha256" {
		x, y := sha256.Sum256([]byte(a.conc)), sha256.Sum256([]byte(b.conc))
		return strings.Compare(string(x[:]), string(y[:]))
	}
	if p.hashFork {
		ra := p.newVar(fmt.Sprintf("rank!%d", a.id), 8, 0, 255)
		rb := p.newVar(fmt.Sprintf("rank!%d", b.id), 8, 0, 255)
		p.Assume(p.ctx.Not(p.ctx.Eq(ra, rb)))
		if p.Branch(p.ctx.Ult(ra, rb)) {
			return -1
		}
		return 1
	}
	if a.id < b.id {
		return -1
	}
	return 1
}

func (p *Path) newBlock(kind string, n int, in Value, typ types.Type) *Block {
	b := &Block{kind: kind, n: n, in: in, typ: typ}
	if es, ok := in.([]Value); ok {
		if s, ok := mkStr(es).(string); ok {
			b.conc, b.isC = s, true
			k := kind + ":" + s
			if o := p.blkTab[k]; o != nil {
				return o
			}
			p.blkTab[k] = b
		}
	}
	b.id = len(p.blocks)
	p.blocks = append(p.blocks, b)
	return b
}

// ---- maps ----

func ckey(v Value) (any, bool) {
	switch x := v.(type) {
	case string, uint64, bool, *Value, *ChanV, float64, nil:
		return x, true
	case Iface:
		if x.T == nil {
			return "nil-iface", true
		}
		k, ok := ckey(x.V)
		if !ok {
			return nil, false
		}
		return [2]any{x.T.String(), k}, true
	case Struct:
		var parts []string
		for _, e := range x {
			k, ok := ckey(e)
			if !ok {
				return nil, false
			}
			parts = append(parts, fmt.Sprintf("%T:%v", k, k))
		}
		return strings.Join(parts, "\x00"), true
	case Array:
		var parts []string
		for _, e := range x {
			k, ok := ckey(e)
			if !ok {
				return nil, false
			}
			parts = append(parts, fmt.Sprintf("%T:%v", k, k))
		}
		return strings.Join(parts, "\x00"), true
	}
	return nil, false
}

func (p *Path) keyEq(a, b Value) *Term {
	var t types.Type = types.Typ[types.Invalid]
	return p.eqKey(t, a, b)
}

func (p *Path) eqKey(t types.Type, a, b Value) *Term {
	switch x := a.(type) {
	case Struct:
		y := b.(Struct)
		r := p.ctx.True
		for i := range x {
			r = p.ctx.And(r, p.eqKey(t, x[i], y[i]))
		}
		return r
	case Array:
		y := b.(Array)
		bytes := true
		for i := range x {
			switch x[i].(type) {
			case uint64, *BlkByte:
			case *Term:
				bytes = bytes && x[i].(*Term).W == 8
			default:
				bytes = false
			}
		}
		if bytes {
			return p.seqEq(x, y)
		}
		r := p.ctx.True
		for i := range x {
			r = p.ctx.And(r, p.eqKey(t, x[i], y[i]))
		}
		return r
	case uint64:
		if y, ok := b.(*Term); ok {
			return p.ctx.Eq(p.ctx.Const(x, y.W), y)
		}
		return p.ctx.Bool(a == b)
	case *Term:
		return p.ctx.Eq(x, p.term(b, x.W))
	}
	return p.eq(t, a, b)
}

func (p *Path) mapGet(m *MapV, k Value) *MapEntry {
	if m == nil {
		return nil
	}
	ck, conc := ckey(k)
	if conc {
		if e := m.idx[ck]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if conc {
			if _, ec := ckey(e.k); ec {
				continue
			}
		}
		if p.Branch(p.keyEq(k, e.k)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *MapV, k, v Value) {
	if e := p.mapGet(m, k); e != nil {
		e.v = v
		return
	}
	e := &MapEntry{k: copyVal(k), v: v}
	m.entries = append(m.entries, e)
	m.nlive++
	if ck, ok := ckey(k); ok {
		m.idx[ck] = e
	} else {
		m.nsym++
	}
}

func (p *Path) mapDelete(m *MapV, k Value) {
	e := p.mapGet(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.nlive--
	if ck, ok := ckey(e.k); ok {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	for i, x := range m.entries {
		if x == e {
			m.entries = append(append([]*MapEntry{}, m.entries[:i]...), m.entries[i+1:]...)
			break
		}
	}
}

// ---- calls ----

func (g *G) prepCall(fr *frame, c *ssa.CallCommon, ops []opnd) (Value, []Value) {
	args := make([]Value, 0, len(ops))
	f := fr.get(&ops[0])
	if c.IsInvoke() {
		it, ok := f.(Iface)
		if !ok {
			if ps, ok := f.(*Poison); ok {
				unsup("poison receiver: %s", ps.why)
			}
			panic(fmt.Sprintf("invoke on %T", f))
		}
		if it.T == nil {
			g.panicStr("invalid memory address or nil pointer dereference")
		}
		fn := g.p.w.method(it.T, c.Method)
		if fn == nil {
			unsup("no method %s on %s", c.Method.Name(), it.T)
		}
		args = append(args, copyVal(it.V))
		f = &Closure{Fn: fn}
	}
	for i := 1; i < len(ops); i++ {
		args = append(args, copyVal(fr.get(&ops[i])))
	}
	return f, args
}

func (w *Worker) method(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m.Name()}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.eng.l.Prog.LookupMethod(t, m.Pkg(), m.Name())
	w.methods[k] = f
	return f
}

func (g *G) doCall(fr *frame, c *ssa.CallCommon, ops []opnd) Value {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		args := make([]Value, 0, len(ops))
		for i := 1; i < len(ops); i++ {
			args = append(args, fr.get(&ops[i]))
		}
		return g.builtin(fr, b, c, args)
	}
	f, args := g.prepCall(fr, c, ops)
	return g.callValueFrom(fr, f, args, false)
}

func (g *G) callValue(f Value, args []Value) Value { return g.callValueFrom(nil, f, args, false) }

func (g *G) callValueFrom(fr *frame, f Value, args []Value, isDefer bool) Value {
	switch x := f.(type) {
	case *Closure:
		if x == nil {
			g.panicStr("invalid memory address or nil pointer dereference")
		}
		if x.Native != nil {
			return x.Native(g, args)
		}
		if isDefer {
			g.deferFrames = append(g.deferFrames, deferCtx{fr, x.Fn, g.depth})
			r := g.call(x.Fn, args, x.Env)
			g.deferFrames = g.deferFrames[:len(g.deferFrames)-1]
			return r
		}
		return g.call(x.Fn, args, x.Env)
	case *ssa.Builtin:
		return g.builtin(fr, x, nil, args)
	case *Poison:
		unsup("poison call: %s", x.why)
	}
	panic(fmt.Sprintf("call of %T", f))
}

type deferCtx struct {
	fr    *frame
	fn    *ssa.Function
	depth int
}

func (g *G) builtin(fr *frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	p := g.p
	for _, a := range args {
		if ps, ok := a.(*Poison); ok {
			unsup("poison builtin arg: %s", ps.why)
		}
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return uint64(strLen(x))
		case Slice:
			return uint64(len(x))
		case Array:
			return uint64(len(x))
		case *MapV:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.nlive)
		case *ChanV:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		case *Value:
			return uint64(len((*x).(Array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		case *ChanV:
			return uint64(x.cap)
		case *Value:
			return uint64(len((*x).(Array)))
		}
	case "append":
		a := args[0].(Slice)
		if len(args) == 1 {
			return a
		}
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case string, *SymStr:
			add = strElems(y)
		default:
			unsup("append %T", y)
		}
		if len(add) == 0 {
			return a
		}
		need := len(a) + len(add)
		if need <= cap(a) {
			r := a[:need]
			tmp := make([]Value, len(add))
			for i, e := range add {
				tmp[i] = copyVal(e)
			}
			copy(r[len(a):], tmp)
			return r
		}
		// growth as the runtime's: doubling keeps aliasing behaviour realistic
		nc := cap(a)
		if nc == 0 {
			nc = need
		}
		for nc < need {
			if nc < 256 {
				nc *= 2
			} else {
				nc += nc/4 + 192
			}
		}
		r := make(Slice, need, nc)
		copy(r, a)
		for i, e := range add {
			r[len(a)+i] = copyVal(e)
		}
		var z Value
		if c != nil {
			el := under(c.Args[0].Type()).(*types.Slice).Elem()
			full := r[:nc]
			for i := need; i < nc; i++ {
				z = zero(el)
				full[i] = z
			}
		}
		return r
	case "copy":
		d := args[0].(Slice)
		var s []Value
		switch y := args[1].(type) {
		case Slice:
			s = y
		default:
			s = strElems(y)
		}
		n := min(len(d), len(s))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(s[i])
		}
		copy(d, tmp)
		return uint64(n)
	case "delete":
		if m := args[0].(*MapV); m != nil {
			p.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range x.entries {
					e.dead = true
				}
				*x = MapV{idx: map[any]*MapEntry{}}
			}
		case Slice:
			el := under(c.Args[0].Type()).(*types.Slice).Elem()
			for i := range x {
				x[i] = zero(el)
			}
		}
		return nil
	case "panic":
		panic(targetPanic{v: args[0], msg: "panic: " + show(args[0]) + g.where()})
	case "recover":
		// valid only in a function called directly by a deferred call
		n := len(g.deferFrames)
		if n > 0 {
			d := g.deferFrames[n-1]
			if g.depth == d.depth+1 && d.fr != nil && d.fr.panicking && !d.fr.recovered {
				d.fr.recovered = true
				return d.fr.panicv.v
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "close":
		ch := args[0].(*ChanV)
		if ch == nil {
			g.panicStr("close of nil channel")
		}
		if ch.closed {
			g.panicStr("close of closed channel")
		}
		ch.closed = true
		return nil
	case "min", "max":
		t := c.Args[0].Type()
		r := args[0]
		for _, a := range args[1:] {
			lt := g.binop(tokLSS, t, a, r, t)
			if b.Name() == "max" {
				lt = g.binop(tokLSS, t, r, a, t)
			}
			if p.Cond(lt) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		pv, ok := args[0].(*Value)
		if ok && pv == nil {
			g.panicStr("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String
		pv := args[0].(*Value)
		n := int(p.Concretize(args[1]))
		if n == 0 {
			return ""
		}
		if pv == nil {
			unsup("unsafe.String")
		}
		return mkStr(append([]Value{}, unsafe.Slice(pv, n)...))
	case "SliceData":
		s := args[0].(Slice)
		if cap(s) == 0 {
			return (*Value)(nil)
		}
		return &s[:1][0]
	case "Slice": // unsafe.Slice
		pv, ok := args[0].(*Value)
		n := int(p.Concretize(args[1]))
		if !ok || pv == nil {
			unsup("unsafe.Slice")
		}
		return Slice(unsafe.Slice(pv, n))
	case "StringData":
		es := append([]Value{}, strElems(args[0])...)
		if len(es) == 0 {
			return (*Value)(nil)
		}
		return &es[0]
	}
	unsup("builtin %s", b.Name())
	return nil
}

// ---- channels ----

func (g *G) send(ch *ChanV, v Value) {
	if ch == nil {
		g.block(func() bool { return false })
	}
	if ch.closed {
		g.panicStr("send on closed channel")
	}
	if ch.cap > 0 {
		g.block(func() bool { return len(ch.buf) < ch.cap || ch.closed })
		if ch.closed {
			g.panicStr("send on closed channel")
		}
		ch.buf = append(ch.buf, v)
		return
	}
	// rendezvous
	sw := &sendWait{g: g, v: v}
	ch.sendq = append(ch.sendq, sw)
	g.block(func() bool { return sw.done || ch.closed })
	if !sw.done {
		g.panicStr("send on closed channel")
	}
}

func (ch *ChanV) canRecv() bool {
	if ch == nil {
		return false
	}
	if len(ch.buf) > 0 || ch.closed {
		return true
	}
	for _, s := range ch.sendq {
		if !s.done {
			return true
		}
	}
	return false
}

func (ch *ChanV) take(el types.Type) (Value, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value{}, ch.buf[1:]...)
		return v, true
	}
	for i, s := range ch.sendq {
		if !s.done {
			s.done = true
			ch.sendq = append([]*sendWait{}, ch.sendq[i+1:]...)
			return s.v, true
		}
	}
	return zero(el), false
}

func (g *G) recv(ch *ChanV, el types.Type) (Value, bool) {
	g.block(func() bool { return ch.canRecv() })
	return ch.take(el)
}

func (g *G) selectStmt(fr *frame, in *ssa.Select, ci *cinstr) Value {
	p := g.p
	ready := func() []int {
		var r []int
		for i, st := range in.States {
			ch, _ := fr.get(&ci.ops[2*i]).(*ChanV)
			if st.Dir == types.RecvOnly {
				if ch.canRecv() {
					r = append(r, i)
				}
			} else if ch != nil && (ch.closed || len(ch.buf) < ch.cap) {
				r = append(r, i)
			}
		}
		return r
	}
	rs := ready()
	if len(rs) == 0 {
		if !in.Blocking {
			return g.selResult(in, -1, nil, false)
		}
		for _, st := range in.States {
			if st.Dir == types.SendOnly {
				unsup("blocking select with send")
			}
		}
		g.block(func() bool { return len(ready()) > 0 })
		rs = ready()
	}
	k := rs[0]
	if p.symSched {
		k = rs[p.Choose(len(rs))]
	}
	ch := fr.get(&ci.ops[2*k]).(*ChanV)
	if in.States[k].Dir == types.RecvOnly {
		v, ok := ch.take(under(in.States[k].Chan.Type()).(*types.Chan).Elem())
		return g.selResult(in, k, v, ok)
	}
	g.send(ch, copyVal(fr.get(&ci.ops[2*k+1])))
	return g.selResult(in, k, nil, false)
}

func (g *G) selResult(in *ssa.Select, k int, v Value, ok bool) Value {
	t := Tuple{uint64(k), ok}
	if k < 0 {
		t[0] = mask(64)
	}
	for i, st := range in.States {
		if st.Dir != types.RecvOnly {
			continue
		}
		if i == k {
			t = append(t, v)
		} else {
			t = append(t, zero(under(st.Chan.Type()).(*types.Chan).Elem()))
		}
	}
	return t
}

// ---- type assertions ----

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := w.impl[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	w.impl[k] = r
	return r
}

func (g *G) typeAssert(in *ssa.TypeAssert, x Value) Value {
	it, ok := x.(Iface)
	if !ok {
		if ps, ok := x.(*Poison); ok {
			unsup("poison assert: %s", ps.why)
		}
		panic(fmt.Sprintf("typeAssert %T", x))
	}
	var v Value
	good := false
	if it.T != nil {
		if ui, isI := under(in.AssertedType).(*types.Interface); isI {
			good = g.p.w.implements(it.T, ui)
			v = it
		} else {
			good = types.Identical(it.T, in.AssertedType)
			v = it.V
		}
	}
	if !good {
		if !in.CommaOk {
			d := "nil"
			if it.T != nil {
				d = it.T.String()
			}
			g.panicStr("interface conversion: interface is " + d + ", not " + in.AssertedType.String())
		}
		return Tuple{zero(in.AssertedType), false}
	}
	if in.CommaOk {
		return Tuple{copyVal(v), true}
	}
	return copyVal(v)
}

var _ = sort.Strings
