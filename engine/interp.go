package main

// The SSA interpreter.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	kind uint8 // 0 reg, 1 const, 2 global, 3 func/builtin
	idx  int
	val  Value
	g    *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	dst int
	ops []opnd
}

type cblock struct {
	phis   []cinstr
	instrs []cinstr
}

type cfunc struct {
	fn       *ssa.Function
	nregs    int
	blocks   []cblock
	hasDefer bool
	nparams  int
}

var cfuncs sync.Map

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type()
	if w, _, ok := intInfo(t); ok {
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return uint64(i) & mask(w)
		}
		u, _ := constant.Uint64Val(v)
		return u & mask(w)
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		return &Poison{"const of " + t.String()}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	}
	return &Poison{"const of " + t.String()}
}

func compile(fn *ssa.Function) *cfunc {
	if c, ok := cfuncs.Load(fn); ok {
		return c.(*cfunc)
	}
	regs := map[ssa.Value]int{}
	cf := &cfunc{fn: fn}
	add := func(v ssa.Value) int {
		regs[v] = cf.nregs
		cf.nregs++
		return cf.nregs - 1
	}
	for _, p := range fn.Params {
		add(p)
	}
	cf.nparams = len(fn.Params)
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				cf.hasDefer = true
			}
		}
	}
	cf.blocks = make([]cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &cf.blocks[i]
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			var rands []*ssa.Value
			rands = in.Operands(rands)
			for _, r := range rands {
				ci.ops = append(ci.ops, mkOpnd(*r, regs))
			}
			if _, ok := in.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, ci)
			} else {
				cb.instrs = append(cb.instrs, ci)
			}
		}
	}
	c, _ := cfuncs.LoadOrStore(fn, cf)
	return c.(*cfunc)
}

func mkOpnd(v ssa.Value, regs map[ssa.Value]int) opnd {
	switch x := v.(type) {
	case nil:
		return opnd{kind: 1}
	case *ssa.Const:
		return opnd{kind: 1, val: constVal(x)}
	case *ssa.Global:
		return opnd{kind: 2, g: x}
	case *ssa.Function:
		return opnd{kind: 1, val: &Closure{Fn: x}}
	case *ssa.Builtin:
		return opnd{kind: 1, val: x}
	}
	i, ok := regs[v]
	if !ok {
		panic(fmt.Sprintf("no reg for %v", v))
	}
	return opnd{kind: 0, idx: i}
}

type deferred struct {
	fn   Value
	args []Value
}

type frame struct {
	g         *G
	cf        *cfunc
	regs      []Value
	block     int
	prev      *ssa.BasicBlock
	result    Value
	defers    []deferred
	panicking bool
	panicv    targetPanic
	recovered bool
	caller    *frame
	returned  bool
	tolerant  bool
}

func (fr *frame) get(o *opnd) Value {
	switch o.kind {
	case 0:
		return fr.regs[o.idx]
	case 1:
		return o.val
	case 2:
		return fr.g.p.global(o.g)
	}
	panic("opnd")
}

func isStd(pkg *ssa.Package) bool {
	if pkg == nil {
		return false
	}
	p := pkg.Pkg.Path()
	return !strings.Contains(p, ".")
}

func (p *Path) global(gl *ssa.Global) *Value {
	pkg := gl.Pkg
	if isStd(pkg) {
		if c, ok := p.w.stdGlob[gl]; ok {
			return c
		}
		if p.w.stdInit[pkg] == 0 {
			p.w.stdInit[pkg] = 1
			for _, m := range pkg.Members {
				if g2, ok := m.(*ssa.Global); ok {
					v := zero(g2.Type().(*types.Pointer).Elem())
					p.w.stdGlob[g2] = &v
				}
			}
			p.runInit(pkg)
			p.w.stdInit[pkg] = 2
		}
		if c, ok := p.w.stdGlob[gl]; ok {
			return c
		}
		unsup("global %s", gl)
	}
	if c, ok := p.globals[gl]; ok {
		return c
	}
	if p.initSt[pkg] == 0 {
		p.initSt[pkg] = 1
		for _, m := range pkg.Members {
			if g2, ok := m.(*ssa.Global); ok {
				v := zero(g2.Type().(*types.Pointer).Elem())
				p.globals[g2] = &v
			}
		}
		p.runInit(pkg)
		p.initSt[pkg] = 2
		if c, ok := p.globals[gl]; ok {
			return c
		}
	}
	c := new(Value)
	*c = zero(gl.Type().(*types.Pointer).Elem())
	p.globals[gl] = c
	return c
}

// runInit runs a package's variable initialisers and init functions (without those of its dependencies,
// which are run when first needed). Initialisers that cannot be interpreted leave poison behind.
func (p *Path) runInit(pkg *ssa.Package) {
	f := pkg.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		// no body: every variable is unknown
		for _, m := range pkg.Members {
			if g2, ok := m.(*ssa.Global); ok {
				var v Value = &Poison{"uninitialised " + g2.String()}
				if isStd(pkg) {
					p.w.stdGlob[g2] = &v
				} else {
					p.globals[g2] = &v
				}
			}
		}
		return
	}
	g := p.cur
	cf := compile(f)
	fr := &frame{g: g, cf: cf, regs: make([]Value, cf.nregs), tolerant: true}
	g.depth++
	g.stack = append(g.stack, f)
	// mark guard
	g.runBlocks(fr)
	g.stack = g.stack[:len(g.stack)-1]
	g.depth--
}

func (g *G) call(fn *ssa.Function, args []Value, env []Value) Value {
	p := g.p
	fi := p.w.info(fn)
	if fi.intr != nil {
		return fi.intr(g, fn, args)
	}
	if fi.over != nil {
		fn = fi.over
	}
	if fn.Blocks == nil {
		unsup("no body: %s", fn.String())
	}
	g.depth++
	if g.depth > p.eng.opt.MaxDepth {
		panic(abortPath{abLimit, "recursion depth" + g.where()})
	}
	p.w.fncalls[fn]++
	g.stack = append(g.stack, fn)
	cf := compile(fn)
	fr := &frame{g: g, cf: cf, regs: make([]Value, cf.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[cf.nparams:], env)
	if cf.hasDefer {
		for !fr.returned {
			g.runProtected(fr)
		}
	} else {
		g.runBlocks(fr)
	}
	g.stack = g.stack[:len(g.stack)-1]
	g.depth--
	return fr.result
}

func (g *G) runProtected(fr *frame) {
	depth, sl, dl := g.depth, len(g.stack), len(g.deferFrames)
	completed := false
	defer func() {
		if completed {
			return
		}
		r := recover()
		if r == nil {
			return // Goexit
		}
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		g.depth, g.stack, g.deferFrames = depth, g.stack[:sl], g.deferFrames[:dl]
		fr.panicking = true
		fr.recovered = false
		fr.panicv = tp
		g.runDefers(fr)
		if fr.panicking && !fr.recovered {
			panic(fr.panicv)
		}
		fr.panicking = false
		// resume at the recover block
		if fr.cf.fn.Recover != nil {
			fr.block = fr.cf.fn.Recover.Index
			fr.prev = nil
		} else {
			fr.result = zero(fr.cf.fn.Signature.Results())
			if t, ok := fr.result.(Tuple); ok {
				if len(t) == 1 {
					fr.result = t[0]
				} else if len(t) == 0 {
					fr.result = nil
				}
			}
			fr.returned = true
		}
	}()
	g.runBlocks(fr)
	completed = true
}

func (g *G) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth, sl, dl := g.depth, len(g.stack), len(g.deferFrames)
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				if r == nil {
					return
				}
				tp, is := r.(targetPanic)
				if !is {
					panic(r)
				}
				g.depth, g.stack, g.deferFrames = depth, g.stack[:sl], g.deferFrames[:dl]
				fr.panicking = true
				fr.recovered = false
				fr.panicv = tp
			}()
			g.callValueFrom(fr, d.fn, d.args, true)
			ok = true
		}()
	}
}

func (g *G) panicStr(msg string) {
	t := g.p.eng.runtimeErrType
	panic(targetPanic{v: Iface{T: t, V: "runtime error: " + msg}, msg: "runtime error: " + msg + g.where()})
}

func (g *G) runBlocks(fr *frame) {
	p := g.p
	for {
		cb := &fr.cf.blocks[fr.block]
		b := fr.cf.fn.Blocks[fr.block]
		if len(cb.phis) > 0 {
			pi := -1
			for i, pr := range b.Preds {
				if pr == fr.prev {
					pi = i
					break
				}
			}
			if len(cb.phis) == 1 {
				fr.regs[cb.phis[0].dst] = fr.get(&cb.phis[0].ops[pi])
			} else {
				vals := make([]Value, len(cb.phis))
				for i := range cb.phis {
					vals[i] = fr.get(&cb.phis[i].ops[pi])
				}
				for i := range cb.phis {
					fr.regs[cb.phis[i].dst] = vals[i]
				}
			}
		}
		p.steps += len(cb.instrs)
		if p.steps > p.maxSteps {
			panic(abortPath{abLimit, "step bound" + g.where()})
		}
		next := -1
		for i := range cb.instrs {
			ci := &cb.instrs[i]
			switch ci.in.(type) {
			case *ssa.Jump:
				next = b.Succs[0].Index
			case *ssa.If:
				if fr.tolerant {
					// package init guard: always enter the initialisation
					if len(b.Succs) == 2 && fr.block == 0 {
						next = initBodyIndex(fr.cf.fn)
						break
					}
				}
				if p.Cond(fr.get(&ci.ops[0])) {
					next = b.Succs[0].Index
				} else {
					next = b.Succs[1].Index
				}
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for k := range ci.ops {
						t[k] = fr.get(&ci.ops[k])
					}
					fr.result = t
				}
				fr.returned = true
				return
			case *ssa.Panic:
				v := fr.get(&ci.ops[0])
				panic(targetPanic{v: v, msg: "panic: " + show(v) + g.where()})
			default:
				if fr.tolerant {
					g.tolerantExec(fr, ci)
				} else {
					g.exec(fr, ci)
				}
			}
		}
		fr.prev = b
		fr.block = next
	}
}

func initBodyIndex(f *ssa.Function) int {
	// block 0: if init$guard goto done else init.start
	for _, s := range f.Blocks[0].Succs {
		if len(s.Instrs) > 1 {
			return s.Index
		}
	}
	return f.Blocks[0].Succs[1].Index
}

const tokLSS = token.LSS

func (g *G) tolerantExec(fr *frame, ci *cinstr) {
	if c, ok := ci.in.(*ssa.Call); ok {
		if f, ok := c.Call.Value.(*ssa.Function); ok {
			// dependency inits run lazily; generated descriptors are not interpreted
			if f.Name() == "init" && f.Pkg != fr.cf.fn.Pkg && f.Synthetic != "" {
				return
			}
			if strings.HasPrefix(f.Name(), "init#") {
				pos := g.p.eng.l.Fset.Position(f.Pos())
				if strings.HasSuffix(pos.Filename, ".pb.go") || strings.HasSuffix(pos.Filename, ".pb.gw.go") {
					return
				}
			}
		}
	}
	depth, sl := g.depth, len(g.stack)
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		why := ""
		switch x := r.(type) {
		case abortPath:
			if x.kind != abUnsupported {
				panic(r)
			}
			why = x.msg
		case nil:
			return
		default:
			why = fmt.Sprint(r)
		}
		g.depth, g.stack = depth, g.stack[:sl]
		if ci.dst >= 0 {
			if _, isPtr := under(ci.in.(ssa.Value).Type()).(*types.Pointer); isPtr {
				c := new(Value)
				*c = &Poison{"init: " + why}
				fr.regs[ci.dst] = c
			} else {
				fr.regs[ci.dst] = &Poison{"init: " + why}
			}
		}
	}()
	g.exec(fr, ci)
	ok = true
}

func deref(g *G, v Value) *Value {
	pv, ok := v.(*Value)
	if !ok {
		if ps, ok := v.(*Poison); ok {
			unsup("poison deref: %s", ps.why)
		}
		panic(fmt.Sprintf("deref %T", v))
	}
	if pv == nil {
		g.panicStr("invalid memory address or nil pointer dereference")
	}
	return pv
}

func (g *G) exec(fr *frame, ci *cinstr) {
	p := g.p
	switch in := ci.in.(type) {
	case *ssa.UnOp:
		fr.regs[ci.dst] = g.unop(fr, in, fr.get(&ci.ops[0]))
	case *ssa.BinOp:
		fr.regs[ci.dst] = g.binop(in.Op, in.X.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), in.Y.Type())
	case *ssa.Store:
		storeInto(deref(g, fr.get(&ci.ops[0])), fr.get(&ci.ops[1]))
	case *ssa.FieldAddr:
		pv := deref(g, fr.get(&ci.ops[0]))
		s, ok := (*pv).(Struct)
		if !ok {
			if ps, ok := (*pv).(*Poison); ok {
				unsup("poison field: %s", ps.why)
			}
			panic(fmt.Sprintf("FieldAddr on %T (%s)", *pv, in))
		}
		fr.regs[ci.dst] = &s[in.Field]
	case *ssa.Field:
		s, ok := fr.get(&ci.ops[0]).(Struct)
		if !ok {
			unsup("field of non-struct")
		}
		fr.regs[ci.dst] = copyVal(s[in.Field])
	case *ssa.IndexAddr:
		x := fr.get(&ci.ops[0])
		var arr []Value
		switch y := x.(type) {
		case Slice:
			arr = y
		case *Value:
			if y == nil {
				g.panicStr("nil array pointer")
			}
			a, ok := (*y).(Array)
			if !ok {
				unsup("index of %T", *y)
			}
			arr = a
		case *Poison:
			unsup("poison index: %s", y.why)
		default:
			panic(fmt.Sprintf("IndexAddr %T", x))
		}
		i := g.index(fr.get(&ci.ops[1]), in.Index.Type(), len(arr))
		fr.regs[ci.dst] = &arr[i]
	case *ssa.Index:
		x := fr.get(&ci.ops[0])
		switch y := x.(type) {
		case Array:
			i := g.index(fr.get(&ci.ops[1]), in.Index.Type(), len(y))
			fr.regs[ci.dst] = copyVal(y[i])
		case string:
			i := g.index(fr.get(&ci.ops[1]), in.Index.Type(), len(y))
			fr.regs[ci.dst] = uint64(y[i])
		case *SymStr:
			i := g.index(fr.get(&ci.ops[1]), in.Index.Type(), len(y.b))
			fr.regs[ci.dst] = y.b[i]
		default:
			unsup("index of %T", x)
		}
	case *ssa.Lookup:
		x := fr.get(&ci.ops[0])
		k := fr.get(&ci.ops[1])
		switch y := x.(type) {
		case string:
			fr.regs[ci.dst] = uint64(y[g.index(k, in.Index.Type(), len(y))])
		case *SymStr:
			fr.regs[ci.dst] = y.b[g.index(k, in.Index.Type(), len(y.b))]
		case *MapV:
			e := p.mapGet(y, k)
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(under(in.X.Type()).(*types.Map).Elem())
			}
			if in.CommaOk {
				fr.regs[ci.dst] = Tuple{v, e != nil}
			} else {
				fr.regs[ci.dst] = v
			}
		default:
			unsup("lookup in %T", x)
		}
	case *ssa.MapUpdate:
		m, ok := fr.get(&ci.ops[0]).(*MapV)
		if !ok {
			unsup("map update of poison")
		}
		if m == nil {
			panic(targetPanic{v: Iface{T: p.eng.runtimeErrType, V: "assignment to entry in nil map"}, msg: "assignment to entry in nil map" + g.where()})
		}
		p.mapSet(m, fr.get(&ci.ops[1]), copyVal(fr.get(&ci.ops[2])))
	case *ssa.Alloc:
		c := new(Value)
		*c = zero(in.Type().(*types.Pointer).Elem())
		fr.regs[ci.dst] = c
	case *ssa.Call:
		fr.regs[ci.dst] = g.doCall(fr, &in.Call, ci.ops)
	case *ssa.Extract:
		t, ok := fr.get(&ci.ops[0]).(Tuple)
		if !ok {
			unsup("extract from %T", fr.get(&ci.ops[0]))
		}
		fr.regs[ci.dst] = t[in.Index]
	case *ssa.MakeInterface:
		v := fr.get(&ci.ops[0])
		fr.regs[ci.dst] = Iface{T: in.X.Type(), V: copyVal(v)}
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.ChangeType:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = g.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = g.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0]))
	case *ssa.MakeClosure:
		c := &Closure{Fn: in.Fn.(*ssa.Function)}
		for k := 1; k < len(ci.ops); k++ {
			c.Env = append(c.Env, fr.get(&ci.ops[k]))
		}
		fr.regs[ci.dst] = c
	case *ssa.MakeMap:
		fr.regs[ci.dst] = &MapV{idx: map[any]*MapEntry{}}
	case *ssa.MakeSlice:
		n := int(int64(p.Concretize(fr.get(&ci.ops[0]))))
		c := n
		if t, ok := fr.get(&ci.ops[1]).(uint64); ok {
			c = int(int64(t))
		}
		if n < 0 || c < n {
			g.panicStr("makeslice: len out of range")
		}
		if c > 1<<22 {
			unsup("huge slice")
		}
		el := under(in.Type()).(*types.Slice).Elem()
		s := make(Slice, n, c)
		for i := range s {
			s[i] = zero(el)
		}
		full := s[:c]
		for i := n; i < c; i++ {
			full[i] = zero(el)
		}
		fr.regs[ci.dst] = s
	case *ssa.MakeChan:
		fr.regs[ci.dst] = &ChanV{cap: int(p.Concretize(fr.get(&ci.ops[0])))}
	case *ssa.Slice:
		fr.regs[ci.dst] = g.slice(fr, in, ci)
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = g.typeAssert(in, fr.get(&ci.ops[0]))
	case *ssa.Range:
		fr.regs[ci.dst] = g.rangeIter(fr.get(&ci.ops[0]))
	case *ssa.Next:
		fr.regs[ci.dst] = g.next(fr.get(&ci.ops[0]).(*iterV), in)
	case *ssa.Defer:
		fn, args := g.prepCall(fr, &in.Call, ci.ops)
		fr.defers = append(fr.defers, deferred{fn: fn, args: args})
	case *ssa.RunDefers:
		g.runDefers(fr)
		if fr.panicking && !fr.recovered {
			pv := fr.panicv
			panic(pv)
		}
		fr.panicking = false
	case *ssa.Go:
		fn, args := g.prepCall(fr, &in.Call, ci.ops)
		p.spawn(func(ng *G) {
			ng.callValue(fn, args)
		})
	case *ssa.Send:
		g.send(fr.get(&ci.ops[0]).(*ChanV), copyVal(fr.get(&ci.ops[1])))
	case *ssa.Select:
		fr.regs[ci.dst] = g.selectStmt(fr, in, ci)
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).(Slice)
		n := int(in.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			g.panicStr("slice to array conversion")
		}
		if s == nil {
			fr.regs[ci.dst] = (*Value)(nil)
			break
		}
		c := new(Value)
		*c = Array(s[:n:n])
		fr.regs[ci.dst] = c
	default:
		unsup("instr %T", in)
	}
}

func (g *G) index(v Value, t types.Type, n int) int {
	w, signed, _ := intInfo(t)
	var i int64
	switch x := v.(type) {
	case uint64:
		if signed {
			i = sext(x, w)
		} else {
			i = int64(x)
		}
	case *Term:
		// out of range is a panic; decide that first
		inb := g.p.ctx.Ult(g.p.ctx.Zext(x, 64), g.p.ctx.Const(uint64(n), 64))
		if signed {
			inb = g.p.ctx.Ult(g.p.ctx.Sext(x, 64), g.p.ctx.Const(uint64(n), 64))
		}
		if !g.p.Branch(inb) {
			g.panicStr("index out of range")
		}
		i = int64(g.p.Concretize(x))
	default:
		unsup("index %T", v)
	}
	if i < 0 || i >= int64(n) {
		g.panicStr(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return int(i)
}

func (g *G) slice(fr *frame, in *ssa.Slice, ci *cinstr) Value {
	p := g.p
	x := fr.get(&ci.ops[0])
	geti := func(k int, v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		w, signed, _ := intInfo(v.Type())
		r := p.Concretize(fr.get(&ci.ops[k]))
		if signed {
			return int(sext(r, w))
		}
		return int(r)
	}
	// operand order: X, Low, High, Max (absent ones are nil operands)
	switch y := x.(type) {
	case string, *SymStr:
		n := strLen(y)
		lo := geti(1, in.Low, 0)
		hi := geti(2, in.High, n)
		if lo < 0 || hi < lo || hi > n {
			g.panicStr(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		if s, ok := y.(string); ok {
			return s[lo:hi]
		}
		return mkStr(y.(*SymStr).b[lo:hi])
	case Slice:
		c := cap(y)
		lo := geti(1, in.Low, 0)
		hi := geti(2, in.High, len(y))
		mx := geti(3, in.Max, c)
		if lo < 0 || hi < lo || hi > mx || mx > c {
			g.panicStr(fmt.Sprintf("slice bounds out of range [%d:%d:%d]", lo, hi, mx))
		}
		if y == nil {
			return Slice(nil)
		}
		return y[lo:hi:mx]
	case *Value:
		if y == nil {
			g.panicStr("nil array pointer")
		}
		a, ok := (*y).(Array)
		if !ok {
			unsup("slice of %T", *y)
		}
		lo := geti(1, in.Low, 0)
		hi := geti(2, in.High, len(a))
		mx := geti(3, in.Max, len(a))
		if lo < 0 || hi < lo || hi > mx || mx > len(a) {
			g.panicStr("slice bounds out of range")
		}
		return Slice(a[lo:hi:mx])
	}
	unsup("slice of %T", x)
	return nil
}

func (g *G) unop(fr *frame, in *ssa.UnOp, x Value) Value {
	p := g.p
	switch in.Op {
	case token.MUL:
		return copyVal(*deref(g, x))
	case token.NOT:
		if b, ok := x.(bool); ok {
			return !b
		}
		return p.norm(p.ctx.Not(p.term(x, 0)))
	case token.SUB:
		if f, ok := x.(float64); ok {
			return -f
		}
		w, _, _ := intInfo(in.X.Type())
		if u, ok := x.(uint64); ok {
			return (-u) & mask(w)
		}
		return p.norm(p.ctx.Bin(OBvSub, p.ctx.Const(0, w), p.term(x, w)))
	case token.XOR:
		w, _, _ := intInfo(in.X.Type())
		if u, ok := x.(uint64); ok {
			return (^u) & mask(w)
		}
		return p.norm(p.ctx.Bin(OBvXor, p.term(x, w), p.ctx.Const(mask(w), w)))
	case token.ARROW:
		ch, ok := x.(*ChanV)
		if !ok {
			unsup("recv on %T", x)
		}
		v, k := g.recv(ch, under(in.X.Type()).(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, k}
		}
		return v
	}
	unsup("unop %s", in.Op)
	return nil
}

func (g *G) binop(op token.Token, t types.Type, x, y Value, ty types.Type) Value {
	p := g.p
	switch op {
	case token.EQL:
		return p.norm(p.eq(t, x, y))
	case token.NEQ:
		return p.norm(p.ctx.Not(p.eq(t, x, y)))
	}
	if ps, ok := x.(*Poison); ok {
		unsup("poison operand: %s", ps.why)
	}
	if ps, ok := y.(*Poison); ok {
		unsup("poison operand: %s", ps.why)
	}
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			if s1, ok := x.(string); ok {
				if s2, ok := y.(string); ok {
					return s1 + s2
				}
			}
			a, b := strElems(x), strElems(y)
			out := make([]Value, 0, len(a)+len(b))
			out = append(append(out, a...), b...)
			return mkStr(out)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			c := p.seqCompare(strElems(x), strElems(y))
			switch op {
			case token.LSS:
				return c < 0
			case token.LEQ:
				return c <= 0
			case token.GTR:
				return c > 0
			default:
				return c >= 0
			}
		}
	}
	if f1, ok := x.(float64); ok {
		f2, ok := y.(float64)
		if !ok {
			unsup("floating-point arithmetic on unknown values")
		}
		switch op {
		case token.ADD:
			return f1 + f2
		case token.SUB:
			return f1 - f2
		case token.MUL:
			return f1 * f2
		case token.QUO:
			return f1 / f2
		case token.LSS:
			return f1 < f2
		case token.LEQ:
			return f1 <= f2
		case token.GTR:
			return f1 > f2
		case token.GEQ:
			return f1 >= f2
		}
	}
	w, signed, ok := intInfo(t)
	if !ok {
		if b, okb := under(t).(*types.Basic); okb && b.Info()&types.IsBoolean != 0 {
			a, b := p.term(x, 0), p.term(y, 0)
			switch op {
			case token.AND:
				return p.norm(p.ctx.And(a, b))
			case token.OR:
				return p.norm(p.ctx.Or(a, b))
			}
		}
		unsup("binop %s on %s (%T)", op, t, x)
	}
	ux, cx := x.(uint64)
	uy, cy := y.(uint64)
	if op == token.SHL || op == token.SHR {
		wy, sy, _ := intInfo(ty)
		if cy {
			if sy && sext(uy, wy) < 0 {
				g.panicStr("negative shift amount")
			}
			if cx {
				switch op {
				case token.SHL:
					return evalBin(OBvShl, ux, uy, w)
				default:
					if signed {
						return evalBin(OBvAshr, ux, uy, w)
					}
					return evalBin(OBvLshr, ux, uy, w)
				}
			}
		} else {
			uy = p.Concretize(y)
		}
		if uy > uint64(w) {
			uy = uint64(w)
		}
		a, b := p.term(x, w), p.ctx.Const(uy, w)
		if uy >= uint64(w) && (op == token.SHL || !signed) {
			return uint64(0)
		}
		if op == token.SHL {
			return p.norm(p.ctx.Bin(OBvShl, a, b))
		}
		if signed {
			return p.norm(p.ctx.Bin(OBvAshr, a, b))
		}
		return p.norm(p.ctx.Bin(OBvLshr, a, b))
	}
	if op == token.QUO || op == token.REM {
		if cy && uy == 0 {
			g.panicStr("integer divide by zero")
		}
		if !cy {
			if p.Branch(p.ctx.Eq(p.term(y, w), p.ctx.Const(0, w))) {
				g.panicStr("integer divide by zero")
			}
		}
	}
	var o Op
	switch op {
	case token.ADD:
		o = OBvAdd
	case token.SUB:
		o = OBvSub
	case token.MUL:
		o = OBvMul
	case token.QUO:
		o = OBvUdiv
		if signed {
			o = OBvSdiv
		}
	case token.REM:
		o = OBvUrem
		if signed {
			o = OBvSrem
		}
	case token.AND:
		o = OBvAnd
	case token.OR:
		o = OBvOr
	case token.XOR:
		o = OBvXor
	case token.AND_NOT:
		if cy {
			uy = ^uy & mask(w)
			y = uy
		} else {
			y = p.ctx.Bin(OBvXor, p.term(y, w), p.ctx.Const(mask(w), w))
		}
		o = OBvAnd
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if cx && cy {
			var lt, eq bool
			if signed {
				lt = sext(ux, w) < sext(uy, w)
			} else {
				lt = ux < uy
			}
			eq = ux == uy
			switch op {
			case token.LSS:
				return lt
			case token.LEQ:
				return lt || eq
			case token.GTR:
				return !lt && !eq
			default:
				return !lt
			}
		}
		a, b := p.term(x, w), p.term(y, w)
		lt := p.ctx.Ult
		if signed {
			lt = p.ctx.Slt
		}
		switch op {
		case token.LSS:
			return p.norm(lt(a, b))
		case token.LEQ:
			return p.norm(p.ctx.Not(lt(b, a)))
		case token.GTR:
			return p.norm(lt(b, a))
		default:
			return p.norm(p.ctx.Not(lt(a, b)))
		}
	default:
		unsup("binop %s", op)
	}
	if cx && cy {
		return evalBin(o, ux, uy, w)
	}
	return p.norm(p.ctx.Bin(o, p.term(x, w), p.term(y, w)))
}

func (g *G) convert(from, to types.Type, v Value) Value {
	p := g.p
	if ps, ok := v.(*Poison); ok {
		unsup("poison convert: %s", ps.why)
	}
	fu, tu := under(from), under(to)
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Info()&types.IsString != 0 {
			if fb, ok := fu.(*types.Basic); ok {
				if fb.Info()&types.IsString != 0 {
					return v
				}
				if fb.Info()&types.IsInteger != 0 {
					w, s, _ := intInfo(from)
					c := p.Concretize(v)
					if s {
						return string(rune(sext(c, w)))
					}
					return string(rune(c))
				}
			}
			if fs, ok := fu.(*types.Slice); ok {
				if w, _, _ := intInfo(fs.Elem()); w == 8 {
					s := v.(Slice)
					b := make([]Value, len(s))
					copy(b, s)
					return mkStr(b)
				}
				// []rune
				var sb strings.Builder
				for _, e := range v.(Slice) {
					sb.WriteRune(rune(sext(p.Concretize(e), 32)))
				}
				return sb.String()
			}
		}
		if tb.Info()&types.IsInteger != 0 {
			wt, _, _ := intInfo(to)
			if f, ok := v.(float64); ok {
				return uint64(int64(f)) & mask(wt)
			}
			if wf, sf, ok := intInfo(from); ok {
				switch x := v.(type) {
				case uint64:
					if sf {
						return uint64(sext(x, wf)) & mask(wt)
					}
					return x & mask(wt)
				case *Term:
					if wt <= wf {
						return p.norm(p.ctx.Extract(x, wt))
					}
					if sf {
						return p.norm(p.ctx.Sext(x, wt))
					}
					return p.norm(p.ctx.Zext(x, wt))
				case *BlkByte:
					if wt == 8 {
						return x
					}
					return p.ctx.Zext(p.blkByteTerm(x), wt)
				}
			}
		}
		if tb.Info()&types.IsFloat != 0 {
			switch x := v.(type) {
			case float64:
				if tb.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			case uint64:
				w, s, _ := intInfo(from)
				if s {
					return float64(sext(x, w))
				}
				return float64(x)
			}
			unsup("conversion of an unknown value to floating point")
		}
		if tb.Kind() == types.UnsafePointer {
			return v
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			if w, _, _ := intInfo(ts.Elem()); w == 8 {
				es := strElems(v)
				s := make(Slice, len(es))
				copy(s, es)
				return s
			}
			// []rune(string)
			it := &iterV{str: strElems(v)}
			s := Slice{}
			for {
				r, w := g.decodeRune(it.str[it.pos:])
				if w == 0 {
					break
				}
				it.pos += w
				s = append(s, r)
			}
			return s
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		if fb, ok := fu.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
			return v
		}
		if _, ok := fu.(*types.Pointer); ok {
			return v
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	unsup("convert %s -> %s", from, to)
	return nil
}

type iterV struct {
	str   []Value
	pos   int
	m     *MapV
	keys  []*MapEntry
	isStr bool
}

func (g *G) rangeIter(x Value) Value {
	switch y := x.(type) {
	case string, *SymStr:
		return &iterV{str: strElems(y), isStr: true}
	case *MapV:
		it := &iterV{m: y}
		if y != nil {
			for _, e := range y.entries {
				if !e.dead {
					it.keys = append(it.keys, e)
				}
			}
		}
		if g.p.mapPerm && len(it.keys) > 1 {
			// any order: pick the permutation
			rest := it.keys
			var out []*MapEntry
			for len(rest) > 0 {
				k := g.p.Choose(len(rest))
				out = append(out, rest[k])
				nr := append([]*MapEntry{}, rest[:k]...)
				rest = append(nr, rest[k+1:]...)
			}
			it.keys = out
		}
		return it
	}
	unsup("range over %T", x)
	return nil
}

func (g *G) next(it *iterV, in *ssa.Next) Value {
	if it.isStr {
		if it.pos >= len(it.str) {
			return Tuple{false, uint64(0), uint64(0)}
		}
		pos := it.pos
		r, w := g.decodeRune(it.str[it.pos:])
		it.pos += w
		return Tuple{true, uint64(pos), r}
	}
	for it.pos < len(it.keys) {
		e := it.keys[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		return Tuple{true, e.k, copyVal(e.v)}
	}
	tt := in.Type().(*types.Tuple)
	z := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return zero(t)
	}
	return Tuple{false, z(tt.At(1).Type()), z(tt.At(2).Type())}
}

// decodeRune decodes the first rune of b, forking on encoding class. Width 0 at the end.
func (g *G) decodeRune(b []Value) (Value, int) {
	p := g.p
	c := p.ctx
	if len(b) == 0 {
		return uint64(0xFFFD), 0
	}
	conc := true
	n := len(b)
	if n > 4 {
		n = 4
	}
	bs := make([]byte, n)
	for i := 0; i < n; i++ {
		u, ok := b[i].(uint64)
		if !ok {
			conc = false
			break
		}
		bs[i] = byte(u)
	}
	if conc {
		r, w := decodeRuneConc(bs)
		return uint64(uint32(r)), w
	}
	in := func(i int, lo, hi uint64) *Term {
		t := p.term(b[i], 8)
		return c.And(c.Ule(c.Const(lo, 8), t), c.Ule(t, c.Const(hi, 8)))
	}
	z := func(i int) *Term { return c.Zext(p.term(b[i], 8), 32) }
	bad := func() (Value, int) { return uint64(0xFFFD), 1 }
	if p.Branch(in(0, 0, 0x7f)) {
		return p.norm(z(0)), 1
	}
	low6 := func(i int) *Term { return c.Bin(OBvAnd, z(i), c.Const(0x3f, 32)) }
	shl := func(t *Term, k uint64) *Term { return c.Bin(OBvShl, t, c.Const(k, 32)) }
	or := func(ts ...*Term) *Term {
		r := ts[0]
		for _, t := range ts[1:] {
			r = c.Bin(OBvOr, r, t)
		}
		return r
	}
	if p.Branch(in(0, 0xC2, 0xDF)) {
		if len(b) < 2 || !p.Branch(in(1, 0x80, 0xBF)) {
			return bad()
		}
		return p.norm(or(shl(c.Bin(OBvAnd, z(0), c.Const(0x1f, 32)), 6), low6(1))), 2
	}
	if p.Branch(in(0, 0xE0, 0xEF)) {
		if len(b) < 2 {
			return bad()
		}
		e0 := c.Eq(p.term(b[0], 8), c.Const(0xE0, 8))
		ed := c.Eq(p.term(b[0], 8), c.Const(0xED, 8))
		ok1 := c.Or(c.And(e0, in(1, 0xA0, 0xBF)), c.And(ed, in(1, 0x80, 0x9F)), c.And(c.Not(e0), c.Not(ed), in(1, 0x80, 0xBF)))
		if !p.Branch(ok1) || len(b) < 3 || !p.Branch(in(2, 0x80, 0xBF)) {
			return bad()
		}
		return p.norm(or(shl(c.Bin(OBvAnd, z(0), c.Const(0xf, 32)), 12), shl(low6(1), 6), low6(2))), 3
	}
	if p.Branch(in(0, 0xF0, 0xF4)) {
		if len(b) < 2 {
			return bad()
		}
		f0 := c.Eq(p.term(b[0], 8), c.Const(0xF0, 8))
		f4 := c.Eq(p.term(b[0], 8), c.Const(0xF4, 8))
		ok1 := c.Or(c.And(f0, in(1, 0x90, 0xBF)), c.And(f4, in(1, 0x80, 0x8F)), c.And(c.Not(f0), c.Not(f4), in(1, 0x80, 0xBF)))
		if !p.Branch(ok1) || len(b) < 3 || !p.Branch(in(2, 0x80, 0xBF)) || len(b) < 4 || !p.Branch(in(3, 0x80, 0xBF)) {
			return bad()
		}
		return p.norm(or(shl(c.Bin(OBvAnd, z(0), c.Const(7, 32)), 18), shl(low6(1), 12), shl(low6(2), 6), low6(3))), 4
	}
	return bad()
}

var _ = math.Abs
