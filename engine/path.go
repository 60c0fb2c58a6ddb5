package main

// Path: one symbolic execution of a harness along a decision prefix.

import (
	"fmt"
	"go/types"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Decision kinds: branch taken on a symbolic condition, or an n-ary choice.
type Decision struct {
	D int    // 0/1 chosen branch, 2/3 forced branch, or the alternative of a choice
	V uint64 // value used by a concretisation
}

type WorkItem struct {
	prefix []Decision
	model  map[string]uint64
}

type inputRec struct {
	Name string
	Kind string // int | bool | str | choice
	val  Value
	min  int
}

type obsRec struct {
	name string
	v    Value
}

type Worker struct {
	id      int
	eng     *Engine
	ctx     *TermCtx
	solver  *Solver
	methods map[methodKey]*ssa.Function
	stdGlob map[*ssa.Global]*Value
	stdInit map[*ssa.Package]int
	fncalls map[*ssa.Function]int
	impl    map[implKey]bool
	finfo   map[*ssa.Function]*fnInfo
}

type methodKey struct {
	t types.Type
	m string
}
type implKey struct{ t, i types.Type }

type Path struct {
	w        *Worker
	eng      *Engine
	ctx      *TermCtx
	prefix   []Decision
	dec      []Decision
	pc       []*Term
	pcset    map[int]bool
	dom      map[int][]uint64
	model    map[int]uint64
	seed     map[string]uint64
	steps    int
	maxSteps int
	forks    int
	globals  map[*ssa.Global]*Value
	initSt   map[*ssa.Package]int
	inputs   []*inputRec
	names    map[string]int
	obs      []obsRec
	reached  map[string]bool
	asserts  int
	blocks   []*Block
	blkTab   map[string]*Block
	sync     map[*Value]*syncState
	side     map[any]any
	gs       []*G
	cur      *G
	dead     chan struct{}
	finished chan any
	once     sync.Once
	threads  []*threadState
	truncs   []string
	mapPerm  bool
	symSched bool
	hashFork bool
	clock    []*Term
	touched  map[*Value]bool
	newItems []WorkItem
	unknown  int
}

type G struct {
	p           *Path
	id          int
	resume      chan struct{}
	ready       func() bool // nil = runnable
	done        bool
	depth       int
	stack       []*ssa.Function
	deferFrames []deferCtx
}

func (p *Path) term(v Value, w int) *Term {
	switch x := v.(type) {
	case uint64:
		return p.ctx.Const(x, w)
	case bool:
		return p.ctx.Bool(x)
	case *Term:
		return x
	case *BlkByte:
		return p.blkByteTerm(x)
	case *Poison:
		unsup("poison: %s", x.why)
	}
	panic(fmt.Sprintf("term of %T", v))
}

func (p *Path) blkByteTerm(x *BlkByte) *Term {
	return p.ctx.Var(fmt.Sprintf("blk!%d!%s!%d", x.b.id, x.b.kind, x.i), 8)
}

func (p *Path) norm(t *Term) Value {
	switch t.Op {
	case OConst:
		return t.Val
	case OTrue:
		return true
	case OFalse:
		return false
	}
	return t
}

func (p *Path) newVar(name string, w int, lo, hi uint64) *Term {
	full := fmt.Sprintf("%s:%d", name, w)
	if lo != 0 || hi != mask(w) {
		full = fmt.Sprintf("%s@%d-%d", name, lo, hi)
	}
	t := p.ctx.Var(full, w)
	if lo != 0 || hi < mask(w) {
		p.ctx.bounds[t.ID] = [2]uint64{lo, hi}
	}
	if v, ok := p.seed[full]; ok {
		p.model[t.ID] = v
	} else if _, ok := p.model[t.ID]; !ok {
		p.model[t.ID] = lo
	}
	return t
}

func (p *Path) addLit(c *Term) {
	if p.pcset[c.ID] {
		return
	}
	if c.Op == OAnd {
		for _, a := range c.Args {
			p.addLit(a)
		}
		p.pcset[c.ID] = true
		return
	}
	p.pcset[c.ID] = true
	p.pc = append(p.pc, c)
	p.narrow(c)
}

// narrow keeps, of a variable with a small domain, the values that satisfy the one-variable literal c.
func (p *Path) narrow(c *Term) {
	if len(c.vars) != 1 {
		return
	}
	v := c.vars[0]
	d, ok := p.dom[v]
	if !ok {
		b, has := p.ctx.bounds[v]
		if !has {
			if p.ctx.all[v].W != 8 {
				return
			}
			b = [2]uint64{0, 255}
		}
		if b[1]-b[0] > 255 {
			return
		}
		for x := b[0]; x <= b[1]; x++ {
			d = append(d, x)
		}
	}
	m := map[int]uint64{}
	var out []uint64
	for _, x := range d {
		m[v] = x
		if p.ctx.Eval(c, m) == 1 {
			out = append(out, x)
		}
	}
	p.dom[v] = out
}

// byDomain decides a one-variable term from the values its variable can still take.
func (p *Path) byDomain(c *Term) int8 {
	if len(c.vars) != 1 {
		return 0
	}
	d, ok := p.dom[c.vars[0]]
	if !ok || len(d) == 0 || len(d) > 16 {
		return 0
	}
	m := map[int]uint64{}
	var first uint64
	for i, x := range d {
		m[c.vars[0]] = x
		r := p.ctx.Eval(c, m)
		if i == 0 {
			first = r
		} else if r != first {
			return 0
		}
	}
	if first == 1 {
		return 1
	}
	return -1
}

// known decides c from the path condition by propositional lookup alone.
func (p *Path) known(c *Term) (bool, bool) {
	var memo map[int]int8
	if c.Op == OAnd || c.Op == OOr {
		memo = map[int]int8{}
	}
	switch p.lookup(c, memo) {
	case 1:
		return true, true
	case -1:
		return false, true
	}
	return false, false
}

// simp replaces a term the path condition decides by its value.
func (p *Path) simp(c *Term) *Term {
	if len(c.Args) > 8 {
		return c
	}
	switch p.lookup(c, nil) {
	case 1:
		return p.ctx.True
	case -1:
		return p.ctx.False
	}
	return c
}

func (p *Path) lookup(c *Term, memo map[int]int8) (out int8) {
	switch c.Op {
	case OTrue:
		return 1
	case OFalse:
		return -1
	case ONot:
		if p.pcset[c.ID] {
			return 1
		}
		return -p.lookup(c.Args[0], memo)
	}
	if p.pcset[c.ID] {
		return 1
	}
	if c.neg != nil && p.pcset[c.neg.ID] {
		return -1
	}
	if v := p.byDomain(c); v != 0 {
		return v
	}
	if c.Op != OAnd && c.Op != OOr {
		return 0
	}
	if memo == nil {
		memo = map[int]int8{}
	}
	if v, ok := memo[c.ID]; ok {
		return v
	}
	zero := int8(-1)
	if c.Op == OOr {
		zero = 1
	}
	out = -zero
	for _, a := range c.Args {
		v := p.lookup(a, memo)
		if v == zero {
			out = zero
			break
		}
		if v == 0 {
			out = 0
		}
	}
	memo[c.ID] = out
	return out
}

func (p *Path) modelNames(over map[int]uint64) map[string]uint64 {
	m := make(map[string]uint64, len(p.model))
	for id, v := range p.model {
		m[p.ctx.all[id].Name] = v
	}
	for id, v := range over {
		m[p.ctx.all[id].Name] = v
	}
	return m
}

func (p *Path) push(d Decision, over map[int]uint64) {
	pre := make([]Decision, len(p.dec)+1)
	copy(pre, p.dec)
	pre[len(p.dec)] = d
	p.forks++
	if len(p.dec) > p.eng.opt.MaxDecisions {
		p.truncs = append(p.truncs, "decision bound")
		return
	}
	p.eng.push(WorkItem{pre, p.modelNames(over)})
}

// Branch decides a condition, forking when both sides are feasible.
func (p *Path) Branch(c *Term) bool { return p.branchV(c, 0) }

func (p *Path) branchV(c *Term, v uint64) bool {
	if r, k := p.known(c); k {
		return r
	}
	nc := p.ctx.Not(c)
	if len(p.dec) < len(p.prefix) {
		d := p.prefix[len(p.dec)]
		p.dec = append(p.dec, d)
		switch d.D {
		case 1:
			p.addLit(c)
			return true
		case 0:
			p.addLit(nc)
			return false
		case 3:
			p.pcset[c.ID] = true
			p.narrow(c)
			return true
		case 2:
			p.pcset[nc.ID] = true
			p.narrow(nc)
			return false
		}
		panic(fmt.Sprintf("non-deterministic replay: branch decision %v", d))
	}
	side := p.ctx.Eval(c, p.model) == 1
	other := nc
	if !side {
		other = c
	}
	res, m := p.w.solver.Check(p.pc, other)
	take := Decision{D: int(b2u(side)), V: v}
	oth := Decision{D: int(b2u(!side)), V: v}
	switch res {
	case 1:
		p.push(oth, m)
	case 0:
		take.D += 2
	default:
		p.unknown++
		p.truncs = append(p.truncs, "solver unknown")
	}
	p.dec = append(p.dec, take)
	if take.D >= 2 {
		if side {
			p.pcset[c.ID] = true
			p.narrow(c)
		} else {
			p.pcset[nc.ID] = true
			p.narrow(nc)
		}
	} else if side {
		p.addLit(c)
	} else {
		p.addLit(nc)
	}
	return side
}

func (p *Path) Cond(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return p.Branch(x)
	case *Poison:
		unsup("poison condition: %s", x.why)
	}
	panic(fmt.Sprintf("Cond %T", v))
}

// Choose forks over n alternatives.
func (p *Path) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if len(p.dec) < len(p.prefix) {
		d := p.prefix[len(p.dec)]
		p.dec = append(p.dec, d)
		if d.D >= n {
			panic("non-deterministic replay: choice")
		}
		return d.D
	}
	for i := n - 1; i >= 1; i-- {
		p.push(Decision{D: i}, nil)
	}
	p.dec = append(p.dec, Decision{D: 0})
	return 0
}

// Concretize forks over the feasible values of t.
func (p *Path) Concretize(v Value) uint64 {
	t, ok := v.(*Term)
	if !ok {
		switch x := v.(type) {
		case uint64:
			return x
		case *BlkByte:
			unsup("concretize digest byte")
		case *Poison:
			unsup("poison: %s", x.why)
		}
		panic(fmt.Sprintf("Concretize %T", v))
	}
	for i := 0; ; i++ {
		if i > 300 {
			panic(abortPath{abLimit, "concretize"})
		}
		mv := p.ctx.Eval(t, p.model)
		if r, k := p.known(p.ctx.Eq(t, p.ctx.Const(mv, t.W))); k && r {
			return mv
		}
		val := mv
		if len(p.dec) < len(p.prefix) {
			val = p.prefix[len(p.dec)].V
		}
		if p.branchV(p.ctx.Eq(t, p.ctx.Const(val, t.W)), val) {
			return val
		}
	}
}

func (p *Path) Assume(v Value) {
	c := p.term(v, 0)
	if r, k := p.known(c); k {
		if r {
			return
		}
		panic(abortPath{abInfeasible, "assume"})
	}
	if p.ctx.Eval(c, p.model) == 1 {
		p.addLit(c)
		return
	}
	if len(p.dec) < len(p.prefix) {
		// the model satisfies the whole prefix; reaching here means it was asked for before its variables existed
		p.addLit(c)
		p.refresh()
		return
	}
	res, m := p.w.solver.Check(p.pc, c)
	switch res {
	case 1:
		for k, v := range m {
			p.model[k] = v
		}
		p.addLit(c)
	case 0:
		panic(abortPath{abInfeasible, "assume"})
	default:
		p.unknown++
		panic(abortPath{abLimit, "solver unknown in assume"})
	}
}

func (p *Path) refresh() {
	res, m := p.w.solver.Check(p.pc, nil)
	if res != 1 {
		panic(abortPath{abInfeasible, "refresh"})
	}
	for k, v := range m {
		p.model[k] = v
		p.seed[p.ctx.all[k].Name] = v
	}
}

// Assert records a violation if the negation is satisfiable.
func (p *Path) Assert(v Value, msg string) {
	p.asserts++
	c := p.term(v, 0)
	if r, k := p.known(c); k && r {
		return
	} else if k && !r {
		p.eng.candidate(p, msg, nil)
		panic(abortPath{abViolation, msg})
	}
	nc := p.ctx.Not(c)
	if p.ctx.Eval(c, p.model) == 0 {
		p.eng.candidate(p, msg, nc)
	} else {
		res, m := p.w.solver.Check(p.pc, nc)
		switch res {
		case 1:
			save := p.model
			nm := map[int]uint64{}
			for k, v := range save {
				nm[k] = v
			}
			for k, v := range m {
				nm[k] = v
			}
			p.model = nm
			p.eng.candidate(p, msg, nc)
			p.model = save
		case 2:
			p.unknown++
			p.truncs = append(p.truncs, "solver unknown in assert")
		}
	}
	// continue on the satisfying side
	if p.ctx.Eval(c, p.model) == 0 {
		res, m := p.w.solver.Check(p.pc, c)
		if res != 1 {
			panic(abortPath{abViolation, msg})
		}
		for k, v := range m {
			p.model[k] = v
		}
	}
	p.addLit(c)
}

// ---- goroutines ----

func (p *Path) spawn(f func(g *G)) *G {
	g := &G{p: p, id: len(p.gs), resume: make(chan struct{}, 1)}
	p.gs = append(p.gs, g)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				p.finish(r)
			}
		}()
		g.wait()
		f(g)
		g.done = true
		if g.id == 0 {
			p.finish(nil)
			return
		}
		g.yieldTo(false)
	}()
	return g
}

func (p *Path) finish(r any) {
	p.once.Do(func() {
		switch r.(type) {
		case abortPath, targetPanic, nil:
		default:
			r = internalError{r, string(debug.Stack())}
		}
		p.finished <- r
		close(p.dead)
	})
}

type internalError struct {
	r     any
	stack string
}

func (g *G) wait() {
	select {
	case <-g.resume:
		g.p.cur = g
	case <-g.p.dead:
		runtime.Goexit()
	}
}

// yieldTo passes the baton to another runnable goroutine. If wait, the caller is parked until resumed.
func (g *G) yieldTo(wait bool) {
	p := g.p
	var run []*G
	n := len(p.gs)
	for i := 1; i <= n; i++ {
		x := p.gs[(g.id+i)%n]
		if x.done {
			continue
		}
		if x.ready == nil || x.ready() {
			run = append(run, x)
		}
	}
	if len(run) == 0 {
		panic(abortPath{abDeadlock, "all goroutines are blocked" + g.where()})
	}
	k := 0
	if p.symSched && len(run) > 1 {
		k = p.Choose(len(run))
	}
	x := run[k]
	x.ready = nil
	if x == g {
		p.cur = g
		return
	}
	x.resume <- struct{}{}
	if wait {
		g.wait()
	}
}

func (g *G) block(ready func() bool) {
	if ready() {
		return
	}
	g.ready = ready
	g.yieldTo(true)
}

func (g *G) where() string {
	n := len(g.stack)
	var s []string
	for i := n - 1; i >= 0 && i > n-6; i-- {
		s = append(s, g.stack[i].String())
	}
	return " at " + strings.Join(s, " < ")
}

// inputs rendered under the current model
func (p *Path) inputValues() map[string]any {
	out := map[string]any{}
	for _, in := range p.inputs {
		out[in.Name] = p.concreteJSON(in)
	}
	return out
}

func (p *Path) concreteJSON(in *inputRec) any {
	switch in.Kind {
	case "int", "choice":
		switch v := in.val.(type) {
		case uint64:
			return int64(v)
		case *Term:
			return sext(p.ctx.Eval(v, p.model), v.W)
		}
	case "bool":
		switch v := in.val.(type) {
		case bool:
			return v
		case *Term:
			return p.ctx.Eval(v, p.model) == 1
		}
	case "str":
		es := strElems(in.val)
		b := make([]byte, len(es))
		for i, e := range es {
			switch v := e.(type) {
			case uint64:
				b[i] = byte(v)
			case *Term:
				b[i] = byte(p.ctx.Eval(v, p.model))
			}
		}
		return fmt.Sprintf("%x", b)
	}
	return nil
}

func (p *Path) obsValues() []string {
	var out []string
	for _, o := range p.obs {
		out = append(out, o.name+"="+p.obsString(o.v))
	}
	return out
}

func (p *Path) obsString(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.T == nil {
			return "nil"
		}
		return p.obsTyped(x.T, x.V)
	}
	return "?"
}

func (p *Path) obsTyped(t types.Type, v Value) string {
	switch x := v.(type) {
	case bool:
		return fmt.Sprintf("%v", x)
	case uint64:
		w, s, _ := intInfo(t)
		if s {
			return fmt.Sprintf("%d", sext(x, w))
		}
		return fmt.Sprintf("%d", x)
	case *Term:
		r := p.ctx.Eval(x, p.model)
		if x.W == 0 {
			return fmt.Sprintf("%v", r == 1)
		}
		_, s, _ := intInfo(t)
		if s {
			return fmt.Sprintf("%d", sext(r, x.W))
		}
		return fmt.Sprintf("%d", r)
	case string, *SymStr:
		es := strElems(v)
		b := make([]byte, len(es))
		for i, e := range es {
			switch y := e.(type) {
			case uint64:
				b[i] = byte(y)
			case *Term:
				b[i] = byte(p.ctx.Eval(y, p.model))
			case *BlkByte:
				return "?opaque"
			}
		}
		return fmt.Sprintf("%x", b)
	}
	return "?"
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
