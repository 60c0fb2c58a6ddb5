package main

// Exploration of one harness: a shared worklist of decision prefixes, one solver per worker.

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Options struct {
	Thorough     bool
	Params       map[string]int
	MaxDecisions int
	MaxDepth     int
	MaxSteps     int
	Workers      int
	Budget       time.Duration
	Seed         int64
	Z3           string
	CrossEvery   int
	MaxSamples   int
	Verbose      bool
}

type Sample struct {
	Inputs  map[string]any `json:"inputs"`
	Obs     []string       `json:"obs"`
	Reached []string       `json:"reached"`
}

type Confirmed struct {
	Msg     string         `json:"msg"`
	Inputs  map[string]any `json:"inputs"`
	Native  string         `json:"native"`
	Finding string         `json:"finding,omitempty"`
}

type Engine struct {
	opt            Options
	l              *Loaded
	harness        *ssa.Function
	name           string
	runtimeErrType types.Type
	native         *Native

	mu     sync.Mutex
	cond   *sync.Cond
	work   []WorkItem
	active int
	stop   bool
	start  time.Time

	stats     SolverStats
	paths     int64
	completed int64
	infeas    int64
	asserts   int64
	forks     int64
	decisions int64
	steps     int64
	unsup     map[string]int
	limits    map[string]int
	internal  []string
	truncs    map[string]int
	reached   map[string]int
	params    map[string]int64
	samples   []Sample
	nsample   int
	fncalls   map[*ssa.Function]int
	confirmed []Confirmed
	findings  map[string]Confirmed
	spurious  map[string]int
	spurInp   []string
	tries     map[string]int
	timedOut  bool
	rng       *rand.Rand
	crossMu   sync.Mutex
	crossQ    []crossItem
	nq        int64
	knownIDs  map[string]bool
}

type crossItem struct{ script, res string }

func NewEngine(l *Loaded, name string, nat *Native, opt Options) (*Engine, error) {
	hp := l.Pkgs[modPath+"/internal/zzharness"]
	f := hp.Func(name)
	if f == nil {
		return nil, fmt.Errorf("no harness %s", name)
	}
	rt := l.Pkgs[vxPath].Type("RuntimeError")
	e := &Engine{opt: opt, l: l, harness: f, name: name, native: nat, runtimeErrType: rt.Type(),
		unsup: map[string]int{}, limits: map[string]int{}, truncs: map[string]int{}, reached: map[string]int{}, params: map[string]int64{},
		fncalls: map[*ssa.Function]int{}, findings: map[string]Confirmed{}, spurious: map[string]int{}, tries: map[string]int{},
		rng: rand.New(rand.NewSource(opt.Seed)), knownIDs: map[string]bool{}}
	e.cond = sync.NewCond(&e.mu)
	return e, nil
}

func (e *Engine) noteParam(n string, v int64) {
	e.mu.Lock()
	e.params[n] = v
	e.mu.Unlock()
}

func (e *Engine) push(w WorkItem) {
	e.mu.Lock()
	if !e.stop {
		e.work = append(e.work, w)
		e.cond.Signal()
	}
	e.mu.Unlock()
}

func (e *Engine) pop() (WorkItem, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return WorkItem{}, false
		}
		if n := len(e.work); n > 0 {
			i := n - 1
			if e.rng.Intn(4) == 0 {
				i = e.rng.Intn(n)
			}
			w := e.work[i]
			e.work[i] = e.work[n-1]
			e.work[n-1] = WorkItem{}
			e.work = e.work[:n-1]
			e.active++
			return w, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return WorkItem{}, false
		}
		e.cond.Wait()
	}
}

func (e *Engine) done() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && len(e.work) == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Engine) halt() {
	e.mu.Lock()
	e.stop = true
	e.cond.Broadcast()
	e.mu.Unlock()
}

func (e *Engine) Run() {
	e.start = time.Now()
	e.push(WorkItem{})
	timer := time.AfterFunc(e.opt.Budget, func() {
		e.mu.Lock()
		if len(e.work) > 0 || e.active > 0 {
			e.timedOut = true
		}
		e.stop = true
		e.cond.Broadcast()
		e.mu.Unlock()
	})
	defer timer.Stop()
	var wg sync.WaitGroup
	for i := 0; i < e.opt.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := e.newWorker(i)
			defer func() { w.solver.stop() }()
			for {
				it, ok := e.pop()
				if !ok {
					break
				}
				e.runPath(w, it)
				e.done()
				if len(w.ctx.all) > 1200000 {
					w.solver.stop()
					fc := w.fncalls
					w = e.newWorker(i)
					w.fncalls = fc
				}
			}
			e.mu.Lock()
			for f, n := range w.fncalls {
				e.fncalls[f] += n
			}
			e.mu.Unlock()
		}(i)
	}
	wg.Wait()
}

func (e *Engine) newWorker(i int) *Worker {
	ctx := NewTermCtx()
	w := &Worker{id: i, eng: e, ctx: ctx, solver: NewSolver(ctx, e.opt.Z3, &e.stats), methods: map[methodKey]*ssa.Function{},
		stdGlob: map[*ssa.Global]*Value{}, stdInit: map[*ssa.Package]int{}, fncalls: map[*ssa.Function]int{}, impl: map[implKey]bool{}, finfo: map[*ssa.Function]*fnInfo{}}
	if e.opt.CrossEvery > 0 {
		w.solver.sample = func(q, r string) {
			n := atomic.AddInt64(&e.nq, 1)
			if n%int64(e.opt.CrossEvery) == 0 {
				e.crossMu.Lock()
				if len(e.crossQ) < 60 {
					e.crossQ = append(e.crossQ, crossItem{q, r})
				}
				e.crossMu.Unlock()
			}
		}
	}
	return w
}

func (e *Engine) runPath(w *Worker, it WorkItem) {
	p := &Path{w: w, eng: e, ctx: w.ctx, prefix: it.prefix, pcset: map[int]bool{}, dom: map[int][]uint64{}, model: map[int]uint64{}, seed: it.model,
		globals: map[*ssa.Global]*Value{}, initSt: map[*ssa.Package]int{}, names: map[string]int{}, reached: map[string]bool{},
		blkTab: map[string]*Block{}, sync: map[*Value]*syncState{}, side: map[any]any{}, dead: make(chan struct{}), finished: make(chan any, 1),
		maxSteps: e.opt.MaxSteps, touched: map[*Value]bool{}}
	if p.seed == nil {
		p.seed = map[string]uint64{}
	}
	g := p.spawn(func(g *G) { g.call(e.harness, nil, nil) })
	p.cur = g
	g.resume <- struct{}{}
	r := <-p.finished
	atomic.AddInt64(&e.paths, 1)
	atomic.AddInt64(&e.asserts, int64(p.asserts))
	atomic.AddInt64(&e.forks, int64(p.forks))
	atomic.AddInt64(&e.decisions, int64(len(p.dec)))
	atomic.AddInt64(&e.steps, int64(p.steps))
	status := "ok"
	switch x := r.(type) {
	case nil:
	case targetPanic:
		status = "panic"
		e.candidate(p, "uncaught panic: "+x.msg, nil)
	case abortPath:
		switch x.kind {
		case abInfeasible:
			status = "infeasible"
		case abUnsupported:
			status = "unsupported"
		case abViolation:
			status = "violation"
		case abLimit:
			status = "limit"
			if strings.HasPrefix(x.msg, "step bound") || strings.HasPrefix(x.msg, "recursion depth") {
				e.candidate(p, "does not terminate within the step bound: "+x.msg, nil)
			}
		case abDeadlock:
			status = "deadlock"
			e.candidate(p, "deadlock: "+x.msg, nil)
		case abStop:
		}
		if status == "unsupported" || status == "limit" {
			e.mu.Lock()
			m := e.unsup
			if status == "limit" {
				m = e.limits
			}
			m[trunc(x.msg, 300)]++
			e.mu.Unlock()
		}
	case internalError:
		status = "internal"
		e.mu.Lock()
		if len(e.internal) < 5 {
			e.internal = append(e.internal, fmt.Sprintf("%v\n%s", x.r, trunc(x.stack, 3000)))
		}
		e.mu.Unlock()
		if e.opt.Verbose {
			fmt.Fprintf(os.Stderr, "INTERNAL %v\n%s\n", x.r, trunc(x.stack, 4000))
		}
	}
	if status == "infeasible" {
		atomic.AddInt64(&e.infeas, 1)
		return
	}
	e.mu.Lock()
	for _, t := range p.truncs {
		e.truncs[t]++
	}
	e.mu.Unlock()
	if status != "ok" {
		return
	}
	n := atomic.AddInt64(&e.completed, 1)
	e.mu.Lock()
	defer e.mu.Unlock()
	for k := range p.reached {
		e.reached[k]++
	}
	// reservoir of path models, replayed against the real build afterwards
	if e.opt.MaxSamples > 0 {
		k := -1
		if len(e.samples) < e.opt.MaxSamples {
			k = len(e.samples)
			e.samples = append(e.samples, Sample{})
		} else if j := e.rng.Int63n(n); j < int64(e.opt.MaxSamples) {
			k = int(j)
		}
		if k >= 0 {
			s := Sample{Inputs: p.inputValues(), Obs: p.obsValues()}
			for x := range p.reached {
				s.Reached = append(s.Reached, x)
			}
			sort.Strings(s.Reached)
			e.samples[k] = s
		}
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// candidate takes a counterexample of the encoding to the real build; only what reproduces there is reported.
func (e *Engine) candidate(p *Path, msg string, neg *Term) {
	key := trunc(msg, 80)
	for try := 0; try < 8; try++ {
		e.mu.Lock()
		e.tries[key]++
		n := e.tries[key]
		stop := e.stop
		e.mu.Unlock()
		if n > 300 || stop {
			return
		}
		in := p.inputValues()
		out := e.native.Run(e.name, in, e.opt)
		if out.Bad() {
			if out.Status == "finding" {
				e.mu.Lock()
				known := e.knownIDs[out.Finding]
				if known {
					if _, ok := e.findings[out.Finding]; !ok {
						e.findings[out.Finding] = Confirmed{Msg: out.Msg, Inputs: in, Native: out.Status, Finding: out.Finding}
					}
				}
				e.mu.Unlock()
				if known {
					return
				}
			}
			e.mu.Lock()
			e.confirmed = append(e.confirmed, Confirmed{Msg: msg, Inputs: in, Native: out.Status + ": " + out.Msg})
			e.stop = true
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		// ask the solver for a different assignment of the inputs
		var diff []*Term
		for _, i := range p.inputs {
			for _, t := range inputTerms(i.val) {
				for _, v := range t.vars {
					tv := p.ctx.all[v]
					diff = append(diff, p.ctx.Not(p.ctx.Eq(tv, p.ctx.Const(p.model[v], tv.W))))
				}
			}
		}
		if len(diff) == 0 {
			break
		}
		block := p.ctx.Or(diff...)
		ts := append([]*Term{}, p.pc...)
		if neg != nil {
			ts = append(ts, neg)
		}
		// prefer all inputs different, then any
		e.mu.Lock()
		half := diff[e.rng.Intn(len(diff))]
		e.mu.Unlock()
		res, m := p.w.solver.ask(append(ts, block), []*Term{half})
		if res != 1 {
			res, m = p.w.solver.ask(append(ts, block), nil)
		}
		if res != 1 {
			break
		}
		nm := map[int]uint64{}
		for k, v := range p.model {
			nm[k] = v
		}
		for k, v := range m {
			nm[k] = v
		}
		p.model = nm
		if neg != nil {
			p.pc = append(p.pc[:len(p.pc):len(p.pc)], block)
		} else {
			p.pc = append(p.pc[:len(p.pc):len(p.pc)], block)
		}
	}
	e.mu.Lock()
	e.spurious[key]++
	if len(e.spurInp) < 3 {
		e.spurInp = append(e.spurInp, fmt.Sprintf("%s %v", key, p.inputValues()))
	}
	e.mu.Unlock()
	if e.opt.Verbose {
		fmt.Fprintf(os.Stderr, "UNCONFIRMED %s %v\n", msg, p.inputValues())
	}
}

func inputTerms(v Value) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *SymStr:
		var out []*Term
		for _, e := range x.b {
			if t, ok := e.(*Term); ok {
				out = append(out, t)
			}
		}
		return out
	}
	return nil
}

// Finding is an assertion whose failure is a recorded defect when the id is listed.
func (p *Path) Finding(id string, v Value, msg string) {
	p.asserts++
	c := p.term(v, 0)
	if p.Branch(c) {
		return
	}
	p.eng.candidate(p, "finding "+id+": "+msg, nil)
	panic(abortPath{abStop, "finding"})
}
