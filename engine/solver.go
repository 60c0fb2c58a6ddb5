package main

// Incremental SMT back end: one z3 process per worker, queries over QF_BV.
// Queries are sliced to the constraints that share variables with the asked condition and cached per worker.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown, CacheHits, ModelHits int64
	Nanos                                              int64
	CrossChecked, CrossDisagree                        int64
}

type Solver struct {
	ctx     *TermCtx
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	decl    map[int]bool
	n       int
	cache   map[string]cacheEnt
	stats   *SolverStats
	timeout int // ms
	logMu   *sync.Mutex
	sample  func(string, string) // cross-check sink
}

type cacheEnt struct {
	res   int // 1 sat 0 unsat 2 unknown
	model map[int]uint64
}

func NewSolver(ctx *TermCtx, bin string, stats *SolverStats) *Solver {
	return &Solver{ctx: ctx, bin: bin, stats: stats, cache: map[string]cacheEnt{}, timeout: 20000}
}

func (s *Solver) start() error {
	s.stop()
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.decl = map[int]bool{}
	s.n = 0
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout)
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func varsOf(ts []*Term) []int {
	set := map[int]bool{}
	for _, t := range ts {
		for _, v := range t.vars {
			set[v] = true
		}
	}
	out := make([]int, 0, len(set))
	for v := range set {
		out = append(out, v)
	}
	sort.Ints(out)
	return out
}

// slice returns the members of pc connected with cond through shared variables.
func slicePC(pc []*Term, cond *Term) []*Term {
	if cond == nil {
		return pc
	}
	set := map[int]bool{}
	for _, v := range cond.vars {
		set[v] = true
	}
	used := make([]bool, len(pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, t := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range t.vars {
				if set[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, t)
				for _, v := range t.vars {
					if !set[v] {
						set[v] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

func queryKey(ts []*Term) string {
	ids := make([]int, len(ts))
	for i, t := range ts {
		ids[i] = t.ID
	}
	sort.Ints(ids)
	b := make([]byte, 0, len(ids)*4)
	last := -1
	for _, i := range ids {
		if i == last {
			continue
		}
		last = i
		b = append(b, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
	}
	return string(b)
}

// boundsFor adds the declared bounds of variables as constraints.
func (s *Solver) boundsFor(vars []int) []*Term {
	var out []*Term
	for _, v := range vars {
		if b, ok := s.ctx.bounds[v]; ok {
			t := s.ctx.all[v]
			if b[0] > 0 {
				out = append(out, s.ctx.mk(ONot, 0, 0, 0, "", []*Term{s.ctx.mk(OUlt, 0, 0, 0, "", []*Term{t, s.ctx.Const(b[0], t.W)})}))
			}
			if b[1] < mask(t.W) {
				out = append(out, s.ctx.mk(ONot, 0, 0, 0, "", []*Term{s.ctx.mk(OUlt, 0, 0, 0, "", []*Term{s.ctx.Const(b[1], t.W), t})}))
			}
		}
	}
	return out
}

func (s *Solver) script(ts []*Term, vars []int) (string, string) {
	var decl, sb strings.Builder
	for _, v := range vars {
		if !s.decl[v] {
			s.decl[v] = true
			fmt.Fprintf(&decl, "(declare-const %s %s)\n", varName(s.ctx.all[v]), sortName(s.ctx.all[v].W))
		}
	}
	names := map[int]string{}
	for i, t := range s.ctx.shared(ts) {
		n := fmt.Sprintf("d!%d", i)
		fmt.Fprintf(&sb, "(define-fun %s () %s ", n, sortName(t.W))
		s.ctx.print(&sb, t, names)
		sb.WriteString(")\n")
		names[t.ID] = n
	}
	for _, t := range ts {
		sb.WriteString("(assert ")
		s.ctx.print(&sb, t, names)
		sb.WriteString(")\n")
	}
	return decl.String(), sb.String()
}

// Check decides pc ∧ cond.  Result: 1 sat (with model for the variables of the slice), 0 unsat, 2 unknown.
func (s *Solver) Check(pc []*Term, cond *Term) (int, map[int]uint64) {
	if cond != nil && cond.Op == OFalse {
		return 0, nil
	}
	ts := slicePC(pc, cond)
	if cond != nil && cond.Op != OTrue {
		ts = append(append([]*Term{}, ts...), cond)
	}
	if len(ts) == 0 {
		return 1, nil
	}
	key := queryKey(ts)
	if e, ok := s.cache[key]; ok {
		atomic.AddInt64(&s.stats.CacheHits, 1)
		return e.res, e.model
	}
	r, m := s.ask(ts, nil)
	s.cache[key] = cacheEnt{r, m}
	return r, m
}

// ask runs one query.
func (s *Solver) ask(ts []*Term, extra []*Term) (int, map[int]uint64) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&s.stats.Nanos, int64(time.Since(t0))) }()
	atomic.AddInt64(&s.stats.Queries, 1)
	if s.cmd == nil || s.n > 4000 {
		if err := s.start(); err != nil {
			atomic.AddInt64(&s.stats.Unknown, 1)
			return 2, nil
		}
	}
	s.n++
	all := append(append([]*Term{}, ts...), extra...)
	vars := varsOf(all)
	all = append(all, s.boundsFor(vars)...)
	decl, body := s.script(all, vars)
	if decl != "" {
		io.WriteString(s.in, decl)
	}
	var q strings.Builder
	q.WriteString("(push 1)\n")
	q.WriteString(body)
	q.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, q.String()); err != nil {
		s.stop()
		atomic.AddInt64(&s.stats.Unknown, 1)
		return 2, nil
	}
	line, err := s.out.ReadString('\n')
	line = strings.TrimSpace(line)
	if err != nil || strings.HasPrefix(line, "(error") {
		s.stop()
		atomic.AddInt64(&s.stats.Unknown, 1)
		return 2, nil
	}
	res := 2
	var model map[int]uint64
	switch line {
	case "sat":
		res = 1
		atomic.AddInt64(&s.stats.Sat, 1)
		model = map[int]uint64{}
		if len(vars) > 0 {
			var g strings.Builder
			g.WriteString("(get-value (")
			for _, v := range vars {
				g.WriteString(varName(s.ctx.all[v]))
				g.WriteString(" ")
			}
			g.WriteString("))\n")
			io.WriteString(s.in, g.String())
			txt, err := s.readSexp()
			if err != nil {
				s.stop()
				return 2, nil
			}
			parseValues(txt, vars, model)
		}
	case "unsat":
		res = 0
		atomic.AddInt64(&s.stats.Unsat, 1)
	default:
		atomic.AddInt64(&s.stats.Unknown, 1)
	}
	if s.sample != nil && res != 2 {
		var d strings.Builder
		for _, v := range vars {
			fmt.Fprintf(&d, "(declare-const %s %s)\n", varName(s.ctx.all[v]), sortName(s.ctx.all[v].W))
		}
		s.sample("(set-logic QF_BV)\n"+d.String()+body+"(check-sat)\n", line)
	}
	io.WriteString(s.in, "(pop 1)\n")
	return res, model
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	inBar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
			if started && depth == 0 {
				s.out.ReadString('\n')
				return sb.String(), nil
			}
		}
	}
}

// parseValues reads "((|a| #x01) (|b| true) ...)" in order.
func parseValues(txt string, vars []int, m map[int]uint64) {
	i := 0
	pos := 0
	for i < len(vars) {
		k := strings.IndexByte(txt[pos:], '|')
		if k < 0 {
			return
		}
		pos += k + 1
		k = strings.IndexByte(txt[pos:], '|')
		pos += k + 1
		for txt[pos] == ' ' || txt[pos] == '\n' {
			pos++
		}
		e := pos
		for txt[e] != ')' && txt[e] != ' ' && txt[e] != '\n' {
			e++
		}
		v := txt[pos:e]
		switch {
		case strings.HasPrefix(v, "#x"):
			n, _ := strconv.ParseUint(v[2:], 16, 64)
			m[vars[i]] = n
		case strings.HasPrefix(v, "#b"):
			n, _ := strconv.ParseUint(v[2:], 2, 64)
			m[vars[i]] = n
		case v == "true":
			m[vars[i]] = 1
		default:
			m[vars[i]] = 0
		}
		pos = e
		i++
	}
}
