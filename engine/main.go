package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type HarnessCfg struct {
	Name     string   `json:"name"`
	QuickS   int      `json:"quick_s"`
	ThorS    int      `json:"thorough_s"`
	Reach    []string `json:"reach"`
	Bounds   string   `json:"bounds"`
	MaxSteps int      `json:"max_steps"`
	MaxDepth int      `json:"max_depth"`
	Samples  int      `json:"samples"`
	Only     string   `json:"only"` // "thorough": not run in the quick tier
}

type CheckCfg struct {
	Level       string       `json:"level"`
	Explanation string       `json:"explanation"`
	Rule        string       `json:"rule"`
	Harnesses   []HarnessCfg `json:"harnesses"`
	Assumptions []string     `json:"assumptions"`
	Outside     string       `json:"outside"`
}

var (
	repo     = envOr("VX_REPO", "/repo")
	verifDir = envOr("VX_VERIF", "/verif")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func fail(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	debug.SetGCPercent(300)
	if len(os.Args) < 2 {
		fail("usage: engine check ID | run HARNESS | replay FILE")
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "run":
		os.Exit(cmdRun(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	fail("unknown command %s", os.Args[1])
}

func z3bin() string {
	for _, b := range []string{"/usr/bin/z3", "z3", "z3-new"} {
		if p, err := exec.LookPath(b); err == nil {
			return p
		}
	}
	return "z3"
}

func seed() int64 {
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return s
	}
	return 1
}

func loadConfig() map[string]CheckCfg {
	b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err != nil {
		fail("%v", err)
	}
	m := map[string]CheckCfg{}
	if err := json.Unmarshal(b, &m); err != nil {
		fail("checks.json: %v", err)
	}
	return m
}

// known findings: lines "finding: property=<id> id=<key> <text>"
func loadFindings(prop string) map[string]string {
	out := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 4 || f[1] != "property="+prop {
			continue
		}
		out[strings.TrimPrefix(f[2], "id=")] = strings.Join(f[3:], " ")
	}
	return out
}

type sess struct {
	l   *Loaded
	nat *Native
}

func open() (*sess, error) {
	type res struct {
		n   *Native
		err error
	}
	ch := make(chan res, 1)
	go func() {
		n, err := BuildNative(repo, filepath.Join(verifDir, "harness"))
		ch <- res{n, err}
	}()
	l, err := Load(repo, filepath.Join(verifDir, "harness"), []string{"./internal/zzharness"})
	r := <-ch
	if err != nil {
		return nil, err
	}
	if r.err != nil {
		return nil, r.err
	}
	return &sess{l, r.n}, nil
}

// quickTotal bounds the time of a quick check; quickReserve is what each harness gets at least.
const quickTotal, quickReserve = 740 * time.Second, 25 * time.Second

func (h HarnessCfg) options(thorough bool) Options {
	o := Options{Thorough: thorough, MaxDecisions: 4000, MaxDepth: 2500, MaxSteps: 3000000, Workers: runtime.NumCPU(), Seed: seed(), Z3: z3bin(), MaxSamples: 150, CrossEvery: 97}
	if h.MaxSteps > 0 {
		o.MaxSteps = h.MaxSteps
	}
	if h.MaxDepth > 0 {
		o.MaxDepth = h.MaxDepth
	}
	if h.Samples > 0 {
		o.MaxSamples = h.Samples
	}
	s := h.QuickS
	if thorough {
		s = h.ThorS
	}
	if s == 0 {
		s = 60
	}
	o.Budget = time.Duration(s) * time.Second
	return o
}

func cmdRun(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	tier := fs.String("tier", "quick", "")
	sec := fs.Int("t", 60, "")
	workers := fs.Int("j", runtime.NumCPU(), "")
	params := fs.String("p", "", "k=v,...")
	prof := fs.String("prof", "", "")
	v := fs.Bool("v", false, "")
	steps := fs.Int("steps", 3000000, "")
	name := args[0]
	fs.Parse(args[1:])
	t0 := time.Now()
	s, err := open()
	if err != nil {
		fail("%v", err)
	}
	defer s.nat.Close()
	fmt.Println("load", time.Since(t0))
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	h := HarnessCfg{Name: name, QuickS: *sec, ThorS: *sec, MaxSteps: *steps, MaxDepth: 12000}
	o := h.options(*tier == "thorough")
	o.Workers = *workers
	o.Verbose = *v
	o.Params = map[string]int{}
	for _, kv := range strings.Split(*params, ",") {
		if k, x, ok := strings.Cut(kv, "="); ok {
			o.Params[k], _ = strconv.Atoi(x)
		}
	}
	e, err := NewEngine(s.l, name, s.nat, o)
	if err != nil {
		fail("%v", err)
	}
	for _, p := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"} {
		for k := range loadFindings(p) {
			e.knownIDs[k] = true
		}
	}
	e.Run()
	e.report()
	agree, diffs, bad, outs := s.nat.Validate(name, e.samples, o)
	fmt.Println("validated", agree, "of", len(e.samples), "diffs", len(diffs), "bad", len(bad))
	for i, d := range diffs {
		if i < 5 {
			fmt.Println("  DIFF", d)
		}
	}
	for i, b := range bad {
		if i < 3 {
			fmt.Println("  NATIVE-BAD", outs[b].Status, outs[b].Msg, e.samples[b].Inputs)
		}
	}
	return 0
}

func (e *Engine) report() {
	fmt.Printf("%s: paths=%d completed=%d infeasible=%d asserts=%d forks=%d steps=%d left=%d timedOut=%v in %v\n", e.name, e.paths, e.completed, e.infeas, e.asserts, e.forks, e.steps, len(e.work), e.timedOut, time.Since(e.start))
	fmt.Printf("  solver: q=%d sat=%d unsat=%d unk=%d cache=%d time=%v\n", e.stats.Queries, e.stats.Sat, e.stats.Unsat, e.stats.Unknown, e.stats.CacheHits, time.Duration(e.stats.Nanos))
	fmt.Println("  reached:", e.reached, "params:", e.params)
	for k, n := range e.unsup {
		fmt.Println("  UNSUPPORTED", n, k)
	}
	for k, n := range e.limits {
		fmt.Println("  LIMIT", n, k)
	}
	for k, n := range e.truncs {
		fmt.Println("  TRUNC", n, k)
	}
	for _, k := range e.internal {
		fmt.Println("  INTERNAL", k)
	}
	for _, c := range e.confirmed {
		fmt.Println("  CONFIRMED", c.Msg, "|", c.Native, "|", pretty(c.Inputs))
	}
	for k, c := range e.findings {
		fmt.Println("  FINDING", k, c.Msg, pretty(c.Inputs))
	}
	for k, n := range e.spurious {
		fmt.Println("  UNCONFIRMED", n, k)
	}
	for _, k := range e.spurInp {
		fmt.Println("    e.g.", k)
	}
}

func pretty(m map[string]any) string {
	var s []string
	for _, k := range sortedKeys(m) {
		s = append(s, fmt.Sprintf("%s=%v", k, m[k]))
	}
	return strings.Join(s, " ")
}

type replayFile struct {
	Property string         `json:"property"`
	Harness  string         `json:"harness"`
	Thorough bool           `json:"thorough"`
	Params   map[string]int `json:"params"`
	Inputs   map[string]any `json:"inputs"`
	Msg      string         `json:"msg"`
	Native   string         `json:"native"`
}

func cmdReplay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fail("%v", err)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fail("%v", err)
	}
	n, err := BuildNative(repo, filepath.Join(verifDir, "harness"))
	if err != nil {
		fail("%v", err)
	}
	defer n.Close()
	o := n.Run(r.Harness, r.Inputs, Options{Thorough: r.Thorough, Params: r.Params})
	fmt.Printf("%s: %s %s\n", r.Harness, o.Status, o.Msg)
	if o.Bad() {
		return 1
	}
	return 0
}

func (e *Engine) crossCheck() (n, bad int) {
	// second solver on a sample of the queries
	cv, err := exec.LookPath("cvc5")
	if err != nil {
		return
	}
	deadline := time.Now().Add(15 * time.Second)
	for _, q := range e.crossQ {
		if time.Now().After(deadline) {
			return
		}
		cmd := exec.Command(cv, "--lang=smt2", "--tlimit=5000")
		cmd.Stdin = strings.NewReader(q.script)
		out, _ := cmd.Output()
		r := strings.TrimSpace(string(out))
		if r != "sat" && r != "unsat" {
			continue
		}
		n++
		if r != q.res {
			bad++
		}
	}
	return
}

func cmdCheck(args []string) int {
	id := args[0]
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	if len(args) > 1 {
		tier = args[1]
	}
	thorough := tier == "thorough"
	cfg, ok := loadConfig()[id]
	if !ok {
		fail("no check %s", id)
	}
	known := loadFindings(id)
	t0 := time.Now()
	s, err := open()
	if err != nil {
		fail("%v", err)
	}
	defer s.nat.Close()
	cov := map[string]any{}
	var perH []map[string]any
	var samples []any
	fns := map[string]int{}
	violations := 0
	var tot SolverStats
	var paths, completed, asserts, forks, validated, steps int64
	var bounds []string
	var reduced []string
	var notes []string
	reachAll := map[string]int{}
	findings := map[string]Confirmed{}
	nothing := true
	outDir := filepath.Join(verifDir, "out")
	os.MkdirAll(outDir, 0o755)
	report := func(h string, o Options, c Confirmed) {
		violations++
		f := filepath.Join(outDir, fmt.Sprintf("%s-%s-%d.json", id, h, violations))
		b, _ := json.MarshalIndent(replayFile{id, h, o.Thorough, o.Params, c.Inputs, c.Msg, c.Native}, "", " ")
		os.WriteFile(f, b, 0o644)
		fmt.Printf("harness %s: %s\n  real build: %s\n  inputs: %s\n", h, c.Msg, c.Native, pretty(c.Inputs))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
	}
	for i, h := range cfg.Harnesses {
		if h.Only != "" && h.Only != tier {
			continue
		}
		o := h.options(thorough)
		if !thorough {
			if violations > 0 {
				reduced = append(reduced, h.Name+": not run, after a violation")
				continue
			}
			// a quick check answers in time whatever the code under test costs: each harness leaves some time to those after it
			left := quickTotal - time.Since(t0) - time.Duration(len(cfg.Harnesses)-1-i)*quickReserve
			if left < quickReserve {
				left = quickReserve
			}
			if o.Budget > left {
				o.Budget = left
			}
		}
		e, err := NewEngine(s.l, h.Name, s.nat, o)
		if err != nil {
			fail("%v", err)
		}
		for k := range known {
			e.knownIDs[k] = true
		}
		e.Run()
		for _, c := range e.confirmed {
			report(h.Name, o, c)
		}
		agree, diffs, bad, outs := s.nat.Validate(h.Name, e.samples, o)
		for _, b := range bad {
			c := Confirmed{Msg: "replay of a path model: " + outs[b].Msg, Inputs: e.samples[b].Inputs, Native: outs[b].Status + ": " + outs[b].Msg}
			if outs[b].Status == "finding" && e.knownIDs[outs[b].Finding] {
				findings[outs[b].Finding] = c
				continue
			}
			if violations < 3 {
				report(h.Name, o, c)
			} else {
				violations++
			}
		}
		for k, c := range e.findings {
			findings[k] = c
		}
		cn, cb := e.crossCheck()
		tot.CrossChecked += int64(cn)
		tot.CrossDisagree += int64(cb)
		tot.Queries += e.stats.Queries
		tot.Sat += e.stats.Sat
		tot.Unsat += e.stats.Unsat
		tot.Unknown += e.stats.Unknown
		tot.CacheHits += e.stats.CacheHits
		tot.Nanos += e.stats.Nanos
		paths += e.paths
		completed += e.completed
		asserts += e.asserts
		forks += e.forks
		steps += e.steps
		validated += int64(agree)
		if e.completed > 0 {
			nothing = false
		}
		b := h.Bounds
		if len(e.params) > 0 {
			var ps []string
			for _, k := range sortedKeys(e.params) {
				ps = append(ps, fmt.Sprintf("%s=%d", k, e.params[k]))
			}
			b += " [" + strings.Join(ps, " ") + "]"
		}
		bounds = append(bounds, h.Name+": "+b)
		status := "exhausted within bounds"
		if len(e.confirmed) > 0 {
			status = "stopped at a violation"
		} else if e.timedOut {
			status = "time budget reached: bound reduced to the explored paths"
		}
		var missing []string
		for _, r := range h.Reach {
			if e.reached[r] == 0 {
				missing = append(missing, r)
			}
			reachAll[r] += e.reached[r]
		}
		for k := range e.reached {
			if _, ok := reachAll[k]; !ok {
				reachAll[k] = e.reached[k]
			}
		}
		if e.timedOut {
			reduced = append(reduced, fmt.Sprintf("%s: budget of %s reached with %d pending prefixes", h.Name, o.Budget, len(e.work)))
		}
		for k, n := range e.unsup {
			reduced = append(reduced, fmt.Sprintf("%s: %d paths left undecided (not encodable: %s)", h.Name, n, k))
		}
		for k, n := range e.limits {
			reduced = append(reduced, fmt.Sprintf("%s: %d paths cut (%s)", h.Name, n, k))
		}
		for k, n := range e.truncs {
			reduced = append(reduced, fmt.Sprintf("%s: %d (%s)", h.Name, n, k))
		}
		if len(e.internal) > 0 {
			reduced = append(reduced, fmt.Sprintf("%s: %d paths stopped by an internal error: %s", h.Name, len(e.internal), trunc(e.internal[0], 200)))
		}
		for k, n := range e.spurious {
			notes = append(notes, fmt.Sprintf("%s: %d counterexample(s) of the encoding did not reproduce on the real build and are not reported: %s", h.Name, n, k))
		}
		if len(missing) > 0 && len(e.confirmed) == 0 {
			notes = append(notes, fmt.Sprintf("%s: reachability witnesses not reached: %s", h.Name, strings.Join(missing, ",")))
		}
		for i, d := range diffs {
			if i < 3 {
				notes = append(notes, h.Name+": model/impl difference: "+trunc(d, 300))
			}
		}
		for f, n := range e.fncalls {
			if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) && !strings.Contains(f.Pkg.Pkg.Path(), "/zz") {
				fns[f.String()] += n
			} else if f.Pkg == nil && strings.Contains(f.String(), "sourcenetwork/zanzi") && !strings.Contains(f.String(), "/zz") {
				fns[f.String()] += n
			}
		}
		for i, sm := range e.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": h.Name, "inputs": sm.Inputs, "observed": sm.Obs, "reached": sm.Reached})
			}
		}
		perH = append(perH, map[string]any{"harness": h.Name, "paths": e.paths, "completed": e.completed, "infeasible": e.infeas, "assertions_decided": e.asserts,
			"solver_queries": e.stats.Queries, "status": status, "validated_natively": agree, "sampled": len(e.samples), "reached": e.reached, "missing_reach": missing})
		fmt.Printf("%s: %s; paths=%d queries=%d validated=%d/%d %s\n", h.Name, status, e.paths, e.stats.Queries, agree, len(e.samples), time.Since(e.start).Round(time.Millisecond))
		if len(e.confirmed) > 0 {
			break
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if len(samples) == 0 {
		samples = append(samples, "none: stopped before a path completed")
	}
	cov["samples"] = samples
	cov["harnesses"] = perH
	cov["functions_encoded"] = fl
	cov["bounds"] = bounds
	cov["outside_bounds"] = cfg.Outside
	cov["reduced_bounds"] = reduced
	cov["notes"] = notes
	cov["solver"] = map[string]any{"queries": tot.Queries, "sat": tot.Sat, "unsat": tot.Unsat, "unknown": tot.Unknown, "cache_hits": tot.CacheHits,
		"solver_s": float64(tot.Nanos) / 1e9, "cross_checked_cvc5": tot.CrossChecked, "cross_disagreements": tot.CrossDisagree, "binary": z3bin()}
	cov["reachability_witnesses"] = reachAll
	cov["native_replays"] = s.nat.runs
	cov["explanation"] = cfg.Explanation
	cov["rule"] = cfg.Rule
	cov["evaluations"] = asserts
	cov["distinct_nontrivial"] = completed
	cov["states"] = paths
	cov["transitions"] = forks
	cov["traces_validated_against_impl"] = validated
	cov["instructions_executed"] = steps
	if len(findings) > 0 {
		var ks []string
		for k := range findings {
			ks = append(ks, k)
		}
		cov["known_findings_seen"] = ks
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed(), "level": cfg.Level, "coverage": cov, "assumptions": cfg.Assumptions,
		"wall_s": time.Since(t0).Seconds(), "violations": violations}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), b, 0o644)
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	for _, n := range reduced {
		fmt.Println("reduced:", trunc(n, 300))
	}
	if violations > 0 {
		return 1
	}
	for _, k := range sortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", id, k, known[k])
	}
	if nothing {
		fmt.Println("nothing could be decided")
		return 2
	}
	fmt.Printf("OK property=%s tier=%s wall=%.1fs\n", id, tier, time.Since(t0).Seconds())
	return 0
}
