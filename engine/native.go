package main

// Replay of solver assignments against the real build of /repo (the harness compiled natively through an overlay).

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"
)

type NativeOut struct {
	Status  string   `json:"status"` // ok | violation | panic | assume | finding | crash | timeout | error
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
	Reached []string `json:"reached"`
	Finding string   `json:"finding"`
}

func (o NativeOut) Bad() bool {
	switch o.Status {
	case "violation", "panic", "crash", "timeout", "finding":
		return true
	}
	return false
}

type Native struct {
	bin  string
	dir  string
	runs int64
}

func BuildNative(repo, harnessDir string) (*Native, error) {
	ov, err := overlayMap(repo, harnessDir)
	if err != nil {
		return nil, err
	}
	dir, err := os.MkdirTemp("", "vxnat")
	if err != nil {
		return nil, err
	}
	oj, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, oj, 0o644)
	bin := filepath.Join(dir, "zznative")
	cmd := exec.Command("go", "build", "-overlay", of, "-o", bin, "./internal/zzmain")
	cmd.Dir = repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("native build: %v: %s", err, trunc(string(out), 4000))
	}
	return &Native{bin: bin, dir: dir}, nil
}

func (n *Native) Close() { os.RemoveAll(n.dir) }

type nativeCase struct {
	Harness  string         `json:"harness"`
	Thorough bool           `json:"thorough"`
	Params   map[string]int `json:"params"`
	Inputs   map[string]any `json:"inputs"`
}

func (n *Native) Run(h string, in map[string]any, opt Options) NativeOut {
	return n.RunTimeout(h, in, opt, 20*time.Second)
}

func (n *Native) RunTimeout(h string, in map[string]any, opt Options, d time.Duration) NativeOut {
	outs := n.exec([]nativeCase{{h, opt.Thorough, opt.Params, in}}, d)
	return outs[0]
}

// exec runs the cases in one process; a crash or a timeout is attributed to the first unanswered case.
func (n *Native) exec(cs []nativeCase, d time.Duration) []NativeOut {
	atomic.AddInt64(&n.runs, int64(len(cs)))
	var in bytes.Buffer
	for _, c := range cs {
		b, _ := json.Marshal(c)
		in.Write(b)
		in.WriteByte('\n')
	}
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin)
	cmd.Stdin = &in
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GOMAXPROCS=2")
	var so, se bytes.Buffer
	cmd.Stdout = &so
	cmd.Stderr = &se
	err := cmd.Run()
	var outs []NativeOut
	for _, l := range strings.Split(so.String(), "\n") {
		if i := strings.Index(l, "VXOUT "); i >= 0 {
			var o NativeOut
			if json.Unmarshal([]byte(l[i+6:]), &o) == nil {
				outs = append(outs, o)
			}
		}
	}
	if len(outs) < len(cs) {
		o := NativeOut{Status: "error", Msg: fmt.Sprint(err)}
		if ctx.Err() != nil {
			o = NativeOut{Status: "timeout", Msg: "no answer within " + d.String()}
		} else if err != nil {
			o = NativeOut{Status: "crash", Msg: trunc(se.String(), 600)}
		}
		outs = append(outs, o)
		for len(outs) < len(cs) {
			outs = append(outs, NativeOut{Status: "error", Msg: "not run"})
		}
	}
	return outs
}

// Validate replays sampled path models and compares what was observed.
func (n *Native) Validate(h string, ss []Sample, opt Options) (agree int, diffs []string, bad []int, outs []NativeOut) {
	var cs []nativeCase
	for _, s := range ss {
		cs = append(cs, nativeCase{h, opt.Thorough, opt.Params, s.Inputs})
	}
	for len(outs) < len(cs) {
		rest := cs[len(outs):]
		o := n.exec(rest, 120*time.Second)
		k := len(o)
		for i := range o {
			if o[i].Status == "error" && o[i].Msg == "not run" {
				k = i
				break
			}
		}
		outs = append(outs, o[:k]...)
		if k == 0 {
			break
		}
	}
	// the samples share a process: what fails must fail alone as well
	alone := 0
	for i, o := range outs {
		if o.Bad() && alone < 10 {
			outs[i] = n.RunTimeout(h, cs[i].Inputs, opt, 120*time.Second)
			if outs[i].Bad() {
				alone++
			}
		}
	}
	for i, o := range outs {
		if o.Bad() {
			bad = append(bad, i)
			continue
		}
		if o.Status != "ok" {
			diffs = append(diffs, fmt.Sprintf("status %s %s inputs=%v", o.Status, o.Msg, ss[i].Inputs))
			continue
		}
		if len(o.Obs) != len(ss[i].Obs) {
			diffs = append(diffs, fmt.Sprintf("observations %v vs %v inputs=%v", ss[i].Obs, o.Obs, ss[i].Inputs))
			continue
		}
		same := true
		for k := range o.Obs {
			if strings.HasSuffix(ss[i].Obs[k], "=?opaque") || strings.HasSuffix(ss[i].Obs[k], "=?") {
				continue
			}
			if o.Obs[k] != ss[i].Obs[k] {
				same = false
				diffs = append(diffs, fmt.Sprintf("%s (encoding) vs %s (real) inputs=%v", ss[i].Obs[k], o.Obs[k], ss[i].Inputs))
				break
			}
		}
		if same {
			agree++
		}
	}
	return
}
