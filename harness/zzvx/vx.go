// Package zzvx is the vocabulary of the harnesses.  Under the solver-based executor every function here is a
// primitive; compiled natively it replays one concrete assignment.
package zzvx

import (
	"encoding/hex"
	"fmt"
	"runtime"
	"sort"
	"time"

	"google.golang.org/protobuf/proto"
	"gopkg.in/yaml.v3"
)

// Case is one assignment to replay.
type Case struct {
	Harness  string         `json:"harness"`
	Thorough bool           `json:"thorough"`
	Params   map[string]int `json:"params"`
	Inputs   map[string]any `json:"inputs"`
}

// Outcome of a replay.
type Outcome struct {
	Status  string   `json:"status"`
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
	Reached []string `json:"reached"`
	Finding string   `json:"finding"`
}

type violation struct{ msg string }
type assumeFail struct{}
type stopRun struct{}
type findingHit struct{ id, msg string }

var (
	cur     *Case
	names   map[string]int
	obs     []string
	reached map[string]bool
	idle    int // goroutines before the run
)

// Replay runs f under the assignment.
func Replay(c *Case, f func()) (out Outcome) {
	cur, names, obs, reached = c, map[string]int{}, nil, map[string]bool{}
	threads, running = nil, nil
	idle = runtime.NumGoroutine()
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
			out.Status = "ok"
		case violation:
			out.Status, out.Msg = "violation", x.msg
		case assumeFail:
			out.Status = "assume"
		case stopRun:
			out.Status = "ok"
		case findingHit:
			out.Status, out.Msg, out.Finding = "finding", x.msg, x.id
		default:
			out.Status, out.Msg = "panic", fmt.Sprint(x)
		}
		out.Obs = obs
		for k := range reached {
			out.Reached = append(out.Reached, k)
		}
		sort.Strings(out.Reached)
	}()
	f()
	return
}

func input(name string) (any, bool) {
	k := names[name]
	names[name]++
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	v, ok := cur.Inputs[name]
	return v, ok && v != nil
}

func Symbolic() bool { return false }

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int {
	v, ok := input(name)
	if !ok {
		return lo
	}
	return int(v.(float64))
}

// Int64 is an arbitrary 64-bit integer.
func Int64(name string) int64 {
	v, ok := input(name)
	if !ok {
		return 0
	}
	return int64(v.(float64))
}

func Bool(name string) bool {
	v, ok := input(name)
	if !ok {
		return false
	}
	return v.(bool)
}

// String is an arbitrary byte string of length min..max.
func String(name string, min, max int) string { return str(name, min, 0) }

// StringOf is an arbitrary string of length min..max over the alphabet.
func StringOf(name string, min, max int, alphabet string) string {
	return str(name, min, alphabet[0])
}

func str(name string, min int, fill byte) string {
	v, ok := input(name)
	if !ok {
		b := make([]byte, min)
		for i := range b {
			b[i] = fill
		}
		return string(b)
	}
	b, err := hex.DecodeString(v.(string))
	if err != nil {
		panic(err)
	}
	return string(b)
}

func Assume(b bool) {
	if !b {
		panic(assumeFail{})
	}
}

func Assert(b bool, msg string) {
	if !b {
		panic(violation{msg})
	}
}

// Finding asserts b; its failure is the recorded defect id.
func Finding(id string, b bool, msg string) {
	if !b {
		panic(findingHit{id, msg})
	}
}

func Stop() { panic(stopRun{}) }

func Reach(label string) { reached[label] = true }

func Observe(name string, v any) {
	switch x := v.(type) {
	case string:
		obs = append(obs, name+"="+hex.EncodeToString([]byte(x)))
	default:
		obs = append(obs, fmt.Sprintf("%s=%v", name, v))
	}
}

func Param(name string, quick, thorough int) int {
	if v, ok := cur.Params[name]; ok {
		return v
	}
	if cur.Thorough {
		return thorough
	}
	return quick
}

func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool     { return !a || b }
func Iff(a, b bool) bool         { return a == b }
func StrEq(a, b string) bool     { return a == b }
func BytesEq(a, b []byte) bool   { return string(a) == string(b) }
func HasPrefix(a, b []byte) bool { return len(a) >= len(b) && string(a[:len(b)]) == string(b) }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// CommonPrefixLen is some length up to which a and b agree.
func CommonPrefixLen(a, b []byte) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

// Leftover is the number of goroutines started in this run which have not ended, once all of them that can have.
func Leftover() int {
	n := runtime.NumGoroutine() - idle
	for i := 0; n > 0 && i < 100; i++ {
		time.Sleep(time.Duration(i) * 500 * time.Microsecond)
		n = runtime.NumGoroutine() - idle
	}
	if n < 0 {
		n = 0
	}
	return n
}

func Concrete(s string) string { return s }
func ConcreteInt(i int) int    { return i }
func MapPerm(bool)             {}
func HashFork(bool)            {}

// Try runs f and reports whether it panicked.
func Try(f func()) (panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			r := recover()
			switch r.(type) {
			case violation, assumeFail, stopRun, findingHit:
				panic(r)
			}
		}
	}()
	f()
	panicked = false
	return
}

// Received is m as a server gets it off the wire.
func Received(m proto.Message) {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	if err := proto.Unmarshal(b, m); err != nil {
		panic(err)
	}
}

// YamlDoc is the YAML text of v.
func YamlDoc(v any) string {
	b, err := yaml.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

type thread struct {
	f       func()
	started bool
	ev      chan struct{}
	resume  chan struct{}
	done    chan struct{}
	err     any
}

var (
	threads []*thread
	running *thread
)

// ThreadNew creates a thread which has not begun to run f.
func ThreadNew(f func()) int {
	threads = append(threads, &thread{f: f, ev: make(chan struct{}, 1), resume: make(chan struct{}, 1), done: make(chan struct{})})
	return len(threads) - 1
}

func (t *thread) kick() {
	running = t
	if !t.started {
		t.started = true
		go func() {
			defer func() {
				t.err = recover()
				close(t.done)
			}()
			t.f()
		}()
		return
	}
	select {
	case t.resume <- struct{}{}:
	default:
	}
}

// ThreadRun lets the thread run until it ends, pauses or blocks.
func ThreadRun(id int) {
	t := threads[id]
	t.kick()
	select {
	case <-t.done:
	case <-t.ev:
	case <-time.After(25 * time.Millisecond): // blocked
	}
}

// ThreadPause stops the calling thread until it is run or joined.
func ThreadPause() {
	t := running
	t.ev <- struct{}{}
	<-t.resume
}

// ThreadJoin lets the thread run to its end.
func ThreadJoin(id int) {
	t := threads[id]
	t.kick()
	select {
	case <-t.done:
	case <-time.After(5 * time.Second):
		panic("deadlock")
	}
	if t.err != nil {
		panic(t.err)
	}
}
