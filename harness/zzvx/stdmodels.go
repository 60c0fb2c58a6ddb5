package zzvx

import (
	"context"
	"hash"
	"sync"
	"sync/atomic"
	"time"
)

// ---- models of parts of the standard library ----

func asTarget(err error, target any) bool { return false }

// ErrorsAs is errors.As.
func ErrorsAs(err error, target any) bool {
	for err != nil {
		if asTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

type valueCtx struct {
	context.Context
	k, v any
}

func (c *valueCtx) Value(k any) any {
	if c.k == k {
		return c.v
	}
	return c.Context.Value(k)
}

// CtxWithValue is context.WithValue.
func CtxWithValue(parent context.Context, k, v any) context.Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if k == nil {
		panic("nil key")
	}
	return &valueCtx{parent, k, v}
}

// CtxWithTimeout is context.WithTimeout with a limit that is never reached.
func CtxWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithCancel(parent)
}

// CtxWithDeadline is context.WithDeadline with a limit that is never reached.
func CtxWithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return context.WithCancel(parent)
}

var syncMaps = map[*sync.Map]map[any]any{}

func sm(m *sync.Map) map[any]any {
	x := syncMaps[m]
	if x == nil {
		x = map[any]any{}
		syncMaps[m] = x
	}
	return x
}

func SMLoad(m *sync.Map, k any) (any, bool) { v, ok := sm(m)[k]; return v, ok }
func SMStore(m *sync.Map, k, v any)         { sm(m)[k] = v }
func SMDelete(m *sync.Map, k any)           { delete(sm(m), k) }
func SMLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	if x, ok := sm(m)[k]; ok {
		return x, true
	}
	sm(m)[k] = v
	return v, false
}
func SMLoadAndDelete(m *sync.Map, k any) (any, bool) {
	v, ok := sm(m)[k]
	delete(sm(m), k)
	return v, ok
}
func SMSwap(m *sync.Map, k, v any) (any, bool) {
	x, ok := sm(m)[k]
	sm(m)[k] = v
	return x, ok
}
func SMCompareAndSwap(m *sync.Map, k, o, v any) bool {
	if x, ok := sm(m)[k]; ok && x == o {
		sm(m)[k] = v
		return true
	}
	return false
}
func SMRange(m *sync.Map, f func(k, v any) bool) {
	for k, v := range sm(m) {
		if !f(k, v) {
			return
		}
	}
}

var syncPools = map[*sync.Pool][]any{}

// SPGet hands out what was put last: the choice that shows most of what reuse can do.
func SPGet(p *sync.Pool) any {
	l := syncPools[p]
	if n := len(l); n > 0 {
		syncPools[p] = l[:n-1]
		return l[n-1]
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func SPPut(p *sync.Pool, x any) {
	if x != nil {
		syncPools[p] = append(syncPools[p], x)
	}
}

func OnceFunc(f func()) func() {
	done := false
	return func() {
		if !done {
			done = true
			f()
		}
	}
}

var atomicValues = map[*atomic.Value]any{}

func AVLoad(v *atomic.Value) any { return atomicValues[v] }
func AVStore(v *atomic.Value, x any) {
	if x == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	atomicValues[v] = x
}
func AVSwap(v *atomic.Value, x any) any {
	o := atomicValues[v]
	AVStore(v, x)
	return o
}

func crcUpdate(crc uint32, b []byte) uint32 {
	crc = ^crc
	for _, c := range b {
		crc ^= uint32(c)
		for i := 0; i < 8; i++ {
			crc = (crc >> 1) ^ (0xedb88320 & -(crc & 1))
		}
	}
	return ^crc
}

func CRC32(b []byte) uint32 { return crcUpdate(0, b) }

type crc struct{ v uint32 }

func NewCRC32() hash.Hash32                      { return &crc{} }
func (c *crc) Write(b []byte) (int, error)       { c.v = crcUpdate(c.v, b); return len(b), nil }
func (c *crc) WriteString(b string) (int, error) { return c.Write([]byte(b)) }
func (c *crc) Sum32() uint32                     { return c.v }
func (c *crc) Reset()                            { c.v = 0 }
func (c *crc) Size() int                         { return 4 }
func (c *crc) BlockSize() int                    { return 1 }
func (c *crc) Sum(b []byte) []byte {
	return append(b, byte(c.v>>24), byte(c.v>>16), byte(c.v>>8), byte(c.v))
}

func Adler32(p []byte) uint32 {
	a, b := uint32(1), uint32(0)
	for _, c := range p {
		a = (a + uint32(c)) % 65521
		b = (b + a) % 65521
	}
	return b<<16 | a
}

func digestOf(kind string, n int, b []byte) []byte { return nil }

type modelHashN struct {
	kind   string
	n, blk int
	data   []byte
}

func (h *modelHashN) Write(p []byte) (int, error) { h.data = append(h.data, p...); return len(p), nil }
func (h *modelHashN) WriteString(p string) (int, error) {
	h.data = append(h.data, p...)
	return len(p), nil
}
func (h *modelHashN) Sum(b []byte) []byte { return append(b, digestOf(h.kind, h.n, h.data)...) }
func (h *modelHashN) Reset()              { h.data = nil }
func (h *modelHashN) Size() int           { return h.n }
func (h *modelHashN) BlockSize() int      { return h.blk }

func ModelSHA1() hash.Hash   { return &modelHashN{kind: "sha1", n: 20, blk: 64} }
func ModelSHA512() hash.Hash { return &modelHashN{kind: "sha512", n: 64, blk: 128} }
func ModelMD5() hash.Hash    { return &modelHashN{kind: "md5", n: 16, blk: 64} }

func TimeSince(t time.Time) time.Duration { return time.Now().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(time.Now()) }

func typeName(x any) string { return "" }
func typeID(x any) string   { return "" }

type modelType struct{ id, name string }

func (t modelType) String() string   { return t.name }
func (t modelType) Comparable() bool { return true }
func (t modelType) Name() string {
	for i := len(t.name) - 1; i >= 0; i-- {
		switch t.name[i] {
		case '.':
			return t.name[i+1:]
		case '*', ']':
			return ""
		}
	}
	return t.name
}

// ReflectTypeOf is reflect.TypeOf, for comparing and naming types.
func ReflectTypeOf(x any) any {
	if x == nil {
		return nil
	}
	return modelType{typeID(x), typeName(x)}
}

type rlocker struct{ m *sync.RWMutex }

func (r *rlocker) Lock()   { r.m.RLock() }
func (r *rlocker) Unlock() { r.m.RUnlock() }

// RWRLocker is (*sync.RWMutex).RLocker.
func RWRLocker(m *sync.RWMutex) sync.Locker { return &rlocker{m} }

func WGGo(w *sync.WaitGroup, f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		f()
	}()
}

func SMClear(m *sync.Map) { delete(syncMaps, m) }
func SMCompareAndDelete(m *sync.Map, k, o any) bool {
	if x, ok := sm(m)[k]; ok && x == o {
		delete(sm(m), k)
		return true
	}
	return false
}
