package main

// Models of further parts of the standard library that changes to the code under test may come to use.

import (
	"encoding/base64"
	"encoding/hex"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	for k, v := range jsonIntrinsics {
		intrinsics[k] = v
	}
	for k, v := range map[string]string{
		"errors.As": "ErrorsAs",

		"github.com/sourcenetwork/raccoondb.NewMemKV":   "harness.memKV",
		"github.com/sourcenetwork/raccoondb.NewLevelDB": "harness.levelDBModel",

		modPath + "/internal/zzharness.scratch": "harness.scratchModel",
		modPath + "/internal/zzharness.used":    "harness.usedModel",
		"context.WithValue":                     "CtxWithValue",
		"context.WithTimeout":                   "CtxWithTimeout",
		"context.WithDeadline":                  "CtxWithDeadline",
		"(*sync.Map).Load":                      "SMLoad",
		"(*sync.Map).Store":                     "SMStore",
		"(*sync.Map).LoadOrStore":               "SMLoadOrStore",
		"(*sync.Map).LoadAndDelete":             "SMLoadAndDelete",
		"(*sync.Map).Delete":                    "SMDelete",
		"(*sync.Map).Range":                     "SMRange",
		"(*sync.Map).Swap":                      "SMSwap",
		"(*sync.Map).CompareAndSwap":            "SMCompareAndSwap",
		"(*sync.Pool).Get":                      "SPGet",
		"(*sync.Pool).Put":                      "SPPut",
		"sync.OnceFunc":                         "OnceFunc",
		"(*sync.RWMutex).RLocker":               "RWRLocker",
		"(*sync.WaitGroup).Go":                  "WGGo",
		"(*sync.Map).Clear":                     "SMClear",
		"(*sync.Map).CompareAndDelete":          "SMCompareAndDelete",
		"hash/crc32.ChecksumIEEE":               "CRC32",
		"hash/crc32.NewIEEE":                    "NewCRC32",
		"hash/adler32.Checksum":                 "Adler32",
		"crypto/sha1.New":                       "ModelSHA1",
		"crypto/sha512.New":                     "ModelSHA512",
		"crypto/md5.New":                        "ModelMD5",
		"time.Since":                            "TimeSince",
		"time.Until":                            "TimeUntil",
		"reflect.TypeOf":                        "ReflectTypeOf",
		"internal/reflectlite.TypeOf":           "ReflectTypeOf",
		"(*sync/atomic.Value).Load":             "AVLoad",
		"(*sync/atomic.Value).Store":            "AVStore",
		"(*sync/atomic.Value).Swap":             "AVSwap",
	} {
		overrides[k] = v
	}
	hashSum := func(kind string, n int) intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			es := append([]Value{}, a[0].(Slice)...)
			return Array(blockElems(g.p.newBlock(kind, n, es, nil)))
		}
	}
	intrinsics["crypto/sha1.Sum"] = hashSum("sha1", 20)
	intrinsics["crypto/sha512.Sum512"] = hashSum("sha512", 64)
	intrinsics["crypto/md5.Sum"] = hashSum("md5", 16)
	vxIntr["digestOf"] = func(g *G, fn *ssa.Function, a []Value) Value {
		es := append([]Value{}, a[2].(Slice)...)
		return Slice(blockElems(g.p.newBlock(str(a[0]), int(signedInt(a[1])), es, nil)))
	}
	intrinsics["maps.clone"] = func(g *G, fn *ssa.Function, a []Value) Value {
		it := a[0].(Iface)
		m, _ := it.V.(*MapV)
		if m == nil {
			return it
		}
		n := &MapV{idx: map[any]*MapEntry{}}
		for _, e := range m.entries {
			if e.dead {
				continue
			}
			ne := &MapEntry{k: copyVal(e.k), v: copyVal(e.v)}
			n.entries = append(n.entries, ne)
			n.nlive++
			if ck, ok := ckey(e.k); ok {
				n.idx[ck] = ne
			} else {
				n.nsym++
			}
		}
		return Iface{it.T, n}
	}
	decode := func(kind string, f func(string) ([]byte, error)) intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			s := a[len(a)-1]
			if c, ok := s.(string); ok {
				b, err := f(c)
				out := make(Slice, len(b))
				for i := range b {
					out[i] = uint64(b[i])
				}
				if err != nil {
					return Tuple{out, g.call(g.p.eng.l.Pkgs[vxPath].Func("NewModelErr"), []Value{err.Error(), Slice(nil)}, nil)}
				}
				return Tuple{out, Iface{}}
			}
			if b := wholeBlock(strElems(s)); b != nil && b.kind == kind {
				in, ok := b.in.([]Value)
				if ok {
					return Tuple{append(Slice{}, in...), Iface{}}
				}
			}
			unsup("%s of unknown text", fn)
			return nil
		}
	}
	intrinsics["(*encoding/base64.Encoding).DecodeString"] = decode("base64", base64.StdEncoding.DecodeString)
	intrinsics["encoding/hex.DecodeString"] = decode("hex", hex.DecodeString)
	// errors.As: does the error's dynamic type fit the target; if so it is stored
	vxIntr["asTarget"] = func(g *G, fn *ssa.Function, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		if t.T == nil {
			g.panicStr("errors: target cannot be nil")
		}
		pt, ok := under(t.T).(*types.Pointer)
		if !ok {
			g.panicStr("errors: target must be a non-nil pointer")
		}
		pv := deref(g, t.V)
		if it, ok := under(pt.Elem()).(*types.Interface); ok {
			if types.Implements(e.T, it) {
				*pv = e
				return true
			}
			return false
		}
		if types.Identical(e.T, pt.Elem()) {
			storeInto(pv, copyVal(e.V))
			return true
		}
		return false
	}
	vxIntr["typeName"] = func(g *G, fn *ssa.Function, a []Value) Value {
		it := a[0].(Iface)
		return types.TypeString(it.T, func(p *types.Package) string { return p.Name() })
	}
	vxIntr["typeID"] = func(g *G, fn *ssa.Function, a []Value) Value {
		return types.TypeString(a[0].(Iface).T, nil)
	}
	sprintln := func(g *G, args Slice) []Value {
		var out []Value
		for i, x := range args {
			if i > 0 {
				out = append(out, uint64(' '))
			}
			out = append(out, strElems(g.fmtArg('v', "", x.(Iface)))...)
		}
		return append(out, uint64('\n'))
	}
	sprint := func(g *G, args Slice) []Value {
		var out []Value
		prevStr := true
		for i, x := range args {
			it := x.(Iface)
			isS := false
			if it.T != nil {
				b, ok := under(it.T).(*types.Basic)
				isS = ok && b.Kind() == types.String
			}
			if i > 0 && !isS && !prevStr {
				out = append(out, uint64(' '))
			}
			out = append(out, strElems(g.fmtArg('v', "", it))...)
			prevStr = isS
		}
		return out
	}
	write := func(g *G, w Value, es []Value) Value {
		it := w.(Iface)
		if it.T == nil {
			g.panicStr("invalid memory address or nil pointer dereference")
		}
		if it.T.String() == "*os.File" {
			return Tuple{uint64(len(es)), Iface{}}
		}
		m := g.p.w.eng.l.Prog.LookupMethod(it.T, nil, "Write")
		return g.call(m, []Value{it.V, append(Slice{}, es...)}, nil)
	}
	intrinsics["fmt.Sprint"] = func(g *G, fn *ssa.Function, a []Value) Value { return mkStr(sprint(g, a[0].(Slice))) }
	intrinsics["fmt.Sprintln"] = func(g *G, fn *ssa.Function, a []Value) Value { return mkStr(sprintln(g, a[0].(Slice))) }
	intrinsics["fmt.Fprintln"] = func(g *G, fn *ssa.Function, a []Value) Value {
		return write(g, a[0], sprintln(g, a[1].(Slice)))
	}
	intrinsics["fmt.Fprint"] = func(g *G, fn *ssa.Function, a []Value) Value {
		return write(g, a[0], sprint(g, a[1].(Slice)))
	}
	intrinsics["fmt.Fprintf"] = func(g *G, fn *ssa.Function, a []Value) Value {
		return write(g, a[0], strElems(g.format(a[1], a[2].(Slice))))
	}
	intrinsics["fmt.Appendf"] = func(g *G, fn *ssa.Function, a []Value) Value {
		s := a[0].(Slice)
		return append(s[:len(s):len(s)], strElems(g.format(a[1], a[2].(Slice)))...)
	}
	intrinsics["fmt.Append"] = func(g *G, fn *ssa.Function, a []Value) Value {
		s := a[0].(Slice)
		return append(s[:len(s):len(s)], sprint(g, a[1].(Slice))...)
	}
	intrinsics["os.Getenv"] = func(g *G, fn *ssa.Function, a []Value) Value { return "" }
	intrinsics["os.LookupEnv"] = func(g *G, fn *ssa.Function, a []Value) Value { return Tuple{"", false} }
	intrinsics["runtime.NumGoroutine"] = func(g *G, fn *ssa.Function, a []Value) Value { return uint64(1) }
	intrinsics["runtime.NumCPU"] = func(g *G, fn *ssa.Function, a []Value) Value { return uint64(4) }
	intrinsics["runtime.GOMAXPROCS"] = func(g *G, fn *ssa.Function, a []Value) Value { return uint64(4) }
	intrinsics["time.Sleep"] = func(g *G, fn *ssa.Function, a []Value) Value { g.yieldTo(true); return nil }
	intrinsics["time.Now"] = func(g *G, fn *ssa.Function, a []Value) Value {
		u := g.p.eng.l.Prog.ImportedPackage("time")
		return g.call(u.Func("Unix"), []Value{g.p.now(), uint64(0)}, nil)
	}
	intrinsics["(time.Time).Format"] = func(g *G, fn *ssa.Function, a []Value) Value {
		b := g.p.newBlock("timetext:"+str(a[1]), 20, copyVal(a[0]), fn.Signature.Recv().Type())
		return mkStr(blockElems(b))
	}
	// sync.OnceValue and OnceValues
	once := func(g *G, fn *ssa.Function, a []Value) Value {
		f := a[0]
		done := false
		var r Value
		return &Closure{Native: func(g *G, _ []Value) Value {
			if !done {
				r = g.callValue(f, nil)
				done = true
			}
			return copyVal(r)
		}}
	}
	intrinsics["sync.OnceValue"] = once
	intrinsics["sync.OnceValues"] = once
	// atomics
	width := func(k string) int {
		if strings.HasSuffix(k, "32") {
			return 32
		}
		return 64
	}
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		w := width(k)
		intrinsics["(*sync/atomic."+k+").Swap"] = atomicField(func(p *Path, s Struct, i int, a []Value) Value {
			o := s[i]
			s[i] = a[1]
			return o
		})
		intrinsics["(*sync/atomic."+k+").CompareAndSwap"] = atomicField(func(p *Path, s Struct, i int, a []Value) Value {
			if p.Branch(p.ctx.Eq(p.term(s[i], w), p.term(a[1], w))) {
				s[i] = a[2]
				return true
			}
			return false
		})
		intrinsics["sync/atomic.Load"+k] = func(g *G, fn *ssa.Function, a []Value) Value { return *deref(g, a[0]) }
		intrinsics["sync/atomic.Store"+k] = func(g *G, fn *ssa.Function, a []Value) Value { *deref(g, a[0]) = a[1]; return nil }
		intrinsics["sync/atomic.Add"+k] = func(g *G, fn *ssa.Function, a []Value) Value {
			pv := deref(g, a[0])
			*pv = g.p.norm(g.p.ctx.Bin(OBvAdd, g.p.term(*pv, w), g.p.term(a[1], w)))
			return *pv
		}
		intrinsics["sync/atomic.Swap"+k] = func(g *G, fn *ssa.Function, a []Value) Value {
			pv := deref(g, a[0])
			o := *pv
			*pv = a[1]
			return o
		}
		intrinsics["sync/atomic.CompareAndSwap"+k] = func(g *G, fn *ssa.Function, a []Value) Value {
			pv := deref(g, a[0])
			if g.p.Branch(g.p.ctx.Eq(g.p.term(*pv, w), g.p.term(a[1], w))) {
				*pv = a[2]
				return true
			}
			return false
		}
	}
	// atomic.Bool keeps 0 or 1, atomic.Pointer its pointer
	b2i := func(p *Path, v Value) Value {
		return p.norm(p.ctx.Ite(p.term(v, 0), p.ctx.Const(1, 32), p.ctx.Const(0, 32)))
	}
	i2b := func(p *Path, v Value) Value { return p.norm(p.ctx.Not(p.ctx.Eq(p.term(v, 32), p.ctx.Const(0, 32)))) }
	intrinsics["(*sync/atomic.Bool).Load"] = atomicField(func(p *Path, s Struct, i int, a []Value) Value { return i2b(p, s[i]) })
	intrinsics["(*sync/atomic.Bool).Store"] = atomicField(func(p *Path, s Struct, i int, a []Value) Value { s[i] = b2i(p, a[1]); return nil })
	intrinsics["(*sync/atomic.Bool).Swap"] = atomicField(func(p *Path, s Struct, i int, a []Value) Value {
		o := i2b(p, s[i])
		s[i] = b2i(p, a[1])
		return o
	})
	intrinsics["(*sync/atomic.Bool).CompareAndSwap"] = atomicField(func(p *Path, s Struct, i int, a []Value) Value {
		if p.Branch(p.ctx.Eq(p.term(i2b(p, s[i]), 0), p.term(a[1], 0))) {
			s[i] = b2i(p, a[2])
			return true
		}
		return false
	})
	intrinsics["(*sync/atomic.Pointer).Load"] = atomicPtr(func(s *Value, a []Value) Value { return *s })
	intrinsics["(*sync/atomic.Pointer).Store"] = atomicPtr(func(s *Value, a []Value) Value { *s = a[1]; return nil })
	intrinsics["(*sync/atomic.Pointer).Swap"] = atomicPtr(func(s *Value, a []Value) Value { o := *s; *s = a[1]; return o })
	intrinsics["(*sync/atomic.Pointer).CompareAndSwap"] = atomicPtr(func(s *Value, a []Value) Value {
		if *s == a[1] {
			*s = a[2]
			return true
		}
		return false
	})
}

func atomicPtr(f func(s *Value, a []Value) Value) intrinsic {
	return func(g *G, fn *ssa.Function, a []Value) Value {
		s := (*deref(g, a[0])).(Struct)
		i := len(s) - 1
		if pv, ok := s[i].(*Value); !ok || pv == nil {
			s[i] = (*Value)(nil)
		}
		return f(&s[i], a)
	}
}
