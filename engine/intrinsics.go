package main

// Models of the functions whose bodies are not interpreted, and the harness primitives.

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(g *G, fn *ssa.Function, args []Value) Value

type fnInfo struct {
	intr intrinsic
	over *ssa.Function
}

const vxPath = modPath + "/internal/zzvx"

func (w *Worker) info(fn *ssa.Function) *fnInfo {
	if fi, ok := w.finfo[fn]; ok {
		return fi
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	name := o.String()
	if i, j := strings.IndexByte(name, '['), strings.IndexByte(name, ']'); i > 0 && j > i && strings.HasPrefix(name, "(*sync/atomic.") {
		name = name[:i] + name[j+1:]
	}
	fi := &fnInfo{}
	if in, ok := intrinsics[name]; ok {
		fi.intr = in
	} else if m, ok := overrides[name]; ok {
		pkg := vxPath
		if h, ok := strings.CutPrefix(m, "harness."); ok {
			pkg, m = modPath+"/internal/zzharness", h
		}
		fi.over = w.eng.l.Pkgs[pkg].Func(m)
		if fi.over == nil {
			panic("no override " + m)
		}
	} else if o.Pkg != nil && o.Pkg.Pkg.Path() == vxPath {
		if in, ok := vxIntr[o.Name()]; ok && o.Signature.Recv() == nil {
			fi.intr = in
		}
	} else if en := enumString(fn); en != nil {
		fi.intr = en
	} else if fn.Blocks == nil {
		if p := pkgPathOf(fn); strings.HasPrefix(p, "go.uber.org/zap") || p == "log" {
			fi.intr = func(g *G, fn *ssa.Function, args []Value) Value { return zeroResult(fn) }
		}
	}
	w.finfo[fn] = fi
	return fi
}

// enumString models the generated String method of a protobuf enumeration.
func enumString(fn *ssa.Function) intrinsic {
	if fn.Name() != "String" || fn.Signature.Recv() == nil {
		return nil
	}
	nt, ok := fn.Signature.Recv().Type().(*types.Named)
	if !ok || nt.Obj().Pkg() == nil {
		return nil
	}
	if b, ok := nt.Underlying().(*types.Basic); !ok || b.Kind() != types.Int32 {
		return nil
	}
	isEnum := false
	for i := 0; i < nt.NumMethods(); i++ {
		isEnum = isEnum || nt.Method(i).Name() == "EnumDescriptor"
	}
	if !isEnum {
		return nil
	}
	names := map[int64]string{}
	sc := nt.Obj().Pkg().Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), nt) {
			if v, ok := constant.Int64Val(c.Val()); ok {
				short := strings.TrimPrefix(n, nt.Obj().Name()+"_")
				if i := strings.LastIndex(nt.Obj().Name(), "_"); i >= 0 {
					short = strings.TrimPrefix(n, nt.Obj().Name()[:i+1])
				}
				names[v] = short
			}
		}
	}
	return func(g *G, fn *ssa.Function, a []Value) Value {
		v := int64(int32(signedInt(g.p.Concretize(a[0]))))
		if n, ok := names[v]; ok {
			return n
		}
		return strconv.FormatInt(v, 10)
	}
}

func pkgPathOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func zeroResult(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return zero(rs.At(0).Type())
	}
	return zero(rs)
}

// functions replaced by Go models in the harness support package
var overrides = map[string]string{
	"errors.Is":                                     "ErrorsIs",
	"crypto/sha256.New":                             "ModelSHA256",
	"internal/bytealg.IndexByte":                    "BAIndexByte",
	"internal/bytealg.IndexByteString":              "BAIndexByteString",
	"internal/bytealg.LastIndexByte":                "BALastIndexByte",
	"internal/bytealg.LastIndexByteString":          "BALastIndexByteString",
	"internal/bytealg.Count":                        "BACount",
	"internal/bytealg.CountString":                  "BACountString",
	"internal/bytealg.Index":                        "BAIndex",
	"internal/bytealg.IndexString":                  "BAIndexString",
	"strings.Index":                                 "BAIndexString",
	"internal/stringslite.Index":                    "BAIndexString",
	"bytes.Index":                                   "BAIndex",
	"sort.Slice":                                    "SortSlice",
	"sort.SliceStable":                              "SortSlice",
	"sort.Strings":                                  "SortStrings",
	"sort.Sort":                                     "SortSort",
	"sort.Stable":                                   "SortSort",
	"github.com/awalterschulze/gographviz.NewGraph": "GVNewGraph",
	"(*github.com/awalterschulze/gographviz.Graph).SetDir":    "GVSetDir",
	"(*github.com/awalterschulze/gographviz.Graph).SetName":   "GVSetName",
	"(*github.com/awalterschulze/gographviz.Graph).SetStrict": "GVSetStrict",
	"(*github.com/awalterschulze/gographviz.Graph).AddNode":   "GVAddNode",
	"(*github.com/awalterschulze/gographviz.Graph).AddEdge":   "GVAddEdge",
	"(*github.com/awalterschulze/gographviz.Graph).String":    "GVString",
}

func str(v Value) string {
	s, ok := v.(string)
	if !ok {
		unsup("symbolic string where a constant is needed: %s", show(v))
	}
	return s
}

func (p *Path) inputName(n string) string {
	k := p.names[n]
	p.names[n]++
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, k)
}

func widthFor(span uint64) int {
	w := 1
	for mask(w) < span {
		w++
	}
	return w
}

func signedInt(v Value) int64 { return int64(v.(uint64)) }

var vxIntr map[string]intrinsic
var intrinsics map[string]intrinsic

func init() {
	vxIntr = map[string]intrinsic{
		"Symbolic": func(g *G, fn *ssa.Function, a []Value) Value { return true },
		"Int": func(g *G, fn *ssa.Function, a []Value) Value {
			p := g.p
			lo, hi := signedInt(a[1]), signedInt(a[2])
			name := p.inputName(str(a[0]))
			var v Value
			if lo == hi {
				v = uint64(lo)
			} else {
				span := uint64(hi - lo)
				t := p.newVar(name, widthFor(span), 0, span)
				v = p.norm(p.ctx.Bin(OBvAdd, p.ctx.Zext(t, 64), p.ctx.Const(uint64(lo), 64)))
			}
			p.inputs = append(p.inputs, &inputRec{Name: name, Kind: "int", val: v})
			return v
		},
		"Int64": func(g *G, fn *ssa.Function, a []Value) Value {
			p := g.p
			name := p.inputName(str(a[0]))
			v := p.newVar(name, 64, 0, mask(64))
			p.inputs = append(p.inputs, &inputRec{Name: name, Kind: "int", val: v})
			return v
		},
		"Bool": func(g *G, fn *ssa.Function, a []Value) Value {
			p := g.p
			name := p.inputName(str(a[0]))
			t := p.newVar(name, 1, 0, 1)
			v := p.norm(p.ctx.Eq(t, p.ctx.Const(1, 1)))
			p.inputs = append(p.inputs, &inputRec{Name: name, Kind: "bool", val: v})
			return v
		},
		"String": func(g *G, fn *ssa.Function, a []Value) Value {
			return g.p.symString(str(a[0]), int(signedInt(a[1])), int(signedInt(a[2])), "")
		},
		"StringOf": func(g *G, fn *ssa.Function, a []Value) Value {
			return g.p.symString(str(a[0]), int(signedInt(a[1])), int(signedInt(a[2])), str(a[3]))
		},
		"Assume": func(g *G, fn *ssa.Function, a []Value) Value { g.p.Assume(a[0]); return nil },
		"Assert": func(g *G, fn *ssa.Function, a []Value) Value {
			g.p.Assert(a[0], g.p.plain(a[1]))
			return nil
		},
		"Finding": func(g *G, fn *ssa.Function, a []Value) Value {
			g.p.Finding(str(a[0]), a[1], g.p.plain(a[2]))
			return nil
		},
		"Reach": func(g *G, fn *ssa.Function, a []Value) Value { g.p.reached[str(a[0])] = true; return nil },
		"Observe": func(g *G, fn *ssa.Function, a []Value) Value {
			g.p.obs = append(g.p.obs, obsRec{str(a[0]), a[1]})
			return nil
		},
		"Param": func(g *G, fn *ssa.Function, a []Value) Value {
			n := str(a[0])
			v := a[1]
			if g.p.eng.opt.Thorough {
				v = a[2]
			}
			if o, ok := g.p.eng.opt.Params[n]; ok {
				v = uint64(o)
			}
			g.p.eng.noteParam(n, int64(v.(uint64)))
			return v
		},
		"And": func(g *G, fn *ssa.Function, a []Value) Value {
			r := g.p.ctx.True
			for _, x := range a[0].(Slice) {
				r = g.p.ctx.And(r, g.p.simp(g.p.term(x, 0)))
			}
			return g.p.norm(r)
		},
		"Or": func(g *G, fn *ssa.Function, a []Value) Value {
			r := g.p.ctx.False
			for _, x := range a[0].(Slice) {
				r = g.p.ctx.Or(r, g.p.simp(g.p.term(x, 0)))
			}
			return g.p.norm(r)
		},
		"Implies": func(g *G, fn *ssa.Function, a []Value) Value {
			return g.p.norm(g.p.ctx.Or(g.p.ctx.Not(g.p.term(a[0], 0)), g.p.term(a[1], 0)))
		},
		"Iff": func(g *G, fn *ssa.Function, a []Value) Value {
			return g.p.norm(g.p.ctx.Eq(g.p.term(a[0], 0), g.p.term(a[1], 0)))
		},
		"IteInt": func(g *G, fn *ssa.Function, a []Value) Value {
			return g.p.norm(g.p.ctx.Ite(g.p.term(a[0], 0), g.p.term(a[1], 64), g.p.term(a[2], 64)))
		},
		"StrEq": func(g *G, fn *ssa.Function, a []Value) Value {
			return g.p.norm(g.p.simp(g.p.seqEq(strElems(a[0]), strElems(a[1]))))
		},
		"BytesEq": func(g *G, fn *ssa.Function, a []Value) Value {
			return g.p.norm(g.p.seqEq(a[0].(Slice), a[1].(Slice)))
		},
		"HasPrefix": func(g *G, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(Slice), a[1].(Slice)
			if len(x) < len(y) {
				return false
			}
			return g.p.norm(g.p.seqEq(x[:len(y)], y))
		},
		"CommonPrefixLen": func(g *G, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(Slice), a[1].(Slice)
			n := 0
			for n < len(x) && n < len(y) {
				if bx, ok := x[n].(*BlkByte); ok {
					by, ok := y[n].(*BlkByte)
					if !ok || bx.b != by.b || bx.i != by.i {
						break
					}
				} else if x[n] != y[n] {
					break
				}
				n++
			}
			// never split an opaque image
			for n > 0 {
				if b, ok := x[n-1].(*BlkByte); ok && b.i != b.b.n-1 {
					n--
					continue
				}
				break
			}
			return uint64(n)
		},
		"Concrete": func(g *G, fn *ssa.Function, a []Value) Value {
			es := strElems(a[0])
			out := make([]Value, len(es))
			for i, e := range es {
				out[i] = g.p.Concretize(e)
			}
			return mkStr(out)
		},
		"ConcreteInt": func(g *G, fn *ssa.Function, a []Value) Value { return g.p.Concretize(a[0]) },
		"MapPerm":     func(g *G, fn *ssa.Function, a []Value) Value { g.p.mapPerm = a[0].(bool); return nil },
		"HashFork":    func(g *G, fn *ssa.Function, a []Value) Value { g.p.hashFork = a[0].(bool); return nil },
		"Stop":        func(g *G, fn *ssa.Function, a []Value) Value { panic(abortPath{abStop, "stop"}) },
		"Received": func(g *G, fn *ssa.Function, a []Value) Value {
			it := a[0].(Iface)
			pv := it.V.(*Value)
			if pv != nil {
				g.p.touchDeep(pv, it.T)
			}
			return nil
		},
		"digest": func(g *G, fn *ssa.Function, a []Value) Value {
			es := append([]Value{}, a[0].(Slice)...)
			return Slice(blockElems(g.p.newBlock("sha256", 32, es, nil)))
		},
		"comparableDyn": func(g *G, fn *ssa.Function, a []Value) Value {
			it := a[0].(Iface)
			return it.T == nil || types.Comparable(it.T)
		},
		"swapElems": func(g *G, fn *ssa.Function, a []Value) Value {
			s := a[0].(Iface).V.(Slice)
			i, j := int(signedInt(a[1])), int(signedInt(a[2]))
			x, y := copyVal(s[i]), copyVal(s[j])
			storeInto(&s[i], y)
			storeInto(&s[j], x)
			return nil
		},
		"sliceLen": func(g *G, fn *ssa.Function, a []Value) Value { return uint64(len(a[0].(Iface).V.(Slice))) },
		"YamlDoc": func(g *G, fn *ssa.Function, a []Value) Value {
			it := a[0].(Iface)
			c := g.p.clone(it.V, it.T, false)
			b := g.p.newBlock("yaml", 8, c, it.T)
			return mkStr(blockElems(b))
		},
		"isBlock": func(g *G, fn *ssa.Function, a []Value) Value {
			b := wholeBlock(strElems(a[1]))
			return b != nil && b.kind == str(a[0])
		},
		"blockPayload": func(g *G, fn *ssa.Function, a []Value) Value {
			b := wholeBlock(strElems(a[0]))
			return Iface{T: b.typ, V: g.p.clone(b.in, b.typ, false)}
		},
		"jsonDoc": func(g *G, fn *ssa.Function, a []Value) Value {
			n := g.jsonBytes(strElems(a[0]))
			if n == nil {
				return (*Value)(nil)
			}
			return n
		},
		"opaque": func(g *G, fn *ssa.Function, a []Value) Value {
			it := a[1].(Iface)
			b := g.p.newBlock(str(a[0]), 16, it.V, it.T)
			return mkStr(blockElems(b))
		},
		"ThreadNew": func(g *G, fn *ssa.Function, a []Value) Value {
			p := g.p
			st := &threadState{}
			f := a[0]
			st.g = p.spawn(func(g *G) { g.callValue(f, nil) })
			st.g.ready = func() bool { return st.granted }
			p.threads = append(p.threads, st)
			return uint64(len(p.threads) - 1)
		},
		"ThreadRun": func(g *G, fn *ssa.Function, a []Value) Value {
			st := g.p.threads[signedInt(a[0])]
			st.granted, st.paused = true, false
			g.block(func() bool { return st.g.done || st.paused || st.g.ready != nil && !st.g.ready() })
			return nil
		},
		"ThreadPause": func(g *G, fn *ssa.Function, a []Value) Value {
			for _, st := range g.p.threads {
				if st.g == g {
					st.paused = true
					g.block(func() bool { return !st.paused })
				}
			}
			return nil
		},
		"ThreadJoin": func(g *G, fn *ssa.Function, a []Value) Value {
			st := g.p.threads[signedInt(a[0])]
			st.granted, st.paused = true, false
			g.block(func() bool { return st.g.done })
			return nil
		},
		"Leftover": func(g *G, fn *ssa.Function, a []Value) Value {
			others := func(f func(x *G) bool) (n uint64) {
				for _, x := range g.p.gs {
					if x != g && !x.done && f(x) {
						n++
					}
				}
				return
			}
			g.block(func() bool {
				return others(func(x *G) bool { return x.ready == nil || x.ready() }) == 0
			})
			return others(func(*G) bool { return true })
		},
		"Goexit": func(g *G, fn *ssa.Function, a []Value) Value { return nil },
	}

	intrinsics = map[string]intrinsic{
		"fmt.Sprintf": func(g *G, fn *ssa.Function, a []Value) Value { return g.format(a[0], a[1].(Slice)) },
		"fmt.Sprint": func(g *G, fn *ssa.Function, a []Value) Value {
			var out []Value
			for _, x := range a[0].(Slice) {
				out = append(out, strElems(g.fmtArg('v', "", x.(Iface)))...)
			}
			return mkStr(out)
		},
		"fmt.Errorf": func(g *G, fn *ssa.Function, a []Value) Value {
			args := a[1].(Slice)
			msg := g.format(a[0], args)
			var wrapped Slice
			if f, ok := a[0].(string); ok {
				for _, i := range wrapIdx(f) {
					if i < len(args) {
						if it := args[i].(Iface); it.T != nil {
							wrapped = append(wrapped, it)
						}
					}
				}
			}
			return g.call(g.p.eng.l.Pkgs[vxPath].Func("NewModelErr"), []Value{msg, wrapped}, nil)
		},
		"fmt.Println": func(g *G, fn *ssa.Function, a []Value) Value { return Tuple{uint64(0), Iface{}} },
		"fmt.Printf":  func(g *G, fn *ssa.Function, a []Value) Value { return Tuple{uint64(0), Iface{}} },
		"fmt.Print":   func(g *G, fn *ssa.Function, a []Value) Value { return Tuple{uint64(0), Iface{}} },
		"fmt.Fprintf": func(g *G, fn *ssa.Function, a []Value) Value {
			s := g.format(a[1], a[2].(Slice))
			it := a[0].(Iface)
			es := strElems(s)
			b := append(Slice{}, es...)
			m := g.p.w.eng.l.Prog.LookupMethod(it.T, nil, "Write")
			return g.call(m, []Value{it.V, b}, nil)
		},

		// unicode
		"unicode.IsLetter": ranges(unicode.Letter),
		"unicode.IsDigit":  ranges(unicode.Digit),
		"unicode.IsSpace":  ranges(unicode.White_Space),
		"unicode.IsUpper":  ranges(unicode.Upper),
		"unicode.IsLower":  ranges(unicode.Lower),
		"unicode.IsNumber": ranges(unicode.Number),
		"unicode.IsPunct":  ranges(unicode.Punct),
		"unicode.Is": func(g *G, fn *ssa.Function, a []Value) Value {
			return ranges(rangeTable(a[0]))(g, fn, a[1:])
		},
		"unicode/utf8.DecodeRuneInString": func(g *G, fn *ssa.Function, a []Value) Value {
			r, n := g.decodeRune(strElems(a[0]))
			return Tuple{r, uint64(n)}
		},
		"unicode/utf8.DecodeRune": func(g *G, fn *ssa.Function, a []Value) Value {
			r, n := g.decodeRune(a[0].(Slice))
			return Tuple{r, uint64(n)}
		},
		"unicode/utf8.ValidString": func(g *G, fn *ssa.Function, a []Value) Value { return g.utf8Valid(strElems(a[0])) },
		"unicode/utf8.Valid":       func(g *G, fn *ssa.Function, a []Value) Value { return g.utf8Valid(a[0].(Slice)) },
		"unicode/utf8.RuneCountInString": func(g *G, fn *ssa.Function, a []Value) Value {
			return uint64(g.runeCount(strElems(a[0])))
		},
		"unicode/utf8.RuneCount": func(g *G, fn *ssa.Function, a []Value) Value { return uint64(g.runeCount(a[0].(Slice))) },
		"unicode/utf8.AppendRune": func(g *G, fn *ssa.Function, a []Value) Value {
			s := a[0].(Slice)
			return append(s[:len(s):len(s)], g.encodeRune(a[1])...)
		},
		"(*strings.Builder).copyCheck": nopIntr,
		"(*strings.Builder).WriteRune": func(g *G, fn *ssa.Function, a []Value) Value {
			st := (*deref(g, a[0])).(Struct)
			i := sbBuf(fn)
			b := g.encodeRune(a[1])
			s := st[i].(Slice)
			st[i] = append(s[:len(s):len(s)], b...)
			return Tuple{uint64(len(b)), Iface{}}
		},
		"(*strings.Builder).String": func(g *G, fn *ssa.Function, a []Value) Value {
			st := (*deref(g, a[0])).(Struct)
			s := st[sbBuf(fn)].(Slice)
			return mkStr(append([]Value{}, s...))
		},
		"internal/bytealg.MakeNoZero": func(g *G, fn *ssa.Function, a []Value) Value {
			n := int(g.p.Concretize(a[0]))
			s := make(Slice, n)
			for i := range s {
				s[i] = uint64(0)
			}
			return s
		},
		"internal/bytealg.Equal": func(g *G, fn *ssa.Function, a []Value) Value {
			return g.p.norm(g.p.seqEq(a[0].(Slice), a[1].(Slice)))
		},
		"bytes.Equal": func(g *G, fn *ssa.Function, a []Value) Value {
			return g.p.norm(g.p.seqEq(a[0].(Slice), a[1].(Slice)))
		},
		"bytes.HasPrefix": func(g *G, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(Slice), a[1].(Slice)
			return len(x) >= len(y) && g.p.Branch(g.p.seqEq(x[:len(y)], y))
		},
		"strings.HasPrefix": func(g *G, fn *ssa.Function, a []Value) Value {
			x, y := strElems(a[0]), strElems(a[1])
			return len(x) >= len(y) && g.p.Branch(g.p.seqEq(x[:len(y)], y))
		},
		"bytes.Compare": func(g *G, fn *ssa.Function, a []Value) Value {
			return uint64(int64(g.p.seqCompare(a[0].(Slice), a[1].(Slice))))
		},
		"internal/bytealg.Compare": func(g *G, fn *ssa.Function, a []Value) Value {
			return uint64(int64(g.p.seqCompare(a[0].(Slice), a[1].(Slice))))
		},
		"internal/bytealg.CompareString": func(g *G, fn *ssa.Function, a []Value) Value {
			return uint64(int64(g.p.seqCompare(strElems(a[0]), strElems(a[1]))))
		},
		"strings.Compare": func(g *G, fn *ssa.Function, a []Value) Value {
			return uint64(int64(g.p.seqCompare(strElems(a[0]), strElems(a[1]))))
		},
		"(*strings.Replacer).Replace": func(g *G, fn *ssa.Function, a []Value) Value {
			st := (*deref(g, a[0])).(Struct)
			i := fieldNamed(fn, "oldnew")
			return g.call(g.p.eng.l.Pkgs[vxPath].Func("ReplaceWith"), []Value{st[i], a[1]}, nil)
		},
		"strings.Clone": func(g *G, fn *ssa.Function, a []Value) Value { return a[0] },

		// digests and encodings
		"crypto/sha256.Sum256": func(g *G, fn *ssa.Function, a []Value) Value {
			es := append([]Value{}, a[0].(Slice)...)
			return Array(blockElems(g.p.newBlock("sha256", 32, es, nil)))
		},
		"(*encoding/base64.Encoding).EncodeToString": func(g *G, fn *ssa.Function, a []Value) Value {
			return g.p.encodeBytes("base64", a[1].(Slice), base64.StdEncoding.EncodeToString)
		},
		"encoding/hex.EncodeToString": func(g *G, fn *ssa.Function, a []Value) Value {
			return g.p.encodeBytes("hex", a[0].(Slice), hex.EncodeToString)
		},

		// protobuf
		"google.golang.org/protobuf/proto.Marshal":   protoMarshal,
		"google.golang.org/protobuf/proto.Unmarshal": protoUnmarshal,
		"google.golang.org/protobuf/proto.Equal": func(g *G, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(Iface), a[1].(Iface)
			if x.T == nil || y.T == nil {
				return x.T == nil && y.T == nil
			}
			if !types.Identical(x.T, y.T) {
				return false
			}
			g.p.touchDeep(x.V.(*Value), x.T)
			g.p.touchDeep(y.V.(*Value), y.T)
			return g.p.norm(g.p.deepEq(x.V, y.V, x.T, eqProto))
		},
		"google.golang.org/protobuf/proto.Clone": func(g *G, fn *ssa.Function, a []Value) Value {
			x := a[0].(Iface)
			if x.T == nil {
				return x
			}
			g.p.touchDeep(x.V.(*Value), x.T)
			v := g.p.clone(x.V, x.T, true)
			if pv, ok := v.(*Value); ok && pv != nil {
				g.p.touchDeep(pv, x.T)
			}
			return Iface{x.T, v}
		},
		"(google.golang.org/protobuf/internal/impl.Export).MessageStringOf": func(g *G, fn *ssa.Function, a []Value) Value {
			x := a[1].(Iface)
			if pv, ok := x.V.(*Value); ok && pv != nil {
				g.p.touchDeep(pv, x.T)
			}
			b := g.p.newBlock("prototext:"+x.T.String(), 16, g.p.clone(x.V, x.T, true), x.T)
			return mkStr(blockElems(b))
		},
		"(google.golang.org/protobuf/internal/impl.Export).EnumStringOf": func(g *G, fn *ssa.Function, a []Value) Value {
			return g.fmtInt(a[2], 32, true)
		},
		"google.golang.org/protobuf/types/known/timestamppb.Now": func(g *G, fn *ssa.Function, a []Value) Value {
			p := g.p
			sec := p.now()
			t := fn.Signature.Results().At(0).Type()
			et := t.(*types.Pointer).Elem()
			s := zero(et).(Struct)
			st := under(et).(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "Seconds" {
					s[i] = sec
				}
			}
			c := new(Value)
			*c = s
			return c
		},
		"reflect.DeepEqual": func(g *G, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(Iface), a[1].(Iface)
			return g.p.norm(g.p.deepEq(x, y, nil, eqReflect))
		},
		"github.com/davecgh/go-spew/spew.Sdump": func(g *G, fn *ssa.Function, a []Value) Value {
			return "<dump>"
		},
		"gopkg.in/yaml.v3.NewDecoder": func(g *G, fn *ssa.Function, a []Value) Value {
			c := new(Value)
			*c = Struct{a[0], false}
			return c
		},
		"(*gopkg.in/yaml.v3.Decoder).KnownFields": func(g *G, fn *ssa.Function, a []Value) Value {
			(*deref(g, a[0])).(Struct)[1] = a[1]
			return nil
		},
		"(*gopkg.in/yaml.v3.Decoder).Decode": func(g *G, fn *ssa.Function, a []Value) Value {
			rd := (*deref(g, a[0])).(Struct)[0].(Iface)
			// the reader is drained through its own Read method (strings.Reader / bytes.Reader)
			m := g.p.eng.l.Prog.LookupMethod(rd.T, nil, "Read")
			var all []Value
			for i := 0; i < 64; i++ {
				buf := make(Slice, 256)
				for k := range buf {
					buf[k] = uint64(0)
				}
				r := g.call(m, []Value{rd.V, buf}, nil).(Tuple)
				n := int(g.p.Concretize(r[0]))
				all = append(all, buf[:n]...)
				if r[1].(Iface).T != nil || n == 0 {
					break
				}
			}
			return g.yamlDecode(all, a[1].(Iface))
		},
		"gopkg.in/yaml.v3.Unmarshal": func(g *G, fn *ssa.Function, a []Value) Value {
			return g.yamlDecode(a[0].(Slice), a[1].(Iface))
		},

		// time
		"time.Now": func(g *G, fn *ssa.Function, a []Value) Value {
			unsup("time.Now")
			return nil
		},
		// sync
		"(*sync.Mutex).Lock":      mutexLock,
		"(*sync.Mutex).TryLock":   mutexTryLock,
		"(*sync.Mutex).Unlock":    mutexUnlock,
		"(*sync.RWMutex).Lock":    mutexLock,
		"(*sync.RWMutex).Unlock":  mutexUnlock,
		"(*sync.RWMutex).RLock":   rLock,
		"(*sync.RWMutex).RUnlock": rUnlock,
		"(*sync.RWMutex).TryLock": mutexTryLock,
		"(*sync.RWMutex).TryRLock": func(g *G, fn *ssa.Function, a []Value) Value {
			s := g.p.syncOf(a[0])
			if s.n != 0 || s.w != 0 {
				return false
			}
			s.r++
			return true
		},
		"(*sync.Once).Do": func(g *G, fn *ssa.Function, a []Value) Value {
			s := g.p.syncOf(a[0])
			if s.n > 0 {
				return nil
			}
			s.n = 1
			g.callValue(a[1], nil)
			return nil
		},
		"(*sync.WaitGroup).Add": func(g *G, fn *ssa.Function, a []Value) Value {
			g.p.syncOf(a[0]).n += int(signedInt(a[1]))
			return nil
		},
		"(*sync.WaitGroup).Done": func(g *G, fn *ssa.Function, a []Value) Value { g.p.syncOf(a[0]).n--; return nil },
		"(*sync.WaitGroup).Wait": func(g *G, fn *ssa.Function, a []Value) Value {
			s := g.p.syncOf(a[0])
			g.block(func() bool { return s.n <= 0 })
			return nil
		},
		"runtime.Gosched": func(g *G, fn *ssa.Function, a []Value) Value { g.yieldTo(true); return nil },
		"runtime.GC":      nopIntr,
		"os.Exit": func(g *G, fn *ssa.Function, a []Value) Value {
			panic(targetPanic{v: Iface{T: g.p.eng.runtimeErrType, V: "os.Exit"}, msg: "os.Exit" + g.where()})
		},
	}
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		kk := k
		intrinsics["(*sync/atomic."+kk+").Load"] = atomicField(func(p *Path, s Struct, i int, a []Value) Value { return s[i] })
		intrinsics["(*sync/atomic."+kk+").Store"] = atomicField(func(p *Path, s Struct, i int, a []Value) Value { s[i] = a[1]; return nil })
		intrinsics["(*sync/atomic."+kk+").Add"] = atomicField(func(p *Path, s Struct, i int, a []Value) Value {
			w := 64
			if strings.HasSuffix(kk, "32") {
				w = 32
			}
			s[i] = p.norm(p.ctx.Bin(OBvAdd, p.term(s[i], w), p.term(a[1], w)))
			return s[i]
		})
	}
}

func nopIntr(g *G, fn *ssa.Function, a []Value) Value { return zeroResult(fn) }

func fieldNamed(fn *ssa.Function, name string) int {
	st := under(fn.Signature.Recv().Type().(*types.Pointer).Elem()).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	unsup("no field %s in %s", name, fn)
	return 0
}

func sbBuf(fn *ssa.Function) int {
	st := under(fn.Signature.Recv().Type().(*types.Pointer).Elem()).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "buf" {
			return i
		}
	}
	return 1
}

func atomicField(f func(p *Path, s Struct, i int, a []Value) Value) intrinsic {
	return func(g *G, fn *ssa.Function, a []Value) Value {
		st := under(fn.Signature.Recv().Type().(*types.Pointer).Elem()).(*types.Struct)
		s := (*deref(g, a[0])).(Struct)
		return f(g.p, s, st.NumFields()-1, a)
	}
}

type syncState struct {
	w    int // waiting writers
	n, r int
	own  *G
}

func (p *Path) syncOf(v Value) *syncState {
	pv := v.(*Value)
	s := p.sync[pv]
	if s == nil {
		s = &syncState{}
		p.sync[pv] = s
	}
	return s
}

type threadState struct {
	g               *G
	granted, paused bool
}

func mutexLock(g *G, fn *ssa.Function, a []Value) Value {
	deref(g, a[0])
	s := g.p.syncOf(a[0])
	s.w++
	g.block(func() bool { return s.n == 0 && s.r == 0 })
	s.w--
	s.n = 1
	return nil
}
func mutexTryLock(g *G, fn *ssa.Function, a []Value) Value {
	s := g.p.syncOf(a[0])
	if s.n != 0 || s.r != 0 {
		return false
	}
	s.n = 1
	return true
}
func mutexUnlock(g *G, fn *ssa.Function, a []Value) Value {
	s := g.p.syncOf(a[0])
	if s.n == 0 {
		panic(targetPanic{v: Iface{T: g.p.eng.runtimeErrType, V: "sync: unlock of unlocked mutex"}, msg: "unlock of unlocked mutex" + g.where()})
	}
	s.n = 0
	return nil
}
func rLock(g *G, fn *ssa.Function, a []Value) Value {
	s := g.p.syncOf(a[0])
	// a waiting writer goes first
	g.block(func() bool { return s.n == 0 && s.w == 0 })
	s.r++
	return nil
}
func rUnlock(g *G, fn *ssa.Function, a []Value) Value {
	s := g.p.syncOf(a[0])
	if s.r == 0 {
		panic(targetPanic{v: Iface{T: g.p.eng.runtimeErrType, V: "sync: RUnlock of unlocked RWMutex"}, msg: "RUnlock of unlocked RWMutex" + g.where()})
	}
	s.r--
	return nil
}

// plain renders a message string; symbolic parts are evaluated in the current model.
func (p *Path) plain(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	var sb strings.Builder
	for _, e := range strElems(v) {
		switch x := e.(type) {
		case uint64:
			sb.WriteByte(byte(x))
		case *Term:
			sb.WriteByte(byte(p.ctx.Eval(x, p.model)))
		default:
			sb.WriteByte('#')
		}
	}
	return sb.String()
}

func (p *Path) symString(base string, min, max int, alpha string) Value {
	name := p.inputName(base)
	n := min
	if max > min {
		n = min + p.Choose(max-min+1)
	}
	es := make([]Value, n)
	lo, hi := uint64(0), uint64(255)
	contiguous := true
	if alpha != "" {
		bs := []byte(alpha)
		sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
		lo, hi = uint64(bs[0]), uint64(bs[len(bs)-1])
		contiguous = int(hi-lo)+1 == len(bs)
	}
	for i := range es {
		if lo == hi {
			es[i] = lo
			continue
		}
		// a variable per position, shared by the lengths
		suffix := ""
		if !contiguous {
			suffix = "~" + strconv.Itoa(len(alpha))
		}
		t := p.newVar(fmt.Sprintf("%s[%d]%s", name, i, suffix), 8, lo, hi)
		es[i] = t
		if !contiguous {
			var or []*Term
			for k := 0; k < len(alpha); k++ {
				or = append(or, p.ctx.Eq(t, p.ctx.Const(uint64(alpha[k]), 8)))
			}
			p.Assume(p.ctx.Or(or...))
		}
	}
	v := mkStr(es)
	p.inputs = append(p.inputs, &inputRec{Name: name, Kind: "str", val: v, min: min})
	return v
}

func (p *Path) now() Value {
	k := len(p.clock)
	t := p.newVar(fmt.Sprintf("now!%d", k), 32, 1000000000, 2000000000)
	if k > 0 {
		p.Assume(p.ctx.Ule(p.clock[k-1], t))
	}
	p.clock = append(p.clock, t)
	return p.ctx.Zext(t, 64)
}

// ---- unicode ----

// rangeTable is the table v points to.
func rangeTable(v Value) *unicode.RangeTable {
	ptr, ok := v.(*Value)
	if !ok || ptr == nil {
		unsup("unicode.Is: table %T", v)
	}
	st, ok := (*ptr).(Struct)
	if !ok {
		unsup("unicode.Is: table %T", *ptr)
	}
	tab := &unicode.RangeTable{}
	num := func(v Value) uint64 {
		u, ok := v.(uint64)
		if !ok {
			unsup("unicode.Is: %T in a table", v)
		}
		return u
	}
	rows, ok := st[0].(Slice)
	if !ok && st[0] != nil {
		unsup("unicode.Is: ranges %T", st[0])
	}
	for _, r := range rows {
		x := r.(Struct)
		tab.R16 = append(tab.R16, unicode.Range16{Lo: uint16(num(x[0])), Hi: uint16(num(x[1])), Stride: uint16(num(x[2]))})
	}
	rows, ok = st[1].(Slice)
	if !ok && st[1] != nil {
		unsup("unicode.Is: ranges %T", st[1])
	}
	for _, r := range rows {
		x := r.(Struct)
		tab.R32 = append(tab.R32, unicode.Range32{Lo: uint32(num(x[0])), Hi: uint32(num(x[1])), Stride: uint32(num(x[2]))})
	}
	return tab
}

func ranges(tab *unicode.RangeTable) intrinsic {
	return func(g *G, fn *ssa.Function, a []Value) Value {
		if u, ok := a[0].(uint64); ok {
			return unicode.Is(tab, rune(int32(u)))
		}
		p := g.p
		c := p.ctx
		t := p.term(a[0], 32)
		_, h := c.urange(t)
		var or []*Term
		add := func(lo, hi, stride uint64) {
			if lo > h {
				return
			}
			if stride == 1 {
				or = append(or, c.And(c.Ule(c.Const(lo, 32), t), c.Ule(t, c.Const(hi, 32))))
				return
			}
			for v := lo; v <= hi && v <= h; v += stride {
				or = append(or, c.Eq(t, c.Const(v, 32)))
			}
		}
		for _, r := range tab.R16 {
			add(uint64(r.Lo), uint64(r.Hi), uint64(r.Stride))
		}
		for _, r := range tab.R32 {
			add(uint64(r.Lo), uint64(r.Hi), uint64(r.Stride))
		}
		return p.norm(c.Or(or...))
	}
}

func (g *G) ascii(e Value) bool {
	switch x := e.(type) {
	case uint64:
		return x < 0x80
	case *Term:
		_, h := g.p.ctx.urange(x)
		return h < 0x80
	case *BlkByte:
		return x.b.kind != "sha256" && x.b.kind != "pb"
	}
	return false
}

func (g *G) utf8Valid(es []Value) bool {
	for i := 0; i < len(es); {
		if g.ascii(es[i]) {
			i++
			continue
		}
		if _, ok := es[i].(*BlkByte); ok {
			return false // raw digests are taken as invalid text
		}
		r, n := g.decodeRune(es[i:])
		if u, ok := r.(uint64); ok && u == 0xFFFD && n == 1 {
			return false
		}
		i += n
	}
	return true
}

func (g *G) runeCount(es []Value) int {
	c := 0
	for i := 0; i < len(es); c++ {
		_, n := g.decodeRune(es[i:])
		i += n
	}
	return c
}

func (g *G) encodeRune(v Value) []Value {
	p := g.p
	if u, ok := v.(uint64); ok {
		return strElems(string(rune(int32(u))))
	}
	t := p.term(v, 32)
	if p.Branch(p.ctx.Ult(t, p.ctx.Const(0x80, 32))) {
		return []Value{p.norm(p.ctx.Extract(t, 8))}
	}
	c := p.ctx
	part := func(sh uint64, m, or uint64) Value {
		x := c.Bin(OBvLshr, t, c.Const(sh, 32))
		x = c.Bin(OBvOr, c.Bin(OBvAnd, x, c.Const(m, 32)), c.Const(or, 32))
		return p.norm(c.Extract(x, 8))
	}
	if p.Branch(c.Ult(t, c.Const(0x800, 32))) {
		return []Value{part(6, 0x1f, 0xc0), part(0, 0x3f, 0x80)}
	}
	bad := c.Or(c.And(c.Ule(c.Const(0xd800, 32), t), c.Ule(t, c.Const(0xdfff, 32))), c.Ult(c.Const(0x10ffff, 32), t))
	if p.Branch(bad) {
		return strElems("\uFFFD")
	}
	if p.Branch(c.Ult(t, c.Const(0x10000, 32))) {
		return []Value{part(12, 0xf, 0xe0), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)}
	}
	return []Value{part(18, 7, 0xf0), part(12, 0x3f, 0x80), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)}
}

// ---- encodings ----

func (p *Path) encodeBytes(kind string, s Slice, f func([]byte) string) Value {
	if c, ok := mkStr(append([]Value{}, s...)).(string); ok {
		return f([]byte(c))
	}
	n := 2 * len(s)
	if kind == "base64" {
		n = (len(s) + 2) / 3 * 4
	}
	b := p.newBlock(kind, n, append([]Value{}, s...), nil)
	return mkStr(blockElems(b))
}

// ---- messages ----

// touchDeep marks a message as seen by the protobuf runtime (its internal state word is set).
func (p *Path) touchDeep(pv *Value, t types.Type) {
	if pv == nil || t == nil {
		return
	}
	pt, ok := under(t).(*types.Pointer)
	if !ok || !isProtoStruct(pt.Elem()) {
		return
	}
	p.touched[pv] = true
	s, ok := (*pv).(Struct)
	if !ok {
		return
	}
	st := under(pt.Elem()).(*types.Struct)
	for i := range s {
		p.touchVal(s[i], st.Field(i).Type())
	}
}

func (p *Path) touchVal(v Value, t types.Type) {
	switch x := v.(type) {
	case *Value:
		if x != nil {
			p.touchDeep(x, t)
		}
	case Slice:
		for _, e := range x {
			if et := elemType(t); et != nil {
				p.touchVal(e, et)
			}
		}
	case Iface:
		if x.T == nil {
			return
		}
		if pv, ok := x.V.(*Value); ok && pv != nil {
			if s, ok := (*pv).(Struct); ok {
				st := under(x.T.(*types.Pointer).Elem()).(*types.Struct)
				for i := range s {
					p.touchVal(s[i], st.Field(i).Type())
				}
			}
		}
	}
}

// clone deep-copies a value; wire applies what an encode/decode round trip does to unset parts.
func (p *Path) clone(v Value, t types.Type, wire bool) Value {
	switch x := v.(type) {
	case *Value:
		if x == nil {
			return x
		}
		n := new(Value)
		*n = p.clone(*x, elemType(t), wire)
		return n
	case Struct:
		st := under(t).(*types.Struct)
		n := make(Struct, len(x))
		oneof := wire && len(x) == 1 && !isProtoStruct(t)
		for i := range x {
			ft := st.Field(i).Type()
			if nm := st.Field(i).Name(); isProtoStruct(t) && (nm == "state" || nm == "sizeCache" || nm == "unknownFields") {
				n[i] = zero(ft)
				continue
			}
			n[i] = p.clone(x[i], ft, wire)
			if pv, ok := n[i].(*Value); oneof && ok && pv == nil {
				c := new(Value)
				*c = zero(elemType(ft))
				n[i] = c
			}
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = p.clone(x[i], elemType(t), wire)
		}
		return n
	case Slice:
		if x == nil || (wire && len(x) == 0) {
			return Slice(nil)
		}
		n := make(Slice, len(x))
		for i := range x {
			n[i] = p.clone(x[i], elemType(t), wire)
			if pv, ok := n[i].(*Value); wire && ok && pv == nil {
				c := new(Value)
				*c = zero(elemType(elemType(t)))
				n[i] = c
			}
		}
		return n
	case Iface:
		if x.T == nil {
			return x
		}
		if pv, ok := x.V.(*Value); wire && ok && pv == nil {
			return Iface{}
		}
		return Iface{x.T, p.clone(x.V, x.T, wire)}
	case *MapV:
		if x == nil || (wire && x.nlive == 0) {
			return (*MapV)(nil)
		}
		n := &MapV{idx: map[any]*MapEntry{}}
		for _, e := range x.entries {
			if e.dead {
				continue
			}
			ne := &MapEntry{k: e.k, v: p.clone(e.v, elemType(t), wire)}
			n.entries = append(n.entries, ne)
			n.nlive++
			if ck, ok := ckey(e.k); ok {
				n.idx[ck] = ne
			} else {
				n.nsym++
			}
		}
		return n
	}
	return v
}

func (g *G) msgStringsValid(v Value, t types.Type) bool {
	switch x := v.(type) {
	case string, *SymStr:
		return g.utf8Valid(strElems(x))
	case *Value:
		if x == nil {
			return true
		}
		return g.msgStringsValid(*x, elemType(t))
	case Struct:
		st := under(t).(*types.Struct)
		for i := range x {
			if isProtoStruct(t) && i < 3 {
				continue
			}
			if !g.msgStringsValid(x[i], st.Field(i).Type()) {
				return false
			}
		}
	case Slice:
		if w, _, ok := intInfo(elemType(t)); ok && w == 8 {
			return true
		}
		for _, e := range x {
			if !g.msgStringsValid(e, elemType(t)) {
				return false
			}
		}
	case Iface:
		if x.T != nil {
			return g.msgStringsValid(x.V, x.T)
		}
	case *MapV:
		if x != nil {
			mt := under(t).(*types.Map)
			for _, e := range x.entries {
				if !g.msgStringsValid(e.k, mt.Key()) || !g.msgStringsValid(e.v, mt.Elem()) {
					return false
				}
			}
		}
	}
	return true
}

func (g *G) modelErr(msg string) Value {
	return g.call(g.p.eng.l.Pkgs[vxPath].Func("NewModelErr"), []Value{msg, Slice(nil)}, nil)
}

func protoMarshal(g *G, fn *ssa.Function, a []Value) Value {
	it := a[0].(Iface)
	if it.T == nil {
		return Tuple{Slice(nil), Iface{}}
	}
	pv, ok := it.V.(*Value)
	if !ok {
		unsup("marshal of %s", it.T)
	}
	if pv == nil {
		return Tuple{Slice(nil), Iface{}}
	}
	g.p.touchDeep(pv, it.T)
	if !g.msgStringsValid(*pv, it.T.(*types.Pointer).Elem()) {
		return Tuple{Slice(nil), g.modelErr("proto: string field contains invalid UTF-8")}
	}
	b := g.p.newBlock("pb", 8, g.p.clone(it.V, it.T, true), it.T)
	return Tuple{Slice(blockElems(b)), Iface{}}
}

func protoUnmarshal(g *G, fn *ssa.Function, a []Value) Value {
	it := a[1].(Iface)
	pv := deref(g, it.V)
	es := a[0].(Slice)
	if len(es) == 0 {
		*pv = zero(it.T.(*types.Pointer).Elem())
		return Iface{}
	}
	b := wholeBlock(es)
	if b == nil || b.kind != "pb" {
		unsup("unmarshal of bytes that were not produced by marshal")
	}
	if !types.Identical(b.typ, it.T) {
		unsup("unmarshal of %s as %s", b.typ, it.T)
	}
	c := g.p.clone(b.in, b.typ, true).(*Value)
	storeInto(pv, *c)
	g.p.touchDeep(pv, it.T)
	return Iface{}
}

func (g *G) yamlDecode(es []Value, dst Iface) Value {
	b := wholeBlock(es)
	if b == nil || b.kind != "yaml" {
		unsup("yaml text that was not produced by YamlDoc")
	}
	want := dst.T.(*types.Pointer).Elem()
	v := b.in
	if !types.Identical(b.typ, want) {
		if pt, ok := b.typ.(*types.Pointer); ok && types.Identical(pt.Elem(), want) {
			v = *(v.(*Value))
		} else {
			unsup("yaml decode of %s into %s", b.typ, want)
		}
	}
	storeInto(deref(g, dst.V), g.p.clone(v, want, false))
	return Iface{}
}

// ---- formatting ----

func wrapIdx(f string) []int {
	var out []int
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0.123456789", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' {
			out = append(out, n)
		}
		n++
	}
	return out
}

func (g *G) format(fv Value, args Slice) Value {
	f, ok := fv.(string)
	if !ok {
		return "<formatted>"
	}
	var out []Value
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, uint64(f[i]))
			continue
		}
		i++
		st := i
		for i < len(f) && strings.IndexByte("+-# 0.123456789", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			out = append(out, uint64('%'))
			continue
		}
		if n >= len(args) {
			out = append(out, strElems("%!"+string(f[i])+"(MISSING)")...)
			continue
		}
		out = append(out, strElems(g.fmtArg(f[i], f[st:i], args[n].(Iface)))...)
		n++
	}
	return mkStr(out)
}

func (g *G) fmtInt(v Value, w int, signed bool) Value {
	u := g.p.Concretize(v)
	if signed {
		return strconv.FormatInt(sext(u, w), 10)
	}
	return strconv.FormatUint(u, 10)
}

func (g *G) fmtArg(verb byte, flags string, a Iface) Value {
	if a.T == nil {
		return "<nil>"
	}
	if verb == 'T' {
		return a.T.String()
	}
	if verb != 'd' && verb != 'x' && verb != 'p' {
		for _, mn := range []string{"Error", "String"} {
			ms := g.p.eng.l.Prog.MethodSets.MethodSet(a.T)
			sel := ms.Lookup(nil, mn)
			if sel == nil {
				continue
			}
			sig, ok := sel.Type().(*types.Signature)
			if !ok || sig.Params().Len() != 0 || sig.Results().Len() != 1 {
				continue
			}
			if b, ok := sig.Results().At(0).Type().(*types.Basic); !ok || b.Kind() != types.String {
				continue
			}
			if pv, ok := a.V.(*Value); ok && pv == nil {
				return "<nil>"
			}
			r := g.call(g.p.eng.l.Prog.MethodValue(sel), []Value{a.V}, nil)
			return g.quoted(verb, r)
		}
	}
	switch v := a.V.(type) {
	case string, *SymStr:
		return g.quoted(verb, v)
	case bool:
		return strconv.FormatBool(v)
	case uint64:
		w, s, _ := intInfo(a.T)
		if verb == 'x' || verb == 'c' || verb == 'q' || flags != "" {
			if s {
				return fmt.Sprintf("%"+flags+string(verb), sext(v, w))
			}
			return fmt.Sprintf("%"+flags+string(verb), v)
		}
		if s {
			return strconv.FormatInt(sext(v, w), 10)
		}
		return strconv.FormatUint(v, 10)
	case *Term:
		if v.W == 0 {
			if g.p.Branch(v) {
				return "true"
			}
			return "false"
		}
		w, s, _ := intInfo(a.T)
		if verb == 'c' || verb == 'q' {
			return "<rune>"
		}
		lo, hi := g.p.ctx.urange(v)
		if hi-lo > 64 {
			return "<int>"
		}
		return g.fmtInt(v, w, s)
	case Slice:
		if verb == 's' || verb == 'x' {
			if w, _, ok := intInfo(elemType(a.T)); ok && w == 8 {
				if verb == 's' {
					return mkStr(append([]Value{}, v...))
				}
				return g.p.encodeBytes("hex", v, hex.EncodeToString)
			}
		}
		if verb == 'v' || verb == 's' {
			var out []Value
			out = append(out, uint64('['))
			et := elemType(a.T)
			for i, e := range v {
				if i > 0 {
					out = append(out, uint64(' '))
				}
				x, ok := e.(Iface)
				if !ok {
					x = Iface{et, e}
				}
				out = append(out, strElems(g.fmtArg(verb, flags, x))...)
			}
			out = append(out, uint64(']'))
			return mkStr(out)
		}
	case Struct:
		if verb == 'v' && flags == "" {
			st := under(a.T).(*types.Struct)
			out := []Value{uint64('{')}
			for i, e := range v {
				if i > 0 {
					out = append(out, uint64(' '))
				}
				x, ok := e.(Iface)
				if !ok {
					x = Iface{st.Field(i).Type(), e}
				}
				out = append(out, strElems(g.fmtArg(verb, flags, x))...)
			}
			return mkStr(append(out, uint64('}')))
		}
	case Iface:
		return g.fmtArg(verb, flags, v)
	}
	return "<" + a.T.String() + ">"
}

func (g *G) quoted(verb byte, v Value) Value {
	if verb != 'q' {
		return v
	}
	if s, ok := v.(string); ok {
		return strconv.Quote(s)
	}
	// printable ASCII without quotes or backslashes is quoted verbatim
	es := strElems(v)
	for _, e := range es {
		if t, ok := e.(*Term); ok {
			c := g.p.ctx
			okc := c.And(c.Ule(c.Const(0x20, 8), t), c.Ule(t, c.Const(0x7e, 8)), c.Not(c.Eq(t, c.Const('"', 8))), c.Not(c.Eq(t, c.Const('\\', 8))))
			if !g.p.Branch(okc) {
				b := g.p.newBlock("quoted", 16, append([]Value{}, es...), nil)
				return mkStr(blockElems(b))
			}
		}
	}
	out := append([]Value{uint64('"')}, es...)
	return mkStr(append(out, uint64('"')))
}
