package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value representation
//
//	integers      uint64 (masked to width) or *Term (W>0)
//	bool          bool or *Term (W==0)
//	float         float64
//	string        string (all bytes concrete) or *SymStr
//	pointer       *Value
//	struct        Struct, array Array, slice Slice, map *MapV, chan *ChanV, func *Closure
//	interface     Iface
type Value = any

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn     *ssa.Function
	Env    []Value
	Native func(g *G, args []Value) Value // engine-provided function value
}

type SymStr struct{ b []Value } // elements: uint64 | *Term(8) | *BlkByte

// Block is an opaque, injective image of a payload (a digest, an encoded message, a rendered message ...).
type Block struct {
	id    int
	kind  string
	n     int // number of byte positions it occupies
	in    Value
	typ   types.Type
	inner *Block
	ranks *Term
	conc  string // concrete input, when concrete
	isC   bool
}

type BlkByte struct {
	b *Block
	i int
}

type Poison struct{ why string }

type MapEntry struct {
	k, v Value
	dead bool
}
type MapV struct {
	entries []*MapEntry
	idx     map[any]*MapEntry // concrete keys
	nlive   int
	nsym    int
}

type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	sendq  []*sendWait
	recvq  []*recvWait
}
type sendWait struct {
	g    *G
	v    Value
	done bool
}
type recvWait struct {
	g    *G
	v    Value
	ok   bool
	done bool
}

type abortKind int

const (
	abInfeasible abortKind = iota
	abUnsupported
	abViolation
	abLimit
	abDeadlock
	abDead
	abStop
)

type abortPath struct {
	kind abortKind
	msg  string
}

func (a abortPath) String() string { return fmt.Sprintf("%d:%s", a.kind, a.msg) }

type targetPanic struct {
	v   Value // Iface
	msg string
}

func unsup(f string, a ...any) { panic(abortPath{abUnsupported, fmt.Sprintf(f, a...)}) }

func isNamed(t types.Type, path, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == path
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return false
		}
		if u.Info()&types.IsInteger != 0 {
			return uint64(0)
		}
		if u.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		if u.Info()&types.IsString != 0 {
			return ""
		}
		if u.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
		return &Poison{"zero of " + t.String()}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		if n > 1<<20 {
			unsup("huge array")
		}
		a := make(Array, n)
		for i := range a {
			a[i] = zero(u.Elem())
		}
		return a
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		tt := make(Tuple, u.Len())
		for i := range tt {
			tt[i] = zero(u.At(i).Type())
		}
		return tt
	case *types.TypeParam:
		unsup("zero of type parameter %s", t)
	}
	panic(fmt.Sprintf("zero: %T %s", under(t), t))
}

// copyVal copies value-semantics aggregates.
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	}
	return v
}

func strElems(v Value) []Value {
	switch s := v.(type) {
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = uint64(s[i])
		}
		return out
	case *SymStr:
		return s.b
	case *Poison:
		unsup("poison string: %s", s.why)
	}
	panic(fmt.Sprintf("strElems %T", v))
}

func mkStr(b []Value) Value {
	conc := true
	for _, e := range b {
		if _, ok := e.(uint64); !ok {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, e := range b {
			bs[i] = byte(e.(uint64))
		}
		return string(bs)
	}
	return &SymStr{b}
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	return len(strElems(v))
}

func blockElems(b *Block) []Value {
	out := make([]Value, b.n)
	for i := range out {
		out[i] = &BlkByte{b, i}
	}
	return out
}

// wholeBlock returns the block if the elements are exactly one whole block.
func wholeBlock(b []Value) *Block {
	if len(b) == 0 {
		return nil
	}
	f, ok := b[0].(*BlkByte)
	if !ok || f.i != 0 || f.b.n != len(b) {
		return nil
	}
	for i, e := range b {
		x, ok := e.(*BlkByte)
		if !ok || x.b != f.b || x.i != i {
			return nil
		}
	}
	return f.b
}

func show(v Value) string { return showD(v, 0) }

func showD(v Value, d int) string {
	if d > 6 {
		return "..."
	}
	switch x := v.(type) {
	case nil:
		return "nil"
	case *SymStr:
		var sb strings.Builder
		sb.WriteString("\"")
		for _, e := range x.b {
			switch y := e.(type) {
			case uint64:
				sb.WriteByte(byte(y))
			case *Term:
				sb.WriteString("<" + y.Name + ">")
			case *BlkByte:
				if y.i == 0 {
					fmt.Fprintf(&sb, "<%s#%d>", y.b.kind, y.b.id)
				}
			}
		}
		sb.WriteString("\"")
		return sb.String()
	case string:
		return fmt.Sprintf("%q", x)
	case Iface:
		if x.T == nil {
			return "nil-iface"
		}
		return fmt.Sprintf("(%s)%s", x.T, showD(x.V, d+1))
	case *Value:
		if x == nil {
			return "nilptr"
		}
		return "&" + showD(*x, d+1)
	case Struct:
		var s []string
		for _, e := range x {
			s = append(s, showD(e, d+1))
		}
		return "{" + strings.Join(s, " ") + "}"
	case Slice:
		var s []string
		for _, e := range x {
			s = append(s, showD(e, d+1))
		}
		return "[" + strings.Join(s, " ") + "]"
	case *Term:
		if x.Op == OVar {
			return x.Name
		}
		return fmt.Sprintf("term%d", x.ID)
	}
	return fmt.Sprintf("%v", v)
}
