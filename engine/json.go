package main

import (
	"encoding/json"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// encoding/json: an encoded document is a block whose payload is the document as a tree of zzvx.Json nodes.

const (
	jNull = iota
	jBool
	jNum
	jStr
	jList
	jObj
)

type jsonCycle struct{}
type jsonFail struct{ err Value }

func jsonNode(kind int, text Value, keys, vals Slice) Value {
	c := new(Value)
	*c = Struct{uint64(kind), text, keys, vals}
	return c
}

func (g *G) jsonType() types.Type {
	return types.NewPointer(g.p.eng.l.Pkgs[vxPath].Type("Json").Type())
}

// jsonBytes reads an encoded document.
func (g *G) jsonBytes(es []Value) Value {
	n := len(es)
	for n > 0 && (es[n-1] == uint64('\n') || es[n-1] == uint64(' ')) {
		n--
	}
	if b := wholeBlock(es[:n]); b != nil && b.kind == "json" {
		return b.in
	}
	s, ok := mkStr(es).(string)
	if !ok {
		return nil
	}
	var v any
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return nil
	}
	var conv func(v any) Value
	conv = func(v any) Value {
		switch x := v.(type) {
		case bool:
			return jsonNode(jBool, map[bool]string{true: "true", false: "false"}[x], nil, nil)
		case json.Number:
			return jsonNode(jNum, x.String(), nil, nil)
		case string:
			return jsonNode(jStr, x, nil, nil)
		case []any:
			vals := Slice{}
			for _, e := range x {
				vals = append(vals, conv(e))
			}
			return jsonNode(jList, "", nil, vals)
		case map[string]any:
			var names []string
			for k := range x {
				names = append(names, k)
			}
			sort.Strings(names)
			var keys, vals Slice
			for _, k := range names {
				keys, vals = append(keys, k), append(vals, conv(x[k]))
			}
			return jsonNode(jObj, "", keys, vals)
		}
		return jsonNode(jNull, "", nil, nil)
	}
	return conv(v)
}

func (g *G) jsonEmpty(v Value) bool {
	switch x := v.(type) {
	case bool:
		return !x
	case uint64:
		return x == 0
	case float64:
		return x == 0
	case string:
		return x == ""
	case *SymStr:
		return len(x.b) == 0
	case *Value:
		return x == nil
	case Slice:
		return len(x) == 0
	case *MapV:
		return x == nil || x.nlive == 0
	case Iface:
		return x.T == nil
	case *Term:
		if x.W == 0 {
			return !g.p.Branch(x)
		}
		return g.p.Branch(g.p.ctx.Eq(x, g.p.ctx.Const(0, x.W)))
	}
	return false
}

func (g *G) jsonTree(v Value, t types.Type, seen map[*Value]bool) Value {
	if it, ok := v.(Iface); ok {
		if it.T == nil {
			return jsonNode(jNull, "", nil, nil)
		}
		return g.jsonTree(it.V, it.T, seen)
	}
	if x, ok := v.(*Value); ok && x == nil {
		return jsonNode(jNull, "", nil, nil)
	}
	for _, mn := range []string{"MarshalJSON", "MarshalText"} {
		sel := g.p.eng.l.Prog.MethodSets.MethodSet(t).Lookup(nil, mn)
		if sel == nil {
			continue
		}
		r, ok := g.call(g.p.eng.l.Prog.MethodValue(sel), []Value{v}, nil).(Tuple)
		if !ok || len(r) != 2 {
			unsup("%s of %s", mn, t)
		}
		if e, ok := r[1].(Iface); ok && e.T != nil {
			panic(jsonFail{r[1]})
		}
		b := r[0].(Slice)
		if mn == "MarshalText" {
			return jsonNode(jStr, mkStr(b), nil, nil)
		}
		n := g.jsonBytes(b)
		if n == nil {
			if _, ok := mkStr(b).(string); ok {
				panic(jsonFail{g.modelErr("json: error calling MarshalJSON")})
			}
			unsup("text of MarshalJSON of %s", t)
		}
		return n
	}
	switch x := v.(type) {
	case *Value:
		if seen[x] {
			panic(jsonCycle{})
		}
		seen[x] = true
		r := g.jsonTree(*x, elemType(t), seen)
		delete(seen, x)
		return r
	case Struct:
		st, ok := under(t).(*types.Struct)
		if !ok {
			unsup("json of %s", t)
		}
		var keys, vals Slice
		g.jsonFields(x, st, seen, &keys, &vals)
		return jsonNode(jObj, "", keys, vals)
	case Slice:
		if b, ok := elemType(t).Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return jsonNode(jStr, mkStr(x), nil, nil)
		}
		if x == nil {
			return jsonNode(jNull, "", nil, nil)
		}
		vals := Slice{}
		for _, e := range x {
			vals = append(vals, g.jsonTree(e, elemType(t), seen))
		}
		return jsonNode(jList, "", nil, vals)
	case Array:
		vals := Slice{}
		for _, e := range x {
			vals = append(vals, g.jsonTree(e, elemType(t), seen))
		}
		return jsonNode(jList, "", nil, vals)
	case *MapV:
		if x == nil {
			return jsonNode(jNull, "", nil, nil)
		}
		var keys, vals Slice
		es := append([]*MapEntry{}, x.entries...)
		sort.SliceStable(es, func(i, j int) bool {
			a, _ := es[i].k.(string)
			b, _ := es[j].k.(string)
			return a < b
		})
		for _, e := range es {
			if e.dead {
				continue
			}
			switch e.k.(type) {
			case string, *SymStr:
			default:
				unsup("json map with key %T", e.k)
			}
			keys, vals = append(keys, e.k), append(vals, g.jsonTree(e.v, elemType(t), seen))
		}
		return jsonNode(jObj, "", keys, vals)
	case string, *SymStr:
		return jsonNode(jStr, x, nil, nil)
	case bool, uint64:
		kind := jNum
		if _, ok := x.(bool); ok {
			kind = jBool
		}
		return jsonNode(kind, g.fmtArg('v', "", Iface{under(t), x}), nil, nil)
	case *Term:
		kind := jNum
		if x.W == 0 {
			kind = jBool
		}
		return jsonNode(kind, g.fmtArg('v', "", Iface{under(t), x}), nil, nil)
	}
	unsup("json of %T", v)
	return nil
}

func (g *G) jsonFields(x Struct, st *types.Struct, seen map[*Value]bool, keys, vals *Slice) {
	for i := range x {
		f := st.Field(i)
		tag, tagged := reflect.StructTag(st.Tag(i)).Lookup("json")
		if tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		if f.Embedded() && name == "" {
			ft, v := f.Type(), x[i]
			if p, ok := under(ft).(*types.Pointer); ok {
				pv, _ := v.(*Value)
				if pv == nil {
					continue
				}
				ft, v = p.Elem(), *pv
			}
			if s2, ok := under(ft).(*types.Struct); ok {
				g.jsonFields(v.(Struct), s2, seen, keys, vals)
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		if !tagged || name == "" {
			name = f.Name()
		}
		if strings.Contains(opts, "omitempty") && g.jsonEmpty(x[i]) {
			continue
		}
		if strings.Contains(opts, "string") || strings.Contains(opts, "omitzero") {
			unsup("json option %s", opts)
		}
		*keys, *vals = append(*keys, name), append(*vals, g.jsonTree(x[i], f.Type(), seen))
	}
}

func (g *G) jsonEncode(it Iface) (out Value, err Value) {
	depth, stack := g.depth, len(g.stack)
	defer func() {
		switch r := recover().(type) {
		case nil:
		case jsonCycle:
			g.depth, g.stack = depth, g.stack[:stack]
			out, err = nil, g.modelErr("json: unsupported value: encountered a cycle")
		case jsonFail:
			g.depth, g.stack = depth, g.stack[:stack]
			out, err = nil, r.err
		default:
			panic(r)
		}
	}()
	n := g.jsonTree(it, nil, map[*Value]bool{})
	b := g.p.newBlock("json", 16, n, g.jsonType())
	return Slice(blockElems(b)), Iface{}
}

func jsonMarshal(g *G, fn *ssa.Function, a []Value) Value {
	out, err := g.jsonEncode(a[0].(Iface))
	if out == nil {
		out = Slice(nil)
	}
	return Tuple{out, err}
}

var jsonIntrinsics = map[string]intrinsic{
	"encoding/json.Marshal":       jsonMarshal,
	"encoding/json.MarshalIndent": jsonMarshal,
	"encoding/json.NewEncoder": func(g *G, fn *ssa.Function, a []Value) Value {
		c := new(Value)
		*c = Struct{a[0]}
		return c
	},
	"(*encoding/json.Encoder).SetIndent":     func(g *G, fn *ssa.Function, a []Value) Value { return nil },
	"(*encoding/json.Encoder).SetEscapeHTML": func(g *G, fn *ssa.Function, a []Value) Value { return nil },
	"(*encoding/json.Encoder).Encode": func(g *G, fn *ssa.Function, a []Value) Value {
		out, err := g.jsonEncode(a[1].(Iface))
		if out == nil {
			return err
		}
		w := (*deref(g, a[0])).(Struct)[0].(Iface)
		b := append(append(Slice{}, out.(Slice)...), uint64('\n'))
		r := g.call(g.p.eng.l.Prog.LookupMethod(w.T, nil, "Write"), []Value{w.V, b}, nil).(Tuple)
		return r[1]
	},
}
