package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
)

const tokADD = token.ADD

var tUint8 = types.Typ[types.Uint8]

func (m *Machine) addInput(name, kind string, t *Term, ts []*Term, conc string) {
	m.path.inputs = append(m.path.inputs, Input{Name: name, Kind: kind, t: t, ts: ts, conc: conc})
}

func harnessIntrinsics(T map[string]Intrinsic, target string) {
	h := func(name string, f func(m *Machine, g *Goroutine, a []Value) Value) {
		T[target+"."+name] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
			if m.path == nil {
				panic(engineErr("%s called during initialisation", name))
			}
			return f(m, g, a), true
		}
	}
	h("vInt64", func(m *Machine, g *Goroutine, a []Value) Value {
		n := m.freshName(cs(a[0]))
		v := m.ctx.Var(n, 64)
		m.addInput(n, "int64", v, nil, "")
		return Value{r: v}
	})
	h("vInt", func(m *Machine, g *Goroutine, a []Value) Value {
		n := m.freshName(cs(a[0]))
		c := m.ctx
		if a[1].b == a[2].b {
			m.addInput(n, "int64", nil, nil, fmt.Sprint(int64(a[1].b)))
			return a[1]
		}
		lo, hi := int64(a[1].b), int64(a[2].b)
		v := c.Var(fmt.Sprintf("%s~%d~%d", n, lo, hi), 64)
		m.addInput(n, "int64", v, nil, "")
		// not through Bin, which would find the range in the variable
		m.assume(c.And(c.Not(c.mk(OSlt, WBool, v, c.Const(64, a[1].b), nil, 0)), c.Not(c.mk(OSlt, WBool, c.Const(64, a[2].b), v, nil, 0))))
		v.lo, v.hi, v.ranged = lo, hi, true
		return Value{r: v}
	})
	h("vByte", func(m *Machine, g *Goroutine, a []Value) Value {
		n := m.freshName(cs(a[0]))
		v := m.ctx.Var(n+"~b", 8)
		m.addInput(n, "byte", v, nil, "")
		return Value{r: v}
	})
	h("vBool", func(m *Machine, g *Goroutine, a []Value) Value {
		n := m.freshName(cs(a[0]))
		v := m.ctx.Var(n+"~o", WBool)
		m.addInput(n, "bool", v, nil, "")
		return Value{r: v}
	})
	h("vFloat32", func(m *Machine, g *Goroutine, a []Value) Value {
		n := m.freshName(cs(a[0]))
		v := m.ctx.Var(n+"~f", 32)
		m.addInput(n, "f32", v, nil, "")
		return Value{r: m.ctx.FFromBits(v, WF32)}
	})
	h("vFloat64", func(m *Machine, g *Goroutine, a []Value) Value {
		n := m.freshName(cs(a[0]))
		v := m.ctx.Var(n+"~d", 64)
		m.addInput(n, "uint64", v, nil, "")
		return Value{r: m.ctx.FFromBits(v, WF64)}
	})
	h("vChoice", func(m *Machine, g *Goroutine, a []Value) Value {
		n := m.freshName(cs(a[0]))
		k := m.choose(int(a[1].b))
		m.addInput(n, "int64", nil, nil, fmt.Sprint(k))
		return mkInt(int64(k))
	})
	h("vString", func(m *Machine, g *Goroutine, a []Value) Value {
		n := m.freshName(cs(a[0]))
		k := int(a[1].b)
		bs := make([]Value, k)
		ts := make([]*Term, k)
		for i := range bs {
			ts[i] = m.ctx.Var(fmt.Sprintf("%s[%d]", n, i), 8)
			bs[i] = Value{r: ts[i]}
		}
		m.addInput(n, "str", nil, ts, "")
		return strFromBytes(bs)
	})
	h("vOneOf", func(m *Machine, g *Goroutine, a []Value) Value {
		n := m.freshName(cs(a[0]))
		alts := m.sliceVals(g, a[1])
		v := m.smallVar(n, len(alts))
		m.addInput(n, "byte", v, nil, "")
		// all alternatives are structs of a tag and a reference
		tags := make([]Value, len(alts))
		refs := make([]Value, len(alts))
		for i, x := range alts {
			f := x.ptr().r.(*Aggr).f
			tags[i], refs[i] = f[0], m.load(&f[1])
		}
		c := new(Value)
		*c = Value{r: &Aggr{f: []Value{m.iteLoad(tags, v, tUint8), {r: &LazyRef{t: v, alts: refs}}}}}
		return Value{r: c}
	})
	h("vUndecided", func(m *Machine, g *Goroutine, a []Value) Value {
		if a[0].r == nil {
			return mkBool(false)
		}
		_, ok := a[0].ptr().r.(*Aggr).f[1].r.(*LazyRef)
		return mkBool(ok)
	})
	h("vAssume", func(m *Machine, g *Goroutine, a []Value) Value {
		m.assume(m.sig(a[0], boolTI))
		return Value{}
	})
	h("vAssert", func(m *Machine, g *Goroutine, a []Value) Value {
		msg := m.force(g, a[1].str())
		m.assert(m.sig(a[0], boolTI), msg.s)
		return Value{}
	})
	h("vKnown", func(m *Machine, g *Goroutine, a []Value) Value {
		if m.truth(a[1]) {
			m.path.kf = append(m.path.kf, cs(a[0]))
		}
		return Value{}
	})
	h("vReach", func(m *Machine, g *Goroutine, a []Value) Value {
		m.path.reached[cs(a[0])] = true
		return Value{}
	})
	h("vOpaque", func(m *Machine, g *Goroutine, a []Value) Value {
		m.opaque = a[0].b != 0
		return Value{}
	})
	h("vConcurrent", func(m *Machine, g *Goroutine, a []Value) Value {
		m.conc = true
		m.race = true
		m.enterConc()
		g.hvc = g.hvc.inc(g.id)
		m.preempt = int(int64(a[0].b))
		if len(g.vc) <= g.id {
			g.vc = g.vc.inc(g.id)
		}
		return Value{}
	})
	h("vMapPerm", func(m *Machine, g *Goroutine, a []Value) Value {
		m.mapPerm = a[0].b != 0
		return Value{}
	})
	h("vTier", func(m *Machine, g *Goroutine, a []Value) Value { return mkBool(curTier == "thorough") })
	h("vSymbolic", func(m *Machine, g *Goroutine, a []Value) Value { return mkBool(true) })
	h("vSameF", func(m *Machine, g *Goroutine, a []Value) Value {
		ti := m.ti(types.Typ[types.Float32])
		c := m.ctx
		x, y := m.sig(a[0], ti), m.sig(a[1], ti)
		if x == y {
			return mkBool(true)
		}
		return m.boolV(c.Or(c.FBin(OFEq, x, y), c.And(c.FIsNaN(x), c.FIsNaN(y))))
	})
	h("vTake", func(m *Machine, g *Goroutine, a []Value) Value {
		// fork on the condition without merging
		return mkBool(m.truth(a[0]))
	})
	h("vConcInt", func(m *Machine, g *Goroutine, a []Value) Value {
		return Value{b: m.concInt(a[0], 64)}
	})
	h("vClock", func(m *Machine, g *Goroutine, a []Value) Value { return m.clock })
	T[target+".String"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if !m.opaque {
			return Value{}, false
		}
		return Value{r: &Str{lazy: &LazyStr{[]LazyPart{{opaque: "printed form"}}}}}, true
	}
}


// ---- encoding/json: the decoder and encoder are the standard library's; they
// are run natively on concrete text, and modelled by tree conversion when the
// text is the marshalled form of a tree with symbolic leaves.

func (m *Machine) ifaceT(k types.BasicKind, v Value) Value {
	return Value{r: &Iface{t: types.Typ[k], v: v}}
}

var (
	emptyIfaceT = types.NewInterfaceType(nil, nil)
	jsonMapT    = types.NewMap(types.Typ[types.String], emptyIfaceT)
	jsonArrT    = types.NewSlice(emptyIfaceT)
)

func (m *Machine) fromNativeJSON(g *Goroutine, x any) Value {
	switch v := x.(type) {
	case nil:
		return Value{}
	case bool:
		return m.ifaceT(types.Bool, mkBool(v))
	case float64:
		return m.ifaceT(types.Float64, Value{b: math.Float64bits(v)})
	case string:
		return m.ifaceT(types.String, mkStr(v))
	case []any:
		arr := make([]Value, len(v))
		for i, e := range v {
			arr[i] = m.fromNativeJSON(g, e)
		}
		return Value{r: &Iface{t: jsonArrT, v: Value{r: &Slice{arr: arr, len: len(arr), cap: len(arr)}}}}
	case map[string]any:
		mp := m.newMap()
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			m.mapSet(g, mp, types.Typ[types.String], mkStr(k), m.fromNativeJSON(g, v[k]))
		}
		return Value{r: &Iface{t: jsonMapT, v: Value{r: mp}}}
	}
	panic(engineErr("json value %T", x))
}

func (m *Machine) newMap() *Map {
	m.mapN++
	return &Map{idx: map[any]*mapEntry{}, id: m.mapN}
}

// normJSON maps a Go value to what decoding its encoding would give.
func (m *Machine) normJSON(g *Goroutine, v Value) Value {
	if v.r == nil {
		return Value{}
	}
	ifc, ok := v.r.(*Iface)
	if !ok {
		panic(engineErr("normJSON %T", v.r))
	}
	ti := m.ti(ifc.t)
	switch ti.kind {
	case kBool:
		return m.ifaceT(types.Bool, ifc.v)
	case kString:
		s := m.force(g, ifc.v.str())
		return m.ifaceT(types.String, Value{r: s})
	case kInt:
		if t := ifc.v.sym(); t != nil {
			// shortest decimal text of an int64 read back as float64
			w := t
			if ti.w < 64 {
				if ti.signed {
					w = m.ctx.Sext(t, 64)
				} else {
					w = m.ctx.Zext(t, 64)
				}
			}
			return m.ifaceT(types.Float64, m.fromTerm(m.ctx.FFromInt(w, ti.signed, WF64), f64TI))
		}
		if ti.signed {
			return m.ifaceT(types.Float64, Value{b: math.Float64bits(float64(int64(ifc.v.b)))})
		}
		return m.ifaceT(types.Float64, Value{b: math.Float64bits(float64(ifc.v.b))})
	case kFloat:
		if t := ifc.v.sym(); t != nil {
			if ti.w == WF32 {
				// the encoder writes the shortest text identifying the float32;
				// read back as float64 that is some value which rounds to it
				nv := m.ctx.Var(m.freshName("json_f32"), 64)
				f := m.ctx.FFromBits(nv, WF64)
				m.assume(m.ctx.FBin(OFEq, m.ctx.FToF(f, WF32), t))
				// integral float32 values below 2^24 are written exactly
				return m.ifaceT(types.Float64, Value{r: f})
			}
			return m.ifaceT(types.Float64, ifc.v)
		}
		var x any = math.Float64frombits(ifc.v.b)
		if ti.w == WF32 {
			x = math.Float32frombits(uint32(ifc.v.b))
		}
		b, err := json.Marshal(x)
		if err != nil {
			panic(jsonErr{err.Error()})
		}
		var f float64
		json.Unmarshal(b, &f)
		return m.ifaceT(types.Float64, Value{b: math.Float64bits(f)})
	case kSlice:
		if ifc.v.r == nil {
			return Value{}
		}
		vals := m.sliceVals(g, ifc.v)
		arr := make([]Value, len(vals))
		for i, e := range vals {
			arr[i] = m.normJSON(g, m.toIface(ti.elem, e))
		}
		return Value{r: &Iface{t: jsonArrT, v: Value{r: &Slice{arr: arr, len: len(arr), cap: len(arr)}}}}
	case kMap:
		if ifc.v.r == nil {
			return Value{}
		}
		src := ifc.v.r.(*Map)
		mp := m.newMap()
		var ents []*mapEntry
		for _, e := range src.ents {
			if !e.dead {
				ents = append(ents, e)
			}
		}
		allc := true
		for _, e := range ents {
			if !e.k.str().concrete() {
				allc = false
			}
		}
		if allc {
			sort.SliceStable(ents, func(i, j int) bool { return cs(ents[i].k) < cs(ents[j].k) })
		}
		for _, e := range ents {
			m.mapSet(g, mp, types.Typ[types.String], e.k, m.normJSON(g, m.toIface(ti.elem, e.v)))
		}
		return Value{r: &Iface{t: jsonMapT, v: Value{r: mp}}}
	}
	panic(pathEnd{"unsupported", "json of " + typeStr(ifc.t)})
}

type jsonErr struct{ msg string }

func (m *Machine) toIface(t types.Type, v Value) Value {
	if m.ti(t).kind == kIface {
		return v
	}
	return Value{r: &Iface{t: t, v: v}}
}

// toNativeJSON converts a fully concrete tree; ok=false if symbolic.
func (m *Machine) toNativeJSON(v Value) (any, bool) {
	if v.r == nil {
		return nil, true
	}
	ifc, ok := v.r.(*Iface)
	if !ok {
		return nil, false
	}
	ti := m.ti(ifc.t)
	switch ti.kind {
	case kBool, kInt, kFloat:
		if ifc.v.sym() != nil {
			return nil, false
		}
		return m.native(ti, ifc), true
	case kString:
		if !ifc.v.str().concrete() {
			return nil, false
		}
		return cs(ifc.v), true
	case kSlice:
		if ifc.v.r == nil {
			return []any(nil), true
		}
		s := ifc.v.r.(*Slice)
		out := []any{}
		for i := 0; i < s.len; i++ {
			x, ok := m.toNativeJSON(m.toIface(ti.elem, s.arr[s.off+i]))
			if !ok {
				return nil, false
			}
			out = append(out, x)
		}
		return out, true
	case kMap:
		if ifc.v.r == nil {
			return map[string]any(nil), true
		}
		out := map[string]any{}
		for _, e := range ifc.v.r.(*Map).ents {
			if e.dead {
				continue
			}
			if !e.k.str().concrete() {
				return nil, false
			}
			x, ok := m.toNativeJSON(m.toIface(ti.elem, e.v))
			if !ok {
				return nil, false
			}
			out[cs(e.k)] = x
		}
		return out, true
	}
	return nil, false
}

func jsonIntrinsics(T map[string]Intrinsic) {
	T["encoding/json.Marshal"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (ret Value, h bool) {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(jsonErr); ok {
					ret, h = tuple(Value{}, m.errNew(g, mkStr(e.msg))), true
					return
				}
				panic(r)
			}
		}()
		if x, ok := m.toNativeJSON(a[0]); ok {
			b, err := json.Marshal(x)
			if err != nil {
				return tuple(Value{}, m.errNew(g, mkStr(err.Error()))), true
			}
			arr := make([]Value, len(b))
			for i := range b {
				arr[i] = Value{b: uint64(b[i])}
			}
			return tuple(Value{r: &Slice{arr: arr, len: len(arr), cap: len(arr)}}, Value{}), true
		}
		tree := m.normJSON(g, a[0])
		return tuple(Value{r: &Slice{lazy: &LazyStr{[]LazyPart{{opaque: "json text", tree: &tree}}}, tree: &tree}}, Value{}), true
	}
	T["encoding/json.MarshalIndent"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		return T["encoding/json.Marshal"](m, g, fi, a[:1])
	}
	T["encoding/json.Unmarshal"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		dst := a[1].r.(*Iface).v.ptr()
		if s, ok := a[0].r.(*Slice); ok && s.lazy != nil {
			if s.tree == nil && len(s.lazy.parts) == 1 && s.lazy.parts[0].tree != nil {
				s.tree = s.lazy.parts[0].tree
			}
			if s.tree != nil {
				m.store(dst, m.normJSON(g, *s.tree))
				return Value{}, true
			}
		}
		bs := m.sliceVals(g, a[0])
		b := make([]byte, len(bs))
		for i, v := range bs {
			if v.sym() != nil {
				panic(pathEnd{"inconclusive", "json.Unmarshal of symbolic text"})
			}
			b[i] = byte(v.b)
		}
		var x any
		if err := json.Unmarshal(b, &x); err != nil {
			return m.errNew(g, mkStr(err.Error())), true
		}
		m.store(dst, m.fromNativeJSON(g, x))
		return Value{}, true
	}
}
