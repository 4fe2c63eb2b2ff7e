package main

import (
	"go/types"
	"reflect"
)

// A model of the part of package reflect that walks values: a reflect.Value
// holds the (type, value) pair in its first field, a reflect.Type the type.

func (m *Machine) rval(v Value) *Iface {
	ag, ok := v.r.(*Aggr)
	if !ok || ag.f[0].r == nil {
		m.rt("reflect: call of method on zero Value")
	}
	return ag.f[0].r.(*Iface)
}

func mkRval(t types.Type, v Value) Value {
	return Value{r: &Aggr{f: []Value{{r: &Iface{t: t, v: v}}, {}, {}}}}
}

func reflectKind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Struct:
		return reflect.Struct
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Invalid
}

func reflectElem(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func reflectIntrinsics(T map[string]Intrinsic) {
	rtype := func(m *Machine, t types.Type) Value {
		pkg := m.p.prog.ImportedPackage("reflect")
		rt := pkg.Type("rtype").Type()
		return Value{r: &Iface{t: types.NewPointer(rt), v: Value{r: &Iface{t: t}}}}
	}
	ty := func(m *Machine, v Value) types.Type {
		if i, ok := v.r.(*Iface); ok {
			return i.t
		}
		panic(pathEnd{"unsupported", "reflect.Type"})
	}
	V := func(name string, f func(m *Machine, g *Goroutine, x *Iface, a []Value) Value) {
		T["(reflect.Value)."+name] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
			return f(m, g, m.rval(a[0]), a[1:]), true
		}
	}
	Ty := func(name string, f func(m *Machine, t types.Type, a []Value) Value) {
		T["(*reflect.rtype)."+name] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
			return f(m, ty(m, a[0]), a[1:]), true
		}
	}
	T["reflect.ValueOf"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if a[0].r == nil {
			return Value{r: &Aggr{f: []Value{{}, {}, {}}}}, true
		}
		i := a[0].r.(*Iface)
		return mkRval(i.t, i.v), true
	}
	T["reflect.TypeOf"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if a[0].r == nil {
			return Value{}, true
		}
		return rtype(m, a[0].r.(*Iface).t), true
	}
	T["(reflect.Value).Kind"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		ag := a[0].r.(*Aggr)
		if ag.f[0].r == nil {
			return Value{}, true
		}
		return Value{b: uint64(reflectKind(ag.f[0].r.(*Iface).t))}, true
	}
	T["(reflect.Value).IsValid"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		return mkBool(a[0].r.(*Aggr).f[0].r != nil), true
	}
	V("Type", func(m *Machine, g *Goroutine, x *Iface, a []Value) Value { return rtype(m, x.t) })
	V("Interface", func(m *Machine, g *Goroutine, x *Iface, a []Value) Value { return m.toIface(x.t, x.v) })
	V("IsNil", func(m *Machine, g *Goroutine, x *Iface, a []Value) Value { return mkBool(x.v.r == nil) })
	V("Elem", func(m *Machine, g *Goroutine, x *Iface, a []Value) Value {
		if x.v.r == nil {
			return Value{r: &Aggr{f: []Value{{}, {}, {}}}}
		}
		if reflectKind(x.t) == reflect.Interface {
			i := x.v.r.(*Iface)
			return mkRval(i.t, i.v)
		}
		return mkRval(reflectElem(x.t), m.load(x.v.ptr()))
	})
	V("Len", func(m *Machine, g *Goroutine, x *Iface, a []Value) Value {
		switch reflectKind(x.t) {
		case reflect.String:
			panic(pathEnd{"unsupported", "reflect Len of string"})
		case reflect.Map:
			if x.v.r == nil {
				return Value{}
			}
			n := int64(0)
			for _, e := range x.v.r.(*Map).ents {
				if !e.dead {
					n++
				}
			}
			return mkInt(n)
		case reflect.Array:
			return mkInt(int64(len(x.v.r.(*Aggr).f)))
		}
		return mkInt(int64(len(m.sliceVals(g, x.v))))
	})
	V("Index", func(m *Machine, g *Goroutine, x *Iface, a []Value) Value {
		i := int(m.concInt(a[0], 64))
		var vs []Value
		if reflectKind(x.t) == reflect.Array {
			vs = x.v.r.(*Aggr).f
		} else {
			vs = m.sliceVals(g, x.v)
		}
		if i < 0 || i >= len(vs) {
			m.rt("reflect: slice index out of range")
		}
		return mkRval(reflectElem(x.t), vs[i])
	})
	V("MapKeys", func(m *Machine, g *Goroutine, x *Iface, a []Value) Value {
		kt := x.t.Underlying().(*types.Map).Key()
		var ks []Value
		if x.v.r != nil {
			for _, e := range x.v.r.(*Map).ents {
				if !e.dead {
					ks = append(ks, mkRval(kt, e.k))
				}
			}
		}
		return Value{r: &Slice{arr: ks, len: len(ks), cap: len(ks)}}
	})
	V("MapIndex", func(m *Machine, g *Goroutine, x *Iface, a []Value) Value {
		mt := x.t.Underlying().(*types.Map)
		var e *mapEntry
		if x.v.r != nil {
			e = m.mapFind(g, x.v.r.(*Map), mt.Key(), m.rval(a[0]).v)
		}
		if e == nil {
			return Value{r: &Aggr{f: []Value{{}, {}, {}}}}
		}
		return mkRval(mt.Elem(), e.v)
	})
	V("Int", func(m *Machine, g *Goroutine, x *Iface, a []Value) Value {
		return m.convert(g, x.t, types.Typ[types.Int64], m.ti(x.t), m.ti(types.Typ[types.Int64]), x.v)
	})
	V("Uint", func(m *Machine, g *Goroutine, x *Iface, a []Value) Value {
		return m.convert(g, x.t, types.Typ[types.Uint64], m.ti(x.t), m.ti(types.Typ[types.Uint64]), x.v)
	})
	V("Float", func(m *Machine, g *Goroutine, x *Iface, a []Value) Value {
		return m.convert(g, x.t, types.Typ[types.Float64], m.ti(x.t), m.ti(types.Typ[types.Float64]), x.v)
	})
	V("Bool", func(m *Machine, g *Goroutine, x *Iface, a []Value) Value { return x.v })
	V("String", func(m *Machine, g *Goroutine, x *Iface, a []Value) Value {
		if reflectKind(x.t) != reflect.String {
			panic(pathEnd{"unsupported", "reflect String of " + typeStr(x.t)})
		}
		return x.v
	})
	V("NumField", func(m *Machine, g *Goroutine, x *Iface, a []Value) Value {
		return mkInt(int64(x.t.Underlying().(*types.Struct).NumFields()))
	})
	V("Field", func(m *Machine, g *Goroutine, x *Iface, a []Value) Value {
		i := int(m.concInt(a[0], 64))
		return mkRval(x.t.Underlying().(*types.Struct).Field(i).Type(), x.v.r.(*Aggr).f[i])
	})
	Ty("Kind", func(m *Machine, t types.Type, a []Value) Value { return Value{b: uint64(reflectKind(t))} })
	Ty("Key", func(m *Machine, t types.Type, a []Value) Value {
		return rtype(m, t.Underlying().(*types.Map).Key())
	})
	Ty("Elem", func(m *Machine, t types.Type, a []Value) Value { return rtype(m, reflectElem(t)) })
	Ty("NumField", func(m *Machine, t types.Type, a []Value) Value {
		return mkInt(int64(t.Underlying().(*types.Struct).NumFields()))
	})
	Ty("Name", func(m *Machine, t types.Type, a []Value) Value {
		switch n := t.(type) {
		case *types.Named:
			return mkStr(n.Obj().Name())
		case *types.Basic:
			return mkStr(n.Name())
		}
		return mkStr("")
	})
	Ty("Field", func(m *Machine, t types.Type, a []Value) Value {
		st := t.Underlying().(*types.Struct)
		i := int(m.concInt(a[0], 64))
		f := st.Field(i)
		pkg := m.p.prog.ImportedPackage("reflect")
		v := m.zero(pkg.Type("StructField").Type())
		ag := v.r.(*Aggr)
		ag.f[0] = mkStr(f.Name())
		if !f.Exported() {
			ag.f[1] = mkStr(f.Pkg().Path())
		}
		ag.f[2] = rtype(m, f.Type())
		ag.f[3] = mkStr(st.Tag(i))
		ag.f[6] = mkBool(f.Anonymous())
		return v
	})
}
