package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one machine value. Concrete scalars live in b (signed integers
// sign-extended, unsigned zero-extended, floats as their IEEE bits); symbolic
// scalars are *Term in r; everything else is a reference in r.
type Value struct {
	b uint64
	r any
}

type Str struct {
	s    string
	sym  []*Term // if non-nil: len(sym)==len(s); nil entries are concrete
	lazy *LazyStr
}

// LazyStr is a string whose content has not been computed: a formatting of
// symbolic values that nothing has looked at.
type LazyStr struct {
	parts []LazyPart
}
type LazyPart struct {
	s      *Str   // plain
	format string // else: fmt.Sprintf(format, args...)
	args   []Value
	opaque string // else: opaque text (cannot be forced)
	tree   *Value // JSON tree the opaque text stands for
}

type Aggr struct{ f []Value } // struct, array, tuple

type Slice struct {
	arr []Value // the whole backing array from base
	off int
	len int
	cap int
	lazy *LazyStr // []byte(lazy string) that nothing has looked at
	tree *Value   // json tree attached to marshalled bytes
}

// LazyRef stands for one of several references, selected by t.
type LazyRef struct {
	t    *Term
	alts []Value
}

type UPtr struct {
	p    *Value
	elem types.Type
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	nat *NativeFn
}

type NativeFn struct {
	name string
	f    func(m *Machine, g *Goroutine, args []Value) Value
}

type mapEntry struct {
	k, v Value
	dead bool
}

type Map struct {
	ents  []*mapEntry
	idx   map[any]*mapEntry // concrete keys
	nsym  int               // live entries with symbolic keys
	n     int
	id    int
	elemT types.Type
}

type Chan struct {
	cap    int
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	id     int
	vc     []VC // vector clock per buffered message
	clk    VC
	hvc    []VC // like vc, in the order that no other schedule of the same messages changes
	timer  *timerT
	nt     bool
}

type MapIter struct {
	m    *Map
	list []*mapEntry
	pos  int
}
type StrIter struct {
	s   *Str
	pos int
}

func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{r: &Str{s: s}}
}

func mkBool(b bool) Value {
	if b {
		return Value{b: 1}
	}
	return Value{}
}

func mkInt(i int64) Value { return Value{b: uint64(i)} }

func term(t *Term) Value { return Value{r: t} }

func (v Value) sym() *Term {
	t, _ := v.r.(*Term)
	return t
}

var emptyStr = &Str{}

func (v Value) str() *Str {
	if v.r == nil {
		return emptyStr
	}
	return v.r.(*Str)
}

func (s *Str) concrete() bool {
	return s.sym == nil && s.lazy == nil
}

func (v Value) ptr() *Value {
	switch p := v.r.(type) {
	case nil:
		return nil
	case *Value:
		return p
	case *UPtr:
		return p.p
	}
	panic(engineErr("not a pointer: %T", v.r))
}

type EngineError struct{ msg string }

func (e EngineError) Error() string { return e.msg }
func engineErr(f string, a ...any) EngineError {
	return EngineError{fmt.Sprintf(f, a...)}
}

// ---- type helpers

func under(t types.Type) types.Type { return t.Underlying() }

type tinfo struct {
	kind   tkind
	w      uint8 // width for scalars
	signed bool
	n      int
	elem   types.Type
	fields []types.Type
}

type tkind uint8

const (
	kInt tkind = iota
	kBool
	kFloat
	kString
	kPtr
	kUPtr
	kSlice
	kArray
	kStruct
	kMap
	kChan
	kFunc
	kIface
	kTuple
	kComplex
	kOther
)

func computeTinfo(t types.Type) *tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return &tinfo{kind: kBool, w: WBool}
		case types.Int, types.Int64, types.UntypedInt:
			return &tinfo{kind: kInt, w: 64, signed: true}
		case types.Int32, types.UntypedRune:
			return &tinfo{kind: kInt, w: 32, signed: true}
		case types.Int16:
			return &tinfo{kind: kInt, w: 16, signed: true}
		case types.Int8:
			return &tinfo{kind: kInt, w: 8, signed: true}
		case types.Uint, types.Uint64, types.Uintptr:
			return &tinfo{kind: kInt, w: 64}
		case types.Uint32:
			return &tinfo{kind: kInt, w: 32}
		case types.Uint16:
			return &tinfo{kind: kInt, w: 16}
		case types.Uint8:
			return &tinfo{kind: kInt, w: 8}
		case types.Float32:
			return &tinfo{kind: kFloat, w: WF32}
		case types.Float64, types.UntypedFloat:
			return &tinfo{kind: kFloat, w: WF64}
		case types.String, types.UntypedString:
			return &tinfo{kind: kString}
		case types.UnsafePointer:
			return &tinfo{kind: kUPtr}
		case types.UntypedNil:
			return &tinfo{kind: kPtr}
		case types.Complex64, types.Complex128:
			return &tinfo{kind: kComplex}
		}
		return &tinfo{kind: kOther}
	case *types.Pointer:
		return &tinfo{kind: kPtr, elem: u.Elem()}
	case *types.Slice:
		return &tinfo{kind: kSlice, elem: u.Elem()}
	case *types.Array:
		return &tinfo{kind: kArray, elem: u.Elem(), n: int(u.Len())}
	case *types.Struct:
		ti := &tinfo{kind: kStruct, n: u.NumFields()}
		for i := 0; i < u.NumFields(); i++ {
			ti.fields = append(ti.fields, u.Field(i).Type())
		}
		return ti
	case *types.Tuple:
		ti := &tinfo{kind: kTuple, n: u.Len()}
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, u.At(i).Type())
		}
		return ti
	case *types.Map:
		return &tinfo{kind: kMap, elem: u.Elem()}
	case *types.Chan:
		return &tinfo{kind: kChan, elem: u.Elem()}
	case *types.Signature:
		return &tinfo{kind: kFunc}
	case *types.Interface:
		return &tinfo{kind: kIface}
	}
	return &tinfo{kind: kOther}
}

func (m *Machine) ti(t types.Type) *tinfo {
	if x, ok := m.tinfos[t]; ok {
		return x
	}
	x := computeTinfo(t)
	m.tinfos[t] = x
	return x
}

func (m *Machine) zero(t types.Type) Value {
	ti := m.ti(t)
	switch ti.kind {
	case kArray:
		a := &Aggr{f: make([]Value, ti.n)}
		et := m.ti(ti.elem)
		if et.kind == kArray || et.kind == kStruct {
			for i := range a.f {
				a.f[i] = m.zero(ti.elem)
			}
		}
		return Value{r: a}
	case kStruct, kTuple:
		a := &Aggr{f: make([]Value, ti.n)}
		for i, ft := range ti.fields {
			fk := m.ti(ft).kind
			if fk == kArray || fk == kStruct {
				a.f[i] = m.zero(ft)
			}
		}
		return Value{r: a}
	}
	return Value{}
}

// copyVal deep-copies aggregates (value semantics).
func copyVal(v Value) Value {
	if a, ok := v.r.(*Aggr); ok {
		n := &Aggr{f: make([]Value, len(a.f))}
		for i, x := range a.f {
			if _, ok := x.r.(*Aggr); ok {
				n.f[i] = copyVal(x)
			} else {
				n.f[i] = x
			}
		}
		return Value{r: n}
	}
	return v
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- strings with symbolic bytes

func (m *Machine) strBytes(s *Str) []Value {
	out := make([]Value, len(s.s))
	for i := range out {
		if s.sym != nil && s.sym[i] != nil {
			out[i] = Value{r: s.sym[i]}
		} else {
			out[i] = Value{b: uint64(s.s[i])}
		}
	}
	return out
}

func strFromBytes(bs []Value) Value {
	if len(bs) == 0 {
		return Value{}
	}
	b := make([]byte, len(bs))
	var sym []*Term
	for i, v := range bs {
		if t := v.sym(); t != nil {
			if sym == nil {
				sym = make([]*Term, len(bs))
			}
			sym[i] = t
			b[i] = '?'
		} else {
			b[i] = byte(v.b)
		}
	}
	return Value{r: &Str{s: string(b), sym: sym}}
}

func (s *Str) slice(lo, hi int) Value {
	if lo >= hi {
		return Value{}
	}
	n := &Str{s: s.s[lo:hi]}
	if s.sym != nil {
		for i := lo; i < hi; i++ {
			if s.sym[i] != nil {
				n.sym = s.sym[lo:hi]
				break
			}
		}
	}
	return Value{r: n}
}

func concatStr(a, b *Str) Value {
	if a.lazy != nil || b.lazy != nil {
		var parts []LazyPart
		for _, x := range []*Str{a, b} {
			if x.lazy != nil {
				parts = append(parts, x.lazy.parts...)
			} else if len(x.s) > 0 {
				parts = append(parts, LazyPart{s: x})
			}
		}
		return Value{r: &Str{lazy: &LazyStr{parts}}}
	}
	if len(a.s) == 0 {
		return Value{r: b}
	}
	if len(b.s) == 0 {
		return Value{r: a}
	}
	n := &Str{s: a.s + b.s}
	if a.sym != nil || b.sym != nil {
		n.sym = make([]*Term, len(n.s))
		if a.sym != nil {
			copy(n.sym, a.sym)
		}
		if b.sym != nil {
			copy(n.sym[len(a.s):], b.sym)
		}
	}
	return Value{r: n}
}

// byteAt returns the i-th byte as a term.
func (c *TermCtx) strByte(s *Str, i int) *Term {
	if s.sym != nil && s.sym[i] != nil {
		return s.sym[i]
	}
	return c.Const(8, uint64(s.s[i]))
}

func (c *TermCtx) strEq(a, b *Str) *Term {
	if len(a.s) != len(b.s) {
		return c.F
	}
	if a.sym == nil && b.sym == nil {
		return c.Bool(a.s == b.s)
	}
	r := c.T
	for i := 0; i < len(a.s); i++ {
		r = c.And(r, c.Eq(c.strByte(a, i), c.strByte(b, i)))
		if r == c.F {
			return r
		}
	}
	return r
}

func (c *TermCtx) strLt(a, b *Str) *Term {
	if a.sym == nil && b.sym == nil {
		return c.Bool(a.s < b.s)
	}
	n := len(a.s)
	if len(b.s) < n {
		n = len(b.s)
	}
	r := c.Bool(len(a.s) < len(b.s))
	for i := n - 1; i >= 0; i-- {
		x, y := c.strByte(a, i), c.strByte(b, i)
		r = c.Or(c.Bin(OUlt, x, y), c.And(c.Eq(x, y), r))
	}
	return r
}

func fnName(f *ssa.Function) string {
	return f.String()
}

func joinPkgs(xs []string) string { return strings.Join(xs, ",") }
