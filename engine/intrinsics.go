package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Intrinsic implements or models a function; handled=false falls through to
// the SSA body.
type Intrinsic func(m *Machine, g *Goroutine, fi *FuncInfo, args []Value) (v Value, handled bool)

func (p *Program) findFunc(pkg, name string) *ssa.Function {
	pk := p.prog.ImportedPackage(pkg)
	if pk == nil {
		panic(engineErr("package %s not loaded", pkg))
	}
	f := pk.Func(name)
	if f == nil {
		panic(engineErr("function %s.%s not found", pkg, name))
	}
	return f
}

func concStr(vs ...Value) bool {
	for _, v := range vs {
		if v.r == nil {
			continue
		}
		s, ok := v.r.(*Str)
		if !ok || !s.concrete() {
			return false
		}
	}
	return true
}

func cs(v Value) string { return v.str().s }

func isConc(vs ...Value) bool {
	for _, v := range vs {
		if _, ok := v.r.(*Term); ok {
			return false
		}
	}
	return true
}

func strSlice(xs []string) Value {
	arr := make([]Value, len(xs))
	for i, x := range xs {
		arr[i] = mkStr(x)
	}
	return Value{r: &Slice{arr: arr, len: len(arr), cap: len(arr)}}
}

func tuple(vs ...Value) Value { return Value{r: &Aggr{f: vs}} }

func noop(m *Machine, g *Goroutine, fi *FuncInfo, args []Value) (Value, bool) {
	return Value{}, true
}

// forceArgs forces lazy strings so that the SSA body sees plain ones.
func (m *Machine) force(g *Goroutine, s *Str) *Str {
	if s.lazy == nil {
		return s
	}
	out := Value{}
	for i := range s.lazy.parts {
		p := &s.lazy.parts[i]
		var v Value
		switch {
		case p.opaque != "":
			panic(pathEnd{"inconclusive", "opaque text inspected: " + p.opaque + " at " + m.where(g)})
		case p.s != nil:
			v = Value{r: p.s}
		default:
			v = m.formatPart(g, p)
		}
		out = concatStr(out.str(), v.str())
	}
	r := out.str()
	// memoise within the path (strings are immutable)
	*s = Str{s: r.s, sym: r.sym}
	return s
}

func (m *Machine) formatPart(g *Goroutine, p *LazyPart) Value {
	if base, ok := map[string]int64{"%x": 16, "%o": 8, "%b": 2}[p.format]; ok {
		ifc := p.args[0].r.(*Iface)
		ti := m.ti(ifc.t)
		if ti.kind == kInt && ifc.v.sym() != nil {
			t := ifc.v.sym()
			if ti.signed {
				t = m.ctx.Sext(t, 64)
			} else {
				t = m.ctx.Zext(t, 64)
			}
			return m.callSync(g, m.p.Func(m.p.target.Func("vFmtBits")), nil, Value{r: t}, mkBool(!ti.signed), mkInt(base))
		}
	}
	if p.format == "%d" || p.format == "%v" {
		ifc := p.args[0].r.(*Iface)
		ti := m.ti(ifc.t)
		if ti.kind == kInt && ifc.v.sym() != nil {
			t := ifc.v.sym()
			if ti.signed {
				t = m.ctx.Sext(t, 64)
			} else {
				t = m.ctx.Zext(t, 64)
			}
			return m.callSync(g, m.p.Func(m.p.target.Func("vFmtInt")), nil, Value{r: t}, mkBool(!ti.signed))
		}
		if ti.kind == kBool {
			if m.branch(ifc.v.sym()) {
				return mkStr("true")
			}
			return mkStr("false")
		}
	}
	for _, a := range p.args {
		if ifc, ok := a.r.(*Iface); ok && m.ti(ifc.t).kind == kFloat {
			panic(pathEnd{"inconclusive", "text of a symbolic float inspected at " + m.where(g)})
		}
	}
	fi := *m.p.Func(m.p.findFunc("fmt", "Sprintf"))
	fi.intrOK = false
	arr := append([]Value(nil), p.args...)
	return m.callSync(g, &fi, nil, mkStr(p.format), Value{r: &Slice{arr: arr, len: len(arr), cap: len(arr)}})
}

// sprintf formats with symbolic arguments left lazy.
func (m *Machine) sprintf(g *Goroutine, format string, args []Value) (Value, []int) {
	var parts []LazyPart
	var buf strings.Builder
	var wrapped []int
	flush := func() {
		if buf.Len() > 0 {
			parts = append(parts, LazyPart{s: &Str{s: buf.String()}})
			buf.Reset()
		}
	}
	ai := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			buf.WriteByte(format[i])
			i++
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.*", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			buf.WriteString("%!(NOVERB)")
			break
		}
		verb := format[i : j+1]
		c := format[j]
		i = j + 1
		if c == '%' {
			buf.WriteByte('%')
			continue
		}
		var extra []any
		for k := 0; k < strings.Count(verb, "*"); k++ {
			if ai < len(args) {
				ifc, _ := args[ai].r.(*Iface)
				ai++
				if ifc != nil {
					extra = append(extra, int(m.concInt(ifc.v, 64)))
				}
			}
		}
		if ai >= len(args) {
			buf.WriteString("%!" + string(c) + "(MISSING)")
			continue
		}
		if c == 'w' {
			wrapped = append(wrapped, ai)
			verb = verb[:len(verb)-1] + "v"
			c = 'v'
		}
		a := args[ai]
		ai++
		m.fmtArg(g, verb, c, a, extra, &parts, &buf, flush)
	}
	if ai < len(args) {
		buf.WriteString("%!(EXTRA)")
	}
	flush()
	// all plain?
	plain := true
	for _, p := range parts {
		if p.s == nil || p.s.lazy != nil {
			plain = false
		}
	}
	if plain {
		out := Value{}
		for _, p := range parts {
			out = concatStr(out.str(), p.s)
		}
		return out, wrapped
	}
	var flat []LazyPart
	for _, p := range parts {
		if p.s != nil && p.s.lazy != nil {
			flat = append(flat, p.s.lazy.parts...)
		} else {
			flat = append(flat, p)
		}
	}
	return Value{r: &Str{lazy: &LazyStr{flat}}}, wrapped
}

func (m *Machine) fmtArg(g *Goroutine, verb string, c byte, a Value, extra []any, parts *[]LazyPart, buf *strings.Builder, flush func()) {
	if a.r == nil {
		fmt.Fprintf(buf, verb, append(extra, nil)...)
		return
	}
	ifc := a.r.(*Iface)
	ti := m.ti(ifc.t)
	emitStr := func(s *Str) {
		if s.concrete() {
			fmt.Fprintf(buf, verb, append(extra, s.s)...)
			return
		}
		if verb == "%s" || verb == "%v" {
			flush()
			*parts = append(*parts, LazyPart{s: s})
			return
		}
		flush()
		sv := m.force(g, s)
		*parts = append(*parts, LazyPart{format: verb, args: []Value{{r: &Iface{t: types.Typ[types.String], v: Value{r: sv}}}}})
	}
	if c == 's' || c == 'v' || c == 'q' {
		if fi := m.lookupMethod(ifc.t, "Error"); fi != nil && fi.fn.Signature.Results().Len() == 1 {
			if ti.kind == kPtr && ifc.v.r == nil {
				buf.WriteString("<nil>")
				return
			}
			emitStr(m.callSync(g, fi, nil, ifc.v).str())
			return
		}
		if fi := m.lookupMethod(ifc.t, "String"); fi != nil && fi.fn.Signature.Params().Len() == 0 && fi.fn.Signature.Results().Len() == 1 && (fi.inTarget || typeStr(ifc.t) == "time.Duration") {
			emitStr(m.callSync(g, fi, nil, ifc.v).str())
			return
		}
	}
	if t := ifc.v.sym(); t != nil && (ti.kind == kInt || ti.kind == kFloat || ti.kind == kBool) {
		flush()
		if len(extra) > 0 {
			verb = fmt.Sprintf(strings.ReplaceAll(strings.ReplaceAll(verb, "%", "%%"), "*", "%d"), extra...)
		}
		*parts = append(*parts, LazyPart{format: verb, args: []Value{a}})
		return
	}
	switch ti.kind {
	case kString:
		emitStr(ifc.v.str())
	case kInt, kFloat, kBool:
		fmt.Fprintf(buf, verb, append(extra, m.native(ti, ifc))...)
	case kPtr, kUPtr, kFunc, kChan, kMap:
		buf.WriteString("0xc000012340")
	case kSlice:
		if c == 's' && m.ti(ti.elem).w == 8 && m.ti(ti.elem).kind == kInt {
			emitStr(m.convert(g, ifc.t, types.Typ[types.String], ti, &tinfo{kind: kString}, ifc.v).str())
			return
		}
		flush()
		*parts = append(*parts, LazyPart{opaque: "%v of " + typeStr(ifc.t)})
	default:
		flush()
		*parts = append(*parts, LazyPart{opaque: verb + " of " + typeStr(ifc.t)})
	}
}

func (m *Machine) native(ti *tinfo, ifc *Iface) any {
	v := ifc.v
	switch ti.kind {
	case kBool:
		return v.b != 0
	case kFloat:
		if ti.w == WF32 {
			return math.Float32frombits(uint32(v.b))
		}
		return math.Float64frombits(v.b)
	case kInt:
		if ti.signed {
			switch ti.w {
			case 8:
				return int8(v.b)
			case 16:
				return int16(v.b)
			case 32:
				return int32(v.b)
			}
			return int64(v.b)
		}
		switch ti.w {
		case 8:
			return uint8(v.b)
		case 16:
			return uint16(v.b)
		case 32:
			return uint32(v.b)
		}
		return v.b
	}
	return nil
}

func (m *Machine) errNew(g *Goroutine, msg Value) Value {
	return m.callSync(g, m.p.Func(m.p.findFunc("errors", "New")), nil, msg)
}

func (m *Machine) namedPtr(pkg, name string) (types.Type, types.Type) {
	pk := m.p.prog.ImportedPackage(pkg)
	t := pk.Members[name].(*ssa.Type).Type()
	return types.NewPointer(t), t
}

var ptrTypeMu sync.Mutex
var ptrTypes = map[types.Type]types.Type{}

func canonPtr(t types.Type) types.Type {
	ptrTypeMu.Lock()
	defer ptrTypeMu.Unlock()
	if p, ok := ptrTypes[t]; ok {
		return p
	}
	p := types.NewPointer(t)
	ptrTypes[t] = p
	return p
}

func okGlobal(g *ssa.Global) bool {
	s := g.String()
	switch s {
	case "os.Stdin", "os.Stdout", "os.Stderr", "io.EOF", "os.Args":
		return true
	}
	return false
}

func allowedUninit(path string) bool {
	switch path {
	case "encoding/json":
		return false
	}
	return true
}

func specialGlobal(m *Machine, g *ssa.Global, v *Value) {
	switch g.String() {
	case "os.Stdin", "os.Stdout", "os.Stderr":
		ft := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer).Elem()
		c := new(Value)
		*c = m.zero(ft)
		*v = Value{r: c}
	}
}

func (m *Machine) timeValue() Value {
	return Value{r: &Aggr{f: []Value{{b: 1 << 63}, m.clockAt(1), {}}}}
}

type intrs map[string]Intrinsic

func nat1S(f func(string) string) Intrinsic {
	return func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if !concStr(a[0]) {
			m.forceAll(g, a)
			return Value{}, false
		}
		return mkStr(f(cs(a[0]))), true
	}
}
func nat2SS(f func(a, b string) string) Intrinsic {
	return func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if !concStr(a[0], a[1]) {
			m.forceAll(g, a)
			return Value{}, false
		}
		return mkStr(f(cs(a[0]), cs(a[1]))), true
	}
}
func nat2SB(f func(a, b string) bool) Intrinsic {
	return func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if !concStr(a[0], a[1]) {
			m.forceAll(g, a)
			return Value{}, false
		}
		return mkBool(f(cs(a[0]), cs(a[1]))), true
	}
}
func nat2SI(f func(a, b string) int) Intrinsic {
	return func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if !concStr(a[0], a[1]) {
			m.forceAll(g, a)
			return Value{}, false
		}
		return mkInt(int64(f(cs(a[0]), cs(a[1])))), true
	}
}

func (m *Machine) forceAll(g *Goroutine, a []Value) {
	for i := range a {
		if s, ok := a[i].r.(*Str); ok && s.lazy != nil {
			a[i] = Value{r: m.force(g, s)}
		}
	}
}

func mathFn(f func(float64) float64, name string) Intrinsic {
	return func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if t := a[0].sym(); t != nil {
			// uninterpreted: an arbitrary value determined by the argument
			v := m.ctx.Var(fmt.Sprintf("uf_%s_%d", name, t.id), 64)
			return Value{r: m.ctx.FFromBits(v, WF64)}, true
		}
		return Value{b: math.Float64bits(f(math.Float64frombits(a[0].b)))}, true
	}
}

func fpUnIntr(op Op, k uint64) Intrinsic {
	return func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if t := a[0].sym(); t != nil {
			return m.fromTerm(m.ctx.FUn(op, t, k), f64TI), true
		}
		return Value{b: fpUn(op, WF64, k, a[0].b)}, true
	}
}

func (m *Machine) fbitsOf(t *Term) *Term {
	if t.op == OFFromBits {
		return t.a
	}
	w := fw(t.w)
	b := m.ctx.Var(m.freshName("fbits"), w)
	f := m.ctx.FFromBits(b, t.w)
	// equal as IEEE data: same value and same sign, or both NaN
	same := m.ctx.And(m.ctx.FBin(OFEq, f, t), m.ctx.Eq(m.signBit(f), m.signBit(t)))
	m.assume(m.ctx.Or(same, m.ctx.And(m.ctx.FIsNaN(f), m.ctx.FIsNaN(t))))
	return b
}

func (m *Machine) signBit(t *Term) *Term {
	c := m.ctx
	zero := c.Const(t.w, 0)
	// 1/x < 0 distinguishes -0
	neg := c.FBin(OFLt, t, zero)
	isz := c.FBin(OFEq, t, zero)
	inv := c.FBin(OFLt, c.FBin(OFDiv, c.Const(t.w, fbits(t.w, 1)), t), zero)
	return c.Ite(isz, c.Ite(inv, c.Const(8, 1), c.Const(8, 0)), c.Ite(neg, c.Const(8, 1), c.Const(8, 0)))
}

// ---- unicode predicates over a symbolic rune, from the real tables

type runeRanges struct{ starts []uint32; vals []uint64 }

var ruCache sync.Map

func rangesOf(name string, f func(r rune) uint64) *runeRanges {
	if x, ok := ruCache.Load(name); ok {
		return x.(*runeRanges)
	}
	rr := &runeRanges{}
	for r := rune(0); r <= unicode.MaxRune+1; r++ {
		v := f(r)
		if len(rr.vals) == 0 || rr.vals[len(rr.vals)-1] != v {
			rr.starts = append(rr.starts, uint32(r))
			rr.vals = append(rr.vals, v)
		}
	}
	ruCache.Store(name, rr)
	return rr
}

func (m *Machine) runeLookup(rr *runeRanges, t *Term, w uint8) *Term {
	c := m.ctx
	// restrict by constant upper bound when the rune is a zero-extended byte
	lim := uint32(0xffffffff)
	if t.op == OZext && t.a.w == 8 {
		lim = 256
	}
	n := len(rr.starts)
	for n > 1 && rr.starts[n-1] >= lim {
		n--
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return c.Const(w, rr.vals[lo])
		}
		mid := (lo + hi) / 2
		return c.Ite(c.Bin(OUlt, t, c.Const(t.w, uint64(rr.starts[mid]))), build(lo, mid), build(mid, hi))
	}
	return build(0, n)
}

func uniPred(name string, f func(rune) bool) Intrinsic {
	return func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if t := a[0].sym(); t != nil {
			rr := rangesOf(name, func(r rune) uint64 { return b2u(f(r)) })
			// negative runes look like huge unsigned numbers: last range value applies
			return m.boolV(m.runeLookup(rr, t, WBool)), true
		}
		return mkBool(f(rune(int32(a[0].b)))), true
	}
}

func uniMap(name string, f func(rune) rune) Intrinsic {
	return func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if t := a[0].sym(); t != nil {
			rr := rangesOf(name, func(r rune) uint64 { return uint64(uint32(f(r) - r)) })
			return m.fromTerm(m.ctx.Bin(OAdd, t, m.runeLookup(rr, t, 32)), int32TI), true
		}
		return Value{b: uint64(int64(f(rune(int32(a[0].b)))))}, true
	}
}

func (m *Machine) bytesAll(a Value) []Value {
	if a.r == nil {
		return nil
	}
	switch x := a.r.(type) {
	case *Slice:
		return x.arr[x.off : x.off+x.len]
	case *Str:
		return m.strBytes(x)
	}
	return nil
}

// indexByte: first index of c in bs, forking on symbolic equalities.
func (m *Machine) indexByte(bs []Value, c Value) int {
	ct := m.sig(c, byteTInfo)
	for i, b := range bs {
		if m.branch(m.ctx.Eq(m.sig(b, byteTInfo), ct)) {
			return i
		}
	}
	return -1
}

func atomicOp(w int, kind string) Intrinsic {
	ti := int64TI
	switch w {
	case 32:
		ti = int32TI
	case -32:
		ti = &tinfo{kind: kInt, w: 32}
	case -64:
		ti = &tinfo{kind: kInt, w: 64}
	}
	return func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		p := a[0].ptr()
		if p == nil {
			m.rt("invalid memory address or nil pointer dereference")
		}
		if m.conc && kind != "" {
			if !m.exemptSync(p) && m.schedPoint(g, p, m.atomicWrites(p, kind, a)) {
				m.ctlBlock = true
				return Value{}, true
			}
		}
		if m.race {
			o := m.obj(p)
			m.acquire(g, o.clk)
			if kind != "load" {
				m.release(g, &o.clk)
			}
			m.raceAtomic(p, kind != "load")
		}
		for i := 1; i < len(a); i++ {
			if u, ok := a[i].r.(*UPtr); ok {
				a[i] = Value{r: u.p}
			}
		}
		save := m.race
		m.race = false
		defer func() { m.race = save }()
		switch kind {
		case "load":
			return *p, true
		case "store":
			m.logW(p)
			*p = a[1]
			return Value{}, true
		case "add":
			m.logW(p)
			ins := Instr{tok: tokADD, ti: ti, ti2: ti}
			if isConc(*p, a[1]) {
				*p = m.intConc(&ins, p.b, a[1].b)
			} else {
				*p = m.intSym(&ins, *p, a[1])
			}
			return *p, true
		case "swap":
			m.logW(p)
			old := *p
			*p = a[1]
			return old, true
		case "cas":
			var eq *Term
			if ti2, isP := p.r.(*Value); isP || a[1].ptrOK() {
				_ = ti2
				eq = m.ctx.Bool(samePtr(*p, a[1]))
			} else {
				eq = m.ctx.Eq(m.sig(*p, ti), m.sig(a[1], ti))
			}
			if m.branch(eq) {
				m.logW(p)
				*p = a[2]
				return mkBool(true), true
			}
			return mkBool(false), true
		}
		panic("atomic")
	}
}

// atomicWrites: the operation may change the contents.
func (m *Machine) atomicWrites(p *Value, kind string, a []Value) bool {
	switch kind {
	case "load":
		return false
	case "store", "swap":
		if p.r == nil && a[1].r == nil {
			return p.b != a[1].b
		}
		if p.r != nil && a[1].r != nil {
			if _, ok := p.r.(*Value); ok {
				return !samePtr(*p, a[1])
			}
		}
	}
	return true
}

// exemptSync: the counter that numbers profiling events is only ever added to
// and printed; its operations commute.
func (m *Machine) exemptSync(p *Value) bool {
	if m.profGUID == nil {
		m.profGUID = m.globalPtr("ProfileGUID")
	}
	return p == m.profGUID
}

// globalPtr finds a variable of the package under test (nil if there is none).
func (m *Machine) globalPtr(name string) *Value {
	m.p.mu.RLock()
	ix := -1
	for i, g := range m.p.globList {
		if g.Name() == name && g.Pkg != nil && g.Pkg.Pkg.Name() == "golisp" {
			ix = i
		}
	}
	m.p.mu.RUnlock()
	if ix < 0 {
		return nil
	}
	return m.global(ix)
}

func (v Value) ptrOK() bool {
	switch v.r.(type) {
	case *Value, *UPtr:
		return true
	}
	return false
}

func samePtr(a, b Value) bool {
	return a.ptr() == b.ptr()
}

func buildIntrinsics(target string) map[string]Intrinsic {
	T := intrs{}
	// strings
	T["strings.HasPrefix"] = nat2SB(strings.HasPrefix)
	T["strings.HasSuffix"] = nat2SB(strings.HasSuffix)
	T["strings.Contains"] = nat2SB(strings.Contains)
	T["strings.Count"] = nat2SI(strings.Count)
	T["strings.Index"] = nat2SI(strings.Index)
	T["strings.LastIndex"] = nat2SI(strings.LastIndex)
	T["strings.TrimPrefix"] = nat2SS(strings.TrimPrefix)
	T["strings.TrimSuffix"] = nat2SS(strings.TrimSuffix)
	T["strings.Trim"] = nat2SS(strings.Trim)
	T["strings.TrimLeft"] = nat2SS(strings.TrimLeft)
	T["strings.TrimRight"] = nat2SS(strings.TrimRight)
	T["strings.ToLower"] = nat1S(strings.ToLower)
	T["strings.ToUpper"] = nat1S(strings.ToUpper)
	T["strings.TrimSpace"] = nat1S(strings.TrimSpace)
	T["strings.Title"] = nat1S(strings.Title)
	T["strings.Repeat"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		m.forceAll(g, a)
		if concStr(a[0]) && isConc(a[1]) && int64(a[1].b) >= 0 && int64(a[1].b)*int64(len(cs(a[0]))) < 1<<20 {
			return mkStr(strings.Repeat(cs(a[0]), int(a[1].b))), true
		}
		if isConc(a[1]) && int64(a[1].b)*int64(len(a[0].str().s)) >= 1<<27 {
			panic(pathEnd{"crash", "out of memory: strings.Repeat"})
		}
		return Value{}, false
	}
	T["strings.Split"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if concStr(a[0], a[1]) {
			return strSlice(strings.Split(cs(a[0]), cs(a[1]))), true
		}
		m.forceAll(g, a)
		return Value{}, false
	}
	T["strings.Join"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		out := Value{}
		for i, e := range m.sliceVals(g, a[0]) {
			if i > 0 {
				out = concatStr(out.str(), a[1].str())
			}
			out = concatStr(out.str(), e.str())
		}
		return out, true
	}
	T["strings.ContainsRune"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if concStr(a[0]) && isConc(a[1]) {
			return mkBool(strings.ContainsRune(cs(a[0]), rune(int32(a[1].b)))), true
		}
		m.forceAll(g, a)
		return Value{}, false
	}
	T["(*strings.Builder).String"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		b := a[0].ptr().r.(*Aggr)
		bs := m.bytesAll(b.f[1])
		return strFromBytes(bs), true
	}
	T["(*strings.Builder).copyCheck"] = noop
	T["strings.Clone"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) { return a[0], true }
	T["internal/stringslite.Clone"] = T["strings.Clone"]
	T["internal/bytealg.MakeNoZero"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		n := m.concInt(a[0], 64)
		if n > 1<<24 {
			panic(pathEnd{"crash", "allocation too large"})
		}
		return Value{r: &Slice{arr: make([]Value, n), len: int(n), cap: int(n)}}, true
	}
	ib := func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		m.forceAll(g, a)
		return mkInt(int64(m.indexByte(m.sliceVals(g, a[0]), a[1]))), true
	}
	T["internal/bytealg.IndexByte"] = ib
	T["internal/bytealg.IndexByteString"] = ib
	T["internal/stringslite.IndexByte"] = ib
	T["strings.IndexByte"] = ib
	T["bytes.IndexByte"] = ib
	cb := func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		m.forceAll(g, a)
		n := int64(0)
		for _, b := range m.sliceVals(g, a[0]) {
			if m.branch(m.ctx.Eq(m.sig(b, byteTInfo), m.sig(a[1], byteTInfo))) {
				n++
			}
		}
		return mkInt(n), true
	}
	T["internal/bytealg.Count"] = cb
	T["internal/bytealg.CountString"] = cb
	idx := func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		m.forceAll(g, a)
		x := strFromBytes(m.sliceVals(g, a[0])).str()
		y := strFromBytes(m.sliceVals(g, a[1])).str()
		for i := 0; i+len(y.s) <= len(x.s); i++ {
			if m.branch(m.ctx.strEq(x.slice(i, i+len(y.s)).str(), y)) {
				return mkInt(int64(i)), true
			}
		}
		return mkInt(-1), true
	}
	T["internal/bytealg.Index"] = idx
	T["internal/bytealg.IndexString"] = idx
	T["internal/bytealg.Compare"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		x := strFromBytes(m.sliceVals(g, a[0])).str()
		y := strFromBytes(m.sliceVals(g, a[1])).str()
		if m.branch(m.ctx.strEq(x, y)) {
			return mkInt(0), true
		}
		if m.branch(m.ctx.strLt(x, y)) {
			return mkInt(-1), true
		}
		return mkInt(1), true
	}
	T["internal/bytealg.CompareString"] = T["internal/bytealg.Compare"]
	T["bytes.Equal"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		x := strFromBytes(m.sliceVals(g, a[0])).str()
		y := strFromBytes(m.sliceVals(g, a[1])).str()
		return m.boolV(m.ctx.strEq(x, y)), true
	}
	T["internal/bytealg.Equal"] = T["bytes.Equal"]
	T["internal/stringslite.HasPrefix"] = T["strings.HasPrefix"]
	T["internal/stringslite.HasSuffix"] = T["strings.HasSuffix"]
	// unicode
	T["unicode.IsSpace"] = uniPred("IsSpace", unicode.IsSpace)
	T["unicode.IsDigit"] = uniPred("IsDigit", unicode.IsDigit)
	T["unicode.IsNumber"] = uniPred("IsNumber", unicode.IsNumber)
	T["unicode.IsGraphic"] = uniPred("IsGraphic", unicode.IsGraphic)
	T["unicode.IsLetter"] = uniPred("IsLetter", unicode.IsLetter)
	T["unicode.IsUpper"] = uniPred("IsUpper", unicode.IsUpper)
	T["unicode.IsLower"] = uniPred("IsLower", unicode.IsLower)
	T["unicode.IsPunct"] = uniPred("IsPunct", unicode.IsPunct)
	T["unicode.IsControl"] = uniPred("IsControl", unicode.IsControl)
	T["unicode.IsPrint"] = uniPred("IsPrint", unicode.IsPrint)
	T["unicode.ToUpper"] = uniMap("ToUpper", unicode.ToUpper)
	T["unicode.ToLower"] = uniMap("ToLower", unicode.ToLower)
	T["unicode.ToTitle"] = uniMap("ToTitle", unicode.ToTitle)
	// strconv
	T["strconv.ParseFloat"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		m.forceAll(g, a)
		if concStr(a[0]) && isConc(a[1]) {
			f, err := strconv.ParseFloat(cs(a[0]), int(a[1].b))
			e := Value{}
			if err != nil {
				e = m.errNew(g, mkStr(err.Error()))
			}
			return tuple(Value{b: math.Float64bits(f)}, e), true
		}
		panic(pathEnd{"inconclusive", "ParseFloat of a symbolic string"})
	}
	T["strconv.Itoa"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if isConc(a[0]) {
			return mkStr(strconv.Itoa(int(a[0].b))), true
		}
		return Value{r: &Str{lazy: &LazyStr{[]LazyPart{{format: "%d", args: []Value{{r: &Iface{t: types.Typ[types.Int], v: a[0]}}}}}}}}, true
	}
	T["strconv.FormatInt"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if isConc(a[0], a[1]) {
			return mkStr(strconv.FormatInt(int64(a[0].b), int(a[1].b))), true
		}
		if isConc(a[1]) && a[1].b == 10 {
			return Value{r: &Str{lazy: &LazyStr{[]LazyPart{{format: "%d", args: []Value{{r: &Iface{t: types.Typ[types.Int64], v: a[0]}}}}}}}}, true
		}
		return Value{}, false
	}
	T["strconv.FormatFloat"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if isConc(a[0], a[1], a[2], a[3]) {
			return mkStr(strconv.FormatFloat(math.Float64frombits(a[0].b), byte(a[1].b), int(int64(a[2].b)), int(int64(a[3].b)))), true
		}
		return Value{r: &Str{lazy: &LazyStr{[]LazyPart{{format: "%g", args: []Value{{r: &Iface{t: types.Typ[types.Float64], v: a[0]}}}}}}}}, true
	}
	// fmt
	T["fmt.Sprintf"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		f := m.force(g, a[0].str())
		if !f.concrete() {
			return Value{}, false
		}
		v, _ := m.sprintf(g, f.s, m.sliceVals(g, a[1]))
		return v, true
	}
	T["fmt.Errorf"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		f := m.force(g, a[0].str())
		if !f.concrete() {
			return Value{}, false
		}
		args := m.sliceVals(g, a[1])
		s, wr := m.sprintf(g, f.s, args)
		if len(wr) == 1 {
			_, t := m.namedPtr("fmt", "wrapError")
			pt := canonPtr(t)
			c := new(Value)
			*c = Value{r: &Aggr{f: []Value{s, args[wr[0]]}}}
			return Value{r: &Iface{t: pt, v: Value{r: c}}}, true
		}
		return m.errNew(g, s), true
	}
	pr := func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		return tuple(Value{}, Value{}), true
	}
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		T[n] = pr
	}
	T["fmt.Sprint"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		args := m.sliceVals(g, a[0])
		if len(args) == 1 {
			v, _ := m.sprintf(g, "%v", args)
			return v, true
		}
		return Value{}, false
	}
	T["fmt.Sscanf"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		m.forceAll(g, a)
		return m.sscanf(g, a), true
	}
	// errors
	// atomic
	for _, x := range []struct {
		n string
		w int
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", -32}, {"Uint64", -64}, {"Uintptr", -64}, {"Pointer", -64}} {
		T["sync/atomic.Load"+x.n] = atomicOp(x.w, "load")
		T["sync/atomic.Store"+x.n] = atomicOp(x.w, "store")
		T["sync/atomic.Swap"+x.n] = atomicOp(x.w, "swap")
		T["sync/atomic.CompareAndSwap"+x.n] = atomicOp(x.w, "cas")
		if x.n != "Pointer" {
			T["sync/atomic.Add"+x.n] = atomicOp(x.w, "add")
		}
	}
	// sync
	lockI := func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		m.lock(g, a[0].ptr())
		return Value{}, true
	}
	unlockI := func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		m.unlock(g, a[0].ptr())
		return Value{}, true
	}
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)", "(*internal/sync.Mutex)"} {
		T[t+".Lock"] = lockI
		T[t+".Unlock"] = unlockI
		T[t+".TryLock"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
			return mkBool(m.tryLock(g, a[0].ptr())), true
		}
	}
	T["(*sync.RWMutex).RLock"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		m.rlock(g, a[0].ptr())
		return Value{}, true
	}
	T["(*sync.RWMutex).RUnlock"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		m.runlock(g, a[0].ptr())
		return Value{}, true
	}
	T["(*sync.WaitGroup).Add"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		o := m.obj(a[0].ptr())
		o.n += int64(a[1].b)
		if o.n < 0 {
			m.rt("sync: negative WaitGroup counter")
		}
		m.release(g, &o.clk)
		return Value{}, true
	}
	T["(*sync.WaitGroup).Done"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		o := m.obj(a[0].ptr())
		o.n--
		m.release(g, &o.clk)
		return Value{}, true
	}
	T["(*sync.WaitGroup).Wait"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		o := m.obj(a[0].ptr())
		if o.n > 0 {
			m.canBlock(g, "WaitGroup")
			g.ready = func() bool { return o.n == 0 }
			m.ctlBlock = true
			return Value{}, true
		}
		m.acquire(g, o.clk)
		return Value{}, true
	}
	T["(*sync.Pool).Get"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		ag := a[0].ptr().r.(*Aggr)
		nf := ag.f[len(ag.f)-1]
		if nf.r == nil {
			return Value{}, true
		}
		return m.callClosure(g, nf), true
	}
	T["(*sync.Pool).Put"] = noop
	// time
	T["time.Now"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) { return m.timeValue(), true }
	T["time.Since"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		ag := a[0].r.(*Aggr)
		return m.intOp(OSub, m.clockAt(1), ag.f[1]), true
	}
	T["time.runtimeNano"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) { return m.clockAt(1), true }
	T["time.Sleep"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if g.timerOnly {
			g.timerOnly = false
			g.due = false
			return Value{}, true
		}
		when, now := m.whenAfter(a[0])
		if now {
			return Value{}, true
		}
		m.canBlock(g, "sleep")
		g.deadline = when
		g.timerOnly = true
		g.due = false
		m.ctlBlock = true
		return Value{}, true
	}
	T["time.After"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		ch := &Chan{cap: 1, nt: true}
		m.startTimer(&timerT{ch: ch}, a[0])
		return Value{r: ch}, true
	}
	T["time.NewTimer"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		ch := &Chan{cap: 1, nt: true}
		tt := fi.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		c := new(Value)
		*c = m.zero(tt)
		c.r.(*Aggr).f[0] = Value{r: ch}
		c.r.(*Aggr).f[1] = mkBool(true)
		m.startTimer(&timerT{ch: ch, key: c}, a[0])
		return Value{r: c}, true
	}
	T["time.AfterFunc"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		tt := fi.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		c := new(Value)
		*c = m.zero(tt)
		m.startTimer(&timerT{fn: a[1], key: c}, a[0])
		return Value{r: c}, true
	}
	T["(*time.Timer).Stop"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if m.conc && g.nested == 0 && m.preempt > 0 && m.preemptHere(g) {
			m.ctlBlock = true
			return Value{}, true
		}
		p := a[0].ptr()
		for _, t := range m.timers {
			if t.key == p {
				was := t.active
				t.active = false
				if t.ch != nil && len(t.ch.buf) > 0 {
					// Go >= 1.23 semantics: no stale values after Stop
					if m.p.newTimers {
						t.ch.buf = nil
						was = true
					}
				}
				return mkBool(was), true
			}
		}
		return mkBool(false), true
	}
	T["(*time.Timer).Reset"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if m.conc && g.nested == 0 && m.preempt > 0 && m.preemptHere(g) {
			m.ctlBlock = true
			return Value{}, true
		}
		p := a[0].ptr()
		for _, t := range m.timers {
			if t.key == p {
				was := t.active
				if m.p.newTimers && t.ch != nil {
					t.ch.buf = nil
				}
				m.startTimer(t, a[1])
				return mkBool(was), true
			}
		}
		return mkBool(false), true
	}
	// runtime, os
	T["runtime.Stack"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) { return Value{}, true }
	T["runtime.Gosched"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if m.conc && g.nested == 0 && m.preempt > 0 && m.preemptHere(g) {
			m.ctlBlock = true
		}
		return Value{}, true
	}
	T["runtime.GC"] = noop
	T["runtime.KeepAlive"] = noop
	T["os.Exit"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		panic(pathEnd{"crash", fmt.Sprintf("os.Exit(%d)", int64(a[0].b))})
	}
	T["(*os.File).Name"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) { return mkStr("/dev/stdout"), true }
	registerFiles(T)
	// starting a process always succeeds and does nothing
	T["os/exec.Command"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		ft := fi.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		c := new(Value)
		*c = m.zero(ft)
		return Value{r: c}, true
	}
	for _, n := range []string{"Start", "Run", "Wait"} {
		T["(*os/exec.Cmd)."+n] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) { return Value{}, true }
	}
	// math
	T["math.Abs"] = fpUnIntr(OFAbs, 0)
	T["math.Sqrt"] = fpUnIntr(OFSqrt, 0)
	T["math.sqrt"] = fpUnIntr(OFSqrt, 0)
	T["math.Trunc"] = fpUnIntr(OFRnd, 0)
	T["math.Floor"] = fpUnIntr(OFRnd, 1)
	T["math.Ceil"] = fpUnIntr(OFRnd, 2)
	T["math.IsNaN"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		return m.boolV(m.ctx.FIsNaN(m.sig(a[0], f64TI))), true
	}
	T["math.IsInf"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if isConc(a[0], a[1]) {
			return mkBool(math.IsInf(math.Float64frombits(a[0].b), int(int64(a[1].b)))), true
		}
		return Value{}, false
	}
	T["math.Signbit"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if isConc(a[0]) {
			return mkBool(math.Signbit(math.Float64frombits(a[0].b))), true
		}
		return m.boolV(m.ctx.Eq(m.signBit(a[0].sym()), m.ctx.Const(8, 1))), true
	}
	T["math.Float32bits"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if t := a[0].sym(); t != nil {
			return Value{r: m.fbitsOf(t)}, true
		}
		return Value{b: a[0].b}, true
	}
	T["math.Float64bits"] = T["math.Float32bits"]
	T["math.Float32frombits"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if t := a[0].sym(); t != nil {
			return m.fromTerm(m.ctx.FFromBits(t, WF32), f32TI), true
		}
		return Value{b: a[0].b}, true
	}
	T["math.Float64frombits"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if t := a[0].sym(); t != nil {
			return m.fromTerm(m.ctx.FFromBits(t, WF64), f64TI), true
		}
		return Value{b: a[0].b}, true
	}
	for n, f := range map[string]func(float64) float64{"Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Asin": math.Asin, "Acos": math.Acos, "Atan": math.Atan, "Sinh": math.Sinh, "Cosh": math.Cosh, "Tanh": math.Tanh, "Asinh": math.Asinh, "Acosh": math.Acosh, "Atanh": math.Atanh, "Exp": math.Exp, "Exp2": math.Exp2, "Expm1": math.Expm1, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Log1p": math.Log1p, "Logb": math.Logb, "Gamma": math.Gamma, "Erf": math.Erf, "Erfc": math.Erfc, "Cbrt": math.Cbrt, "J0": math.J0, "J1": math.J1, "Y0": math.Y0, "Y1": math.Y1} {
		T["math."+n] = mathFn(f, n)
	}
	T["math.Pow"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if isConc(a[0], a[1]) {
			return Value{b: math.Float64bits(math.Pow(math.Float64frombits(a[0].b), math.Float64frombits(a[1].b)))}, true
		}
		v := m.ctx.Var(fmt.Sprintf("uf_pow_%d_%d", m.sig(a[0], f64TI).id, m.sig(a[1], f64TI).id), 64)
		return Value{r: m.ctx.FFromBits(v, WF64)}, true
	}
	T["math/rand.Intn"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		n := m.sig(a[0], int64TI)
		c := m.ctx
		if m.branch(c.Bin(OSle, n, c.Const(64, 0))) {
			m.rt("invalid argument to Intn")
		}
		v := c.Var(m.freshName("rand"), 64)
		m.assume(c.And(c.Bin(OSle, c.Const(64, 0), v), c.Bin(OSlt, v, n)))
		return Value{r: v}, true
	}
	T["math/rand.Int"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		c := m.ctx
		v := c.Var(m.freshName("rand"), 64)
		m.assume(c.Bin(OSle, c.Const(64, 0), v))
		return Value{r: v}, true
	}
	T["math/rand.Seed"] = noop
	// sort
	T["sort.Slice"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		ifc := a[0].r.(*Iface)
		if ifc.v.r == nil {
			return Value{}, true
		}
		s := ifc.v.r.(*Slice)
		for i := 1; i < s.len; i++ {
			for j := i; j > 0; j-- {
				lt := m.callClosure(g, a[1], mkInt(int64(j)), mkInt(int64(j-1)))
				if !m.truth(lt) {
					break
				}
				x, y := copyVal(s.arr[s.off+j]), copyVal(s.arr[s.off+j-1])
				m.store(&s.arr[s.off+j], y)
				m.store(&s.arr[s.off+j-1], x)
			}
		}
		return Value{}, true
	}
	T["sort.SliceStable"] = T["sort.Slice"]
	harnessIntrinsics(T, target)
	jsonIntrinsics(T)
	reflectIntrinsics(T)
	return T
}

func (m *Machine) truth(v Value) bool {
	if t := v.sym(); t != nil {
		return m.branch(t)
	}
	return v.b != 0
}

// sscanf models fmt.Sscanf for the single-verb formats the target uses.
func (m *Machine) sscanf(g *Goroutine, a []Value) Value {
	s := a[0].str()
	f := a[1].str().s
	args := m.sliceVals(g, a[2])
	okR := func(n int) Value {
		if n == len(args) {
			return tuple(mkInt(int64(n)), Value{})
		}
		return tuple(mkInt(int64(n)), m.errNew(g, mkStr("expected input")))
	}
	if s.concrete() {
		ptrs := make([]any, len(args))
		for i, x := range args {
			ifc := x.r.(*Iface)
			et := m.ti(m.ti(ifc.t).elem)
			switch {
			case et.kind == kInt && et.signed && et.w == 64:
				ptrs[i] = new(int64)
			case et.kind == kInt && et.w == 64:
				ptrs[i] = new(uint64)
			case et.kind == kInt && et.w == 32 && et.signed:
				ptrs[i] = new(int32)
			case et.kind == kFloat && et.w == WF32:
				ptrs[i] = new(float32)
			case et.kind == kFloat:
				ptrs[i] = new(float64)
			case et.kind == kString:
				ptrs[i] = new(string)
			default:
				panic(engineErr("Sscanf into %s", ifc.t))
			}
		}
		n, err := fmt.Sscanf(s.s, f, ptrs...)
		for i, x := range args {
			if i >= n {
				// a failed numeric scan leaves the target unchanged
				break
			}
			p := x.r.(*Iface).v.ptr()
			var v Value
			switch q := ptrs[i].(type) {
			case *int64:
				v = mkInt(*q)
			case *uint64:
				v = Value{b: *q}
			case *int32:
				v = mkInt(int64(*q))
			case *float32:
				v = Value{b: uint64(math.Float32bits(*q))}
			case *float64:
				v = Value{b: math.Float64bits(*q)}
			case *string:
				v = mkStr(*q)
			}
			m.store(p, v)
		}
		e := Value{}
		if err != nil {
			e = m.errNew(g, mkStr(err.Error()))
		}
		return tuple(mkInt(int64(n)), e)
	}
	base := 0
	switch f {
	case "%d":
		base = 10
	case "%x":
		base = 16
	case "%b":
		base = 2
	case "%o":
		base = 8
	}
	if base != 0 && len(args) == 1 {
		ifc := args[0].r.(*Iface)
		et := m.ti(m.ti(ifc.t).elem)
		if et.kind == kInt && et.signed && et.w == 64 {
			r := m.callSync(g, m.p.Func(m.p.target.Func("vScanInt")), nil, Value{r: s}, mkInt(int64(base))).r.(*Aggr)
			ok := m.truth(r.f[1])
			if ok {
				m.store(ifc.v.ptr(), r.f[0])
				return okR(1)
			}
			return okR(0)
		}
	}
	if f == "%f" && len(args) == 1 {
		ifc := args[0].r.(*Iface)
		if et := m.ti(m.ti(ifc.t).elem); et.kind == kFloat && et.w == WF32 {
			r := m.callSync(g, m.p.Func(m.p.target.Func("vScanFloat")), nil, Value{r: s}).r.(*Aggr)
			if m.truth(r.f[2]) {
				if m.truth(r.f[1]) {
					m.store(ifc.v.ptr(), r.f[0])
					return okR(1)
				}
				return okR(0)
			}
		}
	}
	panic(pathEnd{"inconclusive", "Sscanf(" + f + ") of a symbolic string"})
}
