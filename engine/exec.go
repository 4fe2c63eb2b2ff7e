package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"runtime/debug"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	call *callInfo
	fn   Value // closure or nil
	args []Value
	fi   *FuncInfo
	env  []Value
}

type Frame struct {
	fi       *FuncInfo
	regs     []Value
	block    int
	pc       int
	dst      int32
	defers   []deferred
	unwind   bool   // running defers because of a panic
	isDefer  bool   // this frame is a deferred call
	deferOf  *Frame // whose
	sync     bool   // bottom frame of a nested synchronous call
	rdefer   bool   // running defers on normal exit
}

type panicState struct {
	val       Value // interface value
	msg       string
	recovered bool
	started   bool
}

type Goroutine struct {
	id      int
	stack   []*Frame
	done    bool
	ready   func() bool // non-nil: blocked until true
	wait    []waitCase
	why     string
	pan     *panicState
	syncRes Value
	vc      VC
	hvc VC
	nested  int
	name    string
	deadline Value // while timerOnly: when the sleep ends
	timerOnly bool // blocked until the clock reaches deadline
	due bool // the deadline has been reached
	external bool
	waitingOn *syncObj
	chRes *chResult
	waitSeq int
}

type undoEnt struct {
	p   *Value
	old Value
	fn  func()
}

type pathEnd struct {
	kind string // done, assume, crash, hang, unsupported, inconclusive, violation
	msg  string
}

type Machine struct {
	p       *Program
	ctx     *TermCtx
	solver  *Solver
	globals []*Value
	profGUID *Value
	tinfos  map[types.Type]*tinfo
	typeKey map[types.Type]string
	undo    []undoEnt
	logging bool
	steps   int64
	budget  int64
	ctlBlock bool
	ctlYield bool

	// per path
	path   *Path
	gs     []*Goroutine
	cur    *Goroutine
	nextG  int
	waitSeq int
	clock  Value // nanoseconds since the start, possibly symbolic
	nextID int
	side   map[*Value]*syncObj
	race   bool
	shadow map[any]*shadowT
	conc   bool
	preempt int
	opaque bool
	mapPerm bool
	onces  map[*Value]bool
	pools  map[*Value][]Value
	files  map[string]*fileT
	opens  map[*Value]*openT
	initDone bool
	inits  map[*ssa.Package]bool
	out    strings.Builder
	frees  [][]Value
	stats  *RunStats
	maxDepth int
	timers []*timerT
	chanN int
	mapN int
	hitFn map[*FuncInfo]bool
	rtErrT types.Type
	trace bool
	depthLimit int
	forceDepth int
	fnMem map[string]int64
	localB int64
	callDepthHook func()
	lastPos token.Pos
	exp *Explorer
}

func (m *Machine) sig(v Value, ti *tinfo) *Term {
	if t := v.sym(); t != nil {
		return t
	}
	return m.ctx.Const(ti.w, v.b)
}

func norm(ti *tinfo, x uint64) uint64 {
	switch ti.w {
	case 64, WF64:
		return x
	case WF32:
		return x & 0xffffffff
	}
	if ti.signed {
		return uint64(sext64(x, ti.w))
	}
	return x & mask(ti.w)
}

// fromTerm makes a Value from a term, folding constants.
func (m *Machine) fromTerm(t *Term, ti *tinfo) Value {
	if t.isConst() {
		return Value{b: norm(ti, t.k)}
	}
	return Value{r: t}
}

func (m *Machine) boolV(t *Term) Value {
	if t.isConst() {
		return Value{b: t.k}
	}
	return Value{r: t}
}

func (m *Machine) global(i int) *Value {
	for i >= len(m.globals) {
		m.globals = append(m.globals, nil)
	}
	if m.globals[i] == nil {
		m.p.mu.RLock()
		g := m.p.globList[i]
		m.p.mu.RUnlock()
		if g.Pkg != nil && !m.p.initPkgs[g.Pkg.Pkg.Path()] && m.initDone {
			if !okGlobal(g) {
				panic(pathEnd{"unsupported", "global of uninitialised package: " + g.String()})
			}
		}
		v := new(Value)
		*v = m.zero(g.Type().Underlying().(*types.Pointer).Elem())
		specialGlobal(m, g, v)
		m.globals[i] = v
	}
	return m.globals[i]
}

func (m *Machine) get(fr *Frame, o *Operand) Value {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.v
	default:
		return Value{r: m.global(int(o.i))}
	}
}

func (m *Machine) logW(p *Value) {
	if m.logging {
		m.undo = append(m.undo, undoEnt{p: p, old: *p})
	}
}

func (m *Machine) logF(f func()) {
	if m.logging {
		m.undo = append(m.undo, undoEnt{fn: f})
	}
}

func (m *Machine) rollback() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := &m.undo[i]
		if u.fn != nil {
			u.fn()
		} else {
			*u.p = u.old
		}
		*u = undoEnt{}
	}
	m.undo = m.undo[:0]
}

func (m *Machine) load(p *Value) Value {
	if m.race {
		m.raceAccess(p, false)
	}
	if a, ok := p.r.(*Aggr); ok {
		if m.race {
			m.raceDeep(p, false)
		}
		for i := range a.f {
			if _, ok := a.f[i].r.(*LazyRef); ok {
				m.load(&a.f[i])
			}
		}
		return copyVal(*p)
	}
	if l, ok := p.r.(*LazyRef); ok {
		// which alternative it is is decided now
		v := l.alts[m.concretize(l.t)]
		m.logW(p)
		*p = v
		return v
	}
	return *p
}

// store writes v to *p; aggregates are written in place so that interior
// pointers stay valid.
func (m *Machine) store(p *Value, v Value) {
	if a, ok := v.r.(*Aggr); ok {
		d, ok2 := p.r.(*Aggr)
		if ok2 && len(d.f) == len(a.f) {
			for i := range a.f {
				m.store(&d.f[i], a.f[i])
			}
			return
		}
		v = copyVal(v)
	}
	if m.race {
		m.raceAccess(p, true)
	}
	m.logW(p)
	*p = v
}

type rtPanic struct{ msg string }

// callFrame pushes a frame.
func (m *Machine) push(g *Goroutine, fi *FuncInfo, args []Value, env []Value, dst int32) *Frame {
	if fi.foreign {
		panic(pathEnd{"unsupported", "call of " + fi.name})
	}
	if m.depthLimit > 0 && len(g.stack) > m.depthLimit {
		panic(pathEnd{"hang", "call depth exceeded (unbounded recursion) in " + fi.name})
	}
	fr := &Frame{fi: fi, dst: dst}
	fr.regs = make([]Value, fi.nregs)
	copy(fr.regs, args)
	copy(fr.regs[len(args):], env)
	g.stack = append(g.stack, fr)
	if fi.inTarget {
		m.hitFn[fi] = true
	}
	return fr
}

func (m *Machine) foreignOK(fi *FuncInfo) {
	if fi.fn.Pkg != nil && !m.p.initPkgs[fi.fn.Pkg.Pkg.Path()] && !allowedUninit(fi.fn.Pkg.Pkg.Path()) {
		panic(pathEnd{"unsupported", "call into uninitialised package: " + fi.name})
	}
}

// callSync runs a function to completion on the current goroutine.
func (m *Machine) callSync(g *Goroutine, fi *FuncInfo, env []Value, args ...Value) Value {
	if fi.intrOK {
		v, h := fi.intr(m, g, fi, args)
		if h {
			return v
		}
	}
	fr := m.push(g, fi, args, env, -1)
	fr.sync = true
	base := len(g.stack) - 1
	g.nested++
	m.run(g, base)
	g.nested--
	if g.pan != nil && len(g.stack) == base {
		// propagate the panic into the caller
		g.pan.started = false
		panic(nestedPanic{})
	}
	v := g.syncRes
	g.syncRes = Value{}
	return v
}

type nestedPanic struct{}

func (m *Machine) callClosure(g *Goroutine, fv Value, args ...Value) Value {
	c := fv.r.(*Closure)
	if c.nat != nil {
		return c.nat.f(m, g, args)
	}
	return m.callSync(g, m.p.Func(c.fn), c.env, args...)
}

func (m *Machine) where(g *Goroutine) string {
	var sb strings.Builder
	for i := len(g.stack) - 1; i >= 0 && i > len(g.stack)-8; i-- {
		fr := g.stack[i]
		pos := ""
		if fr.pc > 0 && fr.pc <= len(fr.fi.blocks[fr.block].instrs) {
			for pc := fr.pc - 1; pc >= 0; pc-- {
				p := m.p.prog.Fset.Position(fr.fi.blocks[fr.block].instrs[pc].src.Pos())
				if p.IsValid() {
					pos = fmt.Sprintf("%s:%d", p.Filename[strings.LastIndex(p.Filename, "/")+1:], p.Line)
					break
				}
			}
		}
		fmt.Fprintf(&sb, "%s(%s) < ", shortFn(fr.fi.name), pos)
	}
	return strings.TrimSuffix(sb.String(), " < ")
}

func shortFn(s string) string {
	return strings.ReplaceAll(s, "github.com/steelseries/", "")
}

// startPanic begins panicking on g with a runtime error.
func (m *Machine) rt(msg string) {
	panic(rtPanic{msg})
}

func (m *Machine) beginPanic(g *Goroutine, val Value, msg string) {
	g.pan = &panicState{val: val, msg: msg + " at " + m.where(g)}
}

// unwindStep continues unwinding; returns true if execution continues in some frame.
// It stops at frames <= base.
func (m *Machine) unwind(g *Goroutine, base int) bool {
	for len(g.stack) > base {
		fr := g.stack[len(g.stack)-1]
		fr.unwind = true
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			if m.runDefer(g, fr, d) {
				return true
			}
			// ran synchronously (intrinsic/builtin); continue
			if g.pan != nil && g.pan.recovered {
				g.pan = nil
			}
			if g.pan == nil {
				m.resumeAfterRecover(g, fr)
				return true
			}
			continue
		}
		g.stack = g.stack[:len(g.stack)-1]
		if fr.isDefer {
			// panicked inside deferred call: deferOf frame continues unwinding with the new panic
		}
		if fr.sync {
			return false
		}
	}
	return false
}

func (m *Machine) resumeAfterRecover(g *Goroutine, fr *Frame) {
	fr.unwind = false
	if fr.fi.recover >= 0 {
		fr.block = fr.fi.recover
		fr.pc = 0
		return
	}
	// return zero results
	sig := fr.fi.fn.Signature.Results()
	var v Value
	switch sig.Len() {
	case 0:
	case 1:
		v = m.zero(sig.At(0).Type())
	default:
		v = m.zero(sig)
	}
	m.popFrame(g, fr, v)
}

func (m *Machine) popFrame(g *Goroutine, fr *Frame, v Value) {
	g.stack[len(g.stack)-1] = nil
	g.stack = g.stack[:len(g.stack)-1]
	if fr.isDefer {
		of := fr.deferOf
		if of.unwind {
			if g.pan != nil && g.pan.recovered {
				g.pan = nil
				m.resumeAfterRecover(g, of)
			}
			// else main loop sees of.unwind && g.pan and continues unwinding
		}
		if fr.sync {
			g.syncRes = v
		}
		return
	}
	if fr.sync {
		g.syncRes = v
		return
	}
	if len(g.stack) > 0 && fr.dst >= 0 {
		g.stack[len(g.stack)-1].regs[fr.dst] = v
	}
}

// runDefer starts a deferred call; true if a frame was pushed.
func (m *Machine) runDefer(g *Goroutine, fr *Frame, d deferred) bool {
	if d.call.builtin != "" {
		m.builtin(g, fr, d.call, d.args, nil)
		return false
	}
	fi := d.fi
	env := d.env
	if fi == nil {
		if d.fn.r == nil {
			m.rt("invalid memory address or nil pointer dereference")
		}
		c := d.fn.r.(*Closure)
		if c.nat != nil {
			c.nat.f(m, g, d.args)
			return false
		}
		fi = m.p.Func(c.fn)
		env = c.env
	}
	if fi.intrOK {
		if _, h := fi.intr(m, g, fi, d.args); h {
			return false
		}
	}
	nf := m.push(g, fi, d.args, env, -1)
	nf.isDefer = true
	nf.deferOf = fr
	return true
}

// run executes g until its stack is down to base, or (base==0) it blocks,
// yields or finishes.
func (m *Machine) run(g *Goroutine, base int) {
	for len(g.stack) > base {
		if m.step(g, base) {
			return
		}
	}
}

// step runs the inner loop with panic translation. Returns true to leave run().
func (m *Machine) step(g *Goroutine, base int) (leave bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case rtPanic:
				m.beginPanic(g, m.rtErr(x.msg), "runtime error: "+x.msg)
				leave = false
			case nestedPanic:
				leave = false
			case pathEnd:
				panic(r)
			case EngineError:
				panic(pathEnd{"unsupported", "engine: " + x.msg + " at " + m.where(g)})
			default:
				panic(pathEnd{"unsupported", fmt.Sprintf("engine panic: %v at %s\n%s", r, m.where(g), trimStack(debug.Stack()))})
			}
		}
	}()
	if g.pan != nil && !g.pan.recovered {
		top := g.stack[len(g.stack)-1]
		if !g.pan.started || top.unwind {
			g.pan.started = true
			if !m.unwind(g, base) {
				return true
			}
		}
	}
	return m.loop(g, base)
}

func trimStack(b []byte) string {
	s := string(b)
	ls := strings.Split(s, "\n")
	if len(ls) > 40 {
		ls = ls[:40]
	}
	return strings.Join(ls, "\n")
}

func (p *panicState) text() string { return p.msg }

func (m *Machine) rtErr(msg string) Value {
	if m.rtErrT == nil {
		if pk := m.p.prog.ImportedPackage("runtime"); pk != nil {
			if t, ok := pk.Members["errorString"].(*ssa.Type); ok {
				m.rtErrT = t.Type()
			}
		}
	}
	if m.rtErrT == nil {
		return Value{r: &Iface{t: types.Typ[types.String], v: mkStr(msg)}}
	}
	return Value{r: &Iface{t: m.rtErrT, v: mkStr(msg)}}
}

func (m *Machine) loop(g *Goroutine, base int) bool {
	fr := g.stack[len(g.stack)-1]
	blk := &fr.fi.blocks[fr.block]
	for {
		if fr.unwind && g.pan != nil {
			return false // step() continues unwinding
		}
		m.steps++
		if m.steps&0xffff == 0 {
			m.checkTime()
		}
		if m.steps > m.budget {
			panic(pathEnd{"hang", "instruction budget exceeded at " + m.where(g)})
		}
		in := &blk.instrs[fr.pc]
		fr.pc++
		switch in.op {
		case iAlloc:
			v := new(Value)
			switch in.ti.kind {
			case kStruct, kArray:
				*v = m.zero(in.t)
			}
			fr.regs[in.dst] = Value{r: v}
		case iBin:
			fr.regs[in.dst] = m.binop(g, in, m.get(fr, &in.a), m.get(fr, &in.b))
		case iDeref:
			pv := m.get(fr, &in.a)
			p, ok := pv.r.(*Value)
			if !ok {
				if pv.r == nil {
					m.rt("invalid memory address or nil pointer dereference")
				}
				switch x := pv.r.(type) {
				case *symElem:
					fr.regs[in.dst] = x.load(m)
					continue
				case *UPtr:
					p = x.p
				default:
					panic(engineErr("deref of %T", pv.r))
				}
			}
			fr.regs[in.dst] = m.load(p)
		case iNot:
			v := m.get(fr, &in.a)
			if t := v.sym(); t != nil {
				fr.regs[in.dst] = m.boolV(m.ctx.Not(t))
			} else {
				fr.regs[in.dst] = Value{b: 1 - v.b}
			}
		case iNeg:
			v := m.get(fr, &in.a)
			if in.ti.kind == kFloat {
				if t := v.sym(); t != nil {
					fr.regs[in.dst] = Value{r: m.ctx.FUn(OFNeg, t, 0)}
				} else {
					fr.regs[in.dst] = Value{b: fpUn(OFNeg, in.ti.w, 0, v.b)}
				}
			} else if t := v.sym(); t != nil {
				fr.regs[in.dst] = m.fromTerm(m.ctx.Bin(OSub, m.ctx.Const(in.ti.w, 0), t), in.ti)
			} else {
				fr.regs[in.dst] = Value{b: norm(in.ti, -v.b)}
			}
		case iCompl:
			v := m.get(fr, &in.a)
			if t := v.sym(); t != nil {
				fr.regs[in.dst] = m.fromTerm(m.ctx.BNot(t), in.ti)
			} else {
				fr.regs[in.dst] = Value{b: norm(in.ti, ^v.b)}
			}
		case iCall:
			if m.doCall(g, fr, in) {
				// blocked or yielded
				if m.ctlBlock {
					m.ctlBlock = false
					fr.pc--
					return true
				}
				if m.ctlYield {
					m.ctlYield = false
					return true
				}
			}
			if nf := g.stack[len(g.stack)-1]; nf != fr {
				fr = nf
				blk = &fr.fi.blocks[fr.block]
			}
		case iChangeIface, iMove:
			fr.regs[in.dst] = m.get(fr, &in.a)
		case iConvert:
			fr.regs[in.dst] = m.convert(g, in.t, in.t2, in.ti, in.ti2, m.get(fr, &in.a))
		case iDefer:
			d := deferred{call: in.call}
			d.args = m.evalArgs(fr, in.call)
			if in.call.invoke != nil {
				d.fi, d.args = m.resolveInvoke(fr, in.call, d.args)
			} else if in.call.static != nil {
				d.fi = m.p.Func(in.call.static)
			} else if in.call.builtin == "" {
				d.fn = m.get(fr, &in.call.fn)
			}
			fr.defers = append(fr.defers, d)
		case iExtract:
			fr.regs[in.dst] = m.get(fr, &in.a).r.(*Aggr).f[in.n]
		case iField:
			fr.regs[in.dst] = m.get(fr, &in.a).r.(*Aggr).f[in.n]
		case iFieldAddr:
			pv := m.get(fr, &in.a)
			p, ok := pv.r.(*Value)
			if !ok {
				if pv.r == nil {
					m.rt("invalid memory address or nil pointer dereference")
				}
				p = pv.ptr()
			}
			a, ok := p.r.(*Aggr)
			if !ok || int(in.n) >= len(a.f) {
				panic(pathEnd{"crash", "memory safety: field access through a pointer of the wrong type at " + m.where(g)})
			}
			fr.regs[in.dst] = Value{r: &a.f[in.n]}
		case iGo:
			m.doGo(g, fr, in)
		case iIf:
			v := m.get(fr, &in.a)
			var taken bool
			if t := v.sym(); t != nil {
				taken = m.branch(t)
			} else {
				taken = v.b != 0
			}
			s := 1
			if taken {
				s = 0
			}
			blk = m.jump(fr, blk, s)
		case iJump:
			blk = m.jump(fr, blk, 0)
		case iIndex:
			fr.regs[in.dst] = m.index(g, in, m.get(fr, &in.a), m.get(fr, &in.b))
		case iIndexAddr:
			fr.regs[in.dst] = m.indexAddr(g, in, m.get(fr, &in.a), m.get(fr, &in.b))
		case iLookup:
			fr.regs[in.dst] = m.lookup(g, in, m.get(fr, &in.a), m.get(fr, &in.b))
		case iMakeChan:
			sz := m.concInt(m.get(fr, &in.a), 64)
			if int64(sz) < 0 || int64(sz) > 1<<40 {
				m.rt("makechan: size out of range")
			}
			if int64(sz) > 1<<26 {
				panic(pathEnd{"crash", "out of memory: makechan at " + m.where(g)})
			}
			m.chanN++
			fr.regs[in.dst] = Value{r: &Chan{cap: int(sz), id: m.chanN}}
		case iMakeClosure:
			f := m.get(fr, &in.a).r.(*Closure)
			c := &Closure{fn: f.fn}
			for i := range in.ops {
				c.env = append(c.env, m.get(fr, &in.ops[i]))
			}
			fr.regs[in.dst] = Value{r: c}
		case iMakeIface:
			fr.regs[in.dst] = Value{r: &Iface{t: in.t, v: m.get(fr, &in.a)}}
		case iMakeMap:
			m.mapN++
			fr.regs[in.dst] = Value{r: &Map{idx: map[any]*mapEntry{}, id: m.mapN, elemT: in.t}}
		case iMakeSlice:
			l := int64(m.concInt(m.get(fr, &in.a), 64))
			c := int64(m.concInt(m.get(fr, &in.b), 64))
			if l < 0 || l > 1<<47 {
				m.rt("makeslice: len out of range")
			}
			if c < l || c > 1<<47 {
				m.rt("makeslice: cap out of range")
			}
			if c > 1<<24 {
				panic(pathEnd{"crash", "allocation too large: makeslice at " + m.where(g)})
			}
			arr := make([]Value, c)
			if in.ti.kind == kStruct || in.ti.kind == kArray {
				for i := range arr {
					arr[i] = m.zero(in.t)
				}
			}
			fr.regs[in.dst] = Value{r: &Slice{arr: arr, len: int(l), cap: int(c)}}
		case iMapUpdate:
			mv := m.get(fr, &in.a)
			if mv.r == nil {
				m.rt("assignment to entry in nil map")
			}
			m.mapSet(g, mv.r.(*Map), in.t, m.get(fr, &in.b), m.get(fr, &in.c))
		case iNext:
			fr.regs[in.dst] = m.next(g, m.get(fr, &in.a), in.flag, in)
		case iPanic:
			v := m.get(fr, &in.a)
			m.beginPanic(g, v, "panic: "+m.describe(v))
			return false
		case iRange:
			fr.regs[in.dst] = m.rangeIter(g, m.get(fr, &in.a), in.ti)
		case iReturn:
			var v Value
			switch len(in.ops) {
			case 0:
			case 1:
				v = m.get(fr, &in.ops[0])
			default:
				a := &Aggr{f: make([]Value, len(in.ops))}
				for i := range in.ops {
					a.f[i] = m.get(fr, &in.ops[i])
				}
				v = Value{r: a}
			}
			m.popFrame(g, fr, v)
			if len(g.stack) <= base {
				return true
			}
			fr = g.stack[len(g.stack)-1]
			blk = &fr.fi.blocks[fr.block]
		case iRunDefers:
			if len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				fr.pc--
				if m.runDefer(g, fr, d) {
					fr = g.stack[len(g.stack)-1]
					blk = &fr.fi.blocks[fr.block]
				}
				if m.ctlYield {
					m.ctlYield = false
					if g.nested == 0 {
						return true
					}
				}
			}
		case iSend, iRecv, iSelect:
			if m.chanOp(g, fr, in) {
				return true
			}
		case iSlice:
			fr.regs[in.dst] = m.sliceOp(g, fr, in)
		case iSlice2Arr:
			v := m.get(fr, &in.a)
			s, _ := v.r.(*Slice)
			n := 0
			if s != nil {
				n = s.len
			}
			if n < int(in.n) {
				m.rt("cannot convert slice to array pointer")
			}
			if s == nil {
				fr.regs[in.dst] = Value{}
			} else {
				fr.regs[in.dst] = Value{r: &Value{r: &Aggr{f: s.arr[s.off : s.off+int(in.n)]}}}
			}
		case iStore:
			pv := m.get(fr, &in.a)
			p, ok := pv.r.(*Value)
			if !ok {
				if pv.r == nil {
					m.rt("invalid memory address or nil pointer dereference")
				}
				p = pv.ptr()
			}
			m.store(p, m.get(fr, &in.b))
		case iTypeAssert:
			fr.regs[in.dst] = m.typeAssert(g, in, m.get(fr, &in.a))
		default:
			panic(pathEnd{"unsupported", fmt.Sprintf("instruction %s in %s", in.src, fr.fi.name)})
		}
	}
}

func (m *Machine) jump(fr *Frame, blk *BlockInfo, s int) *BlockInfo {
	pi := blk.predIx[s]
	fr.block = blk.succs[s]
	fr.pc = 0
	nb := &fr.fi.blocks[fr.block]
	switch len(nb.phis) {
	case 0:
	case 1:
		ph := &nb.phis[0]
		fr.regs[ph.dst] = m.get(fr, &ph.src[pi])
	default:
		var tmp [16]Value
		var t []Value
		if len(nb.phis) <= 16 {
			t = tmp[:len(nb.phis)]
		} else {
			t = make([]Value, len(nb.phis))
		}
		for i := range nb.phis {
			t[i] = m.get(fr, &nb.phis[i].src[pi])
		}
		for i := range nb.phis {
			fr.regs[nb.phis[i].dst] = t[i]
		}
	}
	return nb
}

func (m *Machine) evalArgs(fr *Frame, c *callInfo) []Value {
	args := make([]Value, len(c.args), len(c.args)+1)
	for i := range c.args {
		args[i] = m.get(fr, &c.args[i])
	}
	return args
}

func (m *Machine) resolveInvoke(fr *Frame, c *callInfo, args []Value) (*FuncInfo, []Value) {
	rv := m.get(fr, &c.fn)
	if rv.r == nil {
		m.rt("invalid memory address or nil pointer dereference")
	}
	ifc := rv.r.(*Iface)
	fi := m.method(ifc.t, c.invoke)
	return fi, append([]Value{ifc.v}, args...)
}

type methKey struct {
	t types.Type
	f *types.Func
}

func (m *Machine) method(t types.Type, meth *types.Func) *FuncInfo {
	k := methKey{t, meth}
	if x, ok := m.p.method.Load(k); ok {
		return x.(*FuncInfo)
	}
	fn := m.p.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	if fn == nil {
		panic(engineErr("no method %s on %s", meth.Name(), t))
	}
	fi := m.p.Func(fn)
	m.p.method.Store(k, fi)
	return fi
}

func (m *Machine) lookupMethod(t types.Type, name string) *FuncInfo {
	ms := m.p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return m.p.Func(m.p.prog.MethodValue(ms.At(i)))
		}
	}
	return nil
}

// doCall performs a call instruction; true means control left the straight line (blocked/yield).
func (m *Machine) doCall(g *Goroutine, fr *Frame, in *Instr) bool {
	c := in.call
	args := m.evalArgs(fr, c)
	var fi *FuncInfo
	var env []Value
	switch {
	case c.builtin != "":
		if m.conc && c.builtin == "close" && args[0].r != nil && m.schedPoint(g, args[0].r.(*Chan), true) {
			m.ctlBlock = true
			return true
		}
		v := m.builtin(g, fr, c, args, in)
		fr.regs[in.dst] = v
		return false
	case c.invoke != nil:
		fi, args = m.resolveInvoke(fr, c, args)
	case c.static != nil:
		if c.cached == nil {
			c.cached = m.p.Func(c.static)
		}
		fi = c.cached
	default:
		fv := m.get(fr, &c.fn)
		if fv.r == nil {
			m.rt("invalid memory address or nil pointer dereference")
		}
		cl := fv.r.(*Closure)
		if cl.nat != nil {
			fr.regs[in.dst] = cl.nat.f(m, g, args)
			return m.ctlBlock || m.ctlYield
		}
		fi = m.p.Func(cl.fn)
		env = cl.env
	}
	if fi.intrOK {
		v, h := fi.intr(m, g, fi, args)
		if h {
			if m.ctlBlock {
				if g.nested > 0 {
					panic(pathEnd{"unsupported", "blocking inside a nested call"})
				}
				return true
			}
			fr.regs[in.dst] = v
			if m.ctlYield {
				if g.nested > 0 {
					m.ctlYield = false
					return false
				}
				return true
			}
			return false
		}
	}
	m.foreignOK(fi)
	m.push(g, fi, args, env, in.dst)
	return false
}

func (m *Machine) describe(v Value) string {
	ifc, ok := v.r.(*Iface)
	if !ok {
		return "nil"
	}
	ti := m.ti(ifc.t)
	switch ti.kind {
	case kString:
		s := ifc.v.str()
		if s.concrete() {
			return s.s
		}
		return "<string>"
	case kInt:
		return fmt.Sprint(int64(ifc.v.b))
	}
	return typeStr(ifc.t)
}

// ---- operators

func (m *Machine) binop(g *Goroutine, in *Instr, x, y Value) Value {
	ti := in.ti
	switch ti.kind {
	case kInt:
		_, xs := x.r.(*Term)
		_, ys := y.r.(*Term)
		if !xs && !ys {
			return m.intConc(in, x.b, y.b)
		}
		return m.intSym(in, x, y)
	case kFloat:
		return m.floatOp(in, x, y)
	case kBool:
		xt, yt := x.sym(), y.sym()
		if xt == nil && yt == nil {
			switch in.tok {
			case token.EQL:
				return mkBool(x.b == y.b)
			case token.NEQ:
				return mkBool(x.b != y.b)
			case token.AND, token.LAND:
				return mkBool(x.b&y.b != 0)
			case token.OR, token.LOR:
				return mkBool(x.b|y.b != 0)
			}
		}
		a, b := m.sig(x, ti), m.sig(y, ti)
		switch in.tok {
		case token.EQL:
			return m.boolV(m.ctx.Eq(a, b))
		case token.NEQ:
			return m.boolV(m.ctx.Not(m.ctx.Eq(a, b)))
		case token.AND, token.LAND:
			return m.boolV(m.ctx.And(a, b))
		case token.OR, token.LOR:
			return m.boolV(m.ctx.Or(a, b))
		}
	case kString:
		a, b := x.str(), y.str()
		switch in.tok {
		case token.ADD:
			return concatStr(a, b)
		}
		if a.lazy != nil && a == b {
			switch in.tok {
			case token.EQL:
				return mkBool(true)
			case token.NEQ:
				return mkBool(false)
			}
		}
		a, b = m.force(g, a), m.force(g, b)
		switch in.tok {
		case token.EQL:
			return m.boolV(m.ctx.strEq(a, b))
		case token.NEQ:
			return m.boolV(m.ctx.Not(m.ctx.strEq(a, b)))
		case token.LSS:
			return m.boolV(m.ctx.strLt(a, b))
		case token.GTR:
			return m.boolV(m.ctx.strLt(b, a))
		case token.LEQ:
			return m.boolV(m.ctx.Not(m.ctx.strLt(b, a)))
		case token.GEQ:
			return m.boolV(m.ctx.Not(m.ctx.strLt(a, b)))
		}
	default:
		switch in.tok {
		case token.EQL:
			return m.boolV(m.eq(g, in.t, in.t2, x, y))
		case token.NEQ:
			return m.boolV(m.ctx.Not(m.eq(g, in.t, in.t2, x, y)))
		}
	}
	panic(engineErr("binop %s on %s", in.tok, in.t))
}

func (m *Machine) intConc(in *Instr, x, y uint64) Value {
	ti := in.ti
	switch in.tok {
	case token.ADD:
		return Value{b: norm(ti, x+y)}
	case token.SUB:
		return Value{b: norm(ti, x-y)}
	case token.MUL:
		return Value{b: norm(ti, x*y)}
	case token.QUO, token.REM:
		if y == 0 {
			m.rt("integer divide by zero")
		}
		if ti.signed {
			a, b := int64(x), int64(y)
			if b == -1 {
				if in.tok == token.QUO {
					return Value{b: norm(ti, uint64(-a))}
				}
				return Value{}
			}
			if in.tok == token.QUO {
				return Value{b: norm(ti, uint64(a/b))}
			}
			return Value{b: norm(ti, uint64(a%b))}
		}
		if in.tok == token.QUO {
			return Value{b: x / y}
		}
		return Value{b: x % y}
	case token.AND:
		return Value{b: x & y}
	case token.OR:
		return Value{b: x | y}
	case token.XOR:
		return Value{b: norm(ti, x^y)}
	case token.AND_NOT:
		return Value{b: norm(ti, x&^y)}
	case token.SHL, token.SHR:
		if in.ti2.signed && int64(y) < 0 {
			m.rt("negative shift amount")
		}
		if in.tok == token.SHL {
			if y >= 64 {
				return Value{}
			}
			return Value{b: norm(ti, x<<y)}
		}
		if ti.signed {
			if y >= 64 {
				y = 63
			}
			return Value{b: uint64(int64(x) >> y)}
		}
		if y >= 64 {
			return Value{}
		}
		return Value{b: x >> y}
	case token.EQL:
		return mkBool(x == y)
	case token.NEQ:
		return mkBool(x != y)
	}
	if ti.signed {
		a, b := int64(x), int64(y)
		switch in.tok {
		case token.LSS:
			return mkBool(a < b)
		case token.LEQ:
			return mkBool(a <= b)
		case token.GTR:
			return mkBool(a > b)
		case token.GEQ:
			return mkBool(a >= b)
		}
	} else {
		switch in.tok {
		case token.LSS:
			return mkBool(x < y)
		case token.LEQ:
			return mkBool(x <= y)
		case token.GTR:
			return mkBool(x > y)
		case token.GEQ:
			return mkBool(x >= y)
		}
	}
	panic(engineErr("int op %s", in.tok))
}

func (m *Machine) intSym(in *Instr, x, y Value) Value {
	ti := in.ti
	c := m.ctx
	a := m.sig(x, ti)
	if in.tok == token.SHL || in.tok == token.SHR {
		b := m.sig(y, in.ti2)
		if in.ti2.signed {
			neg := c.Bin(OSlt, b, c.Const(b.w, 0))
			if m.branch(neg) {
				m.rt("negative shift amount")
			}
		}
		// bring shift amount to width of a, saturating
		var amt *Term
		if b.w > a.w {
			big := c.Bin(OUle, c.Const(b.w, uint64(a.w)), b)
			amt = c.Ite(big, c.Const(a.w, uint64(a.w)), c.Extract(b, a.w-1, 0))
		} else {
			amt = c.Zext(b, a.w)
		}
		op := OShl
		if in.tok == token.SHR {
			op = OLshr
			if ti.signed {
				op = OAshr
			}
		}
		return m.fromTerm(c.Bin(op, a, amt), ti)
	}
	b := m.sig(y, ti)
	switch in.tok {
	case token.ADD:
		return m.fromTerm(c.Bin(OAdd, a, b), ti)
	case token.SUB:
		return m.fromTerm(c.Bin(OSub, a, b), ti)
	case token.MUL:
		return m.fromTerm(c.Bin(OMul, a, b), ti)
	case token.QUO, token.REM:
		if m.branch(c.Eq(b, c.Const(b.w, 0))) {
			m.rt("integer divide by zero")
		}
		var op Op
		switch {
		case in.tok == token.QUO && ti.signed:
			op = OSdiv
		case in.tok == token.QUO:
			op = OUdiv
		case ti.signed:
			op = OSrem
		default:
			op = OUrem
		}
		return m.fromTerm(c.Bin(op, a, b), ti)
	case token.AND:
		return m.fromTerm(c.Bin(OBAnd, a, b), ti)
	case token.OR:
		return m.fromTerm(c.Bin(OBOr, a, b), ti)
	case token.XOR:
		return m.fromTerm(c.Bin(OBXor, a, b), ti)
	case token.AND_NOT:
		return m.fromTerm(c.Bin(OBAnd, a, c.BNot(b)), ti)
	case token.EQL:
		return m.boolV(c.Eq(a, b))
	case token.NEQ:
		return m.boolV(c.Not(c.Eq(a, b)))
	}
	lt, le := OUlt, OUle
	if ti.signed {
		lt, le = OSlt, OSle
	}
	switch in.tok {
	case token.LSS:
		return m.boolV(c.Bin(lt, a, b))
	case token.LEQ:
		return m.boolV(c.Bin(le, a, b))
	case token.GTR:
		return m.boolV(c.Bin(lt, b, a))
	case token.GEQ:
		return m.boolV(c.Bin(le, b, a))
	}
	panic(engineErr("sym int op %s", in.tok))
}

func (m *Machine) floatOp(in *Instr, x, y Value) Value {
	ti := in.ti
	c := m.ctx
	a, b := m.sig(x, ti), m.sig(y, ti)
	switch in.tok {
	case token.ADD:
		return m.fromTerm(c.FBin(OFAdd, a, b), ti)
	case token.SUB:
		return m.fromTerm(c.FBin(OFSub, a, b), ti)
	case token.MUL:
		return m.fromTerm(c.FBin(OFMul, a, b), ti)
	case token.QUO:
		return m.fromTerm(c.FBin(OFDiv, a, b), ti)
	case token.EQL:
		return m.boolV(c.FBin(OFEq, a, b))
	case token.NEQ:
		return m.boolV(c.Not(c.FBin(OFEq, a, b)))
	case token.LSS:
		return m.boolV(c.FBin(OFLt, a, b))
	case token.LEQ:
		return m.boolV(c.FBin(OFLe, a, b))
	case token.GTR:
		return m.boolV(c.FBin(OFLt, b, a))
	case token.GEQ:
		return m.boolV(c.FBin(OFLe, b, a))
	}
	panic(engineErr("float op %s", in.tok))
}

func (m *Machine) tkey(t types.Type) string {
	if s, ok := m.typeKey[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	m.typeKey[t] = s
	return s
}

func (m *Machine) sameType(a, b types.Type) bool {
	return a == b || m.tkey(a) == m.tkey(b)
}

// eq compares two values of (static) types t and t2.
func (m *Machine) eq(g *Goroutine, t, t2 types.Type, x, y Value) *Term {
	c := m.ctx
	ti := m.ti(t)
	if t2 != nil && ti.kind != kIface {
		if k2 := m.ti(t2); k2.kind == kIface {
			x = Value{r: &Iface{t: t, v: x}}
			ti = k2
		}
	} else if ti.kind == kIface && t2 != nil {
		if k2 := m.ti(t2); k2.kind != kIface && !(y.r == nil && k2.kind == kPtr && t2 == types.Typ[types.UntypedNil]) {
			y = Value{r: &Iface{t: t2, v: y}}
		}
	}
	switch ti.kind {
	case kInt, kBool:
		xt, yt := x.sym(), y.sym()
		if xt == nil && yt == nil {
			return c.Bool(x.b == y.b)
		}
		return c.Eq(m.sig(x, ti), m.sig(y, ti))
	case kFloat:
		return c.FBin(OFEq, m.sig(x, ti), m.sig(y, ti))
	case kString:
		return c.strEq(m.force(g, x.str()), m.force(g, y.str()))
	case kPtr, kUPtr:
		return c.Bool(x.ptr() == y.ptr())
	case kIface:
		if x.r == nil || y.r == nil {
			return c.Bool(x.r == nil && y.r == nil)
		}
		a, b := x.r.(*Iface), y.r.(*Iface)
		if !m.sameType(a.t, b.t) {
			return c.F
		}
		switch m.ti(a.t).kind {
		case kSlice, kMap, kFunc:
			m.rt("comparing uncomparable type " + typeStr(a.t))
		}
		return m.eq(g, a.t, a.t, a.v, b.v)
	case kStruct, kArray:
		a, b := x.r.(*Aggr), y.r.(*Aggr)
		r := c.T
		for i := range a.f {
			ft := ti.elem
			if ti.kind == kStruct {
				ft = ti.fields[i]
			}
			r = c.And(r, m.eq(g, ft, ft, a.f[i], b.f[i]))
		}
		return r
	case kSlice:
		return c.Bool(x.r == nil && y.r == nil)
	case kMap, kChan, kFunc:
		return c.Bool(x.r == y.r)
	}
	panic(engineErr("eq on %s", t))
}

func (m *Machine) convert(g *Goroutine, from, to types.Type, f, t *tinfo, v Value) Value {
	c := m.ctx
	switch {
	case f.kind == kInt && t.kind == kInt:
		if s := v.sym(); s != nil {
			switch {
			case t.w < f.w:
				s = c.Extract(s, t.w-1, 0)
			case t.w > f.w:
				if f.signed {
					s = c.Sext(s, t.w)
				} else {
					s = c.Zext(s, t.w)
				}
			}
			return m.fromTerm(s, t)
		}
		return Value{b: norm(t, v.b)}
	case f.kind == kInt && t.kind == kFloat:
		return m.fromTerm(c.FFromInt(m.sig(v, f), f.signed, t.w), t)
	case f.kind == kFloat && t.kind == kFloat:
		return m.fromTerm(c.FToF(m.sig(v, f), t.w), t)
	case f.kind == kFloat && t.kind == kInt:
		if v.sym() == nil {
			x := fval(f.w, v.b)
			if t.signed {
				return Value{b: norm(t, ftos(f.w, v.b, 64))}
			}
			return Value{b: norm(t, uint64(x))}
		}
		if !t.signed && t.w == 64 {
			panic(engineErr("symbolic float to uint64"))
		}
		s := c.FToS(m.sig(v, f), 64)
		if t.w < 64 {
			s = c.Extract(s, t.w-1, 0)
		}
		return m.fromTerm(s, t)
	case f.kind == kInt && t.kind == kString:
		return m.runeToStr(g, v, f)
	case f.kind == kString && t.kind == kString:
		return v
	case f.kind == kString && t.kind == kSlice:
		s := v.str()
		et := m.ti(t.elem)
		if et.w == 8 {
			if s.lazy != nil {
				return Value{r: &Slice{lazy: s.lazy}}
			}
			bs := m.strBytes(s)
			return Value{r: &Slice{arr: bs, len: len(bs), cap: len(bs)}}
		}
		s = m.force(g, s)
		var rs []Value
		for i := 0; i < len(s.s); {
			r, n := m.decodeRune(g, s, i)
			rs = append(rs, r)
			i += n
		}
		return Value{r: &Slice{arr: rs, len: len(rs), cap: len(rs)}}
	case f.kind == kSlice && t.kind == kString:
		if v.r == nil {
			return Value{}
		}
		sl := v.r.(*Slice)
		if sl.lazy != nil {
			return Value{r: &Str{lazy: sl.lazy}}
		}
		et := m.ti(f.elem)
		if et.w == 8 {
			if m.race {
				for i := 0; i < sl.len; i++ {
					m.raceAccess(&sl.arr[sl.off+i], false)
				}
			}
			return strFromBytes(sl.arr[sl.off : sl.off+sl.len])
		}
		out := Value{}
		for i := 0; i < sl.len; i++ {
			out = concatStr(out.str(), m.runeToStr(g, sl.arr[sl.off+i], et).str())
		}
		return out
	case t.kind == kUPtr && f.kind == kPtr:
		if v.r == nil {
			return Value{}
		}
		return Value{r: &UPtr{p: v.ptr(), elem: f.elem}}
	case t.kind == kPtr && f.kind == kUPtr:
		if v.r == nil {
			return Value{}
		}
		u, ok := v.r.(*UPtr)
		if !ok {
			return v
		}
		if a, b := m.ti(u.elem), m.ti(t.elem); a.kind == kSlice && b.kind == kString && m.ti(a.elem).w == 8 {
			// []byte viewed as a string: a snapshot of the contents
			c := new(Value)
			*c = m.convert(g, u.elem, t.elem, a, b, *u.p)
			return Value{r: c}
		}
		if a, b := m.ti(u.elem), m.ti(t.elem); a.kind == kPtr && b.kind == kUPtr {
			// a pointer variable accessed through sync/atomic
			return Value{r: u.p}
		}
		if !m.sameType(u.elem, t.elem) && !m.compatPtr(u.elem, t.elem) {
			panic(pathEnd{"crash", fmt.Sprintf("memory safety: %s reinterpreted as %s at %s", typeStr(u.elem), typeStr(t.elem), m.where(g))})
		}
		return Value{r: u.p}
	case t.kind == kUPtr && f.kind == kUPtr:
		return v
	case f.kind == kUPtr && t.kind == kInt:
		if v.r == nil {
			return Value{}
		}
		return Value{b: 0xc000012340}
	case f.kind == t.kind:
		return v
	}
	panic(engineErr("convert %s -> %s", from, to))
}

// compatPtr: reinterpretations that only look at the address (printing) or
// that share representation.
func (m *Machine) compatPtr(a, b types.Type) bool {
	ka, kb := m.ti(a), m.ti(b)
	if ka.kind == kb.kind && ka.kind != kStruct && ka.kind != kArray {
		return ka.w == kb.w
	}
	if types.Identical(a.Underlying(), b.Underlying()) {
		return true
	}
	if kb.kind == kInt && kb.w == 64 && !kb.signed {
		return true // (*uint64)(p) used for printing an address
	}
	return false
}

func (m *Machine) runeToStr(g *Goroutine, v Value, ti *tinfo) Value {
	if t := v.sym(); t != nil {
		c := m.ctx
		lt := c.Bin(OUlt, t, c.Const(t.w, 0x80))
		if m.branch(lt) {
			return strFromBytes([]Value{m.fromTerm(c.Extract(t, 7, 0), m.byteTI())})
		}
		fn := m.p.findFunc("unicode/utf8", "AppendRune")
		if t.w != 32 {
			if t.w > 32 {
				// out of int32 range -> U+FFFD
				hi := c.Eq(c.Sext(c.Extract(t, 31, 0), t.w), t)
				if !m.branch(hi) {
					return mkStr("\uFFFD")
				}
				t = c.Extract(t, 31, 0)
			} else {
				t = c.Zext(t, 32)
			}
		}
		r := m.callSync(g, m.p.Func(fn), nil, Value{}, Value{r: t})
		sl := r.r.(*Slice)
		return strFromBytes(sl.arr[sl.off : sl.off+sl.len])
	}
	r := int64(v.b)
	if r < 0 || r > utf8.MaxRune {
		return mkStr("\uFFFD")
	}
	return mkStr(string(rune(r)))
}

var byteTInfo = &tinfo{kind: kInt, w: 8}
var int64TI = &tinfo{kind: kInt, w: 64, signed: true}
var int32TI = &tinfo{kind: kInt, w: 32, signed: true}
var boolTI = &tinfo{kind: kBool}
var f32TI = &tinfo{kind: kFloat, w: WF32}
var f64TI = &tinfo{kind: kFloat, w: WF64}

func (m *Machine) byteTI() *tinfo { return byteTInfo }

func (m *Machine) decodeRune(g *Goroutine, s *Str, i int) (Value, int) {
	if s.sym == nil {
		r, n := utf8.DecodeRuneInString(s.s[i:])
		return Value{b: uint64(int64(r))}, n
	}
	b := m.ctx.strByte(s, i)
	if b.isConst() && b.k < 0x80 {
		return Value{b: b.k}, 1
	}
	if !b.isConst() {
		if m.branch(m.ctx.Bin(OUlt, b, m.ctx.Const(8, 0x80))) {
			return Value{r: m.ctx.Zext(b, 32)}, 1
		}
	}
	fn := m.p.findFunc("unicode/utf8", "DecodeRuneInString")
	hi := i + 4
	if hi > len(s.s) {
		hi = len(s.s)
	}
	r := m.callSync(g, m.p.Func(fn), nil, s.slice(i, hi)).r.(*Aggr)
	n := int(m.concInt(r.f[1], 64))
	return r.f[0], n
}

// concInt returns a concrete value for v, forking over feasible values when
// it is symbolic.
func (m *Machine) concInt(v Value, w uint8) uint64 {
	if t := v.sym(); t != nil {
		return uint64(sext64(m.concretize(t), t.w))
	}
	return v.b
}

func (m *Machine) index(g *Goroutine, in *Instr, x, ix Value) Value {
	switch in.ti.kind {
	case kString:
		return m.strIndex(g, x, ix, in.ti2)
	case kArray:
		a := x.r.(*Aggr).f
		if t := ix.sym(); t != nil {
			return m.symIndexLoad(g, a, t, in.ti2, in.t)
		}
		i := int64(ix.b)
		if i < 0 || i >= int64(len(a)) {
			m.rt(fmt.Sprintf("index out of range [%d] with length %d", i, len(a)))
		}
		return a[i]
	}
	panic(engineErr("index on %s", in.t))
}

func (m *Machine) strIndex(g *Goroutine, x, ix Value, iti *tinfo) Value {
	s := m.force(g, x.str())
	if t := ix.sym(); t != nil {
		return m.symIndexLoad(g, m.strBytes(s), t, iti, types.Typ[types.Uint8])
	}
	i := int64(ix.b)
	if i < 0 || i >= int64(len(s.s)) {
		m.rt(fmt.Sprintf("index out of range [%d] with length %d", i, len(s.s)))
	}
	if s.sym != nil && s.sym[i] != nil {
		return Value{r: s.sym[i]}
	}
	return Value{b: uint64(s.s[i])}
}

func (m *Machine) inBounds(t *Term, ti *tinfo, n int) *Term {
	c := m.ctx
	if t.w < 64 && uint64(n) > mask(t.w) {
		if !ti.signed {
			return c.T
		}
	}
	if ti.signed {
		return c.And(c.Bin(OSle, c.Const(t.w, 0), t), c.Bin(OSlt, t, c.Const(t.w, uint64(n))))
	}
	return c.Bin(OUlt, t, c.Const(t.w, uint64(n)))
}

func (m *Machine) symIndexLoad(g *Goroutine, a []Value, t *Term, iti *tinfo, et types.Type) Value {
	if !m.branch(m.inBounds(t, iti, len(a))) {
		m.rt(fmt.Sprintf("index out of range [symbolic] with length %d", len(a)))
	}
	return m.iteLoad(a, t, et)
}

// iteLoad reads a[t] (t in bounds). Scalars become an ite tree over runs of
// equal values; other elements fork.
func (m *Machine) iteLoad(a []Value, t *Term, et types.Type) Value {
	eti := m.ti(et)
	c := m.ctx
	if eti.kind == kInt || eti.kind == kBool || eti.kind == kFloat {
		type run struct {
			start int
			v     *Term
		}
		var runs []run
		for i := range a {
			tv := m.sig(a[i], eti)
			if len(runs) == 0 || runs[len(runs)-1].v != tv {
				runs = append(runs, run{i, tv})
			}
		}
		var build func(lo, hi int) *Term
		build = func(lo, hi int) *Term {
			if hi-lo == 1 {
				return runs[lo].v
			}
			mid := (lo + hi) / 2
			return c.Ite(c.Bin(OUlt, t, c.Const(t.w, uint64(runs[mid].start))), build(lo, mid), build(mid, hi))
		}
		return m.fromTerm(build(0, len(runs)), eti)
	}
	return a[m.concretize(t)]
}

// symElem is the address of a[t] with symbolic t, only ever loaded.
type symElem struct {
	a  []Value
	t  *Term
	et types.Type
}

func (s *symElem) load(m *Machine) Value { return m.iteLoad(s.a, s.t, s.et) }

func (m *Machine) indexAddr(g *Goroutine, in *Instr, x, ix Value) Value {
	var a []Value
	switch in.ti.kind {
	case kSlice:
		if x.r != nil {
			s := x.r.(*Slice)
			m.forceSlice(g, s)
			a = s.arr[s.off : s.off+s.len]
		}
	case kPtr:
		p, ok := x.r.(*Value)
		if !ok {
			if x.r == nil {
				m.rt("invalid memory address or nil pointer dereference")
			}
			p = x.ptr()
		}
		a = p.r.(*Aggr).f
	default:
		panic(engineErr("indexaddr"))
	}
	if t := ix.sym(); t != nil {
		if !m.branch(m.inBounds(t, in.ti2, len(a))) {
			m.rt(fmt.Sprintf("index out of range [symbolic] with length %d", len(a)))
		}
		ek := m.ti(in.t).kind
		if in.flag && (ek == kInt || ek == kBool || ek == kFloat) {
			return Value{r: &symElem{a: a, t: t, et: in.t}}
		}
		return Value{r: &a[m.concretize(t)]}
	}
	i := int64(ix.b)
	if i < 0 || i >= int64(len(a)) {
		m.rt(fmt.Sprintf("index out of range [%d] with length %d", i, len(a)))
	}
	return Value{r: &a[i]}
}

func (m *Machine) forceSlice(g *Goroutine, s *Slice) {
	if s.lazy != nil {
		if s.tree != nil {
			panic(pathEnd{"unsupported", "bytes of marshalled symbolic JSON inspected"})
		}
		st := m.force(g, &Str{lazy: s.lazy})
		s.arr = m.strBytes(st)
		s.len, s.cap, s.off = len(s.arr), len(s.arr), 0
		s.lazy = nil
	}
}

func (m *Machine) sliceOp(g *Goroutine, fr *Frame, in *Instr) Value {
	x := m.get(fr, &in.a)
	var lo, hi, max int64
	getI := func(k int, def int64) int64 {
		if in.n&(1<<k) != 0 {
			return def
		}
		v := m.get(fr, &in.ops[k])
		if t := v.sym(); t != nil {
			return -2
		}
		return int64(v.b)
	}
	// bounds
	var ln, cp int64
	var arr []Value
	var off int
	isStr := in.ti.kind == kString
	var s *Str
	switch in.ti.kind {
	case kString:
		s = m.force(g, x.str())
		ln = int64(len(s.s))
		cp = ln
	case kSlice:
		if x.r != nil {
			sl := x.r.(*Slice)
			m.forceSlice(g, sl)
			arr, off, ln, cp = sl.arr, sl.off, int64(sl.len), int64(sl.cap)
		}
	case kPtr:
		if x.r == nil {
			m.rt("invalid memory address or nil pointer dereference")
		}
		arr = x.ptr().r.(*Aggr).f
		ln = int64(len(arr))
		cp = ln
	}
	symb := false
	for k := 0; k < 3; k++ {
		if in.n&(1<<k) == 0 && m.get(fr, &in.ops[k]).sym() != nil {
			symb = true
		}
	}
	if symb {
		// decide validity symbolically, then concretize
		c := m.ctx
		tm := func(k int, def int64) *Term {
			if in.n&(1<<k) != 0 {
				return c.Const(64, uint64(def))
			}
			v := m.get(fr, &in.ops[k])
			if t := v.sym(); t != nil {
				if t.w < 64 {
					t = c.Zext(t, 64)
				}
				return t
			}
			return c.Const(64, v.b)
		}
		tl, th := tm(0, 0), tm(1, ln)
		tmax := tm(2, cp)
		ok := c.And(c.And(c.Bin(OSle, c.Const(64, 0), tl), c.Bin(OSle, tl, th)), c.And(c.Bin(OSle, th, tmax), c.Bin(OSle, tmax, c.Const(64, uint64(cp)))))
		if !m.branch(ok) {
			m.rt("slice bounds out of range")
		}
		lo = int64(m.concInt(m.fromTerm(tl, int64TI), 64))
		hi = int64(m.concInt(m.fromTerm(th, int64TI), 64))
		max = int64(m.concInt(m.fromTerm(tmax, int64TI), 64))
	} else {
		lo = getI(0, 0)
		hi = getI(1, ln)
		max = getI(2, cp)
	}
	if isStr {
		if lo < 0 || lo > hi || hi > ln {
			m.rt(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, ln))
		}
		return s.slice(int(lo), int(hi))
	}
	if lo < 0 || lo > hi || hi > max || max > cp {
		m.rt(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, max, cp))
	}
	if arr == nil && x.r == nil {
		return Value{}
	}
	return Value{r: &Slice{arr: arr, off: off + int(lo), len: int(hi - lo), cap: int(max - lo)}}
}

func (m *Machine) implements(t types.Type, it types.Type) bool {
	return types.Implements(t, it.Underlying().(*types.Interface))
}

func (m *Machine) typeAssert(g *Goroutine, in *Instr, x Value) Value {
	ifc, _ := x.r.(*Iface)
	ok := false
	var v Value
	if in.ti.kind == kIface {
		if ifc != nil && m.implements(ifc.t, in.t) {
			ok = true
			v = x
		}
	} else {
		if ifc != nil && m.sameType(ifc.t, in.t) {
			ok = true
			v = ifc.v
		}
	}
	if in.flag {
		if !ok {
			v = m.zero(in.t)
		}
		return Value{r: &Aggr{f: []Value{v, mkBool(ok)}}}
	}
	if !ok {
		dyn := "nil"
		if ifc != nil {
			dyn = typeStr(ifc.t)
		}
		m.rt(fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, typeStr(in.t)))
	}
	return v
}

// ---- maps

// mapKey returns a comparable canonical key, or nil if it has symbolic parts.
func (m *Machine) mapKey(g *Goroutine, t types.Type, k Value) any {
	ti := m.ti(t)
	switch ti.kind {
	case kString:
		s := m.force(g, k.str())
		if s.sym != nil {
			return nil
		}
		return s.s
	case kInt, kBool:
		if k.sym() != nil {
			return nil
		}
		return k.b
	case kFloat:
		if k.sym() != nil {
			return nil
		}
		f := fval(ti.w, k.b)
		if f == 0 {
			f = 0
		}
		return math.Float64bits(f + 0)
	case kPtr, kUPtr:
		return [1]any{k.ptr()}
	case kIface:
		if k.r == nil {
			return [2]any{"nil", 0}
		}
		ifc := k.r.(*Iface)
		switch m.ti(ifc.t).kind {
		case kSlice, kMap, kFunc:
			m.rt("hash of unhashable type " + typeStr(ifc.t))
		}
		s := m.mapKey(g, ifc.t, ifc.v)
		if s == nil {
			return nil
		}
		return [2]any{m.tkey(ifc.t), s}
	case kStruct, kArray:
		a := k.r.(*Aggr)
		var sb strings.Builder
		for i, f := range a.f {
			ft := ti.elem
			if ti.kind == kStruct {
				ft = ti.fields[i]
			}
			s := m.mapKey(g, ft, f)
			if s == nil {
				return nil
			}
			fmt.Fprintf(&sb, "%v|", s)
		}
		return sb.String()
	case kChan:
		return [1]any{k.r}
	}
	panic(engineErr("map key %s", t))
}

func (m *Machine) mapFind(g *Goroutine, mp *Map, kt types.Type, k Value) *mapEntry {
	ck := m.mapKey(g, kt, k)
	if ck != nil && mp.nsym == 0 {
		return mp.idx[ck]
	}
	// symbolic comparison
	if ck != nil {
		if e := mp.idx[ck]; e != nil {
			return e
		}
		for _, e := range mp.ents {
			if e.dead || m.mapKey(g, kt, e.k) != nil {
				continue
			}
			c := m.eq(g, kt, kt, k, e.k)
			if c.isConst() {
				if c.k != 0 {
					return e
				}
				continue
			}
			if m.branch(c) {
				return e
			}
		}
		return nil
	}
	var cands []*mapEntry
	var conds []*Term
	any := m.ctx.F
	for _, e := range mp.ents {
		if e.dead {
			continue
		}
		c := m.eq(g, kt, kt, k, e.k)
		if c.isConst() && c.k == 0 {
			continue
		}
		if c.isConst() {
			return e
		}
		cands = append(cands, e)
		conds = append(conds, c)
		any = m.ctx.Or(any, c)
	}
	if len(cands) == 0 {
		return nil
	}
	if !m.branch(any) {
		return nil
	}
	for i, e := range cands {
		if i == len(cands)-1 || m.branch(conds[i]) {
			if i == len(cands)-1 {
				m.assumeTrue(conds[i])
			}
			return e
		}
	}
	return nil
}

func (m *Machine) lookup(g *Goroutine, in *Instr, x, k Value) Value {
	if in.ti.kind == kString {
		return m.strIndex(g, x, k, in.ti2)
	}
	var v Value
	ok := false
	if x.r != nil {
		mp := x.r.(*Map)
		if m.race {
			m.raceAccess(mp, false)
		}
		if e := m.mapFind(g, mp, in.t2, k); e != nil {
			v, ok = copyVal(e.v), true
		}
	} else {
		m.mapKey(g, in.t2, k)
	}
	if !ok {
		v = m.zero(in.t)
	}
	if in.flag {
		return Value{r: &Aggr{f: []Value{v, mkBool(ok)}}}
	}
	return v
}

func (m *Machine) mapSet(g *Goroutine, mp *Map, kt types.Type, k, v Value) {
	if m.race {
		m.raceAccess(mp, true)
	}
	v = copyVal(v)
	if e := m.mapFind(g, mp, kt, k); e != nil {
		old := e.v
		m.logF(func() { e.v = old })
		e.v = v
		return
	}
	e := &mapEntry{k: copyVal(k), v: v}
	ck := m.mapKey(g, kt, k)
	mp.ents = append(mp.ents, e)
	mp.n++
	if ck == nil {
		mp.nsym++
	} else {
		mp.idx[ck] = e
	}
	m.logF(func() {
		mp.ents = mp.ents[:len(mp.ents)-1]
		mp.n--
		if ck == nil {
			mp.nsym--
		} else {
			delete(mp.idx, ck)
		}
	})
}

func (m *Machine) mapDelete(g *Goroutine, mp *Map, kt types.Type, k Value) {
	if m.race {
		m.raceAccess(mp, true)
	}
	e := m.mapFind(g, mp, kt, k)
	if e == nil {
		return
	}
	e.dead = true
	ck := m.mapKey(g, kt, e.k)
	oldEnts := mp.ents
	ne := make([]*mapEntry, 0, len(mp.ents))
	for _, x := range mp.ents {
		if x != e {
			ne = append(ne, x)
		}
	}
	mp.ents = ne
	mp.n--
	if ck == nil {
		mp.nsym--
	} else {
		delete(mp.idx, ck)
	}
	m.logF(func() {
		e.dead = false
		mp.ents = oldEnts
		mp.n++
		if ck == nil {
			mp.nsym++
		} else {
			mp.idx[ck] = e
		}
	})
}

func (m *Machine) rangeIter(g *Goroutine, x Value, ti *tinfo) Value {
	if ti.kind == kString {
		return Value{r: &StrIter{s: m.force(g, x.str())}}
	}
	it := &MapIter{}
	if x.r != nil {
		it.m = x.r.(*Map)
		if m.race {
			m.raceAccess(it.m, false)
		}
		it.list = append([]*mapEntry(nil), it.m.ents...)
		if m.mapPerm && len(it.list) > 1 && len(it.list) <= 4 {
			l := it.list
			for i := 0; i < len(l)-1; i++ {
				j := i + m.choose(len(l)-i)
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return Value{r: it}
}

func (m *Machine) next(g *Goroutine, it Value, isStr bool, in *Instr) Value {
	if isStr {
		s := it.r.(*StrIter)
		if s.pos >= len(s.s.s) {
			return Value{r: &Aggr{f: []Value{mkBool(false), {}, {}}}}
		}
		r, n := m.decodeRune(g, s.s, s.pos)
		p := s.pos
		s.pos += n
		return Value{r: &Aggr{f: []Value{mkBool(true), mkInt(int64(p)), r}}}
	}
	mi := it.r.(*MapIter)
	for mi.pos < len(mi.list) {
		e := mi.list[mi.pos]
		mi.pos++
		if e.dead {
			continue
		}
		if m.race {
			m.raceAccess(mi.m, false)
		}
		return Value{r: &Aggr{f: []Value{mkBool(true), copyVal(e.k), copyVal(e.v)}}}
	}
	tt := in.src.(*ssa.Next).Type().(*types.Tuple)
	return Value{r: &Aggr{f: []Value{mkBool(false), m.zeroOrEmpty(tt.At(1).Type()), m.zeroOrEmpty(tt.At(2).Type())}}}
}

func (m *Machine) zeroOrEmpty(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Value{}
	}
	return m.zero(t)
}

// ---- builtins

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192}

func growCap(old, need, esz int) int {
	nc := old
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz <= 0 {
		return nc
	}
	b := nc * esz
	i := sort.SearchInts(sizeClasses, b)
	if i < len(sizeClasses) {
		return sizeClasses[i] / esz
	}
	return (b + 8191) / 8192 * 8192 / esz
}

var stdSizes = types.SizesFor("gc", "amd64")

func (m *Machine) appendVals(g *Goroutine, sv Value, et types.Type, vals []Value) Value {
	if len(vals) == 0 {
		return sv
	}
	var s Slice
	if sv.r != nil {
		x := sv.r.(*Slice)
		m.forceSlice(g, x)
		s = *x
	}
	n := s.len + len(vals)
	if n <= s.cap {
		for i, v := range vals {
			m.store(&s.arr[s.off+s.len+i], v)
		}
		return Value{r: &Slice{arr: s.arr, off: s.off, len: n, cap: s.cap}}
	}
	nc := growCap(s.cap, n, int(stdSizes.Sizeof(et)))
	if nc < n {
		nc = n
	}
	arr := make([]Value, nc)
	for i := 0; i < s.len; i++ {
		if m.race {
			m.raceAccess(&s.arr[s.off+i], false)
		}
		arr[i] = copyVal(s.arr[s.off+i])
	}
	for i, v := range vals {
		arr[s.len+i] = copyVal(v)
	}
	et2 := m.ti(et)
	if et2.kind == kStruct || et2.kind == kArray {
		for i := n; i < nc; i++ {
			arr[i] = m.zero(et)
		}
	}
	return Value{r: &Slice{arr: arr, len: n, cap: nc}}
}

func (m *Machine) sliceVals(g *Goroutine, v Value) []Value {
	switch x := v.r.(type) {
	case nil:
		return nil
	case *Slice:
		m.forceSlice(g, x)
		return x.arr[x.off : x.off+x.len]
	case *Str:
		return m.strBytes(m.force(g, x))
	}
	panic(engineErr("sliceVals %T", v.r))
}

func (m *Machine) builtin(g *Goroutine, fr *Frame, c *callInfo, args []Value, in *Instr) Value {
	switch c.builtin {
	case "len":
		x := args[0]
		switch v := x.r.(type) {
		case nil:
			return Value{}
		case *Str:
			return mkInt(int64(len(m.force(g, v).s)))
		case *Slice:
			m.forceSlice(g, v)
			return mkInt(int64(v.len))
		case *Map:
			if m.race {
				m.raceAccess(v, false)
			}
			return mkInt(int64(v.n))
		case *Chan:
			return mkInt(int64(len(v.buf)))
		case *Aggr:
			return mkInt(int64(len(v.f)))
		case *Value:
			return mkInt(int64(len(v.r.(*Aggr).f)))
		}
	case "cap":
		switch v := args[0].r.(type) {
		case nil:
			return Value{}
		case *Slice:
			m.forceSlice(g, v)
			return mkInt(int64(v.cap))
		case *Chan:
			return mkInt(int64(v.cap))
		case *Aggr:
			return mkInt(int64(len(v.f)))
		case *Value:
			return mkInt(int64(len(v.r.(*Aggr).f)))
		}
	case "append":
		et := c.argT[0].Underlying().(*types.Slice).Elem()
		if len(args) == 1 {
			return args[0]
		}
		src := m.sliceVals(g, args[1])
		if m.race {
			if s, ok := args[1].r.(*Slice); ok {
				for i := 0; i < s.len; i++ {
					m.raceAccess(&s.arr[s.off+i], false)
				}
			}
		}
		vals := make([]Value, len(src))
		for i := range src {
			vals[i] = copyVal(src[i])
		}
		return m.appendVals(g, args[0], et, vals)
	case "copy":
		dst := m.sliceVals(g, args[0])
		src := m.sliceVals(g, args[1])
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			m.store(&dst[i], tmp[i])
		}
		return mkInt(int64(n))
	case "delete":
		if args[0].r != nil {
			m.mapDelete(g, args[0].r.(*Map), c.argT[0].Underlying().(*types.Map).Key(), args[1])
		}
		return Value{}
	case "clear":
		switch v := args[0].r.(type) {
		case *Map:
			kt := c.argT[0].Underlying().(*types.Map).Key()
			for len(v.ents) > 0 {
				m.mapDelete(g, v, kt, v.ents[len(v.ents)-1].k)
			}
		case *Slice:
			et := c.argT[0].Underlying().(*types.Slice).Elem()
			for i := 0; i < v.len; i++ {
				m.store(&v.arr[v.off+i], m.zero(et))
			}
		}
		return Value{}
	case "close":
		if args[0].r == nil {
			m.rt("close of nil channel")
		}
		m.chanClose(g, args[0].r.(*Chan))
		return Value{}
	case "panic":
		m.beginPanic(g, args[0], "panic: "+m.describe(args[0]))
		panic(nestedPanic{})
	case "recover":
		if fr.isDefer && fr.deferOf.unwind && g.pan != nil && !g.pan.recovered {
			g.pan.recovered = true
			return g.pan.val
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "min", "max":
		ti := m.ti(c.argT[0])
		r := args[0]
		for _, a := range args[1:] {
			ins := &Instr{tok: token.LSS, ti: ti, ti2: ti}
			var lt Value
			switch ti.kind {
			case kInt:
				if r.sym() == nil && a.sym() == nil {
					lt = m.intConc(ins, a.b, r.b)
				} else {
					lt = m.intSym(ins, a, r)
				}
			default:
				panic(engineErr("min/max kind"))
			}
			if lt.sym() != nil {
				t := lt.sym()
				x, y := m.sig(a, ti), m.sig(r, ti)
				if c.builtin == "max" {
					x, y = y, x
				}
				r = m.fromTerm(m.ctx.Ite(t, x, y), ti)
			} else if (lt.b != 0) == (c.builtin == "min") {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].r == nil {
			m.rt("value method called using nil pointer")
		}
		return args[0]
	case "SliceData":
		if args[0].r == nil {
			return Value{}
		}
		s := args[0].r.(*Slice)
		m.forceSlice(g, s)
		return Value{r: &dataPtr{s}}
	case "String":
		n := int(m.concInt(args[1], 64))
		if n == 0 {
			return Value{}
		}
		switch d := args[0].r.(type) {
		case *dataPtr:
			return strFromBytes(d.s.arr[d.s.off : d.s.off+n])
		case *strPtr:
			return d.s.slice(0, n)
		}
	case "StringData":
		if args[0].r == nil {
			return Value{}
		}
		return Value{r: &strPtr{m.force(g, args[0].str())}}
	case "Slice":
		n := int(m.concInt(args[1], 64))
		switch d := args[0].r.(type) {
		case nil:
			return Value{}
		case *strPtr:
			bs := m.strBytes(d.s)
			return Value{r: &Slice{arr: bs, len: n, cap: n}}
		case *dataPtr:
			return Value{r: &Slice{arr: d.s.arr, off: d.s.off, len: n, cap: n}}
		}
	}
	panic(engineErr("builtin %s", c.builtin))
}

type dataPtr struct{ s *Slice }
type strPtr struct{ s *Str }
