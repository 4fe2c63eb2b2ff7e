package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Program is shared (read only once compiled) by all machines.
type Program struct {
	prog     *ssa.Program
	mu       sync.RWMutex
	funcs    map[*ssa.Function]*FuncInfo
	globals  map[*ssa.Global]int
	globList []*ssa.Global
	tinfos   map[types.Type]*tinfo
	intr     map[string]Intrinsic
	target   *ssa.Package
	targetPath string
	initPkgs map[string]bool
	method   sync.Map
	typeByName sync.Map
	newTimers bool
}

type IOp uint8

const (
	iNop IOp = iota
	iAlloc
	iBin
	iDeref
	iNot
	iNeg
	iCompl
	iRecv
	iCall
	iChangeIface
	iMove
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeIface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iSlice2Arr
	iStore
	iTypeAssert
	iUnsupported
)

type Operand struct {
	k uint8 // 0 reg, 1 const, 2 global
	i int32
	v Value
}

type Instr struct {
	op   IOp
	dst  int32
	n    int32
	flag bool
	a, b, c Operand
	ops  []Operand
	t, t2 types.Type
	ti, ti2 *tinfo
	call *callInfo
	src  ssa.Instruction
	bop  binKind
	tok  token.Token
	str  string
	sel  []selCase
}

type selCase struct {
	dir  types.ChanDir
	ch   Operand
	send Operand
	pos  token.Pos
}

type callInfo struct {
	static  *ssa.Function
	builtin string
	bsig    *types.Signature
	invoke  *types.Func
	recvT   types.Type
	fn      Operand
	args    []Operand
	argT    []types.Type
	cached  *FuncInfo
}

type phiMove struct {
	dst int32
	src []Operand // by pred index
}

type BlockInfo struct {
	phis   []phiMove
	instrs []Instr
	succs  []int
	predIx []int // for succ i: index of this block among succ's preds
}

type FuncInfo struct {
	fn      *ssa.Function
	name    string
	nregs   int
	nparams int
	blocks  []BlockInfo
	recover int // recover block index or -1
	intr    Intrinsic
	intrOK  bool
	inTarget bool
	foreign bool
	hits    int64
	nresults int
}

type binKind uint8

func (p *Program) tinfo(t types.Type) *tinfo {
	if x, ok := p.tinfos[t]; ok {
		return x
	}
	x := computeTinfo(t)
	p.tinfos[t] = x
	return x
}

func (p *Program) Func(fn *ssa.Function) *FuncInfo {
	p.mu.RLock()
	fi := p.funcs[fn]
	p.mu.RUnlock()
	if fi != nil {
		return fi
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if fi := p.funcs[fn]; fi != nil {
		return fi
	}
	fi = p.compile(fn)
	p.funcs[fn] = fi
	return fi
}

func (p *Program) globalIx(g *ssa.Global) int {
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := len(p.globList)
	p.globals[g] = i
	p.globList = append(p.globList, g)
	return i
}

func (p *Program) GlobalIndex(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.globalIx(g)
}

func constValue(c *ssa.Const) Value {
	t := c.Type().Underlying()
	if c.Value == nil {
		return Value{} // nil or zero; aggregates handled by caller
	}
	b, ok := t.(*types.Basic)
	if !ok {
		return Value{}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return mkBool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		if b.Info()&types.IsUnsigned != 0 {
			u, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return Value{b: u}
		}
		i, exact := constant.Int64Val(constant.ToInt(c.Value))
		if !exact {
			u, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return Value{b: u}
		}
		return Value{b: uint64(i)}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f32, _ := constant.Float32Val(c.Value)
			return Value{b: fbits(WF32, float64(f32))}
		}
		return Value{b: fbits(WF64, f)}
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkStr(string(rune(i)))
	}
	return Value{}
}

func (p *Program) compile(fn *ssa.Function) *FuncInfo {
	fi := &FuncInfo{fn: fn, name: fn.String(), recover: -1, nparams: len(fn.Params) + len(fn.FreeVars)}
	if fn.Pkg != nil {
		fi.inTarget = fn.Pkg == p.target
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		fi.inTarget = fn.Origin().Pkg == p.target
	}
	nm := fi.name
	if fn.Origin() != nil {
		nm = fn.Origin().String()
	}
	if x, ok := p.intr[nm]; ok {
		fi.intr = x
		fi.intrOK = true
	}
	if fn.Signature.Results() != nil {
		fi.nresults = fn.Signature.Results().Len()
	}
	if fn.Blocks == nil {
		fi.foreign = true
		return fi
	}
	regs := map[ssa.Value]int32{}
	n := int32(0)
	for _, x := range fn.Params {
		regs[x] = n
		n++
	}
	for _, x := range fn.FreeVars {
		regs[x] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	fi.nregs = int(n)
	opnd := func(v ssa.Value) Operand {
		if v == nil {
			return Operand{k: 1}
		}
		if r, ok := regs[v]; ok {
			return Operand{k: 0, i: r}
		}
		switch x := v.(type) {
		case *ssa.Const:
			ti := p.tinfo(x.Type())
			if x.Value == nil && (ti.kind == kStruct || ti.kind == kArray || ti.kind == kTuple) {
				return Operand{k: 1, v: zeroT(x.Type())}
			}
			return Operand{k: 1, v: constValue(x)}
		case *ssa.Global:
			return Operand{k: 2, i: int32(p.globalIx(x))}
		case *ssa.Function:
			return Operand{k: 1, v: Value{r: &Closure{fn: x}}}
		case *ssa.Builtin:
			return Operand{k: 1}
		}
		panic(fmt.Sprintf("operand %T %s in %s", v, v, fn))
	}
	mkCall := func(c *ssa.CallCommon) *callInfo {
		ci := &callInfo{}
		for _, a := range c.Args {
			ci.args = append(ci.args, opnd(a))
			ci.argT = append(ci.argT, a.Type())
		}
		if c.IsInvoke() {
			ci.invoke = c.Method
			ci.recvT = c.Value.Type()
			ci.fn = opnd(c.Value)
			return ci
		}
		switch v := c.Value.(type) {
		case *ssa.Builtin:
			ci.builtin = v.Name()
			ci.bsig = c.Signature()
		case *ssa.Function:
			ci.static = v
		case *ssa.MakeClosure:
			ci.fn = opnd(v)
		default:
			ci.fn = opnd(v)
		}
		return ci
	}
	fi.blocks = make([]BlockInfo, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		blk := &fi.blocks[bi]
		for _, s := range b.Succs {
			blk.succs = append(blk.succs, s.Index)
		}
		seenPred := map[int]int{}
		for _, s := range b.Succs {
			cnt := seenPred[s.Index]
			seenPred[s.Index]++
			ix := -1
			for pi, pr := range s.Preds {
				if pr == b {
					if cnt == 0 {
						ix = pi
						break
					}
					cnt--
				}
			}
			blk.predIx = append(blk.predIx, ix)
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				pm := phiMove{dst: regs[ph]}
				for _, e := range ph.Edges {
					pm.src = append(pm.src, opnd(e))
				}
				blk.phis = append(blk.phis, pm)
				continue
			}
			ins := Instr{src: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ins.dst = regs[v]
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				ins.op = iAlloc
				ins.t = x.Type().Underlying().(*types.Pointer).Elem()
				ins.ti = p.tinfo(ins.t)
			case *ssa.BinOp:
				ins.op = iBin
				ins.a, ins.b = opnd(x.X), opnd(x.Y)
				ins.t = x.X.Type()
				ins.ti = p.tinfo(x.X.Type())
				ins.ti2 = p.tinfo(x.Y.Type())
				ins.t2 = x.Y.Type()
				ins.tok = x.Op
			case *ssa.UnOp:
				ins.a = opnd(x.X)
				ins.ti = p.tinfo(x.X.Type())
				ins.t = x.Type()
				switch x.Op {
				case token.MUL:
					ins.op = iDeref
				case token.NOT:
					ins.op = iNot
				case token.SUB:
					ins.op = iNeg
				case token.XOR:
					ins.op = iCompl
				case token.ARROW:
					ins.op = iRecv
					ins.flag = x.CommaOk
					ins.t = x.X.Type().Underlying().(*types.Chan).Elem()
				}
			case *ssa.Call:
				ins.op = iCall
				ins.call = mkCall(&x.Call)
				ins.t = x.Type()
			case *ssa.Go:
				ins.op = iGo
				ins.call = mkCall(&x.Call)
			case *ssa.Defer:
				ins.op = iDefer
				ins.call = mkCall(&x.Call)
				if x.DeferStack != nil {
					ins.op = iUnsupported
				}
			case *ssa.ChangeInterface:
				ins.op = iChangeIface
				ins.a = opnd(x.X)
			case *ssa.ChangeType:
				ins.op = iMove
				ins.a = opnd(x.X)
			case *ssa.Convert:
				ins.op = iConvert
				ins.a = opnd(x.X)
				ins.t, ins.t2 = x.X.Type(), x.Type()
				ins.ti, ins.ti2 = p.tinfo(ins.t), p.tinfo(ins.t2)
			case *ssa.MultiConvert:
				ins.op = iUnsupported
			case *ssa.Extract:
				ins.op = iExtract
				ins.a = opnd(x.Tuple)
				ins.n = int32(x.Index)
			case *ssa.Field:
				ins.op = iField
				ins.a = opnd(x.X)
				ins.n = int32(x.Field)
			case *ssa.FieldAddr:
				ins.op = iFieldAddr
				ins.a = opnd(x.X)
				ins.n = int32(x.Field)
			case *ssa.If:
				ins.op = iIf
				ins.a = opnd(x.Cond)
			case *ssa.Jump:
				ins.op = iJump
			case *ssa.Index:
				ins.op = iIndex
				ins.a, ins.b = opnd(x.X), opnd(x.Index)
				ins.ti = p.tinfo(x.X.Type())
				ins.ti2 = p.tinfo(x.Index.Type())
				ins.t = x.Type()
			case *ssa.IndexAddr:
				ins.op = iIndexAddr
				ins.a, ins.b = opnd(x.X), opnd(x.Index)
				ins.ti = p.tinfo(x.X.Type())
				ins.ti2 = p.tinfo(x.Index.Type())
				ins.t = x.Type().Underlying().(*types.Pointer).Elem()
				// a load-only element address lets symbolic indices be read as ite chains
				if refs := x.Referrers(); refs != nil {
					ok := len(*refs) > 0
					for _, r := range *refs {
						if u, isU := r.(*ssa.UnOp); !isU || u.Op != token.MUL {
							if _, isD := r.(*ssa.DebugRef); isD {
								continue
							}
							ok = false
						}
					}
					ins.flag = ok
				}
			case *ssa.Lookup:
				ins.op = iLookup
				ins.a, ins.b = opnd(x.X), opnd(x.Index)
				ins.ti = p.tinfo(x.X.Type())
				ins.ti2 = p.tinfo(x.Index.Type())
				ins.flag = x.CommaOk
				if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
					ins.t = mt.Elem()
					ins.t2 = mt.Key()
				}
			case *ssa.MakeChan:
				ins.op = iMakeChan
				ins.a = opnd(x.Size)
			case *ssa.MakeClosure:
				ins.op = iMakeClosure
				ins.a = opnd(x.Fn)
				for _, b := range x.Bindings {
					ins.ops = append(ins.ops, opnd(b))
				}
			case *ssa.MakeInterface:
				ins.op = iMakeIface
				ins.a = opnd(x.X)
				ins.t = x.X.Type()
			case *ssa.MakeMap:
				ins.op = iMakeMap
				ins.t = x.Type()
			case *ssa.MakeSlice:
				ins.op = iMakeSlice
				ins.a, ins.b = opnd(x.Len), opnd(x.Cap)
				ins.t = x.Type().Underlying().(*types.Slice).Elem()
				ins.ti = p.tinfo(ins.t)
			case *ssa.MapUpdate:
				ins.op = iMapUpdate
				ins.a, ins.b, ins.c = opnd(x.Map), opnd(x.Key), opnd(x.Value)
				ins.t = x.Map.Type().Underlying().(*types.Map).Key()
			case *ssa.Next:
				ins.op = iNext
				ins.a = opnd(x.Iter)
				ins.flag = x.IsString
			case *ssa.Panic:
				ins.op = iPanic
				ins.a = opnd(x.X)
			case *ssa.Range:
				ins.op = iRange
				ins.a = opnd(x.X)
				ins.ti = p.tinfo(x.X.Type())
			case *ssa.Return:
				ins.op = iReturn
				for _, r := range x.Results {
					ins.ops = append(ins.ops, opnd(r))
				}
			case *ssa.RunDefers:
				ins.op = iRunDefers
			case *ssa.Select:
				ins.op = iSelect
				ins.flag = x.Blocking
				for _, s := range x.States {
					sc := selCase{dir: s.Dir, ch: opnd(s.Chan), pos: s.Pos}
					if s.Send != nil {
						sc.send = opnd(s.Send)
					}
					ins.sel = append(ins.sel, sc)
				}
				ins.t = x.Type()
			case *ssa.Send:
				ins.op = iSend
				ins.a, ins.b = opnd(x.Chan), opnd(x.X)
			case *ssa.Slice:
				ins.op = iSlice
				ins.a = opnd(x.X)
				ins.ti = p.tinfo(x.X.Type())
				ins.ops = []Operand{opnd(x.Low), opnd(x.High), opnd(x.Max)}
				if x.Low == nil {
					ins.n |= 1
				}
				if x.High == nil {
					ins.n |= 2
				}
				if x.Max == nil {
					ins.n |= 4
				}
			case *ssa.SliceToArrayPointer:
				ins.op = iSlice2Arr
				ins.a = opnd(x.X)
				ins.n = int32(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			case *ssa.Store:
				ins.op = iStore
				ins.a, ins.b = opnd(x.Addr), opnd(x.Val)
			case *ssa.TypeAssert:
				ins.op = iTypeAssert
				ins.a = opnd(x.X)
				ins.t = x.AssertedType
				ins.ti = p.tinfo(x.AssertedType)
				ins.flag = x.CommaOk
			default:
				ins.op = iUnsupported
			}
			blk.instrs = append(blk.instrs, ins)
		}
	}
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
	}
	return fi
}

func zeroT(t types.Type) Value {
	ti := computeTinfo(t)
	switch ti.kind {
	case kArray:
		a := &Aggr{f: make([]Value, ti.n)}
		et := computeTinfo(ti.elem)
		if et.kind == kArray || et.kind == kStruct {
			for i := range a.f {
				a.f[i] = zeroT(ti.elem)
			}
		}
		return Value{r: a}
	case kStruct, kTuple:
		a := &Aggr{f: make([]Value, ti.n)}
		for i, ft := range ti.fields {
			a.f[i] = zeroT(ft)
		}
		return Value{r: a}
	}
	return Value{}
}
