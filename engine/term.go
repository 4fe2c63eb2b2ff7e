package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

// Symbolic terms: a hash-consed DAG over Bool, bit-vectors and IEEE floats.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OExtract // k = hi<<8|lo
	OConcat
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFLt
	OFLe
	OFEq
	OFSqrt
	OFRnd     // round to integral, k = mode (0 trunc,1 floor,2 ceil)
	OFFromBits
	OFFromS // signed bv -> fp
	OFFromU
	OFToF // fp->fp
	OFToS // fp-> signed bv (RTZ, in range only)
	OFToU
	OFIsNaN
	OFIsInf
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OSdiv: "bvsdiv", OUrem: "bvurem", OSrem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFAbs: "fp.abs", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFSqrt: "fp.sqrt RNE", OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite"}

// widths: 0 Bool, 1..64 BV, 132 FP32, 164 FP64
const (
	WBool = 0
	WF32  = 132
	WF64  = 164
)

type Term struct {
	id      int32
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
	name    string
	vars    []int32 // sorted var ids
	varsOK  bool
	lo, hi int64 // range, if ranged
	ranged bool
	truth  *bitset // for conditions on one variable with few values
}

type bitset [4]uint64

func (b *bitset) first() int {
	for i, w := range b {
		if w != 0 {
			return i*64 + bits.TrailingZeros64(w)
		}
	}
	return -1
}

// domain gives the first value and the number of values of a variable with
// few values, 0 for others.
func (t *Term) domain() (int64, int) {
	switch {
	case t.w == 8:
		return 0, 256
	case t.w == WBool:
		return 0, 2
	case t.ranged && t.hi-t.lo >= 0 && t.hi-t.lo < 256:
		return t.lo, int(t.hi-t.lo) + 1
	}
	return 0, 0
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

type TermCtx struct {
	tab    map[tkey]*Term
	vtab   map[string]*Term
	nextID int32
	vars   []*Term // by var index
	T, F   *Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[tkey]*Term{}, vtab: map[string]*Term{}}
	c.T = c.Const(WBool, 1)
	c.F = c.Const(WBool, 0)
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *TermCtx) mk(op Op, w uint8, a, b, d *Term, k uint64) *Term {
	key := tkey{op, w, tid(a), tid(b), tid(d), k}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{id: c.nextID, op: op, w: w, a: a, b: b, c: d, k: k}
	c.nextID++
	c.tab[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w == WBool {
		return 1
	}
	if w == WF32 {
		return 0xffffffff
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *TermCtx) Const(w uint8, v uint64) *Term {
	return c.mk(OConst, w, nil, nil, nil, v&mask(w))
}

func (c *TermCtx) Var(name string, w uint8) *Term {
	if t, ok := c.vtab[name]; ok {
		if t.w != w {
			panic("var width mismatch " + name)
		}
		return t
	}
	t := &Term{id: c.nextID, op: OVar, w: w, name: name, k: uint64(len(c.vars))}
	c.nextID++
	t.vars = []int32{int32(len(c.vars))}
	t.varsOK = true
	c.vars = append(c.vars, t)
	c.vtab[name] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (t *Term) Vars() []int32 {
	if t.varsOK {
		return t.vars
	}
	var r []int32
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			r = mergeVars(r, x.Vars())
		}
	}
	t.vars = r
	t.varsOK = true
	return r
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// quick subset check
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		if j >= len(b) || (i < len(a) && a[i] < b[j]) {
			out = append(out, a[i])
			i++
		} else if i >= len(a) || b[j] < a[i] {
			out = append(out, b[j])
			j++
		} else {
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

// ---- boolean constructors

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (c *TermCtx) Not(a *Term) *Term {
	if a == c.T {
		return c.F
	}
	if a == c.F {
		return c.T
	}
	if a.op == ONot {
		return a.a
	}
	return c.mk(ONot, WBool, a, nil, nil, 0)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a == c.F || b == c.F {
		return c.F
	}
	if a == c.T {
		return b
	}
	if b == c.T || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, WBool, a, b, nil, 0)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a == c.T || b == c.T {
		return c.T
	}
	if a == c.F {
		return b
	}
	if b == c.F || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, WBool, a, b, nil, 0)
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond == c.T {
		return a
	}
	if cond == c.F {
		return b
	}
	if a == b {
		return a
	}
	if cond.op == ONot {
		return c.Ite(cond.a, b, a)
	}
	if a.w == WBool {
		if a == c.T {
			return c.Or(cond, b)
		}
		if a == c.F {
			return c.And(c.Not(cond), b)
		}
		if b == c.T {
			return c.Or(c.Not(cond), a)
		}
		if b == c.F {
			return c.And(cond, a)
		}
	}
	return c.mk(OIte, a.w, cond, a, b, 0)
}

func linOp(o Op) bool { return o == OAdd || o == OSub || o == OMul || o == OShl }

// linear adds f*t to the linear form l; negative if it is too big.
func linear(t *Term, f uint64, l map[*Term]uint64, left int) int {
	if left--; left < 0 {
		return left
	}
	switch {
	case t.op == OAdd || t.op == OSub:
		if left = linear(t.a, f, l, left); left < 0 {
			return left
		}
		if t.op == OSub {
			f = -f
		}
		return linear(t.b, f, l, left)
	case t.op == OMul && t.b.isConst():
		return linear(t.a, f*t.b.k, l, left)
	case t.op == OShl && t.b.isConst() && t.b.k < 64:
		return linear(t.a, f<<t.b.k, l, left)
	}
	l[t] += f
	return left
}

// rangeOf is the range of values t can have, if it is known to be small.
func rangeOf(t *Term) (lo, hi int64, ok bool) {
	switch {
	case t.op == OConst:
		return int64(t.k), int64(t.k), true
	case t.op == OVar && t.ranged:
		return t.lo, t.hi, true
	case t.op == OZext && t.a.w < 32:
		return 0, 1<<t.a.w - 1, true
	}
	return 0, 0, false
}

// linearBounds is the range of the linear form, which is false if it may be
// too big to be exact.
func linearBounds(l map[*Term]uint64) (lo, hi int64, ok bool) {
	size := 0.0
	for t, f := range l {
		a, b, ok := rangeOf(t)
		if !ok {
			return 0, 0, false
		}
		c := int64(f)
		size += math.Abs(float64(c)) * math.Max(math.Abs(float64(a)), math.Abs(float64(b)))
		if c < 0 {
			a, b = b, a
		}
		lo += c * a
		hi += c * b
	}
	return lo, hi, size < 1<<61
}

// linearLess simplifies a < b for sums of multiples of variables with known
// ranges that cannot overflow; nil if it does not apply.
func (c *TermCtx) linearLess(a, b *Term) *Term {
	if a.op != OVar && b.op != OVar && !linOp(a.op) && !linOp(b.op) {
		return nil
	}
	for _, t := range []*Term{a, b} {
		l := map[*Term]uint64{}
		if linear(t, 1, l, 24) < 0 {
			return nil
		}
		if _, _, ok := linearBounds(l); !ok {
			return nil
		}
	}
	l := map[*Term]uint64{}
	linear(a, 1, l, 24)
	linear(b, ^uint64(0), l, 24)
	// sum + k < 0
	k := int64(0)
	var ts []*Term
	g := int64(0)
	for t, f := range l {
		if t.op == OConst {
			k += int64(f) * int64(t.k)
			delete(l, t)
		} else if f == 0 {
			delete(l, t)
		} else {
			ts = append(ts, t)
			x, y := int64(f), g
			if x < 0 {
				x = -x
			}
			for y != 0 {
				x, y = y, x%y
			}
			g = x
		}
	}
	if len(ts) == 0 {
		return c.Bool(k < 0)
	}
	// sum/g < ceil(-k/g)
	n := -k
	q := n / g
	if n%g > 0 {
		q++
	}
	for t := range l {
		l[t] = uint64(int64(l[t]) / g)
	}
	lo, hi, ok := linearBounds(l)
	if !ok {
		return nil
	}
	if hi < q {
		return c.T
	}
	if lo >= q {
		return c.F
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var p, m *Term
	for _, t := range ts {
		f := int64(l[t])
		side := &p
		if f < 0 {
			side, f = &m, -f
		}
		x := t
		if f != 1 {
			x = c.Bin(OMul, t, c.Const(64, uint64(f)))
		}
		if *side == nil {
			*side = x
		} else {
			*side = c.Bin(OAdd, *side, x)
		}
	}
	kt := c.Const(64, uint64(q))
	switch {
	case m == nil:
		m = kt
	case p == nil:
		// -m < q
		p = c.Const(64, uint64(-q))
	case q > 0:
		m = c.Bin(OAdd, m, kt)
	case q < 0:
		p = c.Bin(OAdd, p, c.Const(64, uint64(-q)))
	}
	return c.mk(OSlt, WBool, p, m, nil, 0)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		if a.w < WF32 {
			return c.T
		}
	}
	if a.w >= WF32 {
		panic("Eq on fp")
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == WBool && b.isConst() {
		if b == c.T {
			return a
		}
		return c.Not(a)
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			if b.k&^mask(a.a.w) != 0 {
				return c.F
			}
			return c.Eq(a.a, c.Const(a.a.w, b.k))
		case OSext:
			lo := b.k & mask(a.a.w)
			if uint64(sext64(lo, a.a.w))&mask(a.w) != b.k {
				return c.F
			}
			return c.Eq(a.a, c.Const(a.a.w, lo))
		case OIte:
			if a.b.isConst() && a.c.isConst() {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
			if a.b.isConst() || a.c.isConst() {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case OAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(a.w, b.k-a.b.k))
			}
		case OConcat:
			lw := a.b.w
			return c.And(c.Eq(a.a, c.Const(a.a.w, b.k>>lw)), c.Eq(a.b, c.Const(lw, b.k)))
		case OBNot:
			return c.Eq(a.a, c.Const(a.w, ^b.k))
		}
	} else if a.op == b.op && (a.op == OZext || a.op == OSext) && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	} else if linOp(a.op) && linOp(b.op) {
		// sums of the same terms
		l := map[*Term]uint64{}
		if linear(a, 1, l, 32) >= 0 && linear(b, ^uint64(0), l, 32) >= 0 {
			var k uint64
			same := true
			for t, f := range l {
				if t.isConst() {
					k += f * t.k
				} else if f&mask(a.w) != 0 {
					same = false
					break
				}
			}
			if same {
				return c.Bool(k&mask(a.w) == 0)
			}
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(OEq, WBool, a, b, nil, 0)
}

// bin evaluates a BV operation on constants.
func bvEval(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSrem:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		s := sext64(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sext64(x, w) < sext64(y, w))
	case OSle:
		return b2u(sext64(x, w) <= sext64(y, w))
	}
	panic("bvEval")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	rw := w
	switch op {
	case OUlt, OUle, OSlt, OSle:
		rw = WBool
	}
	if a.w != b.w {
		panic(fmt.Sprintf("bin width mismatch %d %d op %s", a.w, b.w, opNames[op]))
	}
	if a.isConst() && b.isConst() {
		return c.Const(rw, bvEval(op, w, a.k, b.k))
	}
	// push over ite of constants
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	bc := b.isConst()
	switch op {
	case OAdd:
		if bc && b.k == 0 {
			return a
		}
		if bc && a.op == OAdd && a.b.isConst() {
			return c.Bin(OAdd, a.a, c.Const(w, a.b.k+b.k))
		}
		if bc && a.op == OIte && a.b.isConst() && a.c.isConst() {
			return c.Ite(a.a, c.Bin(op, a.b, b), c.Bin(op, a.c, b))
		}
	case OSub:
		if bc {
			return c.Bin(OAdd, a, c.Const(w, -b.k))
		}
		if a == b {
			return c.Const(w, 0)
		}
	case OMul:
		if bc {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if bits.OnesCount64(b.k) == 1 {
				return c.Bin(OShl, a, c.Const(w, uint64(bits.TrailingZeros64(b.k))))
			}
		}
	case OUdiv:
		if bc && b.k == 1 {
			return a
		}
		if bc && bits.OnesCount64(b.k) == 1 {
			return c.Bin(OLshr, a, c.Const(w, uint64(bits.TrailingZeros64(b.k))))
		}
	case OUrem:
		if bc && bits.OnesCount64(b.k) == 1 {
			return c.Bin(OBAnd, a, c.Const(w, b.k-1))
		}
	case OSdiv:
		if bc && b.k == 1 {
			return a
		}
	case OBAnd:
		if bc {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if a.op == OZext && b.k&mask(a.a.w) == mask(a.a.w) {
				return a
			}
			// low mask -> zext(extract)
			if b.k&(b.k+1) == 0 {
				n := uint8(bits.OnesCount64(b.k))
				return c.Zext(c.Extract(a, n-1, 0), w)
			}
		}
		if a == b {
			return a
		}
	case OBOr:
		if bc {
			if b.k == 0 {
				return a
			}
			if b.k == mask(w) {
				return b
			}
		}
		if a == b {
			return a
		}
	case OBXor:
		if bc && b.k == 0 {
			return a
		}
		if bc && b.k == mask(w) {
			return c.BNot(a)
		}
		if a == b {
			return c.Const(w, 0)
		}
	case OShl, OLshr, OAshr:
		if bc && b.k == 0 {
			return a
		}
		if bc && b.k >= uint64(w) && op != OAshr {
			return c.Const(w, 0)
		}
		if a.isConst() && a.k == 0 {
			return a
		}
		if bc && op == OLshr && a.op == OZext && b.k >= uint64(a.a.w) {
			return c.Const(w, 0)
		}
	case OUlt:
		if a == b {
			return c.F
		}
		if bc && b.k == 0 {
			return c.F
		}
		if bc && b.k == 1 {
			return c.Eq(a, c.Const(w, 0))
		}
		if bc && a.op == OZext {
			if b.k > mask(a.a.w) {
				return c.T
			}
			return c.Bin(OUlt, a.a, c.Const(a.a.w, b.k))
		}
		if a.isConst() && b.op == OZext {
			if a.k >= mask(b.a.w) {
				return c.F
			}
			return c.Bin(OUlt, c.Const(b.a.w, a.k), b.a)
		}
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return c.Bin(OUlt, a.a, b.a)
		}
	case OUle:
		if a == b {
			return c.T
		}
		return c.Not(c.Bin(OUlt, b, a))
	case OSlt:
		if a == b {
			return c.F
		}
		if w == 64 {
			if r := c.linearLess(a, b); r != nil {
				return r
			}
		}
		if bc && a.op == OZext && a.a.w < w {
			if sext64(b.k, w) <= 0 {
				return c.F
			}
			return c.Bin(OUlt, a, b)
		}
		if a.isConst() && b.op == OZext && b.a.w < w {
			if sext64(a.k, w) < 0 {
				return c.T
			}
			return c.Bin(OUlt, a, b)
		}
		if a.op == OZext && b.op == OZext && a.a.w < w && b.a.w < w {
			return c.Bin(OUlt, a, b)
		}
	case OSle:
		if a == b {
			return c.T
		}
		return c.Not(c.Bin(OSlt, b, a))
	}
	// commutative normalisation
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(op, rw, a, b, nil, 0)
}

func (c *TermCtx) BNot(a *Term) *Term {
	if a.isConst() {
		return c.Const(a.w, ^a.k)
	}
	if a.op == OBNot {
		return a.a
	}
	return c.mk(OBNot, a.w, a, nil, nil, 0)
}

func (c *TermCtx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w == WBool {
		return c.Ite(a, c.Const(w, 1), c.Const(w, 0))
	}
	if a.isConst() {
		return c.Const(w, a.k)
	}
	if a.op == OZext {
		return c.mk(OZext, w, a.a, nil, nil, 0)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return c.Ite(a.a, c.Zext(a.b, w), c.Zext(a.c, w))
	}
	return c.mk(OZext, w, a, nil, nil, 0)
}

func (c *TermCtx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, uint64(sext64(a.k, a.w)))
	}
	if a.op == OSext {
		return c.mk(OSext, w, a.a, nil, nil, 0)
	}
	if a.op == OZext {
		return c.mk(OZext, w, a.a, nil, nil, 0)
	}
	return c.mk(OSext, w, a, nil, nil, 0)
}

func (c *TermCtx) Extract(a *Term, hi, lo uint8) *Term {
	if lo == 0 && hi == a.w-1 {
		return a
	}
	w := hi - lo + 1
	if a.isConst() {
		return c.Const(w, a.k>>lo)
	}
	switch a.op {
	case OZext, OSext:
		if hi < a.a.w {
			return c.Extract(a.a, hi, lo)
		}
		if a.op == OZext && lo >= a.a.w {
			return c.Const(w, 0)
		}
		if lo == 0 {
			if a.op == OZext {
				return c.Zext(a.a, w)
			}
			return c.Sext(a.a, w)
		}
	case OExtract:
		l0 := uint8(a.k & 255)
		return c.Extract(a.a, hi+l0, lo+l0)
	case OConcat:
		if hi < a.b.w {
			return c.Extract(a.b, hi, lo)
		}
		if lo >= a.b.w {
			return c.Extract(a.a, hi-a.b.w, lo-a.b.w)
		}
	case OIte:
		if a.b.isConst() && a.c.isConst() {
			return c.Ite(a.a, c.Extract(a.b, hi, lo), c.Extract(a.c, hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(a.a, hi, lo), c.Extract(a.b, hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(a.a, hi, lo), c.Extract(a.b, hi, lo))
		}
	case OLshr:
		if a.b.isConst() && a.b.k+uint64(hi) < uint64(a.w) {
			return c.Extract(a.a, hi+uint8(a.b.k), lo+uint8(a.b.k))
		}
	}
	return c.mk(OExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo))
}

// ---- floats

func fval(w uint8, k uint64) float64 {
	if w == WF32 {
		return float64(math.Float32frombits(uint32(k)))
	}
	return math.Float64frombits(k)
}

func fbits(w uint8, f float64) uint64 {
	if w == WF32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func fpEval(op Op, w uint8, x, y uint64) uint64 {
	if w == WF32 {
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		switch op {
		case OFAdd:
			return uint64(math.Float32bits(a + b))
		case OFSub:
			return uint64(math.Float32bits(a - b))
		case OFMul:
			return uint64(math.Float32bits(a * b))
		case OFDiv:
			return uint64(math.Float32bits(a / b))
		case OFLt:
			return b2u(a < b)
		case OFLe:
			return b2u(a <= b)
		case OFEq:
			return b2u(a == b)
		}
	} else {
		a, b := math.Float64frombits(x), math.Float64frombits(y)
		switch op {
		case OFAdd:
			return math.Float64bits(a + b)
		case OFSub:
			return math.Float64bits(a - b)
		case OFMul:
			return math.Float64bits(a * b)
		case OFDiv:
			return math.Float64bits(a / b)
		case OFLt:
			return b2u(a < b)
		case OFLe:
			return b2u(a <= b)
		case OFEq:
			return b2u(a == b)
		}
	}
	panic("fpEval")
}

func (c *TermCtx) FBin(op Op, a, b *Term) *Term {
	rw := a.w
	if op == OFLt || op == OFLe || op == OFEq {
		rw = WBool
	}
	if a.isConst() && b.isConst() {
		return c.Const(rw, fpEval(op, a.w, a.k, b.k))
	}
	if op == OFEq && a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, rw, a, b, nil, 0)
}

func fpUn(op Op, w uint8, k uint64, x uint64) uint64 {
	switch op {
	case OFNeg:
		if w == WF32 {
			return x ^ 0x80000000
		}
		return x ^ (1 << 63)
	case OFAbs:
		if w == WF32 {
			return x &^ 0x80000000
		}
		return x &^ (1 << 63)
	case OFSqrt:
		return fbits(w, math.Sqrt(fval(w, x)))
	case OFRnd:
		f := fval(w, x)
		switch k {
		case 0:
			f = math.Trunc(f)
		case 1:
			f = math.Floor(f)
		case 2:
			f = math.Ceil(f)
		}
		return fbits(w, f)
	}
	panic("fpUn")
}

func (c *TermCtx) FUn(op Op, a *Term, k uint64) *Term {
	if a.isConst() {
		return c.Const(a.w, fpUn(op, a.w, k, a.k))
	}
	if op == OFRnd && (a.op == OFFromS || a.op == OFFromU) {
		return a // whole already
	}
	return c.mk(op, a.w, a, nil, nil, k)
}

func (c *TermCtx) FIsNaN(a *Term) *Term {
	if a.isConst() {
		return c.Bool(math.IsNaN(fval(a.w, a.k)))
	}
	return c.mk(OFIsNaN, WBool, a, nil, nil, 0)
}

func (c *TermCtx) FIsInf(a *Term) *Term {
	if a.isConst() {
		return c.Bool(math.IsInf(fval(a.w, a.k), 0))
	}
	return c.mk(OFIsInf, WBool, a, nil, nil, 0)
}

func fw(w uint8) uint8 { // bit width of float sort
	return w - 100
}

func (c *TermCtx) FFromBits(a *Term, w uint8) *Term {
	if a.isConst() {
		return c.Const(w, a.k)
	}
	return c.mk(OFFromBits, w, a, nil, nil, 0)
}

func (c *TermCtx) FFromInt(a *Term, signed bool, w uint8) *Term {
	if a.isConst() {
		return c.Const(w, ffromint(a.k, a.w, signed, w))
	}
	if signed {
		return c.mk(OFFromS, w, a, nil, nil, 0)
	}
	return c.mk(OFFromU, w, a, nil, nil, 0)
}

func ffromint(k uint64, sw uint8, signed bool, w uint8) uint64 {
	if signed {
		s := sext64(k, sw)
		if w == WF32 {
			return uint64(math.Float32bits(float32(s)))
		}
		return math.Float64bits(float64(s))
	}
	if w == WF32 {
		return uint64(math.Float32bits(float32(k)))
	}
	return math.Float64bits(float64(k))
}

func (c *TermCtx) FToF(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, fbits(w, fval(a.w, a.k)))
	}
	if a.op == OFToF && a.a.w == w && w == WF32 {
		return a.a // f32 -> f64 -> f32 is the identity (up to NaN payload)
	}
	return c.mk(OFToF, w, a, nil, nil, 0)
}

// FToS: truncating conversion; amd64 semantics for out of range (0x80..0).
func (c *TermCtx) FToS(a *Term, w uint8) *Term {
	if a.isConst() {
		return c.Const(w, ftos(a.w, a.k, w))
	}
	if a.op == OFFromS && a.w == WF64 && a.a.w == w {
		if lo, hi, ok := rangeOf(a.a); ok && lo >= -1<<53 && hi <= 1<<53 {
			return a.a // exact
		}
	}
	return c.mk(OFToS, w, a, nil, nil, 0)
}

func ftos(fwid uint8, k uint64, w uint8) uint64 {
	f := fval(fwid, k)
	// conversions go through 64-bit
	var r int64
	if math.IsNaN(f) || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		r = math.MinInt64
	} else {
		r = int64(f)
	}
	return uint64(r) & mask(w)
}

// ---- evaluation under a model (missing vars are 0)

type Model map[int32]uint64

type Evaluator struct {
	m    Model
	memo map[int32]uint64
}

func NewEval(m Model) *Evaluator { return &Evaluator{m: m, memo: map[int32]uint64{}} }

func (e *Evaluator) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.op == OVar {
		return e.m[int32(t.k)] & mask(t.w)
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - e.Eval(t.a)
	case OAnd:
		r = e.Eval(t.a)
		if r != 0 {
			r = e.Eval(t.b)
		}
	case OOr:
		r = e.Eval(t.a)
		if r == 0 {
			r = e.Eval(t.b)
		}
	case OIte:
		if e.Eval(t.a) != 0 {
			r = e.Eval(t.b)
		} else {
			r = e.Eval(t.c)
		}
	case OEq:
		r = b2u(e.Eval(t.a) == e.Eval(t.b))
	case OAdd, OSub, OMul, OUdiv, OSdiv, OUrem, OSrem, OBAnd, OBOr, OBXor, OShl, OLshr, OAshr, OUlt, OUle, OSlt, OSle:
		r = bvEval(t.op, t.a.w, e.Eval(t.a), e.Eval(t.b))
	case OBNot:
		r = ^e.Eval(t.a) & mask(t.w)
	case OZext:
		r = e.Eval(t.a)
	case OSext:
		r = uint64(sext64(e.Eval(t.a), t.a.w)) & mask(t.w)
	case OExtract:
		r = (e.Eval(t.a) >> (t.k & 255)) & mask(t.w)
	case OConcat:
		r = (e.Eval(t.a)<<t.b.w | e.Eval(t.b)) & mask(t.w)
	case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq:
		r = fpEval(t.op, t.a.w, e.Eval(t.a), e.Eval(t.b))
	case OFNeg, OFAbs, OFSqrt, OFRnd:
		r = fpUn(t.op, t.w, t.k, e.Eval(t.a))
	case OFIsNaN:
		r = b2u(math.IsNaN(fval(t.a.w, e.Eval(t.a))))
	case OFIsInf:
		r = b2u(math.IsInf(fval(t.a.w, e.Eval(t.a)), 0))
	case OFFromBits:
		r = e.Eval(t.a)
	case OFFromS:
		r = ffromint(e.Eval(t.a), t.a.w, true, t.w)
	case OFFromU:
		r = ffromint(e.Eval(t.a), t.a.w, false, t.w)
	case OFToF:
		r = fbits(t.w, fval(t.a.w, e.Eval(t.a)))
	case OFToS:
		r = ftos(t.a.w, e.Eval(t.a), t.w)
	default:
		panic("eval op")
	}
	e.memo[t.id] = r
	return r
}

// ---- SMT-LIB printing

func sortName(w uint8) string {
	switch w {
	case WBool:
		return "Bool"
	case WF32:
		return "(_ FloatingPoint 8 24)"
	case WF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func fpSort(w uint8) string {
	if w == WF32 {
		return "8 24"
	}
	return "11 53"
}

func constStr(w uint8, k uint64) string {
	switch w {
	case WBool:
		if k != 0 {
			return "true"
		}
		return "false"
	case WF32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", k)
	case WF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", k)
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, k)
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

func ref(t *Term) string {
	if t.op == OConst {
		return constStr(t.w, t.k)
	}
	if t.op == OVar {
		return fmt.Sprintf("v%d", t.k)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	switch t.op {
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k>>8, t.k&255, ref(t.a))
	case OFRnd:
		m := []string{"RTZ", "RTN", "RTP"}[t.k]
		return fmt.Sprintf("(fp.roundToIntegral %s %s)", m, ref(t.a))
	case OFFromBits:
		return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(t.w), ref(t.a))
	case OFFromS:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpSort(t.w), ref(t.a))
	case OFFromU:
		return fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpSort(t.w), ref(t.a))
	case OFToF:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpSort(t.w), ref(t.a))
	case OFToS:
		// in range test at 64 bit
		lo, hi := constStr(t.a.w, fbits(t.a.w, -9223372036854775808.0)), constStr(t.a.w, fbits(t.a.w, 9223372036854775808.0))
		x := ref(t.a)
		conv := fmt.Sprintf("(ite (and (fp.leq %s %s) (fp.lt %s %s)) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", lo, x, x, hi, x)
		if t.w < 64 {
			return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, conv)
		}
		return conv
	}
	s := "(" + opNames[t.op]
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + ref(x)
		}
	}
	return s + ")"
}

// defs writes define-funs for all nodes below the roots in dependency order.
func writeDefs(sb *strings.Builder, roots []*Term) (vars []*Term) {
	seen := map[int32]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || t.op == OConst || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OVar {
			vars = append(vars, t)
			fmt.Fprintf(sb, "(declare-const v%d %s)\n", t.k, sortName(t.w))
			return
		}
		visit(t.a)
		visit(t.b)
		visit(t.c)
		fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), t.body())
	}
	for _, r := range roots {
		visit(r)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].k < vars[j].k })
	return
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.w >= WF32 {
			return fmt.Sprint(fval(t.w, t.k))
		}
		if t.w == WBool {
			return fmt.Sprint(t.k != 0)
		}
		return fmt.Sprintf("%d:%d", sext64(t.k, t.w), t.w)
	case OVar:
		return t.name
	}
	s := "(" + opNames[t.op]
	if opNames[t.op] == "" {
		s = fmt.Sprintf("(op%d", t.op)
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.String()
		}
	}
	return s + ")"
}

var _ = big.NewInt
