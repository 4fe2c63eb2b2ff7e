package golisp

import (
	"errors"
	"unsafe"
)

// Helpers shared by the harnesses. They drive the interpreter through its
// public entry points: Eval on an expression whose variables are bound in a
// scratch environment.

var vArgNames []string

func init() {
	for i := 0; i < 64; i++ {
		n := "va"
		if i >= 10 {
			n += vIntString(i / 10)
		}
		vArgNames = append(vArgNames, n+vIntString(i%10))
	}
}

func vParse(s string) *Data {
	d, err := Parse(s)
	if err != nil {
		panic("harness source does not parse: " + s)
	}
	return d
}

func vEnv() *SymbolTableFrame { return NewSymbolTableFrameBelow(Global, "verif") }

// vLet makes an environment with va0, va1, ... bound to the given values.
func vLet(vals ...*Data) *SymbolTableFrame {
	env := vEnv()
	for i, v := range vals {
		env.BindLocallyTo(Intern(vArgNames[i]), v)
	}
	return env
}

// vEvalWith evaluates a parsed expression with va0.. bound.
func vEvalWith(expr *Data, vals ...*Data) (*Data, error) {
	return Eval(expr, vLet(vals...))
}

// vCall evaluates (name va0 va1 ...).
func vCall(name string, vals ...*Data) (*Data, error) {
	env := vLet(vals...)
	var expr *Data
	for i := len(vals) - 1; i >= 0; i-- {
		expr = Cons(Intern(vArgNames[i]), expr)
	}
	expr = Cons(Intern(name), expr)
	return Eval(expr, env)
}

// vCallOK is vCall for calls that must succeed.
func vCallOK(name string, vals ...*Data) *Data {
	r, err := vCall(name, vals...)
	vAssert(err == nil, name+" must not fail")
	return r
}

func vList(vals ...*Data) *Data {
	var l *Data
	for i := len(vals) - 1; i >= 0; i-- {
		l = Cons(vals[i], l)
	}
	return l
}

func vI(x int64) *Data { return IntegerWithValue(x) }

// vIsInt reports whether d is the integer x.
func vIsInt(d *Data, x int64) bool { return IntegerP(d) && IntegerValue(d) == x }

func vIsBool(d *Data, b bool) bool { return BooleanP(d) && BooleanValue(d) == b }

// vTrue is a boolean result that is true.
func vTrue(d *Data) bool { return BooleanP(d) && BooleanValue(d) }

// vSameF compares float32 values bit for bit except that all NaNs agree.
func vSameF(a, b float32) bool { return a == b || (a != a && b != b) }

func vIsFloat(d *Data, x float32) bool { return FloatP(d) && vSameF(FloatValue(d), x) }

// vElems returns the elements of a proper list, ok=false if it is not one
// (n bounds the walk).
func vElems(d *Data, max int) (out []*Data, ok bool) {
	for c := d; NotNilP(c); c = Cdr(c) {
		if !PairP(c) || len(out) >= max {
			return nil, false
		}
		out = append(out, Car(c))
	}
	return out, true
}

// Sample values of each kind, built once.
var vExFrame, vExBytes, vExFn, vExPrim, vExEnv, vExAlist, vExDotted, vExList *Data

func init() {
	vExFrame = vMust("(make-frame a: 1 b: 2)")
	vExBytes = vMust("(list->bytearray '(1 2 3))")
	vExFn = vMust("(lambda (x) x)")
	vExPrim = vMust("car")
	vExEnv = vMust("(the-environment)")
	vExAlist = vMust("(acons 'k 1 (acons 'j 2))")
	vExDotted = vMust("(cons 1 2)")
	vExList = vMust("(list 1 2 3)")
}

func vMust(src string) *Data {
	r, err := Eval(vParse(src), NewSymbolTableFrameBelow(Global, "verif"))
	if err != nil {
		panic(src + ": " + err.Error())
	}
	return r
}

const vNumNonNumber = 12

// vNonNumber is a value that is not a number.
func vNonNumber(name string) *Data {
	switch vChoice(name, vNumNonNumber) {
	case 0:
		return nil
	case 1:
		return EmptyCons()
	case 2:
		return StringWithValue("12")
	case 3:
		return Intern("vsym")
	case 4:
		return Intern("vsym:")
	case 5:
		return BooleanWithValue(true)
	case 6:
		return Copy(vExList)
	case 7:
		return vExDotted
	case 8:
		return Copy(vExFrame)
	case 9:
		return Copy(vExBytes)
	case 10:
		return vExFn
	}
	return vExEnv
}

// vNumber is an arbitrary integer or float; f tells which.
func vNumber(name string) (d *Data, f bool) {
	if vChoice(name+"-float", 2) == 1 {
		return FloatWithValue(vFloat32(name)), true
	}
	return vI(vInt64(name)), false
}

func vIntString(i int) string { return string([]byte{byte('0' + i)}) }

// vBytes is a byte array of n arbitrary bytes.
func vBytes(name string, n int) (*Data, []byte) {
	b := make([]byte, n)
	for i := range b {
		b[i] = vByte(name)
	}
	keep := make([]byte, n)
	copy(keep, b)
	return vByteArray(b), keep
}

func vByteArray(b []byte) *Data {
	return ObjectWithTypeAndValue("[]byte", unsafe.Pointer(&b))
}

// vAtom is an atomic value; kinds limits the alternatives:
// 0 integer, 1 nil, 2 symbol, 3 string, 4 boolean, 5 float (not NaN),
// 6 byte array, 7 keyword symbol, 8 function, 9 primitive, 10 environment
func vAtom(name string, kinds int) *Data {
	switch vChoice(name, kinds) {
	case 0:
		return vI(vInt64(name))
	case 1:
		return EmptyCons()
	case 2:
		if vBool(name) {
			return Intern("vs1")
		}
		return Intern("vs2")
	case 3:
		return StringWithValue(vString(name, vChoice(name, 3)))
	case 4:
		return BooleanWithValue(vBool(name))
	case 5:
		x := vFloat32(name)
		vAssume(x == x)
		return FloatWithValue(x)
	case 6:
		d, _ := vBytes(name, vChoice(name, 3))
		return d
	case 7:
		return Intern("vs1:")
	case 8:
		if vChoice(name, 2) == 0 {
			return vExFn
		}
		return vExFn2
	case 9:
		if vChoice(name, 2) == 0 {
			return vExPrim
		}
		return vExPrim2
	}
	if vChoice(name, 2) == 0 {
		return vExEnv
	}
	return vExEnv2
}

var vExFn2, vExPrim2, vExEnv2 *Data

func init() {
	vExFn2 = vMust("(lambda (x) x)")
	vExPrim2 = vMust("cdr")
	vExEnv2 = vMust("(the-environment)")
}

func vKeyN(i int) *Data { return []*Data{Intern("vk0"), Intern("vk1"), Intern("vk2")}[i] }

// vGen is an arbitrary value of bounded depth and width. top/sub are the atom
// kinds at this level and below, wide the maximal number of elements.
func vGen(name string, depth, top, sub, wide int) *Data {
	if depth == 0 {
		return vAtom(name, top)
	}
	switch vChoice(name+"~shape", 5) {
	case 0:
		return vAtom(name, top)
	case 1: // proper list
		n := 1 + vChoice(name+"~len", wide)
		l := make([]*Data, n)
		for i := range l {
			l[i] = vGen(name, depth-1, sub, sub, wide)
		}
		return vList(l...)
	case 2: // dotted
		n := 1 + vChoice(name+"~len", wide)
		r := vI(vInt64(name))
		for i := 0; i < n; i++ {
			r = Cons(vGen(name, depth-1, sub, sub, wide), r)
		}
		return r
	case 3: // association list with distinct keys
		n := 1 + vChoice(name+"~len", wide)
		r := EmptyCons()
		first := vChoice(name+"~first", 2)
		for i := 0; i < n; i++ {
			r = vCallOK("acons", vKeyN((first+i)%3), vGen(name, depth-1, sub, sub, wide), r)
		}
		return r
	}
	n := vChoice(name+"~len", wide+1)
	first := vChoice(name+"~first", 2)
	f := vCallOK("make-frame")
	for i := 0; i < n; i++ {
		vCallOK("set-slot!", f, vSlotN((first+i)%3), vGen(name, depth-1, sub, sub, wide))
	}
	return f
}

func vSlotN(i int) *Data { return []*Data{Intern("vk0:"), Intern("vk1:"), Intern("vk2:")}[i] }

// vSame is structural equality as documented, written independently of the
// interpreter: identical shape and contents; association lists and frames by
// key.
func vSame(a, b *Data) bool {
	if NilP(a) || NilP(b) {
		return NilP(a) && NilP(b)
	}
	switch {
	case AlistP(a) && AlistP(b):
		x, y := vPairs(a), vPairs(b)
		if len(x) != len(y) {
			return false
		}
		for _, p := range x {
			ok := false
			for _, q := range y {
				if vSame(Car(p), Car(q)) {
					ok = vSame(Cdr(p), Cdr(q))
					break
				}
			}
			if !ok {
				return false
			}
		}
		return true
	case TypeOf(a) != TypeOf(b):
		return false
	case PairP(a):
		return vSame(Car(a), Car(b)) && vSame(Cdr(a), Cdr(b))
	case IntegerP(a):
		return IntegerValue(a) == IntegerValue(b)
	case FloatP(a):
		return FloatValue(a) == FloatValue(b)
	case BooleanP(a):
		return BooleanValue(a) == BooleanValue(b)
	case StringP(a), SymbolP(a):
		return StringValue(a) == StringValue(b)
	case FrameP(a):
		x, y := FrameValue(a).Data, FrameValue(b).Data
		if len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !vSame(v, w) {
				return false
			}
		}
		return true
	case ObjectP(a) && ObjectType(a) == "[]byte" && ObjectType(b) == "[]byte":
		return vSameBytes(*(*[]byte)(ObjectValue(a)), *(*[]byte)(ObjectValue(b)))
	}
	return a.Value == b.Value
}

func vPairs(alist *Data) (out []*Data) {
	for c := alist; NotNilP(c) && len(out) < 16; c = Cdr(c) {
		out = append(out, Car(c))
	}
	return
}

func vSameBytes(a, b []byte) bool {
	return string(a) == string(b)
}

func vByteSlice(d *Data) []byte { return *(*[]byte)(ObjectValue(d)) }

// vClone copies a value's structure in the harness, independently of the
// interpreter's copy.
func vClone(d *Data) *Data {
	if d == nil {
		return nil
	}
	switch d.Type {
	case ConsCellType, AlistType, AlistCellType:
		c := (*ConsCell)(d.Value)
		n := &ConsCell{Car: vClone(c.Car), Cdr: vClone(c.Cdr)}
		return &Data{Type: d.Type, Value: unsafe.Pointer(n)}
	case StringType:
		s := StringValue(d)
		return &Data{Type: StringType, Value: unsafe.Pointer(&s)}
	case FrameType:
		m := &FrameMap{Data: make(FrameMapData)}
		for k, v := range FrameValue(d).Data {
			m.Data[k] = vClone(v)
		}
		return &Data{Type: FrameType, Value: unsafe.Pointer(m)}
	case BoxedObjectType:
		if ObjectType(d) == "[]byte" {
			b := append([]byte{}, vByteSlice(d)...)
			return vByteArray(b)
		}
	}
	return d
}

// vExact: same kinds, shape and contents, in the same order (the empty list
// has several representations).
func vExact(a, b *Data) bool {
	if NilP(a) || NilP(b) {
		return NilP(a) && NilP(b)
	}
	if a.Type != b.Type {
		return false
	}
	switch a.Type {
	case ConsCellType, AlistType, AlistCellType:
		return vExact(Car(a), Car(b)) && vExact(Cdr(a), Cdr(b))
	case FrameType:
		x, y := FrameValue(a).Data, FrameValue(b).Data
		if len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !vExact(v, w) {
				return false
			}
		}
		return true
	}
	return vSame(a, b)
}

// vMutable lists the nodes of a value that can be changed in place.
func vMutable(d *Data, out []*Data) []*Data {
	if NilP(d) {
		return out
	}
	switch d.Type {
	case ConsCellType, AlistType, AlistCellType:
		out = append(out, d)
		out = vMutable(Car(d), out)
		return vMutable(Cdr(d), out)
	case StringType:
		return append(out, d)
	case FrameType:
		out = append(out, d)
		for _, k := range []string{"vk0:", "vk1:", "vk2:"} {
			if v, ok := FrameValue(d).Data[k]; ok {
				out = vMutable(v, out)
			}
		}
		return out
	case BoxedObjectType:
		if ObjectType(d) == "[]byte" && len(vByteSlice(d)) > 0 {
			return append(out, d)
		}
	}
	return out
}

// vMutate changes node d in place through the mutating primitives.
func vMutate(d *Data, how int) {
	switch {
	case PairP(d) || AlistP(d) || DottedPairP(d):
		if how == 0 {
			vCallOK("set-car!", d, Intern("vmut"))
		} else {
			vCallOK("set-cdr!", d, Intern("vmut"))
		}
	case StringP(d):
		vAssumeASCII(StringValue(d))
		vCallOK([]string{"string-upcase!", "string-downcase!"}[how], d)
	case FrameP(d):
		if how == 0 {
			vCallOK("set-slot!", d, Intern("vk0:"), Intern("vmut"))
		} else {
			vCallOK("remove-slot!", d, Intern("vk1:"))
		}
	default:
		if how == 0 {
			vCallOK("replace-byte!", d, vI(0), vI(255-int64(vByteSlice(d)[0])))
		} else {
			vCallOK("append-bytes!", d, vI(7))
		}
	}
}

func vAssumeASCII(s string) {
	for i := 0; i < len(s); i++ {
		vAssume(s[i] < 0x80)
	}
}

// vLen is a length: 0..small-1, or 12 or 17 (thorough also 33).
func vLen(name string, small int) int {
	long := []int{12, 17, 33}
	k := vChoice(name, small+2+vTier())
	if k >= small {
		return long[k-small]
	}
	return k
}

// vIntList is a fresh list of n arbitrary integers.
func vIntList(name string, n int) (*Data, []int64) {
	l := make([]*Data, n)
	x := make([]int64, n)
	for i := range l {
		x[i] = vInt64(name)
		l[i] = vI(x[i])
	}
	return vList(l...), x
}

// vSeq reports whether d is the proper list of the integers w.
func vSeq(d *Data, w []int64) bool {
	i := 0
	for c := d; NotNilP(c); c = Cdr(c) {
		if !ListP(c) || i >= len(w) || !vIsInt(Car(c), w[i]) {
			return false
		}
		i++
	}
	return i == len(w)
}

// vNonList is a value that is neither a list nor nil.
func vNonList(name string) *Data {
	switch vChoice(name, 9) {
	case 0:
		return vI(vInt64(name))
	case 1:
		return FloatWithValue(1.5)
	case 2:
		return StringWithValue("ab")
	case 3:
		return Intern("vsym")
	case 4:
		return BooleanWithValue(true)
	case 5:
		return vExFn
	case 6:
		return vExPrim
	case 7:
		return vExEnv
	}
	return vExFrame
}

func vBoolData(b bool) *Data { return BooleanWithValue(b) }

// vprobe is a function under the harness's control: it records the arguments
// of each call and gives the prepared answers.
var vProbeCalls [][]*Data
var vProbeAnswer func(call int, args []*Data) (*Data, error)

func vProbeImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	var a []*Data
	for c := args; NotNilP(c); c = Cdr(c) {
		a = append(a, Car(c))
	}
	vProbeCalls = append(vProbeCalls, a)
	return vProbeAnswer(len(vProbeCalls)-1, a)
}

var vExProbePrim, vExProbeFn *Data

func init() {
	MakePrimitiveFunction("vprobe", "*", vProbeImpl)
	vExProbePrim = vMust("vprobe")
	vExProbeFn = vMust("(lambda (a . rest) (apply vprobe (cons a rest)))")
}

// vProbe is the probe as a primitive or as a user-defined function.
func vProbe(answer func(call int, args []*Data) (*Data, error)) *Data {
	vProbeCalls = nil
	vProbeAnswer = answer
	if vChoice("probe", 2) == 0 {
		return vExProbePrim
	}
	return vExProbeFn
}

var vErrBoom = errors.New("boom")

func vErr(s string) error { return errors.New("v-" + s) }

// vSortedKeys are the keys of a binding table in a fixed order.
func vSortedKeys(m map[string]*Binding) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

// vAssumeText: ASCII without the characters that printing may escape.
func vAssumeText(s string) {
	for i := 0; i < len(s); i++ {
		vAssume(s[i] >= 0x20 && s[i] < 0x7f && s[i] != '"' && s[i] != '\\')
	}
}

func vNonFunction(name string) *Data {
	switch vChoice(name, 8) {
	case 0:
		return nil
	case 1:
		return vI(vInt64(name))
	case 2:
		return StringWithValue("f")
	case 3:
		return Intern("vsym")
	case 4:
		return BooleanWithValue(true)
	case 5:
		return vExList
	case 6:
		return vExFrame
	}
	return vExEnv
}
