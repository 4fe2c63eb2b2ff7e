package golisp

import "math"

// ---- Lisp data to JSON and back

var vJsonKeys = []string{"a", "b", "c d", "", ":", "a:", "\u00e9\"\\"}

const vJsonMaxInt = 1 << 53

// vJsonScalar is data JSON has a scalar for: any integer up to 2^53, any
// finite float, any ASCII string up to the length, a boolean.
func vJsonScalar(name string, strlen int) *Data {
	switch vChoice(name, 4) {
	case 0:
		return vI(vInt(name+"i", -vJsonMaxInt, vJsonMaxInt))
	case 1:
		s := vString(name+"s", vChoice(name+"n", strlen+1))
		vAssumeASCII(s)
		return StringWithValue(s)
	case 2:
		return BooleanWithValue(vBool(name + "b"))
	}
	f := vFloat32(name + "f")
	vAssume(f == f && f <= math.MaxFloat32 && f >= -math.MaxFloat32)
	return FloatWithValue(f)
}

// vJsonData is a tree of frames, non-empty lists and scalars with at most
// left more nodes.
func vJsonData(name string, left *int) *Data {
	k := 0
	if *left > 0 {
		k = vChoice(name+"k", 3)
	}
	switch k {
	case 1:
		var es []*Data
		for i := 0; i == 0 || i < 3 && *left > 0 && vChoice(name+"more", 2) == 1; i++ {
			*left--
			es = append(es, vJsonData(name+vIntString(i), left))
		}
		return vList(es...)
	case 2:
		return vJsonFrame(name, left)
	}
	return vJsonScalar(name, 1)
}

func vJsonFrame(name string, left *int) *Data {
	f := vMust("{}")
	ki := 0
	for i := 0; *left > 0 && vChoice(name+"more", 2) == 1; i++ {
		if i == 0 {
			ki = vChoice(name+"key", len(vJsonKeys))
		} else {
			ki = (ki + 1) % len(vJsonKeys)
		}
		*left--
		FrameValue(f).Set(vJsonKeys[ki]+":", vJsonData(name+vIntString(i), left))
	}
	return f
}

// vJsonSame: b is a after a round trip: equal, except that whole floats
// become integers.
func vJsonSame(a, b *Data) bool {
	switch {
	case FloatP(a):
		f := FloatValue(a)
		if IntegerP(b) {
			return float32(IntegerValue(b)) == f && math.Trunc(float64(f)) == float64(f)
		}
		return FloatP(b) && FloatValue(b) == f
	case PairP(a):
		x, ok := vElems(a, 8)
		if !ok || !PairP(b) {
			return false
		}
		y, ok := vElems(b, 8)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !vTake(vJsonSame(x[i], y[i])) {
				return false
			}
		}
		return true
	case FrameP(a):
		if !FrameP(b) {
			return false
		}
		x, y := FrameValue(a).Data, FrameValue(b).Data
		if len(x) != len(y) {
			return false
		}
		for _, k := range vJsonKeys {
			v, has := x[k+":"]
			w, has2 := y[k+":"]
			if has != has2 || has && !vTake(vJsonSame(v, w)) {
				return false
			}
		}
		return true
	}
	return vSame(a, b)
}

// A frame survives the conversion to JSON text and back.
//
//verif:bounds frames (7 slot names) of lists, frames and scalars, nested, of up to 2 values in all (thorough: 4); integers up to 2^53, finite floats, ASCII strings of up to 1 character, booleans
//verif:reach end,nested
//verif:secs 200
func VH_P24_frames() {
	n := 2
	if vTier() > 0 {
		n = 4
	}
	f := vJsonFrame("f", &n)
	s := vCallOK("lisp->json", f)
	vAssert(StringP(s), "lisp->json gives a string")
	r := vCallOK("json->lisp", s)
	vAssert(vJsonSame(f, r), "a frame converted to JSON and back is equal")
	for _, v := range FrameValue(f).Data {
		if FrameP(v) || PairP(v) {
			vReach("nested")
		}
	}
	vReach("end")
}

// Longer strings and deeper nesting, one value at a time.
//
//verif:bounds one scalar (strings up to 4 characters) inside up to 3 levels of lists and frames
//verif:reach end
func VH_P24_scalars() {
	x := vJsonScalar("x", 4)
	v := x
	n := vChoice("depth", 4)
	for i := 0; i < n; i++ {
		if vChoice("wrap", 2) == 0 {
			v = vList(v)
		} else {
			f := vMust("{}")
			FrameValue(f).Set("k:", v)
			v = f
		}
	}
	r := vCallOK("json->lisp", vCallOK("lisp->json", v))
	for i := 0; i < n; i++ {
		if PairP(v) {
			vAssert(PairP(r) && NilP(Cdr(r)), "a list stays a list")
			v, r = Car(v), Car(r)
		} else {
			vAssert(FrameP(r) && FrameValue(r).Get("k:") != nil, "a frame stays a frame")
			v, r = FrameValue(v).Get("k:"), FrameValue(r).Get("k:")
		}
	}
	vAssert(vJsonSame(x, r), "a value converted to JSON and back is equal")
	vReach("end")
}

// ---- JSON trees to Lisp data and back

func vJsonLeaf(name string) interface{} {
	switch vChoice(name, 5) {
	case 0:
		return float64(vInt(name+"i", -vJsonMaxInt, vJsonMaxInt))
	case 1:
		s := vString(name+"s", 2*vChoice(name+"n", 2))
		vAssumeASCII(s)
		return s
	case 2:
		return vBool(name + "b")
	case 3:
		f := vFloat32(name + "f")
		vAssume(f == f && f <= math.MaxFloat32 && f >= -math.MaxFloat32)
		return float64(f)
	}
	return nil
}

func vJsonTree(name string, left *int) interface{} {
	k := 0
	if *left > 0 {
		k = vChoice(name+"k", 3)
	}
	switch k {
	case 1:
		a := []interface{}{}
		for i := 0; *left > 0 && vChoice(name+"more", 2) == 1; i++ {
			*left--
			a = append(a, vJsonTree(name+vIntString(i), left))
		}
		return a
	case 2:
		m := map[string]interface{}{}
		ki := 0
		for i := 0; *left > 0 && vChoice(name+"more", 2) == 1; i++ {
			if i == 0 {
				ki = vChoice(name+"key", len(vJsonKeys))
			} else {
				ki = (ki + 1) % len(vJsonKeys)
			}
			*left--
			m[vJsonKeys[ki]] = vJsonTree(name+vIntString(i), left)
		}
		return m
	}
	return vJsonLeaf(name)
}

// vJsonKept: y is x after a round trip. Without frames empty objects and
// arrays are nil as well.
func vJsonKept(x, y interface{}, frames bool) bool {
	switch a := x.(type) {
	case nil:
		switch b := y.(type) {
		case string:
			return b == ""
		case []interface{}:
			return len(b) == 0
		}
		return y == nil
	case string:
		b, ok := y.(string)
		return ok && a == b
	case bool:
		b, ok := y.(bool)
		return ok && a == b
	case float64:
		switch b := y.(type) {
		case int64:
			return float64(b) == a
		case float32:
			return float64(b) == a
		}
		return false
	case []interface{}:
		if len(a) == 0 && !frames {
			return true
		}
		b, ok := y.([]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !vTake(vJsonKept(a[i], b[i], frames)) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		if len(a) == 0 && !frames {
			return true
		}
		b, ok := y.(map[string]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		for _, k := range vJsonKeys {
			v, has := a[k]
			w, has2 := b[k]
			if has != has2 || has && !vTake(vJsonKept(v, w, frames)) {
				return false
			}
		}
		return true
	}
	return false
}

// A JSON tree survives the conversion to Lisp data and back, with frames or
// association lists for objects.
//
//verif:bounds trees of arrays and objects (7 keys), nested, of up to 2 values in all (thorough: 4), with any scalar: whole numbers up to 2^53, single-precision floats, ASCII strings up to 2 characters, booleans, null
//verif:reach end,object,array
//verif:secs 200
func VH_P24_trees() {
	n := 2
	if vTier() > 0 {
		n = 4
	}
	x := vJsonTree("x", &n)
	frames := vChoice("frames", 2) == 0
	var y interface{}
	if frames {
		y = LispWithFramesToJson(JsonToLispWithFrames(x))
	} else {
		y = LispToJson(JsonToLisp(x))
	}
	vAssert(vJsonKept(x, y, frames), "keys, elements and scalars are kept")
	switch x.(type) {
	case map[string]interface{}:
		vReach("object")
	case []interface{}:
		vReach("array")
	}
	vReach("end")
}

// Arrays keep their elements in order, whatever they are.
//
//verif:bounds arrays of up to 4 nulls, numbers and empty arrays
//verif:reach end
func VH_P24_arrays() {
	n := vChoice("n", 5)
	var a []interface{}
	for i := 0; i < n; i++ {
		switch vChoice("e", 4) {
		case 0:
			a = append(a, nil)
		case 1:
			a = append(a, float64(vInt("x", -vJsonMaxInt, vJsonMaxInt)))
		case 2:
			a = append(a, []interface{}{})
		case 3:
			a = append(a, map[string]interface{}{})
		}
	}
	if n == 0 {
		a = []interface{}{}
	}
	for _, frames := range []bool{true, false} {
		var l *Data
		if frames {
			l = JsonToLispWithFrames(a)
		} else {
			l = JsonToLisp(a)
		}
		es, ok := vElems(l, 8)
		vAssert(ok && len(es) == n, "an array becomes a list of as many elements")
		for i, e := range es {
			switch x := a[i].(type) {
			case nil, []interface{}:
				vAssert(NilP(e), "null and empty arrays become nil")
			case float64:
				vAssert(IntegerP(e) && float64(IntegerValue(e)) == x, "numbers are kept")
			default:
				vAssert(FrameP(e) || !frames && NilP(e), "objects become frames")
			}
		}
	}
	vReach("end")
}

// Numbers of any size.
//
//verif:bounds every double JSON can hold
//verif:reach end,whole,float
//verif:secs 100
func VH_P24_numbers() {
	f := vFloat64("f")
	vAssume(f == f && f <= math.MaxFloat64 && f >= -math.MaxFloat64)
	for _, frames := range []bool{true, false} {
		var d *Data
		if frames {
			d = JsonToLispWithFrames(f)
		} else {
			d = JsonToLisp(f)
		}
		if IntegerP(d) {
			vAssert(float64(IntegerValue(d)) == f, "a whole number is kept")
			vReach("whole")
		} else {
			vAssert(FloatP(d) && FloatValue(d) == float32(f), "a number is kept as a single-precision float")
			vAssert(math.Trunc(f) != f || f >= 9.2e18 || f <= -9.2e18, "a whole number becomes an integer")
			vReach("float")
		}
	}
	vReach("end")
}

// JSON text, well-formed or not.
//
//verif:bounds 40 sample texts
//verif:reach end,good,bad
func VH_P24_text() {
	good := []string{"1", "-1", "0.5", "\"a\"", "true", "false", "null", "[]", "{}", "[1,2]", " [ 1 , [ 2 ] ] ", "{\"a\":{\"b\":[1,{\"c\":true}]}}", "\"\\u0041\\n\\t\\\"\\\\\"", "1e3", "-0.25", "[null]", "[null,1,null]", "{\"a\":null}", "{\"a:\":1,\"a\":2}", "{\"\":1}"}
	back := []string{"1", "-1", "0.5", "\"a\"", "true", "false", "[]", "[]", "{}", "[1,2]", "[1,[2]]", "{\"a\":{\"b\":[1,{\"c\":true}]}}", "\"A\\n\\t\\\"\\\\\"", "1000", "-0.25", "[[]]", "[[],1,[]]", "{\"a\":\"\"}", "{\"a\":2,\"a:\":1}", "{\"\":1}"}
	bad := []string{"", " ", "{", "}", "[", "]", "[1", "[1,", "[1,]", "{\"a\"", "{\"a\":", "{\"a\":}", "{\"a\":1", "{\"a\":1,}", "{a:1}", "\"", "\"\\", "\"\\u12", "tru", "nul", "1 2", "01", "+1", ".5", "1.", "1e", "--1", "'a'", "{1:2}", "[1 2]", "\"a\nb\"", "\xff", "NaN", "{}}", "[[[[[[[["}
	i := vChoice("i", len(good)+len(bad))
	if i < len(good) {
		d, err := vCall("json->lisp", StringWithValue(good[i]))
		vAssert(err == nil, "well-formed JSON is converted")
		s := vCallOK("lisp->json", d)
		vAssert(StringP(s) && StringValue(s) == back[i], "and back")
		vReach("good")
	} else {
		d, err := vCall("json->lisp", StringWithValue(bad[i-len(good)]))
		vAssert(err != nil || FrameP(d) && len(FrameValue(d).Data) == 0, "malformed JSON gives no data")
		vReach("bad")
	}
	vReach("end")
}

// What JSON has no notation for.
//
//verif:bounds functions, symbols, objects and bytearrays (arbitrary bytes) as slots
//verif:reach end
func VH_P24_others() {
	b := vByteArray([]byte{vByte("b0"), vByte("b1")})
	f, err := vEvalWith(vParse("{f: (lambda (x) x) p: car s: 'sym o: (atomic 1) b: va0 k: q:}"), b)
	vAssert(err == nil, "a frame")
	r := vCallOK("json->lisp", vCallOK("lisp->json", f))
	vAssert(FrameP(r), "a frame")
	fr := FrameValue(r)
	vAssert(!fr.hasSlotLocally("f:"), "methods are left out")
	vAssert(StringP(fr.Get("s:")) && StringValue(fr.Get("s:")) == "sym", "symbols become strings")
	es, ok := vElems(fr.Get("b:"), 4)
	bs := *(*[]byte)(ObjectValue(b))
	vAssert(ok && len(es) == len(bs), "bytearrays become arrays of numbers")
	for i := range es {
		vAssert(vIsInt(es[i], int64(bs[i])), "bytearrays become arrays of numbers")
	}
	vReach("end")
}

// ---- Go data to Lisp data

type vJsonInner struct {
	X int    `json:"x"`
	S string `json:",omitempty"`
}

type vJsonStruct struct {
	I8   int8
	U8   uint8 `json:"u8"`
	I64  int64 `json:"i64,omitempty"`
	N    int   `json:"n,string"`
	F    float32
	B    bool   `json:"b,omitempty"`
	Str  string `json:"str"`
	Skip int    `json:"-"`
	priv int
	P    *int           `json:"p"`
	In   vJsonInner     `json:"in"`
	Ins  []vJsonInner   `json:"ins,omitempty"`
	M    map[string]int `json:"m"`
	Any  interface{}    `json:"any,omitempty"`
}

// A Go struct becomes a frame of its fields, as its tags say.
//
//verif:bounds one struct type with fields of every kind and tag, arbitrary numbers, booleans and strings of up to 1 character; pointers, slices and interfaces nil or not
//verif:reach end
func VH_P24_structs() {
	v := vJsonStruct{I8: int8(vByte("i8")), U8: vByte("u8"), I64: vInt64("i64"), N: int(vInt("n", -99, 99)), B: vBool("b"), Skip: 3, priv: 4}
	v.F = vFloat32("f")
	vAssume(v.F == v.F && v.F < 1000 && v.F > -1000)
	v.Str = vString("s", vChoice("sn", 2))
	x := 5
	if vChoice("p", 2) == 1 {
		v.P = &x
	}
	v.In = vJsonInner{X: int(vInt("x", -9, 9)), S: vString("t", vChoice("tn", 2))}
	n := vChoice("ins", 3)
	for i := 0; i < n; i++ {
		v.Ins = append(v.Ins, vJsonInner{X: i, S: "q"})
	}
	if vChoice("m", 2) == 1 {
		v.M = map[string]int{"k": 6}
	}
	if vChoice("any", 2) == 1 {
		v.Any = vJsonInner{X: 8}
	}
	d := JsonToLispWithFrames(v)
	if vChoice("ptr", 2) == 1 {
		d = JsonToLispWithFrames(&v)
	}
	vAssert(FrameP(d), "a struct becomes a frame")
	f := FrameValue(d).Data
	count := 8
	vAssert(vIsInt(f["I8:"], int64(v.I8)) && vIsInt(f["u8:"], int64(v.U8)), "numbers are kept")
	if v.I64 != 0 {
		vAssert(vIsInt(f["i64:"], v.I64), "numbers are kept")
		count++
	}
	vAssert(StringP(f["n:"]) && StringValue(f["n:"]) == vFmtInt(int64(v.N), false), "numbers marked so become strings")
	if IntegerP(f["F:"]) {
		vAssert(float32(IntegerValue(f["F:"])) == v.F, "floats are kept")
	} else {
		vAssert(FloatP(f["F:"]) && FloatValue(f["F:"]) == v.F, "floats are kept")
	}
	if v.B {
		vAssert(vIsBool(f["b:"], true), "booleans are kept")
		count++
	}
	vAssert(StringP(f["str:"]) && StringValue(f["str:"]) == v.Str, "strings are kept")
	p, has := f["p:"]
	vAssert(has && (v.P == nil && p == nil || v.P != nil && vIsInt(p, 5)), "pointers are followed")
	in := f["in:"]
	vAssert(FrameP(in) && vIsInt(FrameValue(in).Data["x:"], int64(v.In.X)), "structs nest")
	s, has := FrameValue(in).Data["S:"]
	vAssert(has == (v.In.S != "") && (!has || StringP(s) && StringValue(s) == v.In.S), "what is empty is left out if marked so")
	ins, has := f["ins:"]
	vAssert(has == (n > 0), "what is empty is left out if marked so")
	if has {
		es, ok := vElems(ins, 4)
		vAssert(ok && len(es) == n, "slices become lists")
		for i, e := range es {
			vAssert(FrameP(e) && vIsInt(FrameValue(e).Data["x:"], int64(i)), "slices become lists")
		}
		count++
	}
	m := f["m:"]
	vAssert(FrameP(m) && len(FrameValue(m).Data) == len(v.M), "maps become frames")
	if v.M != nil {
		vAssert(vIsInt(FrameValue(m).Data["k:"], 6), "maps become frames")
	}
	a, has := f["any:"]
	vAssert(has == (v.Any != nil) && (!has || FrameP(a) && vIsInt(FrameValue(a).Data["x:"], 8)), "interfaces are looked into")
	if has {
		count++
	}
	vAssert(len(f) == count, "nothing else is in the frame")
	vReach("end")
}
