package golisp

import "math"

// One float operand makes + - * / a left fold in single precision.
//verif:bounds 2..3 operands (quick) / 2..4 (thorough), each an arbitrary 64-bit integer or float bit pattern, at least one float
//verif:reach done,zero
func VH_P03_fold() {
	op := vChoice("op", 4)
	n := 2 + vChoice("n", 2+vTier())
	name := []string{"+", "-", "*", "/"}[op]
	var args []*Data
	acc := float32(0)
	any, zero := false, false
	for i := 0; i < n; i++ {
		d, isF := vNumber("x")
		args = append(args, d)
		any = any || isF
		x := FloatValue(d)
		if !isF {
			x = float32(IntegerValue(d))
		}
		switch {
		case op == 0:
			acc += x
		case op == 2:
			if i == 0 {
				acc = 1
			}
			acc *= x
		case i == 0:
			acc = x
		case op == 1:
			acc -= x
		default:
			if x == 0 {
				zero = true
			}
			if !zero {
				acc /= x
			}
		}
	}
	vAssume(any)
	vOpaque(true)
	r, err := vCall(name, args...)
	if zero {
		vAssert(err != nil, "/ by a zero float must be an error")
		vReach("zero")
		return
	}
	vAssert(err == nil, name+" of numbers must not fail")
	vAssert(FloatP(r), name+" with a float operand must give a float")
	vAssert(vIsFloat(r, acc), name+" with a float operand must fold in single precision")
	vReach("done")
}

// A non-number at any position is an error, whatever the other operands are.
//verif:bounds 1..3 operands, non-number of 12 kinds at any position, the others arbitrary numbers
//verif:reach done
func VH_P03_reject() {
	name := []string{"+", "-", "*", "/", "quotient"}[vChoice("op", 5)]
	n := 1 + vChoice("n", 3)
	p := vChoice("pos", 3)
	vAssume(p < n)
	bad := vNonNumber("bad")
	args := make([]*Data, n)
	for i := range args {
		if i == p {
			args[i] = bad
		} else {
			args[i], _ = vNumber("x")
		}
	}
	vOpaque(true)
	_, err := vCall(name, args...)
	vAssert(err != nil, name+" must reject a non-number at any position")
	vReach("done")
}

// Fixed-arity numeric functions reject non-numbers, integer-only functions
// reject floats.
//verif:bounds every numeric function, 12 kinds of non-number, every float bit pattern
//verif:reach nonnum,nonint
func VH_P03_rejectUnary() {
	vOpaque(true)
	if vChoice("which", 2) == 0 {
		names := []string{"abs", "floor", "ceiling", "sign", "zero?", "positive?", "negative?", "inf?", "nan?", "float", "integer", "sqrt", "sin", "exp", "succ", "pred", "even?", "odd?", "float->bits", "bits->float"}
		_, err := vCall(names[vChoice("op", len(names))], vNonNumber("bad"))
		vAssert(err != nil, "a non-number must be rejected")
		vReach("nonnum")
		return
	}
	names := []string{"succ", "pred", "even?", "odd?", "bits->float"}
	_, err := vCall(names[vChoice("op", len(names))], FloatWithValue(vFloat32("x")))
	vAssert(err != nil, "a float must be rejected by an integer function")
	vReach("nonint")
}

// pow, %, modulo, min and max reject wrong kinds in every position.
//verif:bounds 12 kinds of non-number in either position, arbitrary numbers elsewhere
//verif:reach two,list
func VH_P03_rejectBinary() {
	vOpaque(true)
	bad := vNonNumber("bad")
	good, _ := vNumber("x")
	if bad == nil {
		bad = EmptyCons() // Lisp lists hold no Go nil
	}
	switch vChoice("shape", 2) {
	case 0:
		name := []string{"pow", "%", "modulo"}[vChoice("op", 3)]
		var err error
		if vChoice("pos", 2) == 0 {
			_, err = vCall(name, bad, good)
		} else {
			_, err = vCall(name, good, bad)
		}
		vAssert(err != nil, name+" must reject a non-number")
		vReach("two")
	case 1:
		name := []string{"min", "max"}[vChoice("op", 2)]
		l := vList(good, bad)
		if vChoice("pos", 2) == 0 {
			l = vList(bad, good)
		}
		_, err := vCall(name, l)
		vAssert(err != nil, name+" must reject a list with a non-number")
		vReach("list")
	}
}

// Unary float functions: sign tests, abs, rounding, conversions.
//verif:bounds every float bit pattern
//verif:reach done
func VH_P03_unary() {
	x := vFloat32("x")
	a := FloatWithValue(x)
	vOpaque(true)
	switch vChoice("op", 9) {
	case 0:
		w := x
		if x < 0 {
			w = -x
		}
		vAssert(vIsFloat(vCallOK("abs", a), w), "abs of a float")
	case 1:
		var w int64
		if x > 0 {
			w = 1
		} else if x < 0 {
			w = -1
		}
		vAssert(vIsInt(vCallOK("sign", a), w), "sign of a float")
	case 2:
		vAssert(vIsBool(vCallOK("zero?", a), x == 0), "zero? of a float")
	case 3:
		vAssert(vIsBool(vCallOK("positive?", a), x > 0), "positive? of a float")
	case 4:
		vAssert(vIsBool(vCallOK("negative?", a), x < 0), "negative? of a float")
	case 5:
		vAssert(vIsBool(vCallOK("nan?", a), x != x), "nan? of a float")
	case 6:
		vAssert(vIsBool(vCallOK("inf?", a), x > math.MaxFloat32 || x < -math.MaxFloat32), "inf? of a float")
	case 7:
		vAssert(vIsFloat(vCallOK("float", a), x), "float of a float")
	case 8:
		// in range for a 64-bit integer
		vAssume(x > -9.0e18 && x < 9.0e18)
		vAssert(vIsInt(vCallOK("integer", a), int64(x)), "integer truncates a float")
	}
	vReach("done")
}

// floor and ceiling give the neighbouring integral float.
//verif:bounds every float bit pattern and every 64-bit integer
//verif:reach done
func VH_P03_rounding() {
	d, isF := vNumber("x")
	x := FloatValue(d)
	if !isF {
		x = float32(IntegerValue(d))
	}
	vAssert(vIsFloat(vCallOK("floor", d), float32(math.Floor(float64(x)))), "floor is the largest integral float not above x")
	vAssert(vIsFloat(vCallOK("ceiling", d), float32(math.Ceil(float64(x)))), "ceiling is the smallest integral float not below x")
	vReach("done")
}

// float->bits and bits->float are the IEEE single bit pattern and inverse.
//verif:bounds every float bit pattern except NaN payloads, every 32-bit pattern
//verif:reach f,b
func VH_P03_bits() {
	if vChoice("dir", 2) == 0 {
		x := vFloat32("x")
		vAssume(x == x)
		b := vCallOK("float->bits", FloatWithValue(x))
		vAssert(vIsInt(b, int64(math.Float32bits(x))), "float->bits is the bit pattern")
		vAssert(IntegerValue(b) >= 0 && IntegerValue(b) <= 0xffffffff, "float->bits is an unsigned 32-bit value")
		y := vCallOK("bits->float", b)
		vAssert(vIsFloat(y, x), "bits->float undoes float->bits")
		vReach("f")
		return
	}
	b := vInt("b", 0, 0xffffffff)
	f := vCallOK("bits->float", vI(b))
	vAssert(vIsFloat(f, math.Float32frombits(uint32(b))), "bits->float is the value of the pattern")
	vReach("b")
}

// Integer to float conversion rounds to the nearest single.
//verif:bounds every 64-bit integer
//verif:reach done
func VH_P03_toFloat() {
	x := vInt64("x")
	vAssert(vIsFloat(vCallOK("float", vI(x)), float32(x)), "float of an integer")
	vReach("done")
}

// min and max with a float among the elements.
//verif:bounds lists of 2..3 numbers, at least one a float, no NaN
//verif:reach done
func VH_P03_minmax() {
	n := 2 + vChoice("n", 2)
	mx := vChoice("max", 2) == 1
	var l []*Data
	var w float32
	any := false
	for i := 0; i < n; i++ {
		d, isF := vNumber("x")
		any = any || isF
		x := FloatValue(d)
		if !isF {
			x = float32(IntegerValue(d))
		}
		vAssume(x == x)
		l = append(l, d)
		if i == 0 || (mx && x > w) || (!mx && x < w) {
			w = x
		}
	}
	vAssume(any)
	name := "min"
	if mx {
		name = "max"
	}
	vAssert(vIsFloat(vCallOK(name, vList(l...)), w), name+" of a list with a float")
	vReach("done")
}

// Transcendental functions: the named function in double precision, rounded
// to single; integers are converted first. (The functions themselves are
// uninterpreted.)
//verif:bounds every float bit pattern and integer; Go's math functions uninterpreted
//verif:reach done
func VH_P03_trans() {
	fs := []struct {
		n string
		f func(float64) float64
	}{
		{"acos", math.Acos}, {"acosh", math.Acosh}, {"asin", math.Asin}, {"asinh", math.Asinh}, {"atan", math.Atan}, {"atanh", math.Atanh},
		{"cbrt", math.Cbrt}, {"cos", math.Cos}, {"cosh", math.Cosh}, {"erf", math.Erf}, {"erfc", math.Erfc}, {"exp", math.Exp}, {"exp2", math.Exp2},
		{"expm1", math.Expm1}, {"gamma", math.Gamma}, {"j0", math.J0}, {"j1", math.J1}, {"log", math.Log}, {"log10", math.Log10}, {"log1p", math.Log1p},
		{"log2", math.Log2}, {"logb", math.Logb}, {"sin", math.Sin}, {"sinh", math.Sinh}, {"sqrt", math.Sqrt}, {"tan", math.Tan}, {"tanh", math.Tanh},
		{"y0", math.Y0}, {"y1", math.Y1},
	}
	s := fs[vChoice("fn", len(fs))]
	d, isF := vNumber("x")
	x := FloatValue(d)
	if !isF {
		x = float32(IntegerValue(d))
	}
	r := vCallOK(s.n, d)
	w := float32(s.f(float64(x)))
	vAssert(FloatP(r), s.n+" gives a float")
	vAssert(vSameF(FloatValue(r), w), s.n+" is the single-precision function value")
	vReach("done")
}

// pow with a float operand.
//verif:bounds every pair with at least one float; Go's math.Pow uninterpreted
//verif:reach done
func VH_P03_pow() {
	a, fa := vNumber("a")
	b, fb := vNumber("b")
	vAssume(fa || fb)
	x, y := FloatValue(a), FloatValue(b)
	if !fa {
		x = float32(IntegerValue(a))
	}
	if !fb {
		y = float32(IntegerValue(b))
	}
	r := vCallOK("pow", a, b)
	vAssert(FloatP(r), "pow with a float gives a float")
	vAssert(vSameF(FloatValue(r), float32(math.Pow(float64(x), float64(y)))), "pow with a float")
	vReach("done")
}
