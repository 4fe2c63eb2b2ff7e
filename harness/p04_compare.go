package golisp

// < > <= >= on two integers are the exact order.
//verif:bounds every pair of 64-bit integers
//verif:reach done
func VH_P04_integers() {
	a, b := vInt64("a"), vInt64("b")
	x, y := vI(a), vI(b)
	lt := vCallOK("<", x, y)
	gt := vCallOK(">", x, y)
	le := vCallOK("<=", x, y)
	ge := vCallOK(">=", x, y)
	vAssert(vIsBool(lt, a < b), "< is the integer order")
	vAssert(vIsBool(gt, a > b), "> is the integer order")
	vAssert(vIsBool(le, a <= b), "<= is the integer order")
	vAssert(vIsBool(ge, a >= b), ">= is the integer order")
	vAssert(vIsBool(vCallOK("==", x, y), a == b), "== is integer equality")
	vReach("done")
}

// With a float operand both are compared as single-precision floats.
//verif:bounds every pair of numbers with at least one float (any bit pattern)
//verif:reach done
func VH_P04_floats() {
	x, fx := vNumber("a")
	y, fy := vNumber("b")
	vAssume(fx || fy)
	a, b := FloatValue(x), FloatValue(y)
	if !fx {
		a = float32(IntegerValue(x))
	}
	if !fy {
		b = float32(IntegerValue(y))
	}
	switch vChoice("op", 4) {
	case 0:
		vAssert(vIsBool(vCallOK("<", x, y), a < b), "< with a float")
	case 1:
		vAssert(vIsBool(vCallOK(">", x, y), a > b), "> with a float")
	case 2:
		vAssert(vIsBool(vCallOK("<=", x, y), a <= b), "<= with a float")
	case 3:
		vAssert(vIsBool(vCallOK(">=", x, y), a >= b), ">= with a float")
	}
	vReach("done")
}

// A non-number in either position is an error.
//verif:bounds 12 kinds of non-number in either position
//verif:reach done
func VH_P04_reject() {
	name := []string{"<", ">", "<=", ">="}[vChoice("op", 4)]
	bad := vNonNumber("bad")
	good, _ := vNumber("x")
	vOpaque(true)
	var err error
	if vChoice("pos", 2) == 0 {
		_, err = vCall(name, bad, good)
	} else {
		_, err = vCall(name, good, bad)
	}
	vAssert(err != nil, name+" must reject a non-number")
	vReach("done")
}

// not is true exactly for #f and the empty list.
//verif:bounds 12 kinds of non-number plus arbitrary numbers and both booleans
//verif:reach done
func VH_P04_not() {
	var d *Data
	falsy := false
	switch vChoice("kind", 3) {
	case 0:
		b := vBool("b")
		d = BooleanWithValue(b)
		falsy = !b
	case 1:
		d, _ = vNumber("x")
	case 2:
		d = vNonNumber("v")
		falsy = NilP(d)
	}
	name := []string{"not", "!"}[vChoice("op", 2)]
	vAssert(vIsBool(vCallOK(name, d), falsy), name)
	vReach("done")
}
