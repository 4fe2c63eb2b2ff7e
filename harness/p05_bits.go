package golisp

// binary-and, binary-or, binary-not, left-shift, right-shift.
//verif:bounds every pair of 64-bit integers
//verif:reach done
func VH_P05_ops() {
	a, b := vInt64("a"), vInt64("b")
	x, y := vI(a), vI(b)
	switch vChoice("op", 5) {
	case 0:
		vAssert(vIsInt(vCallOK("binary-and", x, y), a&b), "binary-and")
	case 1:
		vAssert(vIsInt(vCallOK("binary-or", x, y), a|b), "binary-or")
	case 2:
		r := vCallOK("binary-not", x)
		vAssert(vIsInt(r, a^0xffffffff), "binary-not flips the low 32 bits")
		vAssert(vIsInt(vCallOK("binary-not", r), a), "binary-not undoes itself")
	case 3:
		w := int64(0)
		if b >= 0 && b < 64 {
			w = int64(uint64(a) << uint(b))
		}
		vAssert(vIsInt(vCallOK("left-shift", x, y), w), "left-shift")
	case 4:
		w := int64(0)
		if b >= 0 && b < 64 {
			w = int64(uint64(a) >> uint(b))
		}
		vAssert(vIsInt(vCallOK("right-shift", x, y), w), "right-shift is logical")
	}
	vReach("done")
}

// Anything but an integer is an error, in either position.
//verif:bounds 12 kinds of non-number and any float, in either position
//verif:reach done
func VH_P05_reject() {
	vOpaque(true)
	var bad *Data
	if vChoice("float", 2) == 1 {
		bad = FloatWithValue(vFloat32("f"))
	} else {
		bad = vNonNumber("bad")
	}
	op := vChoice("op", 5)
	if op == 4 {
		_, err := vCall("binary-not", bad)
		vAssert(err != nil, "binary-not must reject a non-integer")
		vReach("done")
		return
	}
	name := []string{"binary-and", "binary-or", "left-shift", "right-shift"}[op]
	good := vI(vInt64("x"))
	var err error
	if vChoice("pos", 2) == 0 {
		_, err = vCall(name, bad, good)
	} else {
		_, err = vCall(name, good, bad)
	}
	vAssert(err != nil, name+" must reject a non-integer")
	vReach("done")
}
