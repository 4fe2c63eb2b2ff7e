package golisp

// Integer + - * : left fold, modulo 2^64, any number of arguments.
//verif:bounds 1..4 (2..4 for -), or 12 or 17 (thorough also 33) arguments, every 64-bit integer each
//verif:reach done
func VH_P02_sum() {
	op := vChoice("op", 3)
	n := vLen("n", 5)
	vAssume(n > 0)
	name := []string{"+", "-", "*"}[op]
	if op == 1 {
		vAssume(n >= 2)
	}
	var args []*Data
	var acc int64
	for i := 0; i < n; i++ {
		x := vInt64("x")
		args = append(args, vI(x))
		if i == 0 {
			acc = x
			continue
		}
		switch op {
		case 0:
			acc += x
		case 1:
			acc -= x
		case 2:
			acc *= x
		}
	}
	r, err := vCall(name, args...)
	vAssert(err == nil, name+" of integers must not fail")
	vAssert(vIsInt(r, acc), name+" of integers must be the exact 64-bit result")
	vReach("done")
}

// Integer / and quotient: truncating division folded from the left, a zero
// divisor anywhere is an error.
//verif:bounds 2..3 arguments, every 64-bit integer each
//verif:reach done,zero
func VH_P02_quotient() {
	name := []string{"/", "quotient"}[vChoice("op", 2)]
	n := 2 + vChoice("n", 2)
	x := vInt64("x")
	args := []*Data{vI(x)}
	acc := x
	zero := false
	for i := 1; i < n; i++ {
		d := vInt64("d")
		args = append(args, vI(d))
		if d == 0 {
			zero = true
		}
		if !zero {
			acc = acc / d
		}
	}
	r, err := vCall(name, args...)
	if zero {
		vAssert(err != nil, name+" by zero must be an error")
		vReach("zero")
		return
	}
	vAssert(err == nil, name+" by non-zero integers must not fail")
	vAssert(vIsInt(r, acc), name+" must truncate toward zero")
	vReach("done")
}

// Integer remainder: sign of the dividend, consistent with the quotient; zero
// divisor is an error.
//verif:bounds every pair of 64-bit integers
//verif:reach done,zero
func VH_P02_modulo() {
	name := []string{"%", "modulo"}[vChoice("op", 2)]
	a, b := vInt64("a"), vInt64("b")
	r, err := vCall(name, vI(a), vI(b))
	if b == 0 {
		vAssert(err != nil, name+" by zero must be an error")
		vReach("zero")
		return
	}
	vAssert(err == nil, name+" must not fail")
	vAssert(vIsInt(r, a%b), name+" must be the truncated remainder")
	vReach("done")
}

// succ, pred, abs, sign, even?, odd?, zero?, positive?, negative?, integer.
//verif:bounds every 64-bit integer
//verif:reach done
func VH_P02_unary() {
	x := vInt64("x")
	a := vI(x)
	switch vChoice("op", 10) {
	case 0:
		vAssert(vIsInt(vCallOK("succ", a), x+1), "succ")
	case 1:
		vAssert(vIsInt(vCallOK("pred", a), x-1), "pred")
	case 2:
		w := x
		if x < 0 {
			w = -x
		}
		vAssert(vIsInt(vCallOK("abs", a), w), "abs of an integer must be exact")
	case 3:
		var w int64
		if x > 0 {
			w = 1
		} else if x < 0 {
			w = -1
		}
		vAssert(vIsInt(vCallOK("sign", a), w), "sign")
	case 4:
		vAssert(vIsBool(vCallOK("even?", a), x&1 == 0), "even?")
	case 5:
		vAssert(vIsBool(vCallOK("odd?", a), x&1 == 1), "odd?")
	case 6:
		vAssert(vIsBool(vCallOK("zero?", a), x == 0), "zero?")
	case 7:
		vAssert(vIsBool(vCallOK("positive?", a), x > 0), "positive?")
	case 8:
		vAssert(vIsBool(vCallOK("negative?", a), x < 0), "negative?")
	case 9:
		vAssert(vIsInt(vCallOK("integer", a), x), "integer of an integer")
	}
	vReach("done")
}

// min and max of a list of integers: an element of the list, no other element
// is beyond it.
//verif:bounds lists of 1..4 integers, every 64-bit value
//verif:reach done
func VH_P02_minmax() {
	n := 1 + vChoice("n", 4)
	mx := vChoice("max", 2) == 1
	var l []*Data
	var w int64
	for i := 0; i < n; i++ {
		x := vInt64("x")
		l = append(l, vI(x))
		if i == 0 || (mx && x > w) || (!mx && x < w) {
			w = x
		}
	}
	name := "min"
	if mx {
		name = "max"
	}
	vAssert(vIsInt(vCallOK(name, vList(l...)), w), name+" of a list of integers")
	vReach("done")
}

// Integer pow: repeated multiplication modulo 2^64 for small exponents.
//verif:bounds every 64-bit base, exponents 0..9 (quick) / 0..20 (thorough)
//verif:reach done
func VH_P02_pow() {
	b := vInt64("b")
	n := 10
	if vTier() > 0 {
		n = 21
	}
	e := vChoice("e", n)
	w := int64(1)
	for i := 0; i < e; i++ {
		w *= b
	}
	vAssert(vIsInt(vCallOK("pow", vI(b), vI(int64(e))), w), "pow must be exact modulo 2^64")
	vReach("done")
}

// interval: the integers from a to b by step, in order.
//verif:bounds any start, lengths up to 5, steps -3..3; 1, 2 and 3 argument forms
//verif:reach one,up,down,badstep
func VH_P02_interval() {
	form := vChoice("form", 3)
	if form == 0 {
		n := vChoice("len", 6)
		els, ok := vElems(vCallOK("interval", vI(int64(n))), 10)
		vAssert(ok && len(els) == n, "(interval n) has n elements")
		for i := range els {
			vAssert(vIsInt(els[i], int64(i+1)), "(interval n) counts from 1")
		}
		vReach("one")
		return
	}
	a := vInt("start", -1<<62, 1<<62)
	d := int64(vChoice("span", 11) - 5)
	if form == 1 {
		els, ok := vElems(vCallOK("interval", vI(a), vI(a+d)), 10)
		s, n := int64(1), d+1
		if d < 0 {
			s, n = -1, -d+1
		}
		vAssert(ok && int64(len(els)) == n, "(interval a b) length")
		for i := range els {
			vAssert(vIsInt(els[i], a+s*int64(i)), "(interval a b) counts by one toward b")
		}
		vReach("up")
		return
	}
	s := int64(vChoice("step", 7) - 3)
	r, err := vCall("interval", vI(a), vI(a+d), vI(s))
	if s == 0 || (d < 0) != (s < 0) {
		vAssert(err != nil, "a step of the wrong sign must be an error")
		vReach("badstep")
		return
	}
	vAssert(err == nil, "interval must not fail")
	els, ok := vElems(r, 10)
	n := d/s + 1
	vAssert(ok && int64(len(els)) == n, "(interval a b s) length")
	for i := range els {
		vAssert(vIsInt(els[i], a+s*int64(i)), "(interval a b s) elements")
	}
	vReach("down")
}
