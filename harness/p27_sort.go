package golisp

// Sorting by an order gives an ordered permutation.
//verif:bounds lists of 0..4 (quick) / 0..5 (thorough) arbitrary integers, orders < and > as primitives and as user-defined functions
//verif:reach done
func VH_P27_sort() {
	n := vChoice("n", 5+vTier())
	l, x := vIntList("x", n)
	desc := vChoice("desc", 2) == 1
	f := vMust([][]string{{"<", "(lambda (a b) (< a b))"}, {">", "(lambda (a b) (> a b))"}}[map[bool]int{false: 0, true: 1}[desc]][vChoice("fn", 2)])
	r := vCallOK("sort", l, f)
	e, ok := vElems(r, n)
	vAssert(ok && len(e) == n, "sort keeps the number of elements")
	for i := 1; i < n; i++ {
		a, b := IntegerValue(e[i-1]), IntegerValue(e[i])
		vAssert(!desc && a <= b || desc && a >= b, "sort orders the elements")
	}
	// a permutation: every original element value object appears exactly once
	src, _ := vElems(l, n)
	for _, s := range src {
		c := 0
		for _, d := range e {
			if d == s {
				c++
			}
		}
		vAssert(c == 1, "sort gives a permutation")
	}
	vAssert(vSeq(l, x), "sort leaves its argument unchanged")
	vReach("done")
}

// Whatever the comparison answers, the result is a permutation; an error in
// it is the result.
//verif:bounds lists of 0..4 arbitrary integers, arbitrary comparison results, an error at any of the first four comparisons
//verif:reach done,error
func VH_P27_arbitrary() {
	n := vChoice("n", 5)
	l, x := vIntList("x", n)
	e := vChoice("err", 5)
	failed := false
	f := vProbe(func(i int, a []*Data) (*Data, error) {
		vAssert(len(a) == 2, "the comparison gets two elements")
		vAssert(!failed, "no comparison after an error")
		if i == e && e < 4 {
			failed = true
			return nil, vErrBoom
		}
		return BooleanWithValue(vBool("r")), nil
	})
	r, err := vCall("sort", l, f)
	vAssert(vSeq(l, x), "sort leaves its argument unchanged")
	vAssert((err != nil) == failed, "sort reports exactly the errors of the comparison")
	if failed {
		vReach("error")
		return
	}
	out, ok := vElems(r, n)
	vAssert(ok && len(out) == n, "sort keeps the number of elements")
	src, _ := vElems(l, n)
	for _, s := range src {
		c := 0
		for _, d := range out {
			if d == s {
				c++
			}
		}
		vAssert(c == 1, "sort gives a permutation")
	}
	vReach("done")
}

// Lists beyond the small-list algorithm of the sort: a rotation of distinct
// elements around a symbolic pivot.
//verif:bounds lists of 13 (quick) / 13 and 25 (thorough) elements: an ascending, descending or zigzag base with two elements arbitrary
//verif:reach done
func VH_P27_long() {
	n := 13 + 12*vChoice("n", 1+vTier())
	pat := vChoice("pat", 3)
	at := vChoice("at", 3)
	var l []*Data
	for i := 0; i < n; i++ {
		v := int64(i) * 10
		switch pat {
		case 1:
			v = int64(n-i) * 10
		case 2:
			v = int64((i*7)%n) * 10
		}
		if i == at*(n-1)/2 {
			v = vInt64("x")
		}
		l = append(l, vI(v))
	}
	r := vCallOK("sort", vList(l...), vExLess)
	e, ok := vElems(r, n)
	vAssert(ok && len(e) == n, "sort keeps the number of elements")
	for i := 1; i < n; i++ {
		vAssert(IntegerValue(e[i-1]) <= IntegerValue(e[i]), "sort orders the elements")
	}
	for _, s := range l {
		c := 0
		for _, d := range e {
			if d == s {
				c++
			}
		}
		vAssert(c == 1, "sort gives a permutation")
	}
	vReach("done")
}

//verif:bounds 9 kinds of non-list, 9 kinds of non-function
//verif:reach done
func VH_P27_reject() {
	bad := vNonList("bad")
	_, err := vCall("sort", bad, vExLess)
	vAssert(err != nil, "sort needs a list")
	vAssume(!FunctionOrPrimitiveP(bad))
	l, _ := vIntList("x", 2)
	_, err = vCall("sort", l, bad)
	vAssert(err != nil, "sort needs a function")
	vReach("done")
}
