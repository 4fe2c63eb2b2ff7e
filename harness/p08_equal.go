package golisp

// equal? decides structural equality on every pair of values, in both
// directions, and neq? and the other spellings follow it.
//verif:bounds pairs of values of depth 1 (atoms of 10 kinds; lists, dotted lists, association lists and frames of 1..2 elements of 3 atom kinds); every integer, non-NaN float, byte and string of 0..2 bytes
//verif:reach equal,different
func VH_P08_pairs() {
	a := vGen("a", 1, 11, 3, 2)
	b := vGen("b", 1, 11, 3, 2)
	vAssume(!(AlistP(a) && NotNilP(a) && PairP(b) || AlistP(b) && NotNilP(b) && PairP(a)))
	same := vSame(a, b)
	for _, name := range []string{"equal?", "eqv?", "eq?", "=="} {
		vAssert(vIsBool(vCallOK(name, a, b), same), name+" is structural equality")
		vAssert(vIsBool(vCallOK(name, b, a), same), name+" is symmetric")
	}
	vAssert(vIsBool(vCallOK("neq?", a, b), !same), "neq? is the negation of equal?")
	vAssert(vIsBool(vCallOK("!=", a, b), !same), "!= is the negation of ==")
	if same {
		vReach("equal")
	} else {
		vReach("different")
	}
}

// Deeper values with integer leaves.
//verif:bounds pairs of lists, dotted lists, association lists and frames nested to depth 2, 1..2 elements, integer leaves
//verif:reach equal,different
func VH_P08_nested() {
	a := vGen("a", 2, 1, 1, 1+vTier())
	b := vGen("b", 2, 1, 1, 1+vTier())
	vAssume(!(AlistP(a) && NotNilP(a) && PairP(b) || AlistP(b) && NotNilP(b) && PairP(a)))
	same := vSame(a, b)
	vAssert(vIsBool(vCallOK("equal?", a, b), same), "equal? is structural equality on nested values")
	vAssert(vIsBool(vCallOK("equal?", b, a), same), "equal? is symmetric on nested values")
	if same {
		vReach("equal")
	} else {
		vReach("different")
	}
}

// A value equals itself and any value built the same way.
//verif:bounds values of depth 2, atoms of 7 kinds at the top and 4 below
//verif:reach done
func VH_P08_reflexive() {
	a := vGen("a", 2, 7, 1, 2)
	vAssert(vTrue(vCallOK("equal?", a, a)), "equal? is reflexive")
	vAssert(!vTrue(vCallOK("neq?", a, a)), "neq? is irreflexive")
	vReach("done")
}

// Lists of different lengths, with a shared prefix, are different; an
// association list against the list of its pairs agrees in both directions.
//verif:bounds lists of up to 4 integers; association lists of up to 2 pairs against lists of up to 2 pairs
//verif:reach lists,alist
func VH_P08_shape() {
	if vChoice("which", 2) == 0 {
		n, k := vChoice("n", 5), vChoice("m", 5)
		x := make([]*Data, n)
		y := make([]*Data, k)
		for i := range x {
			x[i] = vI(vInt64("x"))
		}
		for i := range y {
			y[i] = vI(vInt64("y"))
		}
		w := n == k
		for i := 0; i < n && i < k; i++ {
			w = w && IntegerValue(x[i]) == IntegerValue(y[i])
		}
		vAssert(vIsBool(vCallOK("equal?", vList(x...), vList(y...)), w), "lists are equal when lengths and elements agree")
		vReach("lists")
		return
	}
	al := EmptyCons()
	n := 1 + vChoice("n", 2)
	for i := 0; i < n; i++ {
		al = vCallOK("acons", vKeyN(i), vI(vInt64("x")), al)
	}
	k := vChoice("m", 3)
	y := make([]*Data, k)
	for i := range y {
		y[i] = Cons(vKeyN(vChoice("k", 3)), vI(vInt64("y")))
	}
	l := vList(y...)
	ab := vCallOK("equal?", al, l)
	ba := vCallOK("equal?", l, al)
	vAssert(BooleanP(ab) && BooleanP(ba) && BooleanValue(ab) == BooleanValue(ba), "an association list and a list compare the same both ways")
	vReach("alist")
}

// Transitivity over triples of values of one shape.
//verif:bounds triples of integers, floats, strings of up to 2 bytes, lists and frames of 1..2 integers
//verif:reach done
func VH_P08_transitive() {
	mk := func(name string, kind int) *Data {
		switch kind {
		case 0:
			return vI(vInt64(name))
		case 1:
			x := vFloat32(name)
			vAssume(x == x)
			return FloatWithValue(x)
		case 2:
			return StringWithValue(vString(name, vChoice(name, 3)))
		case 3:
			return vList(vI(vInt64(name)), vI(vInt64(name)))
		case 4:
			return Cons(vI(vInt64(name)), vI(vInt64(name)))
		}
		f := vCallOK("make-frame")
		vCallOK("set-slot!", f, vSlotN(vChoice(name, 2)), vI(vInt64(name)))
		return f
	}
	k := vChoice("kind", 6)
	a, b, c := mk("a", k), mk("b", k), mk("c", k)
	vAssume(vTrue(vCallOK("equal?", a, b)))
	vAssume(vTrue(vCallOK("equal?", b, c)))
	vAssert(vTrue(vCallOK("equal?", a, c)), "equal? is transitive")
	vReach("done")
}

// Long values differ as soon as one element does.
//verif:bounds byte arrays and strings of 0..9 bytes, lists of 0..7 integers, association lists and frames of 0..3 entries with arbitrary integers, pairwise within each kind, also one level inside a list
//verif:reach equal,different
func VH_P08_long() {
	kind := vChoice("kind", 5)
	mk := func(name string) *Data {
		switch kind {
		case 0:
			d, _ := vBytes(name, vChoice(name+"~n", 10))
			return d
		case 1:
			return StringWithValue(vString(name, vChoice(name+"~n", 10)))
		case 2:
			l, _ := vIntList(name, vChoice(name+"~n", 8))
			return l
		case 3:
			r := EmptyCons()
			n, first := vChoice(name+"~n", 4), vChoice(name+"~first", 3)
			for i := 0; i < n; i++ {
				r = vCallOK("acons", vKeyN((first+i)%3), vI(vInt64(name)), r)
			}
			return r
		}
		f := vCallOK("make-frame")
		n, first := vChoice(name+"~n", 4), vChoice(name+"~first", 3)
		for i := 0; i < n; i++ {
			vCallOK("set-slot!", f, vSlotN((first+i)%3), vI(vInt64(name)))
		}
		return f
	}
	a, b := mk("a"), mk("b")
	same := vSame(a, b)
	if vChoice("inside", 2) == 1 {
		a, b = vList(vI(1), a), vList(vI(1), b)
	}
	vAssert(vIsBool(vCallOK("equal?", a, b), same), "equal? is structural equality on long values")
	vAssert(vIsBool(vCallOK("equal?", b, a), same), "equal? is symmetric on long values")
	vAssert(vIsBool(vCallOK("neq?", a, b), !same), "neq? is the negation of equal?")
	if same {
		vReach("equal")
	} else {
		vReach("different")
	}
}
