package golisp

func vHas(x []int64, v int64) bool {
	for _, y := range x {
		if vTake(y == v) {
			return true
		}
	}
	return false
}

// union, intersection and complement over 1..3 lists.
//verif:bounds 1..3 lists, 4 integers in total over at most 3 elements each (quick; 6 thorough), arbitrary 64-bit elements
//verif:reach union,intersection,complement
func VH_P13_algebra() {
	k := 1 + vChoice("k", 3)
	var ls []*Data
	var xs [][]int64
	total := 0
	for i := 0; i < k; i++ {
		n := vChoice("n", 4)
		total += n
		vAssume(total <= 4+2*vTier())
		l, x := vIntList("x", n)
		if l == nil {
			l = EmptyCons()
		}
		ls, xs = append(ls, l), append(xs, x)
	}
	var w []int64
	op := vChoice("op", 3)
	name := []string{"union", "intersection", "complement"}[op]
	r := vCallOK(name, ls...)
	if op == 0 {
		for _, x := range xs {
			for _, v := range x {
				if !vHas(w, v) {
					w = append(w, v)
				}
			}
		}
	} else {
		for _, v := range xs[0] {
			in := op == 1
			for _, o := range xs[1:] {
				h := vHas(o, v)
				if op == 1 && !h {
					in = false
				}
				if op == 2 && h {
					in = true
				}
			}
			if op == 1 && in || op == 2 && !in {
				w = append(w, v)
			}
		}
	}
	vAssert(vSeq(r, w), name+" has exactly the elements of the set operation, in order of first appearance")
	for i := range ls {
		vAssert(vSeq(ls[i], xs[i]), name+" leaves its arguments unchanged")
	}
	vReach(name)
}

// Elements are compared with structural equality.
//verif:bounds two lists of 1..2 nested lists or strings of 1 byte
//verif:reach done
func VH_P13_structural() {
	mk := func() *Data {
		if vChoice("kind", 2) == 0 {
			return vList(vI(vInt64("e")))
		}
		return StringWithValue(vString("s", 1))
	}
	n, m := 1+vChoice("n", 2), 1+vChoice("m", 2)
	var a, b []*Data
	for i := 0; i < n; i++ {
		a = append(a, mk())
	}
	for i := 0; i < m; i++ {
		b = append(b, mk())
	}
	has := func(l []*Data, d *Data) bool {
		for _, e := range l {
			if vTake(vSame(e, d)) {
				return true
			}
		}
		return false
	}
	var u, in, co []*Data
	for _, d := range append(append([]*Data{}, a...), b...) {
		if !has(u, d) {
			u = append(u, d)
		}
	}
	for _, d := range a {
		if has(b, d) {
			in = append(in, d)
		} else {
			co = append(co, d)
		}
	}
	la, lb := vList(a...), vList(b...)
	vAssert(vExact(vCallOK("union", la, lb), vList(u...)), "union compares structurally")
	vAssert(vExact(vCallOK("intersection", la, lb), vList(in...)), "intersection compares structurally")
	vAssert(vExact(vCallOK("complement", la, lb), vList(co...)), "complement compares structurally")
	vReach("done")
}

// Non-list arguments are errors.
//verif:bounds 9 kinds of non-list at any of up to three positions
//verif:reach done
func VH_P13_reject() {
	n := 1 + vChoice("n", 3)
	p := vChoice("pos", n)
	args := make([]*Data, n)
	for i := range args {
		args[i], _ = vIntList("x", 1)
	}
	args[p] = vNonList("bad")
	vOpaque(true)
	_, err := vCall([]string{"union", "intersection", "complement"}[vChoice("op", 3)], args...)
	vAssert(err != nil, "set functions need lists")
	vReach("done")
}

// Long lists.
//verif:bounds two lists of 9 to 14 integers overlapping in the middle, one element of either list arbitrary, at any position
//verif:reach done
func VH_P13_long() {
	n, m := []int{9, 14}[vChoice("n", 2)], []int{9, 12}[vChoice("m", 2)]
	a, b := make([]int64, n), make([]int64, m)
	for i := range a {
		a[i] = int64(i)
	}
	for i := range b {
		b[i] = int64(i + 4)
	}
	side := vChoice("side", 2)
	if side == 0 {
		a[vChoice("at", n)] = vInt64("x")
	} else {
		b[vChoice("at", m)] = vInt64("x")
	}
	mk := func(x []int64) *Data {
		var l []*Data
		for _, v := range x {
			l = append(l, vI(v))
		}
		return vList(l...)
	}
	la, lb := mk(a), mk(b)
	var w []int64
	op := vChoice("op", 3)
	name := []string{"union", "intersection", "complement"}[op]
	r := vCallOK(name, la, lb)
	switch op {
	case 0:
		for _, v := range append(append([]int64{}, a...), b...) {
			if !vHas(w, v) {
				w = append(w, v)
			}
		}
	case 1:
		for _, v := range a {
			if vHas(b, v) {
				w = append(w, v)
			}
		}
	case 2:
		for _, v := range a {
			if !vHas(b, v) {
				w = append(w, v)
			}
		}
	}
	vAssert(vSeq(r, w), name+" of long lists")
	vAssert(vSeq(la, a) && vSeq(lb, b), name+" leaves its arguments unchanged")
	vReach("done")
}

// Elements of every kind.
//verif:bounds two lists of 1..2 elements of 10 kinds (arbitrary integers, floats, strings of up to 2 bytes, symbols, booleans, nil, lists, frames, byte arrays, association lists)
//verif:reach done
func VH_P13_kinds() {
	mk := func() *Data {
		switch vChoice("kind", 10) {
		case 0:
			return vI(vInt64("e"))
		case 1:
			x := vFloat32("f")
			vAssume(x == x)
			return FloatWithValue(x)
		case 2:
			return vS(vString("s", vChoice("len", 3)))
		case 3:
			return vKeyN(vChoice("sym", 2))
		case 4:
			return BooleanWithValue(vChoice("b", 2) == 1)
		case 5:
			return EmptyCons()
		case 6:
			return vList(vI(1), vI(vInt64("e")))
		case 7:
			return vCallOK("make-frame", vSlotN(0), vI(vInt64("e")))
		case 8:
			d, _ := vBytes("b", 2)
			return d
		}
		return vCallOK("acons", vKeyN(0), vI(vInt64("e")), EmptyCons())
	}
	n := 1 + vChoice("n", 2)
	var a []*Data
	for i := 0; i < n; i++ {
		a = append(a, mk())
	}
	b := []*Data{mk()}
	if vChoice("m", 2) == 1 {
		b = append(b, a[n-1])
	}
	has := func(l []*Data, d *Data) bool {
		for _, e := range l {
			if vTake(vSame(e, d)) {
				return true
			}
		}
		return false
	}
	var w []*Data
	la, lb := vList(a...), vList(b...)
	var r *Data
	switch vChoice("op", 3) {
	case 0:
		for _, d := range append(append([]*Data{}, a...), b...) {
			if !has(w, d) {
				w = append(w, d)
			}
		}
		r = vCallOK("union", la, lb)
	case 1:
		for _, d := range a {
			if has(b, d) {
				w = append(w, d)
			}
		}
		r = vCallOK("intersection", la, lb)
	default:
		for _, d := range a {
			if !has(b, d) {
				w = append(w, d)
			}
		}
		r = vCallOK("complement", la, lb)
	}
	i := 0
	for c := r; NotNilP(c); c = Cdr(c) {
		vAssert(i < len(w) && vSame(Car(c), w[i]), "set functions compare elements of every kind by value")
		i++
	}
	vAssert(i == len(w), "set functions keep every element of the result")
	vReach("done")
}
