package golisp

// vCallsAre checks the recorded calls: calls[i] has the integers want[i].
func vCallsAre(want [][]int64, msg string) {
	vAssert(len(vProbeCalls) == len(want), msg+": the function is called once per step")
	for i, w := range want {
		a := vProbeCalls[i]
		vAssert(len(a) == len(w), msg+": the function gets one argument per list")
		for j := range w {
			vAssert(vIsInt(a[j], w[j]), msg+": the function gets the elements in order")
		}
	}
}

// vAnswers prepares n answers: results[i], or an error at call e.
func vAnswers(results []*Data, e int) func(int, []*Data) (*Data, error) {
	return func(i int, _ []*Data) (*Data, error) {
		if i == e {
			return nil, vErrBoom
		}
		vAssert(i < len(results), "no call after the traversal is decided")
		return results[i], nil
	}
}

// map and for-each.
//verif:bounds 1..4 lists (4: of up to 1) of 0..3 (a single list also of 9..12, or 20) arbitrary integers, arbitrary integer results, an error at any call, function primitive or user-defined
//verif:reach map,foreach,error
func VH_P12_map() {
	k := 1 + vChoice("k", 4)
	var ls []*Data
	var xs [][]int64
	n := 99
	empty := false
	for i := 0; i < k; i++ {
		top := 4
		if k == 4 {
			top = 2
		}
		m := vChoice("len", top)
		if k == 1 && vBool("long") {
			m += 9
			if m == 9 {
				m = 20
			}
		}
		l, x := vIntList("x", m)
		ls, xs = append(ls, l), append(xs, x)
		if m < n {
			n = m
		}
		empty = empty || m == 0
	}
	var res []*Data
	var rv []int64
	var want [][]int64
	for i := 0; i < n; i++ {
		v := vInt64("r")
		res, rv = append(res, vI(v)), append(rv, v)
		var w []int64
		for j := range xs {
			w = append(w, xs[j][i])
		}
		want = append(want, w)
	}
	e := vChoice("err", n+1)
	f := vProbe(vAnswers(res, e))
	name := []string{"map", "for-each"}[vChoice("op", 2)]
	r, err := vCall(name, append([]*Data{f}, ls...)...)
	if e < n {
		vAssert(err != nil, name+": an error of the function is the result")
		vCallsAre(want[:e+1], name)
		vReach("error")
	} else {
		vAssert(err == nil, name+" of lists")
		vCallsAre(want, name)
		if name == "map" {
			vAssert(vSeq(r, rv), "map gives the results in order")
			vReach("map")
		} else {
			vAssert(NilP(r), "for-each gives nil")
			vReach("foreach")
		}
	}
	for i := range ls {
		vAssert(vSeq(ls[i], xs[i]), name+" leaves its arguments unchanged")
	}
}

// vTruth is an arbitrary value used as a condition, and its truth.
func vTruth(name string) (*Data, bool) {
	switch vChoice(name, 4) {
	case 0:
		return LispFalse, false
	case 1:
		return LispTrue, true
	case 2:
		return EmptyCons(), false
	}
	return vI(vInt64(name)), true
}

// any and every stop as soon as the answer is known.
//verif:bounds 1..2 lists of 0..3 arbitrary integers, every pattern of true and false results (booleans, nil, integers), an error at any call
//verif:reach true,false,error
func VH_P12_anyEvery() {
	every := vChoice("every", 2) == 1
	k := 1 + vChoice("k", 2)
	var ls []*Data
	var xs [][]int64
	n := 99
	for i := 0; i < k; i++ {
		m := vChoice("len", 4)
		l, x := vIntList("x", m)
		ls, xs = append(ls, l), append(xs, x)
		if m < n {
			n = m
		}
	}
	e := vChoice("err", n+1)
	var res []*Data
	var want [][]int64
	out, failed := every, false
	for i := 0; i < n; i++ {
		var w []int64
		for j := range xs {
			w = append(w, xs[j][i])
		}
		want = append(want, w)
		if i == e {
			failed = true
			break
		}
		d, t := vTruth("r")
		res = append(res, d)
		if t != every {
			out = !every
			break
		}
	}
	f := vProbe(vAnswers(res, e))
	name := []string{"any", "every"}[map[bool]int{false: 0, true: 1}[every]]
	r, err := vCall(name, append([]*Data{f}, ls...)...)
	vCallsAre(want, name)
	if failed {
		vAssert(err != nil, name+": an error of the function is the result")
		vReach("error")
		return
	}
	vAssert(err == nil && vIsBool(r, out), name+" gives the combined truth")
	if out {
		vReach("true")
	} else {
		vReach("false")
	}
}

// filter, remove, partition, find, find-tail and memp.
//verif:bounds lists of 0..4 arbitrary integers, every pattern of Boolean results, an error or a non-Boolean result at any call
//verif:reach done,error,nonbool
func VH_P12_select() {
	n := vChoice("n", 5)
	l, x := vIntList("x", n)
	op := vChoice("op", 6)
	name := []string{"filter", "remove", "partition", "find", "find-tail", "memp"}[op]
	stops := op >= 3
	e := vChoice("err", n+1)
	nb := op != 2 && vChoice("nonbool", 2) == 1
	var res []*Data
	var yes, no []int64
	var want [][]int64
	found := -1
	failed := false
	for i := 0; i < n; i++ {
		want = append(want, x[i:i+1])
		if i == e {
			failed = true
			if nb {
				res = append(res, vI(vInt64("r")))
			}
			break
		}
		t := vBool("r")
		res = append(res, BooleanWithValue(t))
		if t {
			yes = append(yes, x[i])
			if stops {
				found = i
				break
			}
		} else {
			no = append(no, x[i])
		}
	}
	ea := e
	if nb {
		ea = -1
	}
	f := vProbe(vAnswers(res, ea))
	r, err := vCall(name, f, l)
	vCallsAre(want, name)
	vAssert(vSeq(l, x), name+" leaves its argument unchanged")
	if failed {
		vAssert(err != nil, name+": an error or a non-Boolean result is an error")
		if nb {
			vReach("nonbool")
		} else {
			vReach("error")
		}
		return
	}
	vAssert(err == nil, name+" of a list")
	switch op {
	case 0:
		vAssert(vSeq(r, yes), "filter keeps the elements with a true result")
	case 1:
		vAssert(vSeq(r, no), "remove keeps the elements with a false result")
	case 2:
		e, ok := vElems(r, 4)
		vAssert(ok && len(e) == 2 && vSeq(e[0], yes) && vSeq(e[1], no), "partition separates true from false")
	case 3:
		if found < 0 {
			vAssert(vIsBool(r, false), "find without a match is false")
		} else {
			vAssert(vIsInt(r, x[found]), "find gives the first match")
		}
	default:
		if found < 0 {
			vAssert(vIsBool(r, false), name+" without a match is false")
		} else {
			vAssert(vSeq(r, x[found:]), name+" gives the tail from the first match")
		}
	}
	vReach("done")
}

// fold-left, fold-right, reduce-left, reduce-right and reduce combine in the
// defined order.
//verif:bounds lists of 0..4 and 8..12 arbitrary integers, arbitrary initial value and results, an error at any call
//verif:reach done,error
func VH_P12_fold() {
	n := vChoice("n", 5)
	if vBool("long") {
		n += 8
	}
	l, x := vIntList("x", n)
	op := vChoice("op", 5)
	name := []string{"fold-left", "fold-right", "reduce-left", "reduce-right", "reduce"}[op]
	init := vInt64("init")
	right := op == 1 || op == 3
	elems := append([]int64{}, x...)
	if right {
		for i := range x {
			elems[n-1-i] = x[i]
		}
	}
	acc := init
	if op >= 2 && n > 0 {
		acc = elems[0]
		elems = elems[1:]
	}
	e := vChoice("err", len(elems)+1)
	var res []*Data
	var want [][]int64
	failed := false
	for i, v := range elems {
		if right {
			want = append(want, []int64{v, acc})
		} else {
			want = append(want, []int64{acc, v})
		}
		if i == e {
			failed = true
			break
		}
		acc = vInt64("r")
		res = append(res, vI(acc))
	}
	f := vProbe(vAnswers(res, e))
	r, err := vCall(name, f, vI(init), l)
	vCallsAre(want, name)
	vAssert(vSeq(l, x), name+" leaves its argument unchanged")
	if failed {
		vAssert(err != nil, name+": an error of the function is the result")
		vReach("error")
		return
	}
	vAssert(err == nil && vIsInt(r, acc), name+" gives the last combination")
	vReach("done")
}

// member, memv and memq give the tail from the first equal element.
//verif:bounds lists of 0..12 arbitrary integers, arbitrary key
//verif:reach found,missing
func VH_P12_member() {
	n := vChoice("n", 13)
	l, x := vIntList("x", n)
	k := vInt64("key")
	r := vCallOK([]string{"member", "memv", "memq"}[vChoice("name", 3)], vI(k), l)
	for i := range x {
		if vTake(x[i] == k) {
			vAssert(vSeq(r, x[i:]), "member gives the tail from the first equal element")
			vReach("found")
			return
		}
	}
	vAssert(vIsBool(r, false), "member of a missing element is false")
	vReach("missing")
}

// Wrong kinds are errors and the function is not called.
//verif:bounds 9 kinds of non-list, 10 kinds of non-function, every higher-order function, bad list in any position
//verif:reach done
func VH_P12_reject() {
	names := []string{"map", "for-each", "any", "every", "filter", "remove", "partition", "find", "find-tail", "memp", "fold-left", "fold-right", "reduce-left", "reduce-right", "reduce"}
	op := vChoice("op", len(names))
	f := vProbe(func(int, []*Data) (*Data, error) { return LispTrue, nil })
	l, _ := vIntList("x", 2)
	bad := vNonList("bad")
	args := []*Data{f, bad}
	switch vChoice("where", 3) {
	case 1:
		vAssume(op < 4)
		args = []*Data{f, l, bad}
	case 2:
		vAssume(!FunctionOrPrimitiveP(bad) && !(op == 6 && IntegerP(bad)))
		args = []*Data{bad, l}
	}
	if op >= 10 {
		args = []*Data{args[0], vI(0), args[1]}
	}
	_, err := vCall(names[op], args...)
	vAssert(err != nil, "a function and lists are required")
	vAssert(len(vProbeCalls) == 0, "the function is not called")
	vReach("done")
}

// Elements of every kind are passed on, nil and false included.
//verif:bounds lists of 3 elements, each of 7 kinds (nil, false, zero, empty string, nested list, frame, any integer); map, for-each, any, every, filter, remove, partition, find, find-tail, folds, reductions, member
func VH_P12_elements() {
	kinds := []*Data{EmptyCons(), LispFalse, vI(0), vS(""), vList(vI(1), EmptyCons()), Copy(vExFrame), vI(vInt64("x"))}
	var e []*Data
	for i := 0; i < 3; i++ {
		e = append(e, kinds[vChoice("kind", len(kinds))])
	}
	l := vList(e...)
	keep := func(what string, i, arg int) {
		vAssert(len(vProbeCalls) > i && len(vProbeCalls[i]) > arg && vSame(vProbeCalls[i][arg], e[i]), what+" passes every element on")
	}
	all := func(what string, arg int) {
		vAssert(len(vProbeCalls) == 3, what+" calls the function for every element")
		for i := range e {
			keep(what, i, arg)
		}
	}
	same := func(d *Data, want []*Data) bool {
		a, ok := vElems(d, 4)
		if !ok || len(a) != len(want) {
			return false
		}
		for i := range a {
			if !vSame(a[i], want[i]) {
				return false
			}
		}
		return true
	}
	first := func(_ int, a []*Data) (*Data, error) { return a[0], nil }
	konst := func(b *Data) func(int, []*Data) (*Data, error) {
		return func(int, []*Data) (*Data, error) { return b, nil }
	}
	switch vChoice("op", 12) {
	case 0:
		r := vCallOK("map", vProbe(first), l)
		all("map", 0)
		vAssert(same(r, e), "map keeps every result")
	case 1:
		vCallOK("for-each", vProbe(first), l)
		all("for-each", 0)
	case 2:
		vCallOK("any", vProbe(konst(LispFalse)), l)
		all("any", 0)
	case 3:
		vCallOK("every", vProbe(konst(LispTrue)), l)
		all("every", 0)
	case 4:
		r := vCallOK("filter", vProbe(konst(LispTrue)), l)
		all("filter", 0)
		vAssert(same(r, e), "filter keeps every selected element")
	case 5:
		r := vCallOK("remove", vProbe(konst(LispFalse)), l)
		all("remove", 0)
		vAssert(same(r, e), "remove keeps every selected element")
	case 6:
		r := vCallOK("partition", vProbe(konst(LispTrue)), l)
		all("partition", 0)
		vAssert(same(Car(r), e), "partition keeps every selected element")
	case 7:
		r := vCallOK("find", vProbe(func(i int, _ []*Data) (*Data, error) { return BooleanWithValue(i == 2), nil }), l)
		all("find", 0)
		vAssert(vSame(r, e[2]), "find gives the element whatever it is")
	case 8:
		r := vCallOK("find-tail", vProbe(func(i int, _ []*Data) (*Data, error) { return BooleanWithValue(i == 1), nil }), l)
		vAssert(len(vProbeCalls) == 2 && same(r, e[1:]), "find-tail gives the tail whatever it is")
	case 9:
		vCallOK("fold-left", vProbe(func(_ int, a []*Data) (*Data, error) { return a[1], nil }), vI(5), l)
		all("fold-left", 1)
	case 10:
		r := vCallOK("fold-right", vProbe(func(_ int, a []*Data) (*Data, error) { return Cons(a[0], a[1]), nil }), EmptyCons(), l)
		vAssert(len(vProbeCalls) == 3 && same(r, e), "fold-right with cons rebuilds the list")
	case 11:
		i := vChoice("at", 3)
		for j := 0; j < i; j++ {
			vAssume(!vSame(e[j], e[i]))
		}
		vAssert(same(vCallOK("member", e[i], l), e[i:]), "member finds an element of any kind")
	}
	vAssert(same(l, e), "the argument is unchanged")
}

// Long lists: the function is called on every element, or up to the one that
// decides.
//verif:bounds one list of 9, 13 or 20 (thorough also 34) arbitrary integers, or that list and a longer one; one element at any position gets the other answer, or none; every Boolean-valued function
//verif:reach decided,whole
func VH_P12_long() {
	n := []int{9, 13, 20, 34}[vChoice("n", 3+vTier())]
	l, x := vIntList("x", n)
	at := vChoice("at", n+1)
	op := vChoice("op", 8)
	name := []string{"any", "every", "filter", "remove", "partition", "find", "find-tail", "memp"}[op]
	usual := name == "every" || op < 5 && op >= 2 && vChoice("usual", 2) == 1
	stops := op < 2 || op >= 5
	two := op < 2 && vChoice("two", 2) == 1
	var res []*Data
	var yes, no []int64
	var want [][]int64
	l2, x2 := vIntList("z", n+1)
	for i := 0; i < n; i++ {
		t := usual
		if i == at {
			t = !usual
		}
		if two {
			want = append(want, []int64{x[i], x2[i]})
		} else {
			want = append(want, x[i:i+1])
		}
		res = append(res, BooleanWithValue(t))
		if t {
			yes = append(yes, x[i])
		} else {
			no = append(no, x[i])
		}
		if stops && t != usual {
			break
		}
	}
	f := vProbe(vAnswers(res, -1))
	args := []*Data{f, l}
	if two {
		args = []*Data{f, l, l2}
	}
	r, err := vCall(name, args...)
	vAssert(err == nil, name+" of lists")
	vCallsAre(want, name)
	switch op {
	case 0, 1:
		vAssert(vIsBool(r, (at < n) != usual), name+" gives the combined truth")
	case 2:
		vAssert(vSeq(r, yes), "filter keeps the elements with a true result")
	case 3:
		vAssert(vSeq(r, no), "remove keeps the elements with a false result")
	case 4:
		e, ok := vElems(r, 4)
		vAssert(ok && len(e) == 2 && vSeq(e[0], yes) && vSeq(e[1], no), "partition separates true from false")
	case 5:
		if at == n {
			vAssert(vIsBool(r, false), "find without a match is false")
		} else {
			vAssert(vIsInt(r, x[at]), "find gives the first match")
		}
	default:
		if at == n {
			vAssert(vIsBool(r, false), name+" without a match is false")
		} else {
			vAssert(vSeq(r, x[at:]), name+" gives the tail from the first match")
		}
	}
	if at == n {
		vReach("whole")
	} else {
		vReach("decided")
	}
}
