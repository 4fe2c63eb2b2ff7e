package golisp

// nth, list-ref and first..tenth select the element at their position, and
// give nil outside the list.
//verif:bounds lists of 0..5 (thorough 0..10), or 12 or 17 (thorough also 33) arbitrary integers, every 64-bit index
//verif:reach in,out
func VH_P10_position() {
	n := vLen("n", 6+5*vTier())
	l, x := vIntList("x", n)
	var r *Data
	var i int64
	switch vChoice("op", 3) {
	case 0:
		vAssume(n > 0)
		i = vInt64("i")
		r = vCallOK("nth", l, vI(i))
	case 1:
		vAssume(n > 0)
		i = vInt64("i")
		r = vCallOK("list-ref", l, vI(i))
		vAssume(i < 9223372036854775807)
		i++
	default:
		names := []string{"first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth", "tenth"}
		k := vChoice("k", len(names))
		i = int64(k) + 1
		r = vCallOK(names[k], l)
	}
	if i >= 1 && i <= int64(n) {
		w := int64(0)
		for k := range x {
			if int64(k)+1 == i {
				w = x[k]
			}
		}
		vAssert(vIsInt(r, w), "the element at the position")
		vReach("in")
	} else {
		vAssert(NilP(r), "nil outside the list")
		vReach("out")
	}
}

// take, drop, list-head, list-tail and sublist give the slice of the list.
//verif:bounds lists of 0..5 (thorough 0..8), or 12 or 17 (thorough also 33) arbitrary integers, every pair of 64-bit indices
//verif:reach done,suberr,sub
func VH_P10_slice() {
	n := vLen("n", 6+3*vTier())
	l, x := vIntList("x", n)
	i := vInt64("i")
	clamp := func(i int64) int {
		k := 0
		for k < n && int64(k) < i {
			k++
		}
		return k
	}
	switch vChoice("op", 5) {
	case 0:
		vAssert(vSeq(vCallOK("take", vI(i), l), x[:clamp(i)]), "take gives the first elements")
	case 1:
		vAssert(vSeq(vCallOK("drop", vI(i), l), x[clamp(i):]), "drop gives the elements after the first ones")
	case 2:
		vAssert(vSeq(vCallOK("list-head", l, vI(i)), x[:clamp(i)]), "list-head gives the first elements")
	case 3:
		vAssert(vSeq(vCallOK("list-tail", l, vI(i)), x[clamp(i):]), "list-tail gives the elements after the first ones")
	default:
		j := vInt64("j")
		r, err := vCall("sublist", l, vI(i), vI(j))
		if i <= 0 || j <= 0 {
			vAssert(err != nil, "sublist rejects positions below one")
			vReach("suberr")
			return
		}
		vAssert(err == nil, "sublist accepts positions from one")
		if i >= j {
			vAssert(NilP(r), "an empty range is nil")
			return
		}
		vAssert(vSeq(r, x[clamp(i-1):clamp(j-1)]), "sublist gives the elements from start to before end")
		vReach("sub")
	}
	vAssert(vSeq(l, x), "the argument is unchanged")
	vReach("done")
}

// Slices of a list put back together give the list.
//verif:bounds lists of 0..5, or 12 or 17 (thorough also 33) arbitrary integers, every 64-bit count
//verif:reach done
func VH_P10_rejoin() {
	n := vLen("n", 6)
	l, x := vIntList("x", n)
	i := vInt64("i")
	r := vCallOK("append", vCallOK("take", vI(i), l), vCallOK("drop", vI(i), l))
	vAssert(vSeq(r, x), "take and drop at the same count split the list")
	r = vCallOK("append", vCallOK("list-head", l, vI(i)), vCallOK("list-tail", l, vI(i)))
	vAssert(vSeq(r, x), "list-head and list-tail at the same count split the list")
	vReach("done")
}

// reverse, length, list, cons, cons*, append and last-pair.
//verif:bounds lists of 0..4 (thorough 0..6), or 12 or 17 (thorough also 33) arbitrary integers, append of 0..3 arguments of up to 3 elements
//verif:reach done
func VH_P10_build() {
	n := vLen("n", 5+2*vTier())
	l, x := vIntList("x", n)
	switch vChoice("op", 8) {
	case 0:
		r := vCallOK("reverse", l)
		w := make([]int64, n)
		for i := range x {
			w[n-1-i] = x[i]
		}
		vAssert(vSeq(r, w), "reverse")
		vAssert(vSeq(vCallOK("reverse", r), x), "reverse undoes itself")
	case 1:
		vAssert(vIsInt(vCallOK("length", l), int64(n)), "length counts the elements")
	case 2:
		e := make([]*Data, n)
		for i := range e {
			e[i] = vI(x[i])
		}
		vAssert(vSeq(vCallOK("list", e...), x), "list of its arguments")
	case 3:
		y := vInt64("y")
		r := vCallOK("cons", vI(y), l)
		vAssert(vSeq(r, append([]int64{y}, x...)), "cons puts an element in front")
		vAssert(vIsInt(vCallOK("car", r), y) && vSeq(vCallOK("cdr", r), x), "car and cdr take a cons apart")
	case 4:
		k := vChoice("k", 3)
		e := make([]*Data, k+1)
		w := make([]int64, k)
		for i := 0; i < k; i++ {
			w[i] = vInt64("y")
			e[i] = vI(w[i])
		}
		e[k] = l
		vAssert(vSeq(vCallOK("cons*", e...), append(w, x...)), "cons* puts its arguments in front of the last one")
	case 5:
		k := vChoice("k", 4)
		var w []int64
		e := make([]*Data, k)
		for i := range e {
			if vChoice("atom", 2) == 1 {
				y := vInt64("y")
				e[i] = vI(y)
				w = append(w, y)
				continue
			}
			m, y := vIntList("y", vChoice("m", 3))
			e[i] = m
			w = append(w, y...)
		}
		vAssert(vSeq(vCallOK("append", e...), w), "append concatenates its arguments")
	case 6:
		r, err := vCall("last-pair", l)
		if n == 0 {
			vAssert(err != nil, "last-pair of an empty list is an error")
		} else {
			vAssert(err == nil && vSeq(r, x[n-1:]), "last-pair is the last cell")
		}
	case 7:
		k := vInt("k", -3, int64(3))
		y := vInt64("y")
		r, err := vCall("make-list", vI(k), vI(y))
		if k < 0 {
			vAssert(err != nil, "make-list rejects a negative count")
		} else {
			w := []int64{y, y, y}[:int(vConcInt(k))]
			vAssert(err == nil && vSeq(r, w), "make-list repeats the element")
		}
	}
	vAssert(vSeq(l, x), "the argument is unchanged")
	vReach("done")
}

// Accessor chains follow their path.
//verif:bounds all car/cdr chains of length 1..4 on every binary tree of depth up to 4 along the path, and general-car-cdr with the corresponding path
//verif:reach done
func VH_P10_chains() {
	ln := 1 + vChoice("len", 4)
	name := ""
	dirs := make([]int, ln)
	for i := range dirs {
		dirs[i] = vChoice("dir", 2)
		name += []string{"a", "d"}[dirs[i]]
	}
	// a full binary tree of the given depth, cut short at a chosen point
	cut := vChoice("cut", 6)
	ctr := int64(0)
	var build func(d int) *Data
	build = func(d int) *Data {
		if d == 0 {
			ctr++
			return vI(ctr)
		}
		if d == cut {
			ctr++
			if ctr%2 == 0 {
				return EmptyCons()
			}
			return vI(ctr)
		}
		a := build(d - 1)
		return Cons(a, build(d-1))
	}
	t := build(4)
	before := vClone(t)
	w := t
	for i := ln - 1; i >= 0; i-- {
		if dirs[i] == 0 {
			w = Car(w)
		} else {
			w = Cdr(w)
		}
	}
	r := vCallOK("c"+name+"r", t)
	vAssert(r == w || NilP(r) && NilP(w), "an accessor chain follows its path")
	path := int64(1)
	for i := 0; i < ln; i++ {
		path = path*2 + int64(1-dirs[i])
	}
	r = vCallOK("general-car-cdr", t, vI(path))
	vAssert(r == w || NilP(r) && NilP(w), "general-car-cdr follows its path")
	vAssert(vExact(t, before), "access changes nothing")
	vReach("done")
}

// flatten removes one level of nesting, flatten* all of it.
//verif:bounds lists of 0..3 elements, each an integer or a list of 0..2 elements, each an integer or a list of 0..1 integers
//verif:reach done
func VH_P10_flatten() {
	n := vChoice("n", 4)
	var top []*Data
	var one []*Data
	var all []int64
	for i := 0; i < n; i++ {
		if vChoice("atom", 2) == 0 {
			y := vInt64("y")
			top, one, all = append(top, vI(y)), append(one, vI(y)), append(all, y)
			continue
		}
		var sub []*Data
		k := vChoice("k", 3)
		for j := 0; j < k; j++ {
			if vChoice("sub", 2) == 0 {
				y := vInt64("y")
				sub, one, all = append(sub, vI(y)), append(one, vI(y)), append(all, y)
				continue
			}
			ll, yy := vIntList("y", vChoice("m", 2))
			if ll == nil {
				ll = EmptyCons()
			}
			sub, one, all = append(sub, ll), append(one, ll), append(all, yy...)
		}
		s := vList(sub...)
		if s == nil {
			s = EmptyCons()
		}
		top = append(top, s)
	}
	l := vList(top...)
	before := vClone(l)
	vAssert(vExact(vCallOK("flatten", l), vList(one...)), "flatten removes one level")
	vAssert(vSeq(vCallOK("flatten*", l), all), "flatten* removes all levels")
	vAssert(vExact(l, before), "flatten changes nothing")
	vReach("done")
}

// partition by size cuts the list into consecutive pieces.
//verif:bounds lists of 0..5 (thorough 0..7), or 12 or 17 (thorough also 33) integers, every 64-bit size
//verif:reach done,bad
func VH_P10_pieces() {
	n := vLen("n", 6+2*vTier())
	l, x := vIntList("x", n)
	s := vInt64("s")
	r, err := vCall("partition", vI(s), l)
	if s < 1 {
		vAssert(err != nil, "partition rejects a size below one")
		vReach("bad")
		return
	}
	vAssert(err == nil, "partition accepts a positive size")
	k := 0
	for k < n && int64(k) < s {
		k++
	}
	at := 0
	for c := r; NotNilP(c); c = Cdr(c) {
		end := at + k
		if end > n {
			end = n
		}
		vAssert(at < end && vSeq(Car(c), x[at:end]), "each piece holds the next elements")
		at = end
	}
	vAssert(at == n, "the pieces cover the list")
	vReach("done")
}

// The same functions accept association lists as lists of pairs.
//verif:bounds association lists of 1..3 pairs with arbitrary integer values
//verif:reach done
func VH_P10_alist() {
	al := EmptyCons()
	n := 1 + vChoice("n", 3)
	for i := 0; i < n; i++ {
		al = vCallOK("acons", vKeyN(i), vI(vInt64("x")), al)
	}
	ps := vPairs(al)
	vAssert(len(ps) == n, "one pair per key")
	isSeq := func(d *Data, w []*Data) bool {
		e, ok := []*Data(nil), true
		for c := d; NotNilP(c); c = Cdr(c) {
			ok = ok && ListP(c)
			e = append(e, Car(c))
		}
		if !ok || len(e) != len(w) {
			return false
		}
		for i := range e {
			if !vExact(e[i], w[i]) {
				return false
			}
		}
		return true
	}
	i := vInt64("i")
	k := 0
	for k < n && int64(k) < i {
		k++
	}
	switch vChoice("op", 7) {
	case 0:
		vAssert(vIsInt(vCallOK("length", al), int64(n)), "length of an association list")
	case 1:
		vAssert(isSeq(vCallOK("take", vI(i), al), ps[:k]), "take of an association list")
	case 2:
		vAssert(isSeq(vCallOK("list-tail", al, vI(i)), ps[k:]), "list-tail of an association list")
	case 3:
		vAssert(isSeq(vCallOK("last-pair", al), ps[n-1:]), "last-pair of an association list")
	case 4:
		w := make([]*Data, n)
		for j := range ps {
			w[n-1-j] = ps[j]
		}
		vAssert(isSeq(vCallOK("reverse", al), w), "reverse of an association list")
	case 5:
		vAssert(isSeq(vCallOK("append", al, al), append(append([]*Data{}, ps...), ps...)), "append of association lists")
	case 6:
		vAssert(isSeq(vCallOK("map", vExId, al), ps), "map over an association list")
	}
	vReach("done")
}

var vExId *Data

func init() { vExId = vMust("(lambda (x) x)") }

// Non-list arguments are errors where a list is required.
//verif:bounds 9 kinds of non-list in the list position of every list function, arbitrary integers elsewhere
//verif:reach done
func VH_P10_reject() {
	bad := vNonList("bad")
	i := vI(vInt64("i"))
	var err error
	switch vChoice("op", 9) {
	case 0:
		_, err = vCall("nth", bad, i)
	case 1:
		_, err = vCall("list-ref", bad, i)
	case 2:
		_, err = vCall("take", i, bad)
	case 3:
		_, err = vCall("drop", i, bad)
	case 4:
		_, err = vCall("list-head", bad, i)
	case 5:
		_, err = vCall("list-tail", bad, i)
	case 6:
		_, err = vCall("sublist", bad, vI(1), vI(2))
	case 7:
		_, err = vCall("last-pair", bad)
	case 8:
		_, err = vCall("partition", vI(2), bad)
	}
	vAssert(err != nil, "a list is required")
	l, _ := vIntList("x", 2)
	notInt := []*Data{StringWithValue("1"), FloatWithValue(1.5), Intern("vsym"), EmptyCons(), l}[vChoice("ni", 5)]
	switch vChoice("op2", 8) {
	case 0:
		_, err = vCall("nth", l, notInt)
	case 1:
		_, err = vCall("list-ref", l, notInt)
	case 2:
		_, err = vCall("take", notInt, l)
	case 3:
		_, err = vCall("drop", notInt, l)
	case 4:
		_, err = vCall("list-head", l, notInt)
	case 5:
		_, err = vCall("list-tail", l, notInt)
	case 6:
		if vChoice("pos", 2) == 0 {
			_, err = vCall("sublist", l, notInt, vI(2))
		} else {
			_, err = vCall("sublist", l, vI(1), notInt)
		}
	case 7:
		_, err = vCall("make-list", notInt, vI(1))
	}
	vAssert(err != nil, "an integer index is required")
	vReach("done")
}
