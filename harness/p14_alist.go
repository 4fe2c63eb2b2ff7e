package golisp

// vAlistOf builds an association list of n pairs with arbitrary distinct
// integer keys, in one of the three ways a program can.
func vAlistOf(n int) (al *Data, keys, vals []int64) {
	how := vChoice("how", 3)
	for i := 0; i < n; i++ {
		k, v := vInt64("k"), vInt64("v")
		for _, o := range keys {
			vAssume(o != k)
		}
		keys, vals = append(keys, k), append(vals, v)
	}
	switch how {
	case 0: // acons
		al = EmptyCons()
		for i := n - 1; i >= 0; i-- {
			al = vCallOK("acons", vI(keys[i]), vI(vals[i]), al)
		}
	case 1: // a list of pairs
		ps := make([]*Data, n)
		for i := range ps {
			ps[i] = Cons(vI(keys[i]), vI(vals[i]))
		}
		al = vList(ps...)
		if n == 0 {
			al = EmptyCons()
		}
	default:
		ps := make([]*Data, n)
		for i := range ps {
			ps[i] = Cons(vI(keys[i]), vI(vals[i]))
		}
		al = vCallOK("alist", vList(ps...))
	}
	return
}

// vMapIs checks that the association list maps exactly the given keys to the
// given values (the solver decides for every key).
func vMapIs(al *Data, keys, vals []int64, msg string) {
	for i := range keys {
		p := vCallOK("assoc", vI(keys[i]), al)
		vAssert(NotNilP(p) && vIsInt(Car(p), keys[i]) && vIsInt(Cdr(p), vals[i]), msg+": every key has its value")
	}
	vAssert(vIsInt(vCallOK("length", al), int64(len(keys))), msg+": no other pairs")
}

// acons adds or replaces one key.
//verif:bounds association lists of 0..3 pairs built by acons, alist or as a list of pairs, arbitrary 64-bit keys and values
//verif:reach new,old
func VH_P14_acons() {
	al, keys, vals := vAlistOf(vChoice("n", 4))
	before := vClone(al)
	k, v := vInt64("key"), vInt64("val")
	r := vCallOK("acons", vI(k), vI(v), al)
	at := -1
	for i := range keys {
		if vTake(keys[i] == k) {
			at = i
		}
	}
	if at < 0 {
		vMapIs(r, append([]int64{k}, keys...), append([]int64{v}, vals...), "acons of a new key")
		vAssert(vExact(al, before), "acons of a new key leaves its argument unchanged")
		vReach("new")
		return
	}
	w := append([]int64{}, vals...)
	w[at] = v
	vMapIs(r, keys, w, "acons of an existing key")
	vReach("old")
}

// assoc, assq and assv find the pair of the key or nil.
//verif:bounds association lists of 0..4 pairs, arbitrary 64-bit keys and values
//verif:reach found,missing
func VH_P14_assoc() {
	al, keys, vals := vAlistOf(vChoice("n", 5))
	before := vClone(al)
	k := vInt64("key")
	p := vCallOK([]string{"assoc", "assq", "assv"}[vChoice("name", 3)], vI(k), al)
	vAssert(vExact(al, before), "a lookup changes nothing")
	for i := range keys {
		if vTake(keys[i] == k) {
			vAssert(vIsInt(Car(p), k) && vIsInt(Cdr(p), vals[i]), "assoc finds the pair of the key")
			vReach("found")
			return
		}
	}
	vAssert(NilP(p), "assoc of a missing key is nil")
	vReach("missing")
}

// rassoc finds the first pair with the value.
//verif:bounds association lists of 0..4 pairs, arbitrary 64-bit keys and values
//verif:reach found,missing
func VH_P14_rassoc() {
	al, keys, vals := vAlistOf(vChoice("n", 5))
	v := vInt64("val")
	p := vCallOK("rassoc", vI(v), al)
	for i := range vals {
		if vTake(vals[i] == v) {
			vAssert(vIsInt(Car(p), keys[i]) && vIsInt(Cdr(p), v), "rassoc finds the first pair with the value")
			vReach("found")
			return
		}
	}
	vAssert(NilP(p), "rassoc of a missing value is nil")
	vReach("missing")
}

// dissoc removes the key and nothing else.
//verif:bounds association lists of 0..4 pairs, arbitrary 64-bit keys and values
//verif:reach done
func VH_P14_dissoc() {
	al, keys, vals := vAlistOf(vChoice("n", 5))
	before := vClone(al)
	k := vInt64("key")
	r := vCallOK("dissoc", vI(k), al)
	var wk, wv []int64
	for i := range keys {
		if !vTake(keys[i] == k) {
			wk, wv = append(wk, keys[i]), append(wv, vals[i])
		}
	}
	vMapIs(r, wk, wv, "dissoc")
	vAssert(NilP(vCallOK("assoc", vI(k), r)), "a removed key is gone")
	vAssert(vExact(al, before), "dissoc leaves its argument unchanged")
	// the result is independent of the argument
	if len(wk) > 0 {
		vCallOK("acons", vI(wk[0]), vI(99), r)
		vAssert(vExact(al, before), "changing dissoc's result leaves the argument unchanged")
	}
	vReach("done")
}

// A list with repeated keys: the first pair is found; dissoc removes them all.
//verif:bounds lists of 0..3 pairs with arbitrary, possibly equal, keys
//verif:reach done
func VH_P14_duplicates() {
	n := vChoice("n", 4)
	ps := make([]*Data, n)
	ks, vs := make([]int64, n), make([]int64, n)
	for i := range ps {
		ks[i], vs[i] = vInt64("k"), vInt64("v")
		ps[i] = Cons(vI(ks[i]), vI(vs[i]))
	}
	l := vList(ps...)
	k := vInt64("key")
	first := -1
	for i := range ks {
		if first < 0 && vTake(ks[i] == k) {
			first = i
		}
	}
	for _, src := range []*Data{l, vCallOK("alist", l)} {
		p := vCallOK("assoc", vI(k), src)
		if first < 0 {
			vAssert(NilP(p), "a missing key is nil")
		} else {
			vAssert(vIsInt(Cdr(p), vs[first]), "the first pair with the key is found")
		}
	}
	vAssert(NilP(vCallOK("assoc", vI(k), vCallOK("dissoc", vI(k), l))), "dissoc removes every pair with the key")
	vReach("done")
}

// pairlis pairs keys and values positionally, in front of the third argument.
//verif:bounds key lists of 0..3 distinct arbitrary keys, value lists of 0..3 elements, third argument absent or an association list of 1..2 pairs
//verif:reach ok,mismatch
func VH_P14_pairlis() {
	n, m := vChoice("nk", 4), vChoice("nv", 4)
	kl, ks := vIntList("k", n)
	vl, vs := vIntList("v", m)
	for i := range ks {
		for j := 0; j < i; j++ {
			vAssume(ks[i] != ks[j])
		}
	}
	args := []*Data{kl, vl}
	var tk, tv []int64
	var tail, before *Data
	if vChoice("third", 2) == 1 {
		tail, tk, tv = vAlistOf(1 + vChoice("nt", 2))
		for i := range tk {
			for j := range ks {
				vAssume(tk[i] != ks[j])
			}
		}
		before = vClone(tail)
		args = append(args, tail)
	}
	r, err := vCall("pairlis", args...)
	if n != m {
		vAssert(err != nil, "pairlis needs as many values as keys")
		vReach("mismatch")
		return
	}
	vAssert(err == nil, "pairlis of matching lists")
	vMapIs(r, append(append([]int64{}, ks...), tk...), append(append([]int64{}, vs...), tv...), "pairlis")
	vAssert(vSeq(kl, ks) && vSeq(vl, vs), "pairlis leaves its arguments unchanged")
	if tail != nil {
		vAssert(vExact(tail, before), "pairlis leaves its third argument unchanged")
	}
	vReach("ok")
}

// A history of additions and removals agrees with a map.
//verif:bounds every sequence of 5 (thorough 6) additions and removals with arbitrary keys and values
//verif:reach done
func VH_P14_history() {
	al := EmptyCons()
	var ks, vs []int64
	for i := 0; i < 5+vTier(); i++ {
		k := vInt64("k")
		at := -1
		for j := range ks {
			if vTake(ks[j] == k) {
				at = j
			}
		}
		if vChoice("op", 2) == 0 {
			v := vInt64("v")
			al = vCallOK("acons", vI(k), vI(v), al)
			if at >= 0 {
				vs[at] = v
			} else {
				ks, vs = append(ks, k), append(vs, v)
			}
		} else {
			al = vCallOK("dissoc", vI(k), al)
			if at >= 0 {
				ks = append(append([]int64{}, ks[:at]...), ks[at+1:]...)
				vs = append(append([]int64{}, vs[:at]...), vs[at+1:]...)
			}
		}
		vMapIs(al, ks, vs, "after each operation")
	}
	vReach("done")
}

// Malformed arguments are errors.
//verif:bounds lookups in lists holding a non-pair before the key, list keys, non-list arguments of pairlis
//verif:reach done
func VH_P14_reject() {
	bad := vNonList("bad")
	k := vI(vInt64("k"))
	var err error
	switch vChoice("op", 7) {
	case 0:
		_, err = vCall("assoc", k, vList(bad, Cons(k, k)))
	case 1:
		_, err = vCall("rassoc", k, vList(bad, Cons(k, k)))
	case 2:
		_, err = vCall("dissoc", k, vList(bad, Cons(k, k)))
	case 3:
		_, err = vCall("pairlis", bad, vList(k))
	case 4:
		_, err = vCall("pairlis", vList(k), bad)
	case 5:
		_, err = vCall("pairlis", vList(k), vList(k), bad)
	case 6:
		_, err = vCall("acons", vList(k), k, EmptyCons())
	}
	vAssert(err != nil, "malformed arguments are errors")
	vReach("done")
}

// Keys and values of every kind.
//verif:bounds association lists of 0..3 pairs built by acons, alist or as a list of pairs; keys are arbitrary integers, floats, symbols, strings of up to 2 bytes or booleans, mixed; values of 7 kinds; one acons, dissoc, assoc or rassoc with any such key or value
//verif:reach new,old,removed,found
func VH_P14_kinds() {
	n := vChoice("n", 4)
	key := func(name string) *Data {
		switch vChoice(name+"~kind", 5) {
		case 0:
			return vI(vInt64(name))
		case 1:
			x := vFloat32(name)
			vAssume(x == x)
			return FloatWithValue(x)
		case 2:
			return vKeyN(vChoice(name+"~sym", 3))
		case 3:
			return vS(vString(name, vChoice(name+"~len", 3)))
		}
		return BooleanWithValue(vChoice(name+"~bool", 2) == 1)
	}
	val := func(name string) *Data {
		switch vChoice(name+"~vkind", 5) {
		case 0:
			return vI(vInt64(name))
		case 1:
			return EmptyCons()
		case 2:
			return vList(vI(vInt64(name)), vI(2))
		case 3:
			return vS("s")
		}
		return Copy(vExFrame)
	}
	ks, vs := make([]*Data, n), make([]*Data, n)
	for i := range ks {
		if i < n-1 {
			ks[i], vs[i] = []*Data{vI(5), vS("k"), vKeyN(0)}[(i+n)%3], vI(int64(i)) // mixed with fixed ones
		} else {
			ks[i], vs[i] = key("k"), val("v")
		}
		for j := 0; j < i; j++ {
			vAssume(!vSame(ks[i], ks[j]))
		}
	}
	var al *Data
	ps := make([]*Data, n)
	for i := range ps {
		ps[i] = Cons(ks[i], vs[i])
	}
	switch vChoice("how", 3) {
	case 0:
		al = EmptyCons()
		for i := n - 1; i >= 0; i-- {
			al = vCallOK("acons", ks[i], vs[i], al)
		}
	case 1:
		al = vList(ps...)
		if n == 0 {
			al = EmptyCons()
		}
	default:
		al = vCallOK("alist", vList(ps...))
	}
	is := func(r *Data, ks, vs []*Data) {
		for i := range ks {
			p := vCallOK("assoc", ks[i], r)
			vAssert(NotNilP(p) && vSame(Car(p), ks[i]) && vSame(Cdr(p), vs[i]), "every key has its value")
		}
		vAssert(vIsInt(vCallOK("length", r), int64(len(ks))), "no other pairs")
	}
	at := -1
	op := vChoice("op", 4)
	if op == 3 {
		v := val("q")
		p := vCallOK("rassoc", v, al)
		for i := range vs {
			if vTake(vSame(vs[i], v)) {
				vAssert(vSame(Car(p), ks[i]) && vSame(Cdr(p), v), "rassoc finds the first pair with the value")
				return
			}
		}
		vAssert(NilP(p), "rassoc of a missing value is nil")
		return
	}
	k := key("q")
	for i := range ks {
		if vTake(vSame(ks[i], k)) {
			at = i
		}
	}
	switch op {
	case 0:
		v := []*Data{vI(vInt64("w")), vList(vI(1), vI(2))}[vChoice("wkind", 2)]
		r := vCallOK("acons", k, v, al)
		if at < 0 {
			is(r, append([]*Data{k}, ks...), append([]*Data{v}, vs...))
			is(al, ks, vs)
			vReach("new")
		} else {
			vs[at] = v
			is(r, ks, vs)
			vReach("old")
		}
	case 1:
		r := vCallOK("dissoc", k, al)
		if at < 0 {
			is(r, ks, vs)
		} else {
			is(r, append(append([]*Data{}, ks[:at]...), ks[at+1:]...), append(append([]*Data{}, vs[:at]...), vs[at+1:]...))
			vAssert(NilP(vCallOK("assoc", k, r)), "a removed key is gone")
			vReach("removed")
		}
		is(al, ks, vs)
	case 2:
		p := vCallOK([]string{"assoc", "assq", "assv"}[vChoice("name", 3)], k, al)
		if at < 0 {
			vAssert(NilP(p), "assoc of a missing key is nil")
		} else {
			vAssert(vSame(Car(p), k) && vSame(Cdr(p), vs[at]), "assoc finds the pair of the key")
			vReach("found")
		}
	}
}

// Long association lists.
//verif:bounds 9 or 14 pairs with distinct integer keys, one key arbitrary, at any position; one acons, dissoc or assoc with an arbitrary key
//verif:reach done
func VH_P14_long() {
	n := []int{9, 14}[vChoice("n", 2)]
	at := vChoice("at", n)
	x := vInt64("x")
	ks, vs := make([]int64, n), make([]int64, n)
	for i := range ks {
		ks[i], vs[i] = int64(i*10), vInt64("v")
		if i == at {
			ks[i] = x
		} else {
			vAssume(x != ks[i])
		}
	}
	al := EmptyCons()
	for i := n - 1; i >= 0; i-- {
		al = vCallOK("acons", vI(ks[i]), vI(vs[i]), al)
	}
	vMapIs(al, ks, vs, "a long association list")
	k := vInt64("key")
	hit := -1
	for i := range ks {
		if vTake(ks[i] == k) {
			hit = i
		}
	}
	switch vChoice("op", 3) {
	case 0:
		v := vInt64("w")
		r := vCallOK("acons", vI(k), vI(v), al)
		if hit < 0 {
			ks, vs = append(ks, k), append(vs, v)
		} else {
			vs[hit] = v
		}
		vMapIs(r, ks, vs, "acons")
	case 1:
		r := vCallOK("dissoc", vI(k), al)
		if hit >= 0 {
			ks = append(append([]int64{}, ks[:hit]...), ks[hit+1:]...)
			vs = append(append([]int64{}, vs[:hit]...), vs[hit+1:]...)
		}
		vMapIs(r, ks, vs, "dissoc")
	case 2:
		p := vCallOK("assoc", vI(k), al)
		if hit < 0 {
			vAssert(NilP(p), "assoc of a missing key is nil")
		} else {
			vAssert(vIsInt(Car(p), k) && vIsInt(Cdr(p), vs[hit]), "assoc finds the pair")
		}
	}
	vReach("done")
}
