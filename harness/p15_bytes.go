package golisp

func vIsBytes(d *Data, w []byte) bool {
	return ObjectP(d) && ObjectType(d) == "[]byte" && vSameBytes(vByteSlice(d), w)
}

func vCat(a, b []byte) []byte { return append(append([]byte{}, a...), b...) }

// Conversion between lists and byte arrays.
//verif:bounds lists of 1..4 (thorough 1..6) elements, each an arbitrary 64-bit integer or a byte array of 0..2 arbitrary bytes
//verif:reach ok,range
func VH_P15_build() {
	n := 1 + vChoice("n", 4+2*vTier())
	var l []*Data
	var w []byte
	ok := true
	for i := 0; i < n; i++ {
		if vChoice("kind", 2) == 1 {
			b, raw := vBytes("b", vChoice("len", 3))
			l, w = append(l, b), append(w, raw...)
			continue
		}
		x := vInt64("x")
		l = append(l, vI(x))
		if vTake(x < 0 || x > 255) {
			ok = false
		} else {
			w = append(w, byte(x))
		}
	}
	r, err := vCall([]string{"list->bytearray", "list-to-bytearray"}[vChoice("name", 2)], vList(l...))
	if !ok {
		vAssert(err != nil, "values outside 0..255 are errors")
		vReach("range")
		return
	}
	vAssert(err == nil && vIsBytes(r, w), "a byte array holds the listed bytes")
	back := vCallOK([]string{"bytearray->list", "bytearray-to-list"}[vChoice("name2", 2)], r)
	wi := make([]int64, len(w))
	for i := range w {
		wi[i] = int64(w[i])
	}
	vAssert(vSeq(back, wi), "the list of a byte array has its bytes")
	vAssert(vIsInt(vCallOK("length", r), int64(len(w))), "length of a byte array")
	// the result is independent of byte arrays in the list
	if len(w) > 0 {
		vMutate(r, 0)
		w2 := []byte{}
		for _, d := range l {
			if IntegerP(d) {
				w2 = append(w2, byte(IntegerValue(d)))
			} else {
				w2 = append(w2, vByteSlice(d)...)
			}
		}
		vAssert(vSameBytes(w2, w), "changing the result does not change the arguments")
	}
	vReach("ok")
}

// extract-byte and replace-byte address exactly one byte.
//verif:bounds arrays of 0..4 (thorough 0..6), or 12 or 17 (thorough also 33) arbitrary bytes, every 64-bit index and value
//verif:reach extract,replace,inplace,range
func VH_P15_index() {
	n := vLen("n", 5+2*vTier())
	b, w := vBytes("b", n)
	i := vInt64("i")
	in := vTake(i >= 0 && i < int64(n))
	at := 0
	if in {
		at = int(vConcInt(i))
	}
	switch vChoice("op", 3) {
	case 0:
		r, err := vCall("extract-byte", b, vI(i))
		vAssert(vIsBytes(b, w), "extract-byte leaves its argument unchanged")
		if !in {
			vAssert(err != nil, "extract-byte outside the array is an error")
			vReach("range")
			return
		}
		vAssert(err == nil && vIsInt(r, int64(w[at])), "extract-byte gives the byte")
		vReach("extract")
	case 1:
		v := vInt64("v")
		r, err := vCall("replace-byte", b, vI(i), vI(v))
		vAssert(vIsBytes(b, w), "replace-byte leaves its argument unchanged")
		if !in || vTake(v < 0 || v > 255) {
			vAssert(err != nil, "replace-byte out of range is an error")
			vReach("range")
			return
		}
		w2 := append([]byte{}, w...)
		w2[at] = byte(v)
		vAssert(err == nil && vIsBytes(r, w2), "replace-byte changes exactly the byte in the copy")
		vMutate(r, 0)
		vAssert(vIsBytes(b, w), "the result of replace-byte is independent")
		vReach("replace")
	case 2:
		v := vInt64("v")
		alias := vList(b)
		r, err := vCall("replace-byte!", b, vI(i), vI(v))
		if !in || vTake(v < 0 || v > 255) {
			vAssert(err != nil && vIsBytes(b, w), "replace-byte! out of range is an error and changes nothing")
			vReach("range")
			return
		}
		w[at] = byte(v)
		vAssert(err == nil && vIsBytes(b, w) && vIsBytes(r, w) && vIsBytes(Car(alias), w), "replace-byte! changes exactly the byte, in place")
		vReach("inplace")
	}
}

// extract-bytes, take and drop give the addressed range.
//verif:bounds arrays of 0..4 (thorough 0..6), or 12 or 17 (thorough also 33) arbitrary bytes, every pair of 64-bit index and count
//verif:reach extract,take,drop,range
func VH_P15_range() {
	n := vLen("n", 5+2*vTier())
	b, w := vBytes("b", n)
	i, c := vInt64("i"), vInt64("c")
	clamp := func(c int64) int {
		k := 0
		for k < n && int64(k) < c {
			k++
		}
		return k
	}
	var r *Data
	switch vChoice("op", 3) {
	case 0:
		x, err := vCall("extract-bytes", b, vI(i), vI(c))
		vAssert(vIsBytes(b, w), "extract-bytes leaves its argument unchanged")
		if vTake(i < 0 || i >= int64(n) || c < 0 || c > int64(n)-i) {
			vAssert(err != nil, "extract-bytes outside the array is an error")
			vReach("range")
			return
		}
		at, k := int(vConcInt(i)), int(vConcInt(c))
		vAssert(err == nil && vIsBytes(x, w[at:at+k]), "extract-bytes gives the range")
		r = x
		vReach("extract")
	case 1:
		r = vCallOK("take", vI(c), b)
		vAssert(vIsBytes(r, w[:clamp(c)]), "take gives the first bytes")
		vReach("take")
	case 2:
		r = vCallOK("drop", vI(c), b)
		vAssert(vIsBytes(r, w[clamp(c):]), "drop gives the bytes after the first ones")
		vReach("drop")
	}
	if len(vByteSlice(r)) > 0 {
		vMutate(r, 0)
		vAssert(vIsBytes(b, w), "the result is independent of the argument")
	}
}

// append-bytes and append-bytes!.
//verif:bounds first array of 0..2 bytes; appended: an array, a list, or 1..3 (4 thorough) values, each an arbitrary integer or an array of 0..2 bytes
//verif:reach ok,range,empty
func VH_P15_append() {
	b, w := vBytes("b", vChoice("n", 3))
	orig := append([]byte{}, w...)
	bang := vChoice("bang", 2) == 1
	name := []string{"append-bytes", "append-bytes!"}[map[bool]int{false: 0, true: 1}[bang]]
	alias := vList(b)
	var rest []*Data
	ok := true
	add := []byte{}
	n := vChoice("k", 4+vTier())
	for i := 0; i < n; i++ {
		if vChoice("kind", 2) == 1 {
			x, raw := vBytes("c", vChoice("len", 3))
			if vChoice("same", 2) == 1 {
				x, raw = b, orig
			}
			rest, add = append(rest, x), append(add, raw...)
			continue
		}
		x := vInt64("x")
		rest = append(rest, vI(x))
		if vTake(x < 0 || x > 255) {
			ok = false
		} else {
			add = append(add, byte(x))
		}
	}
	args := append([]*Data{b}, rest...)
	if vChoice("aslist", 2) == 1 {
		args = []*Data{b, vList(rest...)}
	}
	r, err := vCall(name, args...)
	if n == 0 {
		vAssert(err != nil && vIsBytes(b, orig), "appending nothing is an error")
		vReach("empty")
		return
	}
	if !ok {
		vAssert(err != nil && vIsBytes(b, orig), "appending values outside 0..255 is an error and changes nothing")
		vReach("range")
		return
	}
	w = vCat(orig, add)
	vAssert(err == nil && vIsBytes(r, w), name+" joins the bytes")
	if bang {
		vAssert(vIsBytes(b, w) && vIsBytes(Car(alias), w), "append-bytes! changes its argument in place")
	} else {
		vAssert(vIsBytes(b, orig), "append-bytes leaves its argument unchanged")
		if len(w) > 0 {
			vMutate(r, 0)
			vAssert(vIsBytes(b, orig), "the result of append-bytes is independent")
		}
	}
	vReach("ok")
}

// A history of in-place and copying changes agrees with byte sequences.
//verif:bounds every sequence of 3 (quick) / 4 (thorough) changes on two arrays of 2 bytes and their copies
//verif:reach done
func VH_P15_history() {
	b, w := vBytes("b", 2)
	c, v := vCallOK("copy", b), append([]byte{}, w...)
	for i := 0; i < 3+vTier(); i++ {
		x, y := &b, &w
		if vChoice("side", 2) == 1 {
			x, y = &c, &v
		}
		val := vByte("v")
		switch vChoice("op", 4) {
		case 0:
			k := vChoice("i", 2)
			vCallOK("replace-byte!", *x, vI(int64(k)), vI(int64(val)))
			(*y)[k] = val
		case 1:
			vCallOK("append-bytes!", *x, vI(int64(val)))
			*y = append(*y, val)
		case 2:
			*x = vCallOK("append-bytes", *x, vI(int64(val)))
			*y = append(append([]byte{}, *y...), val)
		case 3:
			*x = vCallOK("replace-byte", b, vI(0), vI(int64(val)))
			*y = append([]byte{}, w...)
			(*y)[0] = val
		}
		vAssert(vIsBytes(b, w) && vIsBytes(c, v), "each change affects exactly one array")
	}
	vReach("done")
}

// Wrong kinds are errors and change nothing.
//verif:bounds 12 kinds of non-array in the array position, 5 kinds of non-integer in index, count and value positions
//verif:reach done
func VH_P15_reject() {
	b, w := vBytes("b", 2)
	vOpaque(true)
	var err error
	ni := []*Data{StringWithValue("1"), FloatWithValue(1.0), Intern("vsym"), EmptyCons(), BooleanWithValue(true), vList(vI(1))}[vChoice("ni", 6)]
	switch vChoice("op", 15) {
	case 0:
		_, err = vCall("extract-byte", vNonNumberOrInt("bad"), vI(0))
	case 1:
		_, err = vCall("replace-byte", vNonNumberOrInt("bad"), vI(0), vI(1))
	case 2:
		_, err = vCall("replace-byte!", vNonNumberOrInt("bad"), vI(0), vI(1))
	case 3:
		_, err = vCall("extract-bytes", vNonNumberOrInt("bad"), vI(0), vI(1))
	case 4:
		_, err = vCall("append-bytes", vNonNumberOrInt("bad"), vI(1))
	case 5:
		_, err = vCall("append-bytes!", vNonNumberOrInt("bad"), vI(1))
	case 6:
		_, err = vCall("bytearray->list", vNonNumberOrInt("bad"))
	case 7:
		_, err = vCall("extract-byte", b, ni)
	case 8:
		_, err = vCall("replace-byte!", b, ni, vI(1))
	case 9:
		_, err = vCall("replace-byte!", b, vI(0), ni)
	case 10:
		_, err = vCall("replace-byte", b, vI(0), ni)
	case 11:
		_, err = vCall("extract-bytes", b, ni, vI(1))
	case 12:
		_, err = vCall("extract-bytes", b, vI(0), ni)
	case 13:
		_, err = vCall("list->bytearray", vList(vI(1), ni))
	case 14:
		_, err = vCall("append-bytes!", b, vI(1), ni)
	}
	vAssert(err != nil, "wrong kinds are errors")
	vAssert(vIsBytes(b, w), "an error changes nothing")
	vReach("done")
}

// vNonNumberOrInt is any value but a byte array.
func vNonNumberOrInt(name string) *Data {
	if vChoice(name+"~int", 2) == 1 {
		return vI(vInt64(name))
	}
	d := vNonNumber(name)
	vAssume(!ObjectP(d))
	return d
}

// Long arrays and lists behave like short ones.
//verif:bounds lists of 9, 12 or 17 (thorough also 33) bytes, one element arbitrary; appending 9..17 values to an array of 0 to 17
//verif:reach built,range,appended
func VH_P15_long() {
	n := []int{9, 12, 17, 33}[vChoice("n", 3+vTier())]
	at := vChoice("at", n)
	x := vInt64("x")
	var l []*Data
	var w []byte
	wi := make([]int64, n)
	for i := 0; i < n; i++ {
		wi[i] = int64(vByte("b"))
		if i == at {
			wi[i] = x
		}
		l = append(l, vI(wi[i]))
		w = append(w, byte(wi[i]))
	}
	in := vTake(x >= 0 && x <= 255)
	if vChoice("op", 2) == 0 {
		r, err := vCall("list->bytearray", vList(l...))
		if !in {
			vAssert(err != nil, "values outside 0..255 are errors")
			vReach("range")
			return
		}
		vAssert(err == nil && vIsBytes(r, w), "a byte array holds the listed bytes")
		vAssert(vSeq(vCallOK("bytearray->list", r), wi), "the list of a byte array has its bytes")
		vAssert(vIsInt(vCallOK("length", r), int64(n)), "length of a byte array")
		vReach("built")
		return
	}
	b, o := vBytes("c", []int{0, 1, 17}[vChoice("m", 3)])
	bang := vChoice("bang", 2)
	args := append([]*Data{b}, l...)
	if vChoice("aslist", 2) == 1 {
		args = []*Data{b, vList(l...)}
	}
	r, err := vCall([]string{"append-bytes", "append-bytes!"}[bang], args...)
	if !in {
		vAssert(err != nil && vIsBytes(b, o), "appending values outside 0..255 is an error and changes nothing")
		vReach("range")
		return
	}
	vAssert(err == nil && vIsBytes(r, vCat(o, w)), "appending joins the bytes")
	if bang == 0 {
		vAssert(vIsBytes(b, o), "append-bytes leaves its argument unchanged")
	} else {
		vAssert(vIsBytes(b, vCat(o, w)), "append-bytes! changes its argument in place")
	}
	vReach("appended")
}
