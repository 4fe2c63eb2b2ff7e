package golisp

// vReadBack prints a value and reads it again.
func vReadBack(d *Data) *Data {
	r, err := Parse(String(d))
	vAssert(err == nil, "a printed value must be readable")
	return r
}

func vSmallInt(name string) *Data {
	x := vInt64(name)
	w := int64(999)
	if vTier() > 0 {
		w = 9999
	}
	vAssume(uint64(x+w) <= uint64(2*w))
	return vI(x)
}

// vPrintable is a value whose printed form denotes it.
func vPrintable(depth int, leaf func() *Data) *Data {
	if depth == 0 {
		return leaf()
	}
	switch vChoice("shape", 4) {
	case 0:
		return leaf()
	case 1:
		n := vChoice("len", 3)
		if n == 2 && vBool("long") {
			return vList(vPrintable(depth-1, leaf), vI(1), vI(2), Intern("c"))
		}
		l := make([]*Data, n)
		for i := range l {
			l[i] = vPrintable(depth-1, leaf)
		}
		return vOrNil(vList(l...))
	case 2:
		n := 1 + vChoice("len", 2)
		t := leaf()
		vAssume(!NilP(t))
		for i := 0; i < n; i++ {
			t = Cons(vPrintable(depth-1, leaf), t)
		}
		return t
	}
	n := 1 + vChoice("len", 2)
	r := EmptyCons()
	for i := 0; i < n; i++ {
		r = vCallOK("acons", vKeyN(i), vPrintable(depth-1, leaf), r)
	}
	return r
}

func vPrintLeaf() *Data {
	switch vChoice("leaf", 7) {
	case 0:
		return vI([]int64{0, -7, 120}[vChoice("i", 3)])
	case 1:
		return EmptyCons()
	case 2:
		return BooleanWithValue(vBool("b"))
	case 3:
		return Intern([]string{"a", "b:", "+", "->x?", "quote", "nil", "quasiquote", "unquote"}[vChoice("sym", 8)])
	case 4:
		s := vString("s", 1)
		vAssume(s[0]-1 < 0x7f)
		return StringWithValue(s)
	case 5:
		return FloatWithValue([]float32{0.5, -1.25, 3, 1e30, 1e-7, 123456}[vChoice("f", 6)])
	}
	return vByteArray([]byte{0, 200, 7}[:vChoice("n", 4)])
}

func vHasQuote(d *Data) bool {
	// a list of the symbol quote alone prints as '()
	if NilP(d) || d.Type != ConsCellType && d.Type != AlistType && d.Type != AlistCellType {
		return false
	}
	if SymbolP(Car(d)) && StringValue(Car(d)) == "quote" && NilP(Cdr(d)) {
		return true
	}
	return vHasQuote(Car(d)) || vHasQuote(Cdr(d))
}

//verif:bounds values of depth 1 over every kind of atom (up to 2 elements, proper, dotted and association lists; and lists of 4 whose first element is any atom)
//verif:reach end
//verif:secs 90
func VH_P20_values() {
	d := vPrintable(1, vPrintLeaf)
	if vHasQuote(d) {
		return
	}
	r := vReadBack(d)
	vAssert(vPrintedSame(d, r), "the printed form read back is equal")
	e, err := vCall("equal?", d, r)
	vAssert(err == nil && vTrue(e), "the printed form read back is equal")
	vReach("end")
}

//verif:bounds values of depth 2 (3 thorough), lists of up to 2 elements, or 4 of which the first is arbitrary, over integers, symbols and nil
//verif:reach end
//verif:secs 90
func VH_P20_nested() {
	d := vPrintable(2+vTier(), func() *Data {
		switch vChoice("leaf", 3) {
		case 0:
			return vI(7)
		case 1:
			return EmptyCons()
		}
		return Intern("quote")
	})
	if vHasQuote(d) {
		return
	}
	r := vReadBack(d)
	vAssert(vPrintedSame(d, r), "the printed form read back is equal")
	vReach("end")
}

// vPrintedSame: association lists read back as lists of pairs.
func vPrintedSame(a, b *Data) bool {
	if NilP(a) || NilP(b) {
		return NilP(a) && NilP(b)
	}
	isPair := func(d *Data) bool { return d.Type == ConsCellType || d.Type == AlistType || d.Type == AlistCellType }
	if isPair(a) || isPair(b) {
		return isPair(a) && isPair(b) && vPrintedSame(Car(a), Car(b)) && vPrintedSame(Cdr(a), Cdr(b))
	}
	return vSame(a, b)
}

//verif:bounds every string of up to 4 characters of ASCII, NUL aside
//verif:reach end
//verif:secs 60
func VH_P20_strings() {
	s := vString("s", vChoice("len", 5))
	for i := 0; i < len(s); i++ {
		vAssume(s[i]-1 < 0x7f)
	}
	r := vReadBack(StringWithValue(s))
	vAssert(StringP(r) && StringValue(r) == s, "a printed string reads back")
	vReach("end")
}

//verif:bounds strings of one or two characters of any plane of Unicode
//verif:reach end
func VH_P20_unicode() {
	t := []string{"é", "\u0085", "\u00a0", "日", "\U0001F600", "\u200b", "ß\"", "\\日", "日\\", "\"é"}
	s := t[vChoice("a", len(t))] + t[vChoice("b", len(t))]
	r := vReadBack(StringWithValue(s))
	vAssert(StringP(r) && StringValue(r) == s, "a printed string reads back")
	vReach("end")
}

//verif:bounds every byte array of up to 2 bytes; every integer of up to 3 digits (4 thorough) and the powers of two and ten and their neighbours up to the ends of the range
//verif:reach end
//verif:secs 60
func VH_P20_integers() {
	var d *Data
	if vBool("bytes") {
		b, keep := vBytes("by", vChoice("n", 3))
		r := vReadBack(b)
		vAssert(ObjectP(r) && ObjectType(r) == "[]byte" && vSameBytes(vByteSlice(r), keep), "a printed byte array reads back")
		return
	}
	if vBool("small") {
		d = vSmallInt("x")
	} else {
		d = vI(vEdgeInt())
	}
	r := vReadBack(d)
	vAssert(IntegerP(r) && IntegerValue(r) == IntegerValue(d), "a printed integer reads back")
	vReach("end")
}

func vEdgeInt() int64 {
	k := vChoice("edge", 82)
	var x int64
	if k < 64 {
		x = int64(uint64(1) << uint(k))
	} else {
		x = 1
		for i := 63; i < k; i++ {
			x *= 10
		}
	}
	x += int64(vChoice("off", 3)) - 1
	if vBool("neg") {
		x = -x
	}
	return x
}

// Conversion between numbers and text.
//
//verif:bounds bases 2, 8 and 16: every integer of up to 10 bits (20 thorough); base 10: up to 3 digits (4 thorough); and the values around powers of two and ten in every base
//verif:reach end
//verif:secs 120
func VH_P20_bases() {
	base := []int64{2, 8, 10, 16, 0}[vChoice("base", 5)]
	var d *Data
	switch {
	case vBool("edge"):
		d = vI(vEdgeInt())
	case base == 10 || base == 0:
		d = vSmallInt("x")
	default:
		x := vInt64("x")
		w := int64(1023)
		if vTier() > 0 {
			w = 1<<20 - 1
		}
		vAssume(uint64(x+w) <= uint64(2*w))
		d = vI(x)
	}
	var t, r *Data
	if base == 0 {
		t = vCallOK("number->string", d)
		r = vCallOK("string->number", t)
	} else {
		t = vCallOK("number->string", d, vI(base))
		r = vCallOK("string->number", t, vI(base))
	}
	vAssert(StringP(t), "a text")
	vAssert(IntegerP(r) && IntegerValue(r) == IntegerValue(d), "the text converts back to the number")
	if base == 10 || base == 0 {
		p, err := Parse(StringValue(t))
		vAssert(err == nil && IntegerP(p) && IntegerValue(p) == IntegerValue(d), "the decimal text is the printed form")
	}
	vReach("end")
}

// The text of a number in a base is its digits.
//
//verif:bounds any 3 digits in each base
//verif:reach end
func VH_P20_digits() {
	base := []int64{2, 8, 10, 16}[vChoice("base", 4)]
	n := 1 + vChoice("n", 3)
	s := vString("s", n)
	var v int64
	for i := 0; i < n; i++ {
		c := int64(s[i])
		var x int64
		if c >= 'a' {
			x = c - 'a' + 10
		} else {
			vAssume(c >= '0' && c <= '9')
			x = c - '0'
		}
		vAssume(x < base)
		v = v*base + x
	}
	vAssume(s[0] != '0')
	t := vCallOK("number->string", vI(v), vI(base))
	vAssert(StringP(t) && StringValue(t) == s, "the digits of the number")
	r := vCallOK("string->number", StringWithValue(s), vI(base))
	vAssert(vIsInt(r, v), "the number with these digits")
	vReach("end")
}

// Frames: the printed form is an expression for an equal frame.
//
//verif:bounds frames of up to 3 slots of integers, booleans, strings, byte arrays, nil and one more level of frames
//verif:reach end
//verif:secs 60
func VH_P20_frames() {
	d := vFrameOf(1)
	e, err := Eval(vReadBack(d), vEnv())
	vAssert(err == nil && FrameP(e), "the printed frame is an expression for a frame")
	vAssert(vSame(d, e), "equal to the original")
	q, err := vCall("equal?", d, e)
	vAssert(err == nil && vTrue(q), "equal to the original")
	vReach("end")
}

func vFrameOf(depth int) *Data {
	f := vCallOK("make-frame")
	n := vChoice("slots", 3)
	for i := 0; i < n; i++ {
		var v *Data
		switch vChoice("kind", 5+depth) {
		case 0:
			v = vI([]int64{0, -7, 120}[vChoice("i", 3)])
		case 1:
			v = BooleanWithValue(vBool("b"))
		case 2:
			s := vString("s", 1)
			vAssume(s[0]-1 < 0x7f)
			v = StringWithValue(s)
		case 3:
			v = vByteArray([]byte{0, 200, 7}[:vChoice("n", 4)])
		case 4:
			v = EmptyCons()
		case 5:
			v = vFrameOf(depth - 1)
		}
		vCallOK("set-slot!", f, vSlotN(i), v)
	}
	return f
}
