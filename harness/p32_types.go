package golisp

// vKinds lists one arbitrary value of every kind of value a program can get
// hold of, with the type predicates that hold of it.
const vKindCount = 21

func vKind(name string, k int) (d *Data, holds []string) {
	switch k {
	case 0:
		return vI(vInt64(name)), []string{"atom?", "integer?", "number?"}
	case 1:
		return FloatWithValue(vFloat32(name)), []string{"atom?", "float?", "number?"}
	case 2:
		return BooleanWithValue(vBool(name)), []string{"atom?", "boolean?"}
	case 3:
		return StringWithValue(vString(name, vLen(name, 4))), []string{"atom?", "string?"}
	case 4:
		s := vString(name, 1+vChoice(name, 2))
		vAssumeASCII(s)
		return Intern("v" + s), []string{"atom?", "symbol?"}
	case 5:
		return Intern("vs1:"), []string{"atom?", "symbol?"}
	case 6:
		return EmptyCons(), []string{"list?", "pair?", "nil?", "null?"}
	case 7:
		n := vLen(name, 3)
		return Cons(vKindElem(name), vCallOK("make-list", vI(int64(n)), vKindElem(name))), []string{"list?", "pair?"}
	case 8:
		return Cons(vI(vInt64(name)), vI(vInt64(name))), []string{"list?", "pair?"}
	case 9:
		return Acons(vKindElem(name), vKindElem(name), nil), []string{"alist?"}
	case 10:
		d, _ = vBytes(name, vChoice(name, 3))
		return d, []string{"bytearray?"}
	case 11:
		return vMust("(make-channel)"), nil
	case 12:
		return vMust("(atomic 1)"), nil
	case 13:
		f := vCallOK("make-frame", Intern("vs1:"), vKindElem(name))
		return f, []string{"frame?"}
	case 14:
		return vMust("(make-frame)"), []string{"frame?"}
	case 15:
		return vMust("(lambda (x) x)"), []string{"function?"}
	case 16:
		return vMust("car"), []string{"function?"}
	case 17:
		d, err := vTotMacro()
		if err != nil {
			panic(err)
		}
		return d, []string{"macro?"}
	case 18:
		return vMust("(the-environment)"), []string{"environment?"}
	case 19:
		return vMust(`(open-input-file "/dev/null")`), []string{"port?"}
	}
	return vMust(`(read (open-input-file "/dev/null"))`), []string{"atom?", "symbol?", "eof-object?"}
}

// vKindElem is some value inside another one.
func vKindElem(name string) *Data {
	return vOneOf(name, []*Data{vI(vInt64(name)), EmptyCons(), FloatWithValue(vFloat32(name)), BooleanWithValue(vBool(name)),
		StringWithValue(vString(name, 2)), Intern("vs1"), vExFn, vExPrim, vExEnv, vByteArray([]byte{1}), Acons(vI(1), vI(2), nil)})
}

var vTypePreds = []string{"atom?", "list?", "pair?", "alist?", "nil?", "null?", "symbol?", "string?", "integer?",
	"number?", "float?", "function?", "macro?", "frame?", "bytearray?", "port?", "boolean?", "environment?", "eof-object?"}

func vHolds(holds []string, p string) bool {
	for _, h := range holds {
		if h == p {
			return true
		}
	}
	return false
}

// Every predicate holds of exactly the kinds it names, called directly, under
// another name and through a higher-order function; the answer is the same the
// second time, and notnil? is the negation of nil?.
//verif:bounds one value of each of 21 kinds with arbitrary contents (strings and lists up to the stated sizes), every type predicate
//verif:reach done
func VH_P32_table() {
	k := vChoice("k", vKindCount)
	d, holds := vKind("x", k)
	pi := vChoice("p", len(vTypePreds)+2)
	if pi >= len(vTypePreds) {
		name := []string{"notnil?", "notnull?"}[pi-len(vTypePreds)]
		vAssert(vIsBool(vCallOK(name, d), !vHolds(holds, "nil?")), name+" holds of everything but the empty list")
		vReach("done")
		return
	}
	name := vTypePreds[pi]
	w := vHolds(holds, name)
	vAssert(vIsBool(vCallOK(name, d), w), name+" holds of exactly the values of its kind")
	vAssert(vIsBool(vCallOK("apply", vMust(name), vList(d)), w), name+" gives the same answer through apply")
	r := vCallOK("map", vMust(name), vList(d, d))
	vAssert(Length(r) == 2 && vIsBool(Car(r), w) && vIsBool(Cadr(r), w), name+" gives the same answers through map")
	vReach("done")
}

// The kind of a value does not change when it is stored and fetched again: as
// a list element, a dotted tail, a slot, a variable, an association or across a
// channel.
//verif:bounds one value of each of 21 kinds (not the empty list), every type predicate, 8 ways of storing
//verif:reach done
func VH_P32_carried() {
	k := vChoice("k", vKindCount)
	if k == 6 {
		k = 0
	}
	d, holds := vKind("x", k)
	name := vTypePreds[vChoice("p", len(vTypePreds))]
	ways := []string{
		"(%% (car (list va0 1)))",
		"(%% (cdr (cons 1 va0)))",
		"(%% (get-slot {vk0: va0} vk0:))",
		"(let ((vb 1)) (set! vb va0) (%% vb))",
		"(%% (cdr (assoc 'vk0 (acons 'vk0 va0))))",
		"((lambda (vb . vc) (%% (car vc))) 1 va0)",
		"(let ((vb (make-channel 1))) (channel-write vb va0) (%% (car (channel-read vb))))",
		"(let ((vb (atomic 1))) (%% (if #t va0 1)))",
	}
	w := ways[vChoice("way", len(ways))]
	src := ""
	for i := 0; i < len(w); i++ {
		if w[i] == '%' && i+1 < len(w) && w[i+1] == '%' {
			src += name
			i++
		} else {
			src += w[i : i+1]
		}
	}
	r, err := vEvalWith(vParse(src), d)
	vAssert(err == nil && vIsBool(r, vHolds(holds, name)), name+" gives the same answer on a stored value")
	vReach("done")
}

// Wrong argument counts are errors.
//verif:bounds every type predicate, 0 and 2 arguments
//verif:reach done
func VH_P32_count() {
	name := vTypePreds[vChoice("p", len(vTypePreds))]
	d := vI(vInt64("x"))
	var err error
	if vBool("none") {
		_, err = vCall(name)
	} else {
		_, err = vCall(name, d, d)
	}
	vAssert(err != nil, name+" takes one argument")
	vReach("done")
}
