package golisp

type vPureOp struct {
	name string
	args string // l list, m second list, i index, f function, p predicate, x integer, n nested list, a association list
	kind int    // 0 fresh result, 1 result may be a tail of an argument, 2 not a list
}

var vPureOps = []vPureOp{
	{"list", "xx", 0}, {"length", "n", 2}, {"cons", "xl", 1}, {"cons*", "xl", 1}, {"reverse", "l", 0}, {"flatten", "n", 0}, {"flatten*", "n", 0},
	{"append", "lm", 0}, {"append", "lml", 0}, {"append", "xl", 0}, {"append", "nx", 0}, {"copy", "n", 0}, {"partition", "il", 0}, {"partition", "pl", 0}, {"sublist", "lii", 0}, {"sort", "lq", 0},
	{"take", "il", 0}, {"drop", "il", 1}, {"list-head", "li", 0}, {"list-tail", "li", 1}, {"nth", "li", 2}, {"list-ref", "li", 2}, {"last-pair", "l", 1},
	{"first", "n", 2}, {"car", "n", 2}, {"cdr", "n", 1}, {"cadr", "n", 2},
	{"map", "fl", 0}, {"map", "glm", 0}, {"for-each", "fl", 2}, {"any", "pl", 2}, {"every", "pl", 2}, {"filter", "pl", 0}, {"remove", "pl", 0},
	{"find", "pl", 2}, {"find-tail", "pl", 1}, {"memq", "xl", 1}, {"fold-left", "gxl", 2}, {"fold-right", "gxl", 2}, {"reduce", "gxl", 2}, {"reduce-right", "gxl", 2},
	{"union", "lm", 0}, {"intersection", "lm", 0}, {"complement", "lm", 0}, {"union", "nn", 0}, {"intersection", "nn", 0}, {"complement", "nn", 0},
	{"assoc", "xa", 1}, {"rassoc", "xa", 1}, {"dissoc", "xa", 0}, {"pairlis", "lm", 0}, {"alist", "a", 0},
	{"apply", "gl", 2}, {"apply", "Ll", 0}, {"apply", "Lxl", 0}, {"apply", "Fl", 0}, {"list->bytearray", "b", 2}, {"string-join", "s", 2}, {"str", "n", 2}, {"equal?", "nn", 2},
	{"max", "l", 2}, {"min", "l", 2}, {"atom?", "l", 2}, {"eval", "e", 2}, {"list?", "l", 2}, {"nil?", "l", 2},
}

var vExPred, vExAdd, vExLess, vExRest *Data

func init() {
	vExPred = vMust("(lambda (x) (> x 0))")
	vExAdd = vMust("(lambda (x y) (+ x y))")
	vExLess = vMust("<")
	vExRest = vMust("(lambda (x . r) r)")
}

// vPureLen is a number below small, or long for the functions that do not
// compare elements.
func vPureLen(name string, op vPureOp, small, long int) int {
	n := small
	switch op.name {
	case "union", "intersection", "complement", "sort", "max", "min", "memq", "pairlis":
	default:
		n++
		for _, k := range op.args {
			if k == 'p' || k == 'q' {
				n = small
			}
		}
	}
	k := vChoice(name, n)
	if k == small {
		return long
	}
	return k
}

// No function other than the ! ones changes its arguments, and its result can
// be changed at its top-level cells without changing the arguments.
//verif:bounds 60 call shapes of every list function, lists of 1..3 (and 9 to 11 where no element is compared) arbitrary integers, nested lists, association lists, every 64-bit index; every top-level cell of the result changed
//verif:reach pure,fresh
func VH_P11_arguments() {
	op := vPureOps[vChoice("op", len(vPureOps))]
	var args []*Data
	for _, k := range op.args {
		var d *Data
		switch k {
		case 'l':
			d, _ = vIntList("l", 1+vPureLen("nl", op, 3, 10))
		case 'm':
			d, _ = vIntList("m", 1+vPureLen("nm", op, 2, 8))
		case 'n':
			a, _ := vIntList("n", 1)
			b, _ := vIntList("n", 1)
			d = vList(a, vI(vInt64("n")), b)
		case 'a':
			d = vList(Cons(vI(vInt64("k")), vI(vInt64("v"))), Cons(vI(vInt64("k")), vI(vInt64("v"))))
		case 'i', 'x':
			d = vI(vInt64("i"))
		case 'f':
			d = vExId
		case 'g':
			d = vExAdd
		case 'p':
			d = vExPred
		case 'q':
			d = vExLess
		case 'L':
			d = vExPrimList
		case 'F':
			d = vExRest
		case 'b':
			d = vList(vI(vInt("b", 0, 255)), vI(vInt("b", 0, 255)))
		case 's':
			d = vList(StringWithValue("a"), StringWithValue("b"))
		case 'e':
			d = vList(Intern("+"), vI(vInt64("x")), vList(Intern("-"), vI(vInt64("x"))))
		}
		args = append(args, d)
	}
	before := make([]*Data, len(args))
	for i := range args {
		before[i] = vClone(args[i])
	}
	vOpaque(true)
	r, err := vCall(op.name, args...)
	for i := range args {
		vAssert(vExact(args[i], before[i]), "an argument of "+op.name+" is unchanged")
	}
	vReach("pure")
	if err != nil || op.kind != 0 || NilP(r) || !ListP(r) {
		return
	}
	n := 0
	for c := r; NotNilP(c) && ListP(c); c = Cdr(c) {
		n++
	}
	k := vChoice("cell", n)
	c := r
	for i := 0; i < k; i++ {
		c = Cdr(c)
	}
	vMutate(c, vChoice("how", 2))
	for i := range args {
		vAssert(vExact(args[i], before[i]), "changing the result of "+op.name+" leaves its arguments unchanged")
	}
	vReach("fresh")
}

// The mutating functions change exactly the cell they name.
//verif:bounds lists of 1..4, 12 or 17 arbitrary integers sharing tails with two other lists, every 64-bit index of set-nth!, every cell of set-car! and set-cdr!
//verif:reach car,cdr,nth,append
func VH_P11_mutators() {
	n := vLen("n", 5)
	vAssume(n > 0)
	l, x := vIntList("x", n)
	y := vInt64("y")
	other, ox := vIntList("o", 2)
	shared := Cons(vI(y), l) // shares all of l
	env := vLet(l, vI(y), other, shared)
	k := vChoice("k", n)
	cell := l
	for i := 0; i < k; i++ {
		cell = Cdr(cell)
	}
	env.BindLocallyTo(Intern("vcell"), cell)
	w := append([]int64{}, x...)
	switch vChoice("op", 4) {
	case 0:
		r, err := Eval(vParse("(set-car! vcell va1)"), env)
		vAssert(err == nil && vIsInt(r, y), "set-car! gives the value")
		w[k] = y
		vReach("car")
	case 1:
		_, err := Eval(vParse("(set-cdr! vcell va2)"), env)
		vAssert(err == nil, "set-cdr! of a pair")
		w = append(w[:k+1], ox...)
		vReach("cdr")
	case 2:
		i := vInt64("i")
		env.BindLocallyTo(Intern("vi"), vI(i))
		_, err := Eval(vParse("(set-nth! va0 vi va1)"), env)
		vAssert(err == nil, "set-nth! with an integer index")
		for j := range w {
			if vTake(int64(j)+1 == i) {
				w[j] = y
			}
		}
		vReach("nth")
	case 3:
		r, err := Eval(vParse("(append! va0 va2)"), env)
		vAssert(err == nil, "append! of lists")
		w = append(w, ox...)
		vAssert(vSeq(r, w), "append! gives the joined list")
		v, _ := Eval(vParse("va0"), env)
		vAssert(vSeq(v, w), "append! changes the variable it names")
		vReach("append")
	}
	vAssert(vSeq(l, w), "exactly the named cell changes")
	vAssert(vIsInt(Car(shared), y) && vSeq(Cdr(shared), w), "the change is visible through every reference, and nothing else changes")
	vAssert(vSeq(other, ox), "the other list is unchanged")
}

// append! of an atom and to an empty list.
//verif:bounds lists of 0..3, 12 or 17 arbitrary integers, atom or list appended
//verif:reach done
func VH_P11_appendBang() {
	n := vLen("n", 4)
	l, x := vIntList("x", n)
	if l == nil {
		l = EmptyCons()
	}
	y := vInt64("y")
	var w []int64
	var second *Data
	if vChoice("atom", 2) == 1 {
		second, w = vI(y), append(append([]int64{}, x...), y)
	} else {
		o, ox := vIntList("o", vChoice("m", 3))
		second, w = o, append(append([]int64{}, x...), ox...)
	}
	env := vLet(l, second)
	r, err := Eval(vParse("(append! va0 va1)"), env)
	vAssert(err == nil && vSeq(r, w), "append! gives the list with the elements added")
	v, _ := Eval(vParse("va0"), env)
	vAssert(vSeq(v, w), "append! updates the variable, also from empty")
	if n > 0 {
		vAssert(vSeq(l, w), "append! extends the list itself")
	}
	vAssert(NilP(EmptyCons()), "the empty list stays empty")
	vReach("done")
}
