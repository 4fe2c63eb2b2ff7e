package golisp

// vMakeFn is a function with r required parameters and, if rest, a rest
// parameter; it returns the list of its parameters' values through vprobe.
func vFnForm(how, r int, rest bool) string {
	ps, body := "", ""
	for i := 0; i < r; i++ {
		ps += " p" + vIntString(i)
		body += " p" + vIntString(i)
	}
	if rest {
		ps += " . pr"
		body += " pr"
	}
	switch how {
	case 0:
		return "(lambda (" + ps + ") (vprobe" + body + "))"
	case 1:
		return "(named-lambda (vfn " + ps + ") (vprobe" + body + "))"
	default:
		return "(begin (define (vfn " + ps + ") (vprobe" + body + ")) vfn)"
	}
}

// A call binds each parameter to its argument and the rest parameter to the
// remaining ones; the wrong number of arguments is an error and the body does
// not run. apply and the function position agree.
//verif:bounds lambda, named-lambda and define; 0..3 required parameters, with and without a rest parameter; 0..5 arguments; called directly, through apply with the arguments spread or in the list, and through map
//verif:reach ok,error
func VH_P30_bind() {
	how := vChoice("how", 3)
	r, rest := vChoice("required", 4), vChoice("rest", 2) == 1
	if how == 0 && r == 0 {
		vAssume(!rest) // (lambda (. x) ...) is not a parameter list
	}
	env := vEnv()
	f, err := Eval(vParse(vFnForm(how, r, rest)), env)
	vAssert(err == nil && FunctionP(f), "a function definition")
	n := vChoice("args", 6)
	args := make([]*Data, n)
	x := make([]int64, n)
	for i := range args {
		x[i] = vInt64("x")
		args[i] = vI(x[i])
	}
	vProbeCalls = nil
	vProbeAnswer = func(int, []*Data) (*Data, error) { return vI(77), nil }
	var res *Data
	switch vChoice("call", 4) {
	case 0:
		form := vList(append([]*Data{f}, args...)...)
		res, err = Eval(form, env)
	case 1:
		l := vList(args...)
		res, err = vCall("apply", f, l)
		vAssert(vSeq(l, x), "apply leaves its arguments unchanged")
	case 2:
		vAssume(n > 0)
		res, err = vCall("apply", append(append([]*Data{f}, args[:n-1]...), vList(args[n-1]))...)
	case 3:
		vAssume(n > 0)
		ls := []*Data{f}
		for i := range args {
			ls = append(ls, vList(args[i]))
		}
		res, err = vCall("map", ls...)
		if err == nil {
			res = Car(res)
		}
	}
	if n < r || n > r && !rest {
		vAssert(err != nil, "the wrong number of arguments is an error")
		vAssert(len(vProbeCalls) == 0, "the body does not run after a wrong number of arguments")
		vReach("error")
		return
	}
	vAssert(err == nil && vIsInt(res, 77), "the call gives the value of the body")
	vAssert(len(vProbeCalls) == 1, "the body runs once")
	got := vProbeCalls[0]
	for i := 0; i < r; i++ {
		vAssert(vIsInt(got[i], x[i]), "a required parameter is bound to its argument")
	}
	if rest {
		vAssert(vSeq(got[r], x[r:]), "the rest parameter is bound to the remaining arguments")
	}
	vReach("ok")
}

// Arguments are evaluated once each, left to right, before the body; an error
// in one of them ends the call.
//verif:bounds user-defined functions with 3 parameters, with and without rest, and primitives; an error in any argument
//verif:reach ok,error
func VH_P30_order() {
	env := vEnv()
	n := 3
	callee := []string{"(lambda (a b c) (vprobe 9))", "(lambda (a . r) (vprobe 9))", "vprobe", "list"}[vChoice("callee", 4)]
	form := "(" + callee + " (vprobe 0) (vprobe 1) (vprobe 2))"
	e := vChoice("err", n+1)
	var x []int64
	for i := 0; i < n; i++ {
		x = append(x, vInt64("x"))
	}
	vProbeCalls = nil
	vProbeAnswer = func(i int, a []*Data) (*Data, error) {
		if i == e {
			return nil, vErrBoom
		}
		if i < n {
			return vI(x[i]), nil
		}
		return vI(55), nil
	}
	res, err := Eval(vParse(form), env)
	upto := n
	if e < n {
		upto = e + 1
		vAssert(err != nil, "an error in an argument is the result of the call")
	}
	body := callee != "list" && e >= n
	if body {
		vAssert(len(vProbeCalls) == upto+1, "each argument is evaluated once, then the body")
	} else {
		vAssert(len(vProbeCalls) == upto, "each argument is evaluated once, up to the error")
	}
	for i := 0; i < upto; i++ {
		vAssert(len(vProbeCalls[i]) == 1 && vIsInt(vProbeCalls[i][0], int64(i)), "arguments are evaluated left to right")
	}
	if e < n {
		vReach("error")
		return
	}
	switch callee {
	case "list":
		vAssert(vSeq(res, x), "the arguments are the values")
	case "vprobe":
		a := vProbeCalls[n]
		vAssert(len(a) == n && vIsInt(a[0], x[0]) && vIsInt(a[1], x[1]) && vIsInt(a[2], x[2]), "the arguments are the values")
	}
	vReach("ok")
}

// Argument values that look like code are not evaluated again.
//verif:bounds symbols, quoted lists and lists naming functions passed through direct calls, apply, map and fold to primitives and user-defined functions
//verif:reach done
func VH_P30_once() {
	v := []*Data{Intern("vundefined"), vParse("(vprobe 1)"), vParse("(car x)"), Intern("car"), vParse("(quote x)"), vParse("(1 2)")}[vChoice("v", 6)]
	before := vClone(v)
	f := []*Data{vExId, vExCar1, vExPrimList}[vChoice("f", 3)]
	vProbeCalls = nil
	vProbeAnswer = func(int, []*Data) (*Data, error) { return vI(77), nil }
	var res *Data
	switch vChoice("how", 3) {
	case 0:
		res = vCallOK("apply", f, vList(v))
	case 1:
		res = Car(vCallOK("map", f, vList(v)))
	case 2:
		r, err := Eval(vList(f, Intern("va0")), vLet(v))
		vAssert(err == nil, "a call with a value from a variable")
		res = r
	}
	if f != vExId {
		res = Car(res)
	}
	vAssert(vExact(res, before), "an argument value is passed as it is")
	vAssert(len(vProbeCalls) == 0, "an argument value is not evaluated")
	vReach("done")
}

var vExCar1, vExPrimList *Data

func init() {
	vExCar1 = vMust("(lambda (x) (list x))")
	vExPrimList = vMust("list")
}

// A primitive runs exactly when the argument count matches its declaration.
//verif:bounds argument specifications with exact counts, alternatives, minimum, ranges and any, 0..6 arguments
//verif:reach ok,error
func VH_P30_spec() {
	specs := []struct {
		s string
		n [7]bool
	}{
		{"0", [7]bool{true}},
		{"2", [7]bool{false, false, true}},
		{"1|3", [7]bool{false, true, false, true}},
		{"0|1|2", [7]bool{true, true, true}},
		{">=0", [7]bool{true, true, true, true, true, true, true}},
		{">=3", [7]bool{false, false, false, true, true, true, true}},
		{"1|>=4", [7]bool{false, true, false, false, true, true, true}},
		{"(1,3)", [7]bool{false, true, true, true}},
		{"(0,2)|5", [7]bool{true, true, true, false, false, true}},
		{"*", [7]bool{true, true, true, true, true, true, true}},
	}
	s := specs[vChoice("spec", len(specs))]
	special := vChoice("special", 2) == 1
	ran := 0
	body := func(args *Data, env *SymbolTableFrame) (*Data, error) {
		ran++
		return vI(int64(Length(args))), nil
	}
	if special {
		MakeSpecialForm("vspec", s.s, body)
	} else {
		MakePrimitiveFunction("vspec", s.s, body)
	}
	n := vChoice("args", 7)
	args := make([]*Data, n)
	for i := range args {
		args[i] = vI(vInt64("x"))
	}
	var r *Data
	var err error
	if vChoice("how", 2) == 0 {
		r, err = Eval(Cons(Intern("vspec"), vList(args...)), vEnv())
	} else {
		r, err = ApplyWithoutEval(vMust("vspec"), vList(args...), vEnv())
	}
	if s.n[n] {
		vAssert(err == nil && vIsInt(r, int64(n)) && ran == 1, "a permitted argument count runs the primitive")
		vReach("ok")
	} else {
		vAssert(err != nil && ran == 0, "other argument counts are errors")
		vReach("error")
	}
}

// The rest parameter is a list of its own: changing it changes neither the
// caller's list nor what a later call gets.
//verif:bounds 0..2 required parameters and a rest parameter receiving 1..3 arguments; the caller's list applied as a whole or behind spread arguments; the first or last pair of the rest list changed in its car or cdr; the call repeated
//verif:reach done
func VH_P30_fresh() {
	r := vChoice("required", 3)
	how := vChoice("how", 3)
	if how == 0 && r == 0 {
		how = 1
	}
	env := vEnv()
	f, err := Eval(vParse(vFnForm(how, r, true)), env)
	vAssert(err == nil && FunctionP(f), "a function definition")
	n := r + 1 + vChoice("args", 3)
	l, x := vIntList("x", n)
	spread := vChoice("spread", r+1)
	last, set := vChoice("last", 2) == 1, []string{"set-car!", "set-cdr!"}[vChoice("set", 2)]
	vProbeCalls = nil
	vProbeAnswer = func(_ int, a []*Data) (*Data, error) {
		vAssert(vSeq(a[r], x[r:]), "the rest parameter is bound to the remaining arguments")
		c := a[r]
		if last {
			for NotNilP(Cdr(c)) {
				c = Cdr(c)
			}
		}
		vCallOK(set, c, vI(99))
		return vI(77), nil
	}
	args := []*Data{f}
	tail := l
	for i := 0; i < spread; i++ {
		args = append(args, Car(tail))
		tail = Cdr(tail)
	}
	args = append(args, tail)
	for i := 0; i < 2; i++ {
		vAssert(vIsInt(vCallOK("apply", args...), 77), "the call gives the value of the body")
		vAssert(vSeq(l, x), "changing the rest list leaves the caller's list as it was")
	}
	vReach("done")
}
