package golisp

// vTmpl generates a quasiquotation template and what it must evaluate to.
type vTmpl struct {
	probes int
	vals   []*Data // value of each probe
	full   bool // all kinds of values
	nest   bool // one of the elements is a list already
}

func (t *vTmpl) probe(v *Data) *Data {
	i := t.probes
	t.probes++
	t.vals = append(t.vals, v)
	return vList(Intern("vprobe"), vI(int64(i)))
}

func (t *vTmpl) value() *Data {
	k := 2
	if t.full {
		k = 4
	}
	switch vChoice("value", k) {
	case 0:
		return vI(vInt64("v"))
	case 1:
		return nil
	case 2:
		return EmptyCons()
	}
	return vList(vI(vInt64("v")), vList(Intern("unquote"), Intern("vsym")))
}

// elem is one element: the template and the elements it gives.
func (t *vTmpl) elem(depth int) (*Data, []*Data) {
	k := 4
	if depth > 0 && !t.full && (!t.nest || vTier() > 0) {
		k = 5
	}
	switch vChoice("elem", k) {
	case 0:
		d := t.atom()
		return d, []*Data{d}
	case 1:
		v := t.value()
		return vList(Intern("unquote"), t.probe(v)), []*Data{v}
	case 2:
		n := vChoice("splice", 3)
		vs := make([]*Data, n)
		for i := range vs {
			vs[i] = vI(vInt64("s"))
			if i == 0 && t.full {
				vs[i] = t.atom()
			}
		}
		return vList(Intern("unquote-splicing"), t.probe(vOrNil(vList(vs...)))), vs
	case 3:
		if !t.full {
			d := Intern("vsym")
			return d, []*Data{d}
		}
		// the unquoted expression is a call with an inner list and quoted data
		v := t.value()
		return vList(Intern("unquote"), vList(Intern("car"), vList(Intern("list"), t.probe(v), vList(Intern("quote"), vList(Intern("vsym")))))), []*Data{v}
	}
	t.nest = true
	d, v := t.list(depth - 1)
	return d, []*Data{v}
}

func (t *vTmpl) atom() *Data {
	k := 2
	if t.full {
		k = 5
	}
	switch vChoice("atom", k) {
	case 0:
		return vI(vInt64("a"))
	case 1:
		return EmptyCons()
	case 2:
		return Intern("vsym")
	case 3:
		return BooleanWithValue(vBool("a"))
	}
	return StringWithValue("t")
}

func (t *vTmpl) list(depth int) (*Data, *Data) {
	n := vChoice("n", 3)
	if depth > 0 {
		n = 1 + vChoice("n1", 2)
	}
	var ts, vs []*Data
	for i := 0; i < n; i++ {
		d, v := t.elem(depth)
		ts, vs = append(ts, d), append(vs, v...)
	}
	var tt, vt *Data
	if n > 0 {
		switch vChoice("tail", 3) {
		case 1:
			tt = Intern("vtail")
			vt = tt
		case 2:
			vt = vI(vInt64("tail"))
			tt = vList(Intern("unquote"), t.probe(vt))
		}
	}
	d, v := tt, vt
	for i := n - 1; i >= 0; i-- {
		d = Cons(ts[i], d)
	}
	for i := len(vs) - 1; i >= 0; i-- {
		v = Cons(vOrNil(vs[i]), v)
	}
	return vOrNil(d), vOrNil(v)
}

//verif:bounds templates of one list of two elements with values of every kind, or of depth 2 with two elements per list (one of them a list; both, thorough); all unquote, splice and dotted-tail positions,
//verif:reach plain,holes
//verif:secs 60
func VH_P21_quasiquote() {
	t := &vTmpl{full: vBool("full")}
	tmpl, want := t.list(1)
	keep := vClone(tmpl)
	form := vList(Intern("quasiquote"), tmpl)
	if t.probes == 0 {
		vReach("plain")
	} else {
		vReach("holes")
	}
	vCheckQuasi(t, form, tmpl, keep, want)
}

func vCheckQuasi(t *vTmpl, form, tmpl, keep, want *Data) {
	for round := 0; round < 2; round++ {
		vProbeCalls = nil
		vProbeAnswer = func(call int, args []*Data) (*Data, error) {
			return t.vals[IntegerValue(args[0])], nil
		}
		r, err := Eval(form, vEnv())
		vAssert(err == nil, "a well-formed template must evaluate")
		vAssert(vExact(r, want), "the template with its holes filled")
		vAssert(len(vProbeCalls) == t.probes, "every unquoted expression is evaluated exactly once")
		for i, a := range vProbeCalls {
			vAssert(vIsInt(a[0], int64(i)), "unquoted expressions are evaluated in order")
		}
		vAssert(vExact(tmpl, keep), "the template must not change")
		// what was built may be changed without changing the template
		if PairP(r) && NotNilP(r) {
			vCallOK("set-car!", r, Intern("vmut"))
			vAssert(vExact(tmpl, keep), "the result's first cell is not the template's")
		}
	}
}

//verif:bounds one list of up to 5 elements (7 thorough), each literal, unquoted or spliced
//verif:reach end
func VH_P21_wide() {
	t := &vTmpl{}
	n := 1 + vChoice("n", 5+2*vTier())
	var ts, vs []*Data
	for i := 0; i < n; i++ {
		switch vChoice("elem", 3) {
		case 0:
			d := vI(vInt64("a"))
			ts, vs = append(ts, d), append(vs, d)
		case 1:
			d := vI(vInt64("a"))
			ts, vs = append(ts, vList(Intern("unquote"), t.probe(d))), append(vs, d)
		case 2:
			k := vChoice("splice", 3)
			l := make([]*Data, k)
			for j := range l {
				l[j] = vI(vInt64("s"))
			}
			ts, vs = append(ts, vList(Intern("unquote-splicing"), t.probe(vOrNil(vList(l...))))), append(vs, l...)
		}
	}
	tmpl := vList(ts...)
	vCheckQuasi(t, vList(Intern("quasiquote"), tmpl), tmpl, vClone(tmpl), vOrNil(vList(vs...)))
	vReach("end")
}

//verif:bounds nested quasiquotation: inner templates are kept, doubly unquoted parts filled in
//verif:reach end
func VH_P21_nested() {
	x := vI(vInt64("x"))
	vProbeCalls = nil
	vProbeAnswer = func(call int, args []*Data) (*Data, error) { return x, nil }
	rows := []struct{ src, want string }{
		{"`(a `(b ,(c ,(vprobe 1))))", "(a (quasiquote (b (unquote (c vx)))))"},
		{"`(a `(b ,(c (d ,(vprobe 1)) e)) f)", "(a (quasiquote (b (unquote (c (d vx) e)))) f)"},
		{"`(a `(b ,c ,@d) ,(vprobe 1))", "(a (quasiquote (b (unquote c) (unquote-splicing d))) vx)"},
		{"`(`(,(a ,(vprobe 1))))", "((quasiquote ((unquote (a vx)))))"},
		{"`,(vprobe 1)", "vx"},
		{"(car `(,`(,(vprobe 1))))", "(vx)"},
		{"`((q . ,(vprobe 1)) (r . 5))", "((q . vx) (r . 5))"},
		{"`(,(car (map (lambda (z) `(k ,z)) (list (vprobe 1)))))", "((k vx))"},
	}
	i := vChoice("row", len(rows))
	r, err := Eval(vParse(rows[i].src), vEnv())
	vAssert(err == nil, "a well-formed template must evaluate")
	want := vSubst(vParse(rows[i].want), map[string]*Data{"vx": x})
	vAssert(vExact(r, want), "only the parts unquoted to level zero are replaced")
	vAssert(len(vProbeCalls) == 1, "evaluated exactly once")
	vReach("end")
}

// Levels: a hole is filled if as many unquotes as quasiquotes surround it.
//
//verif:bounds every chain of up to 7 (thorough: 9) nested lists, quasiquotes, unquotes and splices
//verif:reach filled,kept
func VH_P21_levels() {
	x := vI(vInt64("x"))
	y := vI(vInt64("y"))
	vals := vList(x, y)
	probes := 0
	var gen func(level, left int, inList bool) (*Data, []*Data)
	gen = func(level, left int, inList bool) (*Data, []*Data) {
		if level == 0 {
			probes++
			return vList(Intern("vprobe"), vI(0)), nil
		}
		k := vChoice("op", 5)
		if left == 0 || k == 4 {
			return Intern("vsym"), []*Data{Intern("vsym")}
		}
		switch k {
		case 0:
			d, v := gen(level, left-1, true)
			v = append([]*Data{vI(1)}, v...)
			v = append(v, vI(2))
			return vList(vI(1), d, vI(2)), []*Data{vList(v...)}
		case 1:
			d, v := gen(level+1, left-1, false)
			return vList(Intern("quasiquote"), d), []*Data{Cons(Intern("quasiquote"), vList(v...))}
		}
		name := "unquote"
		if k == 3 {
			vAssume(inList && (level == 1 || left > 1))
			name = "unquote-splicing"
		}
		d, v := gen(level-1, left-1, false)
		form := vList(Intern(name), d)
		if level > 1 {
			return form, []*Data{Cons(Intern(name), vList(v...))}
		}
		if k == 3 {
			return form, []*Data{x, y}
		}
		return form, []*Data{vals}
	}
	d, v := gen(1, 6+2*vTier(), false)
	vProbeCalls = nil
	vProbeAnswer = func(call int, args []*Data) (*Data, error) { return vals, nil }
	keep := vClone(d)
	r, err := Eval(vList(Intern("quasiquote"), d), vEnv())
	vAssert(err == nil, "a well-formed template must evaluate")
	vAssert(len(vProbeCalls) == probes, "the hole is evaluated once, and only at level zero")
	vAssert(vExact(r, v[0]), "only the parts unquoted to level zero are replaced")
	vAssert(vExact(d, keep), "the template must not change")
	if probes > 0 {
		vReach("filled")
	} else {
		vReach("kept")
	}
}

// A macro call: parameters, forms and environments.
//
//verif:bounds macros with 0..3 parameters and an optional rest parameter, 0..5 argument forms of every shape
//verif:reach bound,arity
func VH_P21_params() {
	req := vChoice("req", 4)
	rest := vBool("rest")
	n := vChoice("n", 6)
	params := "(vm"
	body := "(list 'quote (list"
	for i := 0; i < req; i++ {
		params += " p" + vIntString(i)
		body += " p" + vIntString(i)
	}
	if rest {
		params += " . r"
		body += " r"
	}
	def := vParse("(defmacro " + params + ") " + body + ")))")
	env := vEnv()
	_, err := Eval(def, env)
	vAssert(err == nil, "a macro definition must be accepted")
	forms := make([]*Data, n)
	for i := range forms {
		switch vChoice("form", 4) {
		case 0:
			forms[i] = vI(vInt64("f"))
		case 1:
			forms[i] = Intern("vunbound")
		case 2:
			forms[i] = vList(Intern("vprobe"), vI(int64(i)))
		case 3:
			forms[i] = vList(Intern("car"), vList(Intern("quote"), Intern("x")), vI(vInt64("f")))
		}
	}
	vProbeCalls = nil
	vProbeAnswer = func(call int, args []*Data) (*Data, error) { return vI(0), nil }
	call := Cons(Intern("vm"), vList(forms...))
	keep := vClone(call)
	r, err := Eval(call, env)
	vAssert(len(vProbeCalls) == 0, "a macro's arguments are not evaluated")
	vAssert(vExact(call, keep), "a macro call must not change its own form")
	if n < req || !rest && n > req {
		vReach("arity")
		vAssert(err != nil, "a wrong number of forms is an error")
		return
	}
	vReach("bound")
	var want []*Data
	want = append(want, forms[:req]...)
	if rest {
		want = append(want, vOrNil(vList(forms[req:]...)))
	}
	vAssert(err == nil, "the macro call must succeed")
	vAssert(vExact(r, vOrNil(vList(want...))), "each parameter is the form in its position")
}

//verif:bounds the body sees the defining environment, the expansion the caller's, for all values
//verif:reach end
func VH_P21_scope() {
	d, c := vInt64("def"), vInt64("call")
	outer := vEnv()
	outer.BindLocallyTo(Intern("vz"), vI(d))
	rows := []struct{ def, call string }{
		// (vm form) gives (list <vz of the body> 'vz <value of form> vz)
		{"(defmacro (vm f) (list 'list vz f 'vz))", "(vm vz)"},
		{"(defmacro (vm f) `(list ,vz ,f vz))", "(vm vz)"},
		{"(defmacro (vm . f) `(list ,vz ,@f vz))", "(vm vz)"},
		{"(defmacro (vm f) `(list ,vz ,f vz))", "(begin (define (g) (vm vz)) (g))"},
		{"(defmacro (vm f) `(list ,vz ,f vz))", "((lambda () (vm vz)))"},
		{"(defmacro (vm f) `(list ,vz ,f vz))", "(let ((q 1)) (vm vz))"},
		{"(defmacro (vm f) `(list ,vz ,f vz))", "(car (list (vm vz)))"},
		{"(defmacro (vm f) `(list ,vz ,f vz))", "(if (vm #t) (vm vz) 0)"},
		{"(defmacro (vm f) `(list ,vz ,f vz))", "(eval '(vm vz))"},
		{"(begin (defmacro (vn f) `(list ,vz ,f vz)) (defmacro (vm g) `(vn ,g)))", "(vm vz)"},
		{"(defmacro (vm f) `(let ((vq ,f)) (list ,vz vq vz)))", "(let ((vq 5)) (vm vz))"},
	}
	i := vChoice("row", len(rows))
	_, err := Eval(vParse(rows[i].def), outer)
	vAssert(err == nil, "a macro definition must be accepted")
	inner := NewSymbolTableFrameBelow(outer, "inner")
	inner.BindLocallyTo(Intern("vz"), vI(c))
	r, err := Eval(vParse(rows[i].call), inner)
	vAssert(err == nil, "the macro call must succeed")
	vAssert(vSeq(r, []int64{d, c, c}), "body in the defining, expansion in the calling environment")
	vAssert(vIsInt(outer.ValueOf(Intern("vz")), d) && vIsInt(inner.ValueOf(Intern("vz")), c), "no variable changes")
	vReach("end")
}

// The expansion is evaluated exactly once and its value is not evaluated again;
// assignments in it act in the caller's environment.
//
//verif:bounds expansions with effects, for all values; expand and repeated calls
//verif:reach end
func VH_P21_once() {
	x := vInt64("x")
	again := vList(Intern("vprobe"), vI(9))
	vProbeCalls = nil
	vProbeAnswer = func(call int, args []*Data) (*Data, error) { return again, nil }
	env := vEnv()
	_, err := Eval(vParse("(defmacro (vm f) `(begin (set! vw (+ vw 1)) ,f))"), env)
	vAssert(err == nil, "a macro definition must be accepted")
	inner := NewSymbolTableFrameBelow(env, "inner")
	inner.BindLocallyTo(Intern("vw"), vI(x))
	call := vParse("(vm (vprobe 1))")
	n := 1 + vChoice("times", 3)
	for i := 0; i < n; i++ {
		r, err := Eval(call, inner)
		vAssert(err == nil && vExact(r, again), "the value of the expansion is the value of the call")
		vAssert(len(vProbeCalls) == i+1, "the expansion is evaluated exactly once")
		vAssert(vIsInt(inner.ValueOf(Intern("vw")), x+int64(i)+1), "the expansion acts in the caller's environment")
	}
	r, err := Eval(vParse("(expand vm (vprobe 1))"), inner)
	vAssert(err == nil && vExact(r, vParse("(begin (set! vw (+ vw 1)) (vprobe 1))")), "expand gives the expansion")
	vAssert(len(vProbeCalls) == n && vIsInt(inner.ValueOf(Intern("vw")), x+int64(n)), "expand does not evaluate it")
	vReach("end")
}
