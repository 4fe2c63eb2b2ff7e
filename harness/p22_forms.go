package golisp

// vForms generates a form whose subexpressions are calls of vprobe with their
// number, together with a model of what the form evaluates and gives.
type vForms struct {
	leaves int
	nested int             // how many more forms may be nested in this one
	got    map[[2]int]*Data // the answer of each call of each leaf
	calls  map[int]int     // how often the model evaluated a leaf
	cond   map[int]bool    // leaves whose answer is used as a condition
	bound  map[int]int     // leaves that are false (true) after this many calls
	plain  bool            // conditions are booleans
	trace  []int
	env    map[string]*Data
}

func vNewForms(nested int) *vForms {
	return &vForms{nested: nested, plain: nested > 0, got: map[[2]int]*Data{}, calls: map[int]int{}, cond: map[int]bool{}, bound: map[int]int{}, env: map[string]*Data{}}
}

// answer is the value of call k of leaf i.
func (f *vForms) answer(i, k int) *Data {
	key := [2]int{i, k}
	if d, ok := f.got[key]; ok {
		return d
	}
	var d *Data
	if f.cond[i] {
		if f.plain {
			d = BooleanWithValue(vBool("answer"))
		} else {
			d, _ = vTruth("answer")
		}
		if n, ok := f.bound[i]; ok && k >= n {
			d = LispTrue
		}
	} else {
		d = vI(vInt64("answer"))
	}
	f.got[key] = d
	return d
}

func vDigits(i int) string {
	if i < 10 {
		return vIntString(i)
	}
	return vIntString(i/10) + vIntString(i%10)
}

func (f *vForms) leaf(cond bool) (string, func() *Data) {
	i := f.leaves
	f.leaves++
	f.cond[i] = cond
	return "(vprobe " + vDigits(i) + ")", func() *Data {
		f.trace = append(f.trace, i)
		k := f.calls[i]
		f.calls[i] = k + 1
		return f.answer(i, k)
	}
}

func (f *vForms) sub(cond bool) (string, func() *Data) {
	if f.nested > 0 && vBool("nest") {
		f.nested--
		return f.form()
	}
	return f.leaf(cond)
}

// body is a sequence of n subexpressions.
func (f *vForms) body(n int) (string, func() *Data) {
	var t string
	var rs []func() *Data
	for i := 0; i < n; i++ {
		s, r := f.sub(false)
		t, rs = t+" "+s, append(rs, r)
	}
	return t, func() *Data {
		var d *Data
		for _, r := range rs {
			d = r()
		}
		return d
	}
}

const vFormKinds = 16

func (f *vForms) form() (string, func() *Data) {
	switch vChoice("form", vFormKinds) {
	case 0:
		c, rc := f.sub(true)
		a, ra := f.sub(false)
		if vBool("else") {
			b, rb := f.sub(false)
			return "(if " + c + " " + a + " " + b + ")", func() *Data {
				if BooleanValue(rc()) {
					return ra()
				}
				return rb()
			}
		}
		return "(if " + c + " " + a + ")", func() *Data {
			if BooleanValue(rc()) {
				return ra()
			}
			return nil
		}
	case 1, 2:
		n := 1 + vChoice("n", 2)
		when := vBool("when")
		c, rc := f.sub(true)
		b, rb := f.body(n)
		name := "unless"
		if when {
			name = "when"
		}
		return "(" + name + " " + c + b + ")", func() *Data {
			if BooleanValue(rc()) == when {
				return rb()
			}
			return nil
		}
	case 3, 4:
		and := vBool("and")
		n := 1 + vChoice("n", 3)
		t := "(or"
		if and {
			t = "(and"
		}
		var rs []func() *Data
		for i := 0; i < n; i++ {
			s, r := f.sub(true)
			t, rs = t+" "+s, append(rs, r)
		}
		return t + ")", func() *Data {
			var d *Data
			for _, r := range rs {
				d = r()
				if BooleanValue(d) != and {
					return d
				}
			}
			return d
		}
	case 5:
		n := 1 + vChoice("n", 3)
		b, rb := f.body(n)
		return "(begin" + b + ")", rb
	case 6:
		n := 1 + vChoice("n", 3)
		els := -1
		if vBool("else") {
			els = vChoice("elseat", n)
		}
		t := "(cond"
		var cs, bs []func() *Data
		for i := 0; i < n; i++ {
			c, rc := "else", func() *Data { return LispTrue }
			if i != els {
				c, rc = f.sub(true)
			}
			b, rb := f.body(1 + i%2)
			t += " (" + c + b + ")"
			cs, bs = append(cs, rc), append(bs, rb)
		}
		return t + ")", func() *Data {
			for i := range cs {
				if BooleanValue(cs[i]()) {
					return bs[i]()
				}
			}
			return nil
		}
	case 7:
		// the keys of case are arbitrary integers, possibly repeated
		n := 1 + vChoice("n", 2)
		els := vBool("else")
		k, rk := f.sub(false)
		t := "(case " + k
		var keys [][]*Data
		var bs []func() *Data
		for i := 0; i < n; i++ {
			var ks []*Data
			t += " (("
			for j := 0; j < 2; j++ {
				v := vI(vInt64("key"))
				name := "vkey" + vDigits(len(f.env))
				f.env[name] = v
				ks = append(ks, v)
				t += name + " "
			}
			b, rb := f.body(1)
			t += ")" + b + ")"
			keys, bs = append(keys, ks), append(bs, rb)
		}
		if els {
			b, rb := f.body(2)
			t += " (else" + b + ")"
			keys, bs = append(keys, nil), append(bs, rb)
		}
		return t + ")", func() *Data {
			v := rk()
			for i := range keys {
				hit := keys[i] == nil
				for _, q := range keys[i] {
					if !hit && vTake(vSame(q, v)) {
						hit = true
					}
				}
				if hit {
					return bs[i]()
				}
			}
			return nil
		}
	case 8:
		// let, let* and letrec evaluate the initial values in order, then the body
		name := []string{"let", "let*", "letrec"}[vChoice("let", 3)]
		n := vChoice("n", 3)
		t := "(" + name + " ("
		var rs []func() *Data
		for i := 0; i < n; i++ {
			s, r := f.sub(false)
			t += "(vl" + vIntString(i) + " " + s + ")"
			rs = append(rs, r)
		}
		b, rb := f.body(1 + vChoice("m", 2))
		return t + ")" + b + ")", func() *Data {
			for _, r := range rs {
				r()
			}
			return rb()
		}
	case 9:
		// the value of a bound name is the value of its expression
		s, r := f.sub(false)
		b, rb := f.sub(false)
		return "(let ((vl0 " + s + ")) " + b + " vl0)", func() *Data { d := r(); rb(); return d }
	case 10:
		// a call evaluates its arguments in order, once
		n := vChoice("n", 4)
		t := "(list"
		var rs []func() *Data
		for i := 0; i < n; i++ {
			s, r := f.sub(false)
			t, rs = t+" "+s, append(rs, r)
		}
		return t + ")", func() *Data {
			var out []*Data
			for _, r := range rs {
				out = append(out, vOrNil(r()))
			}
			return vList(out...)
		}
	case 11:
		// do: inits, then test, body and steps in turn
		i0, r0 := f.sub(false)
		i1, r1 := f.sub(false)
		st, rst := f.leaf(false)
		tl := f.leaves
		ts, rt := f.leaf(true)
		f.bound[tl] = 2
		b, rb := f.body(1)
		r2, rr := f.body(1 + vChoice("m", 2))
		return "(do ((vl0 " + i0 + " " + st + ") (vl1 " + i1 + ")) (" + ts + r2 + ")" + b + ")", func() *Data {
			r0()
			r1()
			for !BooleanValue(rt()) {
				rb()
				rst()
			}
			return rr()
		}
	case 12, 13:
		// chaining passes the value on, tapping keeps it
		tap := vBool("tap")
		n := vChoice("n", 3)
		s, r := f.sub(false)
		t := "(-> "
		if tap {
			t = "(=> "
		}
		t += s
		var rs []func() *Data
		for i := 0; i < n; i++ {
			s, r := f.sub(false)
			t, rs = t+" (list "+s+")", append(rs, r)
		}
		return t + ")", func() *Data {
			d := r()
			v := d
			for _, r := range rs {
				x := r()
				if !tap {
					v = vList(vOrNil(v), vOrNil(x))
				}
			}
			if tap {
				return d
			}
			return v
		}
	case 14:
		s, r := f.sub(false)
		return "(begin (define vdef " + s + ") vdef)", r
	}
	// quoting and lambda evaluate nothing; calling evaluates the body
	s, r := f.sub(false)
	b, rb := f.sub(false)
	return "(begin (quote " + s + ") (lambda () " + s + ") ((lambda (vl0) " + b + " vl0) " + s + "))", func() *Data { d := r(); rb(); return d }
}

func vOrNil(d *Data) *Data {
	if d == nil {
		return EmptyCons()
	}
	return d
}

// vSubst replaces the symbols in m by their values.
func vSubst(d *Data, m map[string]*Data) *Data {
	if SymbolP(d) {
		if v, ok := m[StringValue(d)]; ok {
			return v
		}
		return d
	}
	if NilP(d) || !PairP(d) {
		return d
	}
	return Cons(vSubst(Car(d), m), vSubst(Cdr(d), m))
}

func vRunForm(f *vForms) {
	text, run := f.form()
	n := map[int]int{}
	vProbeCalls = nil
	vProbeAnswer = func(_ int, a []*Data) (*Data, error) {
		i := int(IntegerValue(a[0]))
		k := n[i]
		n[i] = k + 1
		return f.answer(i, k), nil
	}
	r, err := Eval(vSubst(vParse(text), f.env), vEnv())
	vAssert(err == nil, "the form evaluates")
	calls := vProbeCalls
	want := run()
	vAssert(len(calls) == len(f.trace), "the form evaluates exactly the required subexpressions")
	for j, i := range f.trace {
		vAssert(len(calls[j]) == 1 && vIsInt(calls[j][0], int64(i)), "the form evaluates its subexpressions in order")
	}
	vAssert(vSame(r, want), "the form gives the defined value")
}

// Every form with plain subexpressions.
//verif:bounds 13 forms (if, when, unless, and, or, begin, cond, case, let, let*, letrec, calls, do, ->, =>, define, quote, lambda) with up to 3 clauses; every truth pattern over false, nil, true and any integer; case keys and key values any integers
func VH_P22_forms() { vRunForm(vNewForms(0)) }

// Every form with one form inside it, in any position.
//verif:bounds the same forms with one of them nested in another at any subexpression position; conditions are true or false
//verif:secs 120
func VH_P22_nested() { vRunForm(vNewForms(1)) }

// Two forms nested in a form or in each other.
//verif:bounds the same forms with two of them nested at any positions
//verif:tier thorough
//verif:secs 700
func VH_P22_nested2() { vRunForm(vNewForms(2)) }

// The steps of a do loop use the values of the previous pass.
//verif:bounds 0..3 passes, arbitrary start values
func VH_P22_do() {
	a, b := vInt64("a"), vInt64("b")
	n := vChoice("passes", 4)
	vProbeCalls = nil
	vProbeAnswer = func(int, []*Data) (*Data, error) { return nil, nil }
	r, err := vEvalWith(vParse("(do ((x va0 y) (y va1 (+ x y)) (k 0 (+ k 1)) (c va2)) ((== k va2) (list x y k c)) (vprobe x y))"), vI(a), vI(b), vI(int64(n)))
	vAssert(err == nil && len(vProbeCalls) == n, "the body of do runs once per pass")
	x, y := a, b
	for i := 0; i < n; i++ {
		vAssert(vIsInt(vProbeCalls[i][0], x) && vIsInt(vProbeCalls[i][1], y), "the steps of do use the values of the previous pass")
		x, y = y, x+y
	}
	vAssert(vSeq(r, []int64{x, y, int64(n), int64(n)}), "do gives its last result expression")
}

// A named let calls itself with new values.
//verif:bounds 0..4 passes, arbitrary values
func VH_P22_namedlet() {
	a := vInt64("a")
	n := vChoice("passes", 5)
	vProbeCalls = nil
	vProbeAnswer = func(_ int, a []*Data) (*Data, error) { return a[0], nil }
	r, err := vEvalWith(vParse("(let vloop ((i va1) (acc va0)) (if (== i 0) acc (vloop (vprobe (- i 1)) (+ acc acc i))))"), vI(a), vI(int64(n)))
	for i := n; i > 0; i-- {
		a = a + a + int64(i)
	}
	vAssert(err == nil && vIsInt(r, a) && len(vProbeCalls) == n, "a named let repeats with the values it is called with")
}

// Which binding a name means in each part of a binding form.
//
//verif:bounds every binding form; names bound outside and inside, in the initial values, steps, tests, results and bodies; arbitrary values
//verif:reach end
func VH_P22_names() {
	// va0 and va1 stand for values bound outside; x is va0 outside
	rows := []struct {
		src  string
		want []int64 // sums of the values: 1 is va0, 10 is va1
	}{
		{"(let ((x va1) (y x)) (list x y))", []int64{10, 1}},
		{"(let* ((x va1) (y x)) (list x y))", []int64{10, 10}},
		{"(let* ((y x) (x va1) (z x)) (list x y z))", []int64{10, 1, 10}},
		{"(let* ((x (+ x va1))) (list x))", []int64{11}},
		{"(let* ((x va1) (x (+ x x))) (list x))", []int64{20}},
		{"(letrec ((f (lambda () x)) (x va1)) (list (f) x))", []int64{10, 10}},
		{"(let x ((y x)) (if (integer? y) (list y) y))", []int64{1}},
		{"(let x ((y va1) (z x)) (list y z))", []int64{10, 1}},
		{"(let l ((x va1) (y x)) (list x y))", []int64{10, 1}},
		{"(let l ((n 0) (y x)) (if (== n 0) (let ((x va1)) (l 1 y)) (list y x)))", []int64{1, 1}},
		{"(do ((x va1) (y x)) (#t (list x y)))", []int64{10, 1}},
		{"(do ((x va1) (y x x) (n 0 (+ n 1))) ((== n 1) (list x y)))", []int64{10, 10}},
		{"(do ((x va1 y) (y x x) (n 0 (+ n 1))) ((== n 1) (list x y)))", []int64{1, 10}},
		{"(do ((x va1 (+ x y)) (y x x) (n 0 (+ n 1))) ((== n 2) (list x y)))", []int64{21, 11}},
		{"(do ((n 0 (+ n 1))) ((== n 1) (list x)) (set! x va1))", []int64{10}},
		{"(begin (let ((x va1)) (set! x 5)) (list x))", []int64{1}},
		{"(begin (let* ((x va1)) (set! x 5)) (list x))", []int64{1}},
		{"(begin (letrec ((x va1)) (set! x 5)) (list x))", []int64{1}},
		{"(begin (let l ((x va1)) (set! x 5)) (list x))", []int64{1}},
		{"(begin (do ((x va1)) (#t (set! x 5))) (list x))", []int64{1}},
		{"(begin (do ((n 0 (+ n 1)) (x 3 va1)) ((== n 1)) (set! x 5)) (list x))", []int64{1}},
		{"(begin (let ((y 1)) (set! x va1)) (list x))", []int64{10}},
		{"(begin (let ((y 1)) (define x va1) x) (list x))", []int64{1}},
		{"(let ((f (let ((x va1)) (lambda () x)))) (list x (f)))", []int64{1, 10}},
		{"(let ((f (lambda () x))) (let ((x va1)) (list x (f))))", []int64{10, 1}},
		{"(let ((f (lambda (x) (list x)))) (f va1))", []int64{10}},
		{"((lambda (x y) (list x y)) va1 x)", []int64{10, 1}},
		{"((named-lambda (f x) (list x)) va1)", []int64{10}},
		{"((named-lambda (x y) (list x y)) va1)", []int64{1, 10}},
		{"(begin (define (x y) (list y)) (x va1))", []int64{10}},
		{"(begin (define (f x) (define y x) (set! x va0) (list x y)) (f va1))", []int64{1, 10}},
		{"(case x ((1) 2) (else (list x)))", []int64{1}},
		{"(-> va1 ((lambda (y) (list x y))))", []int64{1, 10}},
	}
	i := vChoice("row", len(rows))
	a, b := vInt64("a"), vInt64("b")
	vAssume(a != 1 || i != len(rows)-2)
	r, err := vEvalWith(vParse("(let ((x va0)) "+rows[i].src+")"), vI(a), vI(b))
	vAssert(err == nil, "the form evaluates")
	var want []int64
	for _, w := range rows[i].want {
		want = append(want, a*(w%10)+b*(w/10))
	}
	vAssert(vSeq(r, want), "each name means the innermost binding where it is written")
	vReach("end")
}

// case compares with equal values of any kind.
//verif:bounds 8 kinds of key values against a clause for each of them
func VH_P22_casekinds() {
	x := vInt64("x")
	keys := []*Data{vI(x), vS("a"), vS("b"), Intern("a"), Intern("b"), LispTrue, LispFalse, vList(vI(1), vI(2))}
	k := vChoice("key", 8)
	t := "(case (vprobe)"
	m := map[string]*Data{}
	for i := range keys {
		m["vkey"+vIntString(i)] = vCopyAtom(keys[i])
		t += " ((vkey" + vIntString(i) + ") " + vIntString(i) + ")"
	}
	vProbeCalls = nil
	vProbeAnswer = func(int, []*Data) (*Data, error) { return keys[k], nil }
	r, err := Eval(vSubst(vParse(t+" (else 9))"), m), vEnv())
	vAssert(err == nil && len(vProbeCalls) == 1 && vIsInt(r, int64(k)), "case selects the clause with an equal key")
	r, err = Eval(vSubst(vParse("(case 'vnone ((vkey0 vkey1) 0) ((vkey2 vkey3 vkey4 vkey5) 1) (else 9))"), m), vEnv())
	vAssert(err == nil && vIsInt(r, 9), "case without a match gives the else clause")
}

func vCopyAtom(d *Data) *Data {
	if SymbolP(d) || BooleanP(d) {
		return d
	}
	return vClone(d)
}
