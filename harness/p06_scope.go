package golisp

// A reference model of lexical scope: each scope has its own variables and
// the scope it is written in.
type vScope struct {
	parent *vScope
	vars   map[string]*int64
}

func (s *vScope) find(n string) *int64 {
	for ; s != nil; s = s.parent {
		if c, ok := s.vars[n]; ok {
			return c
		}
	}
	return nil
}

func (s *vScope) define(n string, x int64) {
	if c, ok := s.vars[n]; ok {
		*c = x
		return
	}
	s.vars[n] = &x
}

func (s *vScope) inner() *vScope { return &vScope{s, map[string]*int64{}} }

// vProg generates a program text together with the function that runs it in
// the model; constants are names ck0, ck1, ... bound to arbitrary integers.
type vProg struct {
	consts []int64
	fns    int
	trace  []int64
	short  bool // bodies end by reading both variables
}

func (p *vProg) konst() (string, int64) {
	x := vInt64("c")
	p.consts = append(p.consts, x)
	return "ck" + vIntString(len(p.consts)-1), x
}

var vVarNames = []string{"vx", "vy"}

func (p *vProg) simple() (string, func(*vScope)) {
	v := vVarNames[vChoice("var", 2)]
	w := "vx"
	if v == "vx" {
		w = "vy"
	}
	switch vChoice("stmt", 4) {
	case 0:
		return "(vprobe " + v + ")", func(s *vScope) { p.trace = append(p.trace, *s.find(v)) }
	case 1:
		k, x := p.konst()
		return "(set! " + v + " " + k + ")", func(s *vScope) { *s.find(v) = x }
	case 2:
		return "(set! " + v + " " + w + ")", func(s *vScope) { *s.find(v) = *s.find(w) }
	}
	k, x := p.konst()
	return "(define " + v + " " + k + ")", func(s *vScope) { s.define(v, x) }
}

// nested is a construct with a body; depth is the number of constructs that
// may be nested in each other.
func (p *vProg) nested(depth int) (string, func(*vScope)) {
	kind := vChoice("kind", 10)
	v := "vx"
	if kind < 7 {
		v = vVarNames[vChoice("bind", 2)]
	}
	w := "vx"
	if v == "vx" {
		w = "vy"
	}
	k, x := p.konst()
	t, run := p.body(depth - 1)
	switch kind {
	case 0:
		return "(let ((" + v + " " + k + ")) " + t + ")", func(s *vScope) { n := s.inner(); n.define(v, x); run(n) }
	case 1:
		return "((lambda (" + v + ") " + t + ") " + k + ")", func(s *vScope) { n := s.inner(); n.define(v, x); run(n) }
	case 2:
		return "(let* ((" + v + " " + k + ") (" + w + " " + v + ")) " + t + ")", func(s *vScope) {
			n := s.inner()
			n.define(v, x)
			n.define(w, x)
			run(n)
		}
	case 3:
		return "(let vloop ((" + v + " " + k + ")) " + t + ")", func(s *vScope) { n := s.inner().inner(); n.define(v, x); run(n) }
	case 4:
		// the initial values of let are those outside it
		return "(let ((" + v + " " + k + ") (" + w + " " + v + ")) " + t + ")", func(s *vScope) {
			n := s.inner()
			o := *s.find(v)
			n.define(v, x)
			n.define(w, o)
			run(n)
		}
	case 5:
		// a function runs where it was written, not where it is called
		p.fns++
		f := "vf" + vIntString(p.fns)
		return "(begin (define (" + f + ") " + t + ") (let ((" + v + " " + k + ")) (" + f + ") (vprobe " + v + ")))", func(s *vScope) {
			run(s.inner())
			p.trace = append(p.trace, x)
		}
	case 6:
		// a variable of the caller is not visible in the function
		p.fns++
		f := "vf" + vIntString(p.fns)
		return "(begin (define " + f + " (lambda () " + t + ")) ((lambda (" + v + " g) (g) (set! " + v + " 1) (g)) " + k + " " + f + "))", func(s *vScope) {
			run(s.inner())
			run(s.inner())
		}
	case 7:
		return "(begin " + t + ")", run
	case 8:
		return "(if #t (cond (#f 1) (else " + t + ")))", run
	}
	return "(letrec ((vr (lambda (n) (if (== n 0) (begin " + t + ") (vr (- n 1)))))) (vr 1))", func(s *vScope) { run(s.inner().inner()) }
}

func (p *vProg) body(depth int) (string, func(*vScope)) {
	var a, b string
	var f, g func(*vScope)
	if depth > 0 {
		a, f = p.nested(depth)
	} else {
		a, f = p.simple()
	}
	if p.short {
		b, g = "(vprobe vx) (vprobe vy)", func(s *vScope) { p.trace = append(p.trace, *s.find("vx"), *s.find("vy")) }
	} else {
		b, g = p.simple()
	}
	return a + " " + b, func(s *vScope) { f(s); g(s) }
}

func vRunProg(depth int, short bool) {
	p := &vProg{short: short}
	t, run := p.nested(depth)
	t = "(let ((vx ckx) (vy cky)) " + t + " (vprobe vx) (vprobe vy))"
	env := vEnv()
	x, y := vInt64("x"), vInt64("y")
	env.BindLocallyTo(Intern("ckx"), vI(x))
	env.BindLocallyTo(Intern("cky"), vI(y))
	for i, c := range p.consts {
		env.BindLocallyTo(Intern("ck"+vIntString(i)), vI(c))
	}
	// the outermost scope has its own variables of the same names
	ox, oy := vInt64("ox"), vInt64("oy")
	env.BindLocallyTo(Intern("vx"), vI(ox))
	env.BindLocallyTo(Intern("vy"), vI(oy))
	vProbeCalls = nil
	vProbeAnswer = func(int, []*Data) (*Data, error) { return vI(0), nil }
	_, err := Eval(vParse(t), env)
	vAssert(err == nil, "the program runs")
	top := &vScope{nil, map[string]*int64{"vx": &x, "vy": &y}}
	run(top)
	p.trace = append(p.trace, *top.find("vx"), *top.find("vy"))
	vAssert(len(vProbeCalls) == len(p.trace), "the program reads its variables")
	for i, c := range vProbeCalls {
		vAssert(len(c) == 1 && vIsInt(c[0], p.trace[i]), "a name refers to the innermost enclosing binding")
	}
	vAssert(vIsInt(env.ValueOf(Intern("vx")), ox) && vIsInt(env.ValueOf(Intern("vy")), oy), "variables outside are unchanged")
}

// Programs of nested scopes agree with the reference model of lexical scope.
//verif:bounds all programs of one construct (let, let*, named let, letrec, function call, function called elsewhere, sequence, conditional) holding two of: read, assign, copy, define; two variables, arbitrary integers
func VH_P06_nest1() { vRunProg(1, false) }

// The same with a construct inside the construct.
//verif:bounds the same with one construct inside another, the inner body being a read, assignment, copy or definition followed by reads of both variables
//verif:secs 90
func VH_P06_nest2() { vRunProg(2, true) }

// The same with a statement after the construct in each body.
//verif:bounds one construct inside another, bodies ending in any read, assignment, copy or definition
//verif:tier thorough
//verif:secs 700
func VH_P06_nest2full() { vRunProg(2, false) }

// Closures keep their own variables after the creating call returned.
//verif:bounds two closures of one maker (and, by kind, of two makers or sharing one environment), 3 (thorough 5) calls in any order, arbitrary start and step values
func VH_P06_counters() {
	kind := vChoice("kind", 4)
	a, b, st := vInt64("a"), vInt64("b"), vInt64("step")
	env := vLet(vI(a), vI(b), vI(st))
	src := []string{
		"(begin (define (mk n) (lambda (d) (set! n (+ n d)) n)) (define c0 (mk va0)) (define c1 (mk va1)))",
		"(begin (define (mk n) (let ((m n)) (define (inc d) (set! m (+ m d)) m) inc)) (define c0 (mk va0)) (define c1 (mk va1)))",
		"(begin (define (mk n) (lambda () (lambda (d) (set! n (+ n d)) n))) (define c0 ((mk va0))) (define c1 ((mk va1))))",
		"(begin (define (mk n) (list (lambda (d) (set! n (+ n d)) n) (lambda (d) (set! n (+ n d)) n))) (define p (mk va0)) (define c0 (car p)) (define c1 (cadr p)))",
	}[kind]
	_, err := Eval(vParse(src), env)
	vAssert(err == nil, "the definitions succeed")
	cell := []*int64{&a, &b}
	if kind == 3 {
		cell[1] = &a
	}
	calls := []*Data{vParse("(c0 va2)"), vParse("(c1 va2)"), vParse("(let ((n 5) (m 6)) (c0 va2))")}
	for i := 0; i < 3+2*vTier(); i++ {
		k := vChoice("call", 3)
		r, err := Eval(calls[k], env)
		c := cell[k%2]
		*c += st
		vAssert(err == nil && vIsInt(r, *c), "a closure updates the variable it captured and no other")
	}
}

// Each pass of a recursion has its own variables.
//verif:bounds recursion depth 3, arbitrary values
func VH_P06_recursion() {
	x := vInt64("x")
	env := vLet(vI(x))
	r, err := Eval(vParse("(begin (define (f n acc) (let ((here (+ acc n))) (if (== n 0) (list here) (let ((rest (f (- n 1) here))) (cons here rest))))) (f 2 va0))"), env)
	vAssert(err == nil && vSeq(r, []int64{x + 2, x + 3, x + 3}), "each call has its own variables")
	r, err = Eval(vParse("(begin (define fs (map (lambda (n) (lambda () (+ n va0))) '(1 2 3))) (map (lambda (f) (f)) fs))"), env)
	vAssert(err == nil && vSeq(r, []int64{x + 1, x + 2, x + 3}), "each closure keeps its own variable")
}

// A definition in a body does not leak out of it, and an assignment to a name
// that is bound nowhere is an error.
//verif:bounds six kinds of bodies, arbitrary values
func VH_P06_local() {
	x := vInt64("x")
	env := vLet(vI(x))
	in := []string{"(let () (define vloc va0) vloc)", "((lambda () (define vloc va0) vloc))", "(let* ((q 1)) (define vloc va0) vloc)",
		"(letrec ((q 1)) (define vloc va0) vloc)", "(let lp ((q 1)) (define vloc va0) vloc)", "(begin (define (fn) (define vloc va0) vloc) (fn))"}[vChoice("body", 6)]
	r, err := Eval(vParse(in), env)
	vAssert(err == nil && vIsInt(r, x), "a local definition is visible in its body")
	_, bound := env.FindBindingFor(Intern("vloc"))
	vAssert(!bound, "a local definition is not visible outside its body")
	_, err = Eval(vParse("(set! vloc 1)"), env)
	vAssert(err != nil, "assigning an unbound name is an error")
	_, bound = env.FindBindingFor(Intern("vloc"))
	vAssert(!bound, "a failed assignment binds nothing")
}

// Protected names can be neither assigned nor redefined where they are bound,
// but they can be shadowed by local names.
//verif:bounds 8 protected names of constants, functions and forms; assigned or redefined in 6 ways, from the top level and from nested scopes; arbitrary values
//verif:reach refused,shadowed
func VH_P06_protected() {
	name := []string{"pi", "nil", "car", "if", "map", "+", "system-global-environment", "nan"}[vChoice("name", 8)]
	sym := Intern(name)
	before := Global.ValueOf(sym)
	x := vInt64("x")
	env := vLet(vI(x), EnvironmentWithValue(Global))
	switch vChoice("how", 7) {
	case 0:
		_, err := Eval(vParse("(set! "+name+" va0)"), env)
		vAssert(err != nil, "assigning a protected name is an error")
	case 1:
		_, err := Eval(vParse("(let ((q 1)) ((lambda () (set! "+name+" va0))))"), env)
		vAssert(err != nil, "assigning a protected name from a nested scope is an error")
	case 2:
		_, err := Eval(vParse("(define "+name+" 5)"), Global)
		vAssert(err != nil, "redefining a protected name is an error")
	case 3:
		_, err := Eval(vParse("(define ("+name+" q) 5)"), Global)
		vAssert(err != nil, "redefining a protected name as a function is an error")
	case 4:
		_, err := Eval(vParse("(defmacro ("+name+" q) 5)"), Global)
		vAssert(err != nil, "redefining a protected name as a macro is an error")
	case 5:
		_, err := Eval(vParse("(environment-assign! va1 '"+name+" va0)"), env)
		vAssert(err != nil, "assigning a protected name through its environment is an error")
		_, err = Eval(vParse("(environment-define va1 '"+name+" va0)"), env)
		vAssert(err != nil, "redefining a protected name through its environment is an error")
	case 6:
		r, err := Eval(vParse("((lambda ("+name+") "+name+") va0)"), env)
		vAssert(err == nil && vIsInt(r, x), "a protected name can be shadowed by a parameter")
		r, err = Eval(vParse("((lambda () (define "+name+" va0) "+name+"))"), env)
		vAssert(err == nil && vIsInt(r, x), "a protected name can be shadowed by a local definition")
		vReach("shadowed")
	}
	vAssert(Global.ValueOf(sym) == before, "a protected name keeps its value")
	vReach("refused")
}
