package golisp

// vEnvModel is a chain of environments below the global one with the
// harness's own record of their bindings.
type vEnvModel struct {
	env  []*SymbolTableFrame
	val  []*Data
	have []map[string]*Data
}

func vNewEnvModel() *vEnvModel {
	m := &vEnvModel{}
	add := func(d *Data) {
		m.val = append(m.val, d)
		m.env = append(m.env, EnvironmentValue(d))
		m.have = append(m.have, map[string]*Data{})
	}
	top := vMust("(make-top-level-environment \"vtop\")")
	add(top)
	mid, err := Eval(vParse("(procedure-environment ((lambda (vp) (lambda () vp)) 1))"), m.env[0])
	vAssert(err == nil && EnvironmentP(mid), "a function's environment")
	add(mid)
	m.have[1]["vp"] = vI(1)
	low, err := Eval(vParse("(procedure-environment (let ((vq 2)) (lambda () vq)))"), m.env[1])
	vAssert(err == nil && EnvironmentP(low), "a function's environment")
	add(low)
	m.have[2]["vq"] = vI(2)
	// a sibling that nothing may affect
	side, err := Eval(vParse("(procedure-environment ((lambda (vp) (lambda () vp)) 1))"), m.env[0])
	vAssert(err == nil && EnvironmentP(side), "a function's environment")
	add(side)
	m.have[3]["vp"] = vI(1)
	return m
}

func (m *vEnvModel) parent(i int) int {
	switch i {
	case 1, 3:
		return 0
	case 2:
		return 1
	}
	return -1
}

// where is the environment that binds name as seen from i, -1 if none.
func (m *vEnvModel) where(i int, name string) int {
	for ; i >= 0; i = m.parent(i) {
		if _, ok := m.have[i][name]; ok {
			return i
		}
	}
	return -1
}

func (m *vEnvModel) run(src string, i int, sym, v *Data) (*Data, error) {
	return vEvalWith(vParse(src), m.val[i], sym, v)
}

// op performs one operation; true if it must succeed.
func (m *vEnvModel) op(kind, i int, name string, v *Data) {
	sym := Intern(name)
	var err error
	ok := true
	switch kind {
	case 0:
		_, err = m.run("(environment-define va0 va1 va2)", i, sym, v)
		m.have[i][name] = v
	case 1:
		_, err = m.run("(environment-assign! va0 va1 va2)", i, sym, v)
		if w := m.where(i, name); w >= 0 {
			m.have[w][name] = v
		} else {
			ok = false
		}
	case 2:
		_, err = m.run("(eval (list 'define va1 (list 'quote va2)) va0)", i, sym, v)
		m.have[i][name] = v
	case 3:
		_, err = m.run("(eval (list 'set! va1 (list 'quote va2)) va0)", i, sym, v)
		if w := m.where(i, name); w >= 0 {
			m.have[w][name] = v
		} else {
			ok = false
		}
	}
	vAssert((err == nil) == ok, "definitions succeed; assignments succeed exactly if the name is bound")
}

func (m *vEnvModel) check(names []string) {
	for i := range m.env {
		for _, name := range names {
			sym := Intern(name)
			w := m.where(i, name)
			b, err := m.run("(environment-bound? va0 va1)", i, sym, nil)
			vAssert(err == nil && vIsBool(b, w >= 0), "a name is bound where it or an enclosing environment defines it")
			b, err = m.run("(environment-assignable? va0 va1)", i, sym, nil)
			vAssert(err == nil && vIsBool(b, w >= 0), "exactly the bound names are assignable")
			d, err := m.run("(environment-lookup va0 va1)", i, sym, nil)
			t, terr := m.run("(environment-reference-type va0 va1)", i, sym, nil)
			vAssert(terr == nil, "a reference type")
			a, aerr := m.run("(environment-assigned? va0 va1)", i, sym, nil)
			e, everr := m.run("(eval va1 va0)", i, sym, nil)
			vAssert(everr == nil, "evaluating a name does not fail")
			if w < 0 {
				vAssert(err != nil && aerr != nil, "looking up an unbound name is an error")
				vAssert(StringValue(t) == "unbound", "unbound")
				continue
			}
			v := m.have[w][name]
			if MacroP(v) {
				vAssert(err != nil && aerr != nil, "a macro is not a variable's value")
				vAssert(StringValue(t) == "macro", "macro")
				l, lerr := m.run("(environment-lookup-macro va0 va1)", i, sym, nil)
				vAssert(lerr == nil && l == v, "the macro bound to the name")
				continue
			}
			vAssert(err == nil && vSame(d, v), "a lookup finds the nearest binding")
			vAssert(vSame(e, v), "evaluating the name finds the nearest binding")
			vAssert(aerr == nil && vIsBool(a, true), "assigned")
			vAssert(StringValue(t) == "normal", "normal")
			l, lerr := m.run("(environment-lookup-macro va0 va1)", i, sym, nil)
			vAssert(lerr == nil && vIsBool(l, false), "not a macro")
		}
		vCheckNames(m, i)
	}
}

func vCheckNames(m *vEnvModel, i int) {
	ns, err := m.run("(environment-bound-names va0)", i, nil, nil)
	vAssert(err == nil, "bound names")
	l, ok := vElems(ns, 16)
	vAssert(ok && len(l) == len(m.have[i]), "exactly the environment's own names")
	macros := 0
	for _, n := range l {
		v, ok := m.have[i][StringValue(n)]
		vAssert(SymbolP(n) && ok, "only names of the environment itself")
		if MacroP(v) {
			macros++
		}
	}
	ms, err := m.run("(environment-macro-names va0)", i, nil, nil)
	l, ok = vElems(ms, 16)
	vAssert(err == nil && ok && len(l) == macros, "exactly the environment's own macros")
	bs, err := m.run("(environment-bindings va0)", i, nil, nil)
	l, ok = vElems(bs, 16)
	vAssert(err == nil && ok && len(l) == len(m.have[i]), "exactly the environment's own bindings")
	for _, p := range l {
		v, ok := m.have[i][StringValue(Car(p))]
		vAssert(ok, "only bindings of the environment itself")
		if NilP(v) {
			vAssert(Length(p) == 1, "a binding without a value")
		} else {
			vAssert(Length(p) == 2 && vSame(Cadr(p), v), "name and value")
		}
	}
}

//verif:bounds histories of 2 definitions or assignments (3 thorough) of 2 names through either interface in a chain of 3 environments and a sibling, any integer values
//verif:reach end
//verif:secs 120
func VH_P29_history() {
	m := vNewEnvModel()
	n := 2 + vTier()
	names := []string{"vn0", "vp"}
	for s := 0; s < n; s++ {
		k := vChoice("op", 4)
		m.op(k, vChoice("env", 3), names[vChoice("name", 2)], vI(vInt64("v")))
	}
	m.check(append(names, "vq"))
	vReach("end")
}

//verif:bounds one definition or assignment of a value of each kind anywhere in the chain
//verif:reach end
func VH_P29_values() {
	m := vNewEnvModel()
	var v *Data
	switch vChoice("value", 8) {
	case 0:
		v = EmptyCons()
	case 1:
		v = StringWithValue("s")
	case 2:
		v = vList(vI(1), vI(vInt64("e")))
	case 3:
		v = BooleanWithValue(vBool("b"))
	case 4:
		v = vExFrame
	case 5:
		v = vMust("(lambda (x) x)")
	case 6:
		v = vExEnv
	case 7:
		v = vMust("(begin (defmacro (vmac x) x) vmac)")
	}
	name := []string{"vn0", "vp", "vq"}[vChoice("name", 3)]
	at := vChoice("env", 4)
	if vBool("through") {
		m.op(0, at, name, v)
	} else if m.where(at, name) >= 0 {
		m.op(1, at, name, v)
	}
	m.check([]string{"vn0", "vp", "vq"})
	vReach("end")
}

// Built-in names: never assigned, only shadowed below the global environment.
//
//verif:bounds every registered built-in name, through environment-assign!, environment-define, set! and define
//verif:reach end
func VH_P29_protected() {
	names := vSortedKeys(Global.Bindings)
	name := names[vChoice("name", len(names))]
	b := Global.Bindings[name]
	if !b.Protected {
		return
	}
	old := b.Val
	m := vNewEnvModel()
	sym := Intern(name)
	at := vChoice("env", 3)
	v := vI(vInt64("v"))
	_, err := m.run("(environment-assign! va0 va1 va2)", at, sym, v)
	vAssert(err != nil, "a protected name cannot be assigned")
	_, err = m.run("(environment-define (system-global-environment) va1 va2)", at, sym, v)
	vAssert(err != nil, "a protected name cannot be redefined at its level")
	vAssert(Global.Bindings[name] == b && b.Val == old && b.Protected, "a protected name keeps its value")
	_, err = m.run("(environment-define va0 va1 va2)", at, sym, v)
	vAssert(err == nil, "a nested environment may define any name")
	vAssert(Global.Bindings[name] == b && b.Val == old && b.Protected, "shadowing leaves the protected name alone")
	for i := range m.env {
		d, err := m.run("(environment-lookup va0 va1)", i, sym, nil)
		if i == at || i == 2 && at <= 1 || at == 0 {
			vAssert(err == nil && d == v, "the new definition is seen in and below its environment")
		} else if !NilP(old) {
			vAssert(err == nil && d == old, "and nowhere else")
		}
	}
	vReach("end")
}

//verif:bounds new top-level environments with 0..3 names and values (or no values); wrong names, lengths and kinds
//verif:reach ok,bad
func VH_P29_make() {
	n := vChoice("n", 4)
	k := vChoice("k", 4)
	named := vBool("named")
	withVals := vBool("values")
	var names, vals []*Data
	bad := false
	for i := 0; i < n; i++ {
		names = append(names, Intern("vn"+vIntString(i)))
	}
	if n > 0 && vBool("badname") {
		i := vChoice("which", n)
		names[i] = vAtomNoSym("bad")
		bad = true
	}
	for i := 0; i < k; i++ {
		vals = append(vals, vI(vInt64("v")))
	}
	nl, vl := vOrNil(vList(names...)), vOrNil(vList(vals...))
	if vBool("nonlist") {
		if withVals && vBool("second") {
			vl = vNonList("l")
		} else {
			nl = vNonList("l")
			// a string in front is taken for the environment's name
			vAssume(!StringP(nl) || named)
		}
		bad = true
	}
	src := "(make-top-level-environment"
	if named {
		src += " \"vtop\""
	}
	src += " va0"
	if withVals {
		src += " va1"
		bad = bad || n != k
	}
	e, err := vEvalWith(vParse(src+")"), nl, vl)
	if bad {
		vReach("bad")
		vAssert(err != nil, "wrong names or values are an error")
		return
	}
	vReach("ok")
	vAssert(err == nil && EnvironmentP(e), "a new environment")
	bn, err := vEvalWith(vParse("(environment-bound-names va0)"), e)
	vAssert(err == nil && Length(bn) == n, "it binds exactly the given names")
	for i, s := range names {
		d, err := vEvalWith(vParse("(environment-lookup va0 va1)"), e, s)
		if withVals {
			vAssert(err == nil && d == vals[i], "each name has the value in its position")
		} else {
			vAssert(err != nil, "a name without a value is unassigned")
			d, err = vEvalWith(vParse("(environment-assigned? va0 va1)"), e, s)
			vAssert(err == nil && vIsBool(d, false), "a name without a value is unassigned")
		}
	}
	p, err := vEvalWith(vParse("(environment-parent va0)"), e)
	vAssert(err == nil && EnvironmentValue(p) == Global, "its parent is the global environment")
	if named {
		f, err := vEvalWith(vParse("(find-top-level-environment \"vtop\")"))
		vAssert(err == nil && EnvironmentP(f) && EnvironmentValue(f) == EnvironmentValue(e), "it is found by its name")
	}
}

func vAtomNoSym(name string) *Data {
	switch vChoice(name, 4) {
	case 0:
		return vI(vInt64(name))
	case 1:
		return StringWithValue("n")
	case 2:
		return EmptyCons()
	}
	return BooleanWithValue(true)
}

// Wrong kinds of arguments are errors that change nothing.
//
//verif:bounds every environment operation, every kind of wrong environment or name
//verif:reach end
func VH_P29_kinds() {
	ops := []string{
		"(environment-bound? va0 va1)", "(environment-assigned? va0 va1)", "(environment-lookup va0 va1)",
		"(environment-lookup-macro va0 va1)", "(environment-assignable? va0 va1)", "(environment-assign! va0 va1 1)",
		"(environment-definable? va0 va1)", "(environment-define va0 va1 1)", "(environment-reference-type va0 va1)",
		"(environment-has-parent? va0)", "(environment-parent va0)", "(environment-bound-names va0)",
		"(environment-macro-names va0)", "(environment-bindings va0)", "(eval va1 va0)",
	}
	op := vChoice("op", len(ops))
	m := vNewEnvModel()
	var err error
	if op < 9 && vBool("badname") {
		_, err = vEvalWith(vParse(ops[op]), m.val[1], vAtomNoSym("name"))
	} else {
		_, err = vEvalWith(vParse(ops[op]), vNonEnv("env"), Intern("vp"))
	}
	vAssert(err != nil, "an argument of the wrong kind is an error")
	m.check([]string{"vp"})
	vReach("end")
}

func vNonEnv(name string) *Data {
	switch vChoice(name, 7) {
	case 0:
		return EmptyCons()
	case 1:
		return vI(vInt64(name))
	case 2:
		return StringWithValue("vtop")
	case 3:
		return Intern("vtop")
	case 4:
		return vExList
	case 5:
		return vExFrame
	}
	return vExFn
}
