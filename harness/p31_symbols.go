package golisp

// vSymName is a name of up to n characters that the reader takes for a symbol.
func vSymName(name string, n int) string {
	s := vString(name, 1+vChoice(name+"-len", n))
	for i := 0; i < len(s); i++ {
		c := s[i]
		vAssume(c >= 'a' && c <= 'z' || i > 0 && (c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '?' || c == '!' || c == '*'))
	}
	vAssume(s != "nil" && s != "t")
	if vTier() == 0 {
		// few names that start with k are in use already
		vAssume(s[0] == 'k')
	}
	return s
}

// vObtain is a way of obtaining the symbol with a given name.
func vObtain(way int, name string) *Data {
	switch way {
	case 0:
		return Intern(name)
	case 1:
		return vParse(name)
	case 2:
		r, err := Eval(vParse("'"+name), vEnv())
		vAssert(err == nil, "quoting a name")
		return r
	case 3:
		r, err := Eval(vParse("(quote "+name+")"), vEnv())
		vAssert(err == nil, "quoting a name")
		return r
	case 4:
		return vCallOK("intern", StringWithValue(name))
	case 5:
		return Car(vParse("(" + name + ")"))
	}
	return SymbolWithName(name)
}

func vSymEq(a, b *Data, same bool, msg string) {
	for _, f := range []string{"==", "eqv?", "eq?", "equal?"} {
		r, err := vCall(f, a, b)
		vAssert(err == nil && vIsBool(r, same), f+": "+msg)
	}
	r, err := vCall("!=", a, b)
	vAssert(err == nil && vIsBool(r, !same), "!=: "+msg)
}

//verif:bounds any two names of up to 3 symbol characters (quick: 2, the first one k), obtained by interning, reading or quoting
//verif:reach same,different
//verif:secs 60
func VH_P31_identity() {
	a := vSymName("a", 2+vTier())
	b := vSymName("b", 2+vTier())
	wa := vChoice("wa", 7)
	wb := wa
	if vBool("other") {
		wb = (wa + 1) % 7
	}
	x := vObtain(wa, a)
	y := vObtain(wb, b)
	vAssert(SymbolP(x) && SymbolP(y), "a symbol")
	vAssert(StringValue(x) == a && StringValue(y) == b, "with the given name")
	if vTake(a == b) {
		vReach("same")
		vSymEq(x, y, true, "symbols with the same name are equal")
	} else {
		vReach("different")
		vSymEq(x, y, false, "symbols with different names are not equal")
	}
}

//verif:bounds any two texts of up to 3 arbitrary bytes (4 thorough)
//verif:reach same,different
func VH_P31_text() {
	a := vString("a", vChoice("la", 4+vTier()))
	b := vString("b", vChoice("lb", 4+vTier()))
	x, y := vCallOK("intern", StringWithValue(a)), vCallOK("intern", StringWithValue(b))
	vAssert(StringValue(x) == a && StringValue(y) == b, "interning keeps the name")
	if vTake(a == b) {
		vReach("same")
		vAssert(x == y, "interning the same text gives the same symbol")
		vSymEq(x, y, true, "symbols with the same name are equal")
	} else {
		vReach("different")
		vSymEq(x, y, false, "symbols with different names are not equal")
	}
}

// Symbols as names: the same name written anywhere is the same variable.
//
//verif:bounds two names of up to 2 characters (the first one k in the quick tier)
//verif:reach same,different
func VH_P31_variables() {
	a, b := vSymName("a", 2), vSymName("b", 2)
	x := vInt64("x")
	env := vEnv()
	_, err := Eval(vList(Intern("define"), vObtain(vChoice("wa", 7), a), vI(x)), env)
	vAssert(err == nil, "any symbol may be defined in an inner environment")
	y := vObtain(vChoice("wb", 7), b)
	bound, err := Eval(vList(Intern("environment-bound?"), EnvironmentWithValue(env), vList(Intern("quote"), y)), vEnv())
	vAssert(err == nil, "environment-bound?")
	if vTake(a == b) {
		vReach("same")
		vAssert(vIsBool(bound, true) && vIsInt(env.ValueOf(y), x), "the variable of that name")
	} else {
		vReach("different")
		_, local := env.BindingNamed(b)
		vAssert(!local, "no other variable is affected")
	}
}

// Generated symbols.
//
//verif:bounds histories of 4 steps (5 thorough): generating with the default, a string or a symbol prefix, plain or naked, or reading and interning the names a generator would give
//verif:reach end
//verif:secs 60
func VH_P31_gensym() {
	var all []*Data
	n := 4 + vTier()
	for i := 0; i < n; i++ {
		var s *Data
		gen := true
		switch vChoice("op", 8) {
		case 0:
			s = vCallOK("gensym")
		case 1:
			s = vCallOK("gensym", StringWithValue("vg"))
		case 2:
			s = vCallOK("gensym", Intern("vg"))
		case 3:
			s = vCallOK("gensym-naked", StringWithValue("vg"))
		case 4:
			s = vCallOK("gensym-naked")
		case 5:
			gen = false
			s = vObtain(4, "vg-"+vIntString(vChoice("d", 2)))
		case 6:
			gen = false
			s = vObtain(2, "GENSYM-"+vIntString(vChoice("d", 2)))
		case 7:
			gen = false
			s = vObtain(2, "vg-"+vIntString(vChoice("d", 2))+":")
		}
		vAssert(SymbolP(s), "a symbol")
		if gen {
			for _, o := range all {
				vSymEq(s, o, false, "a generated symbol is different from every earlier one")
			}
		}
		all = append(all, s)
	}
	vReach("end")
}

//verif:bounds two prefixes of up to 3 arbitrary bytes
//verif:reach end
func VH_P31_prefixes() {
	a := vString("a", vChoice("la", 4))
	b := vString("b", vChoice("lb", 4))
	x := vCallOK("gensym", StringWithValue(a))
	y := vCallOK("gensym", StringWithValue(b))
	z := vCallOK("gensym", StringWithValue(a))
	vSymEq(x, y, false, "generated symbols differ")
	vSymEq(y, z, false, "generated symbols differ")
	vSymEq(x, z, false, "generated symbols differ")
	k := vCallOK("gensym-naked", StringWithValue(a))
	vSymEq(x, k, false, "generated symbols differ")
	vSymEq(y, k, false, "generated symbols differ")
	vReach("end")
}

// Interning and generating in several processes at once.
//
//verif:bounds two processes interning the same or different new names, or generating, every interleaving with up to 3 preemptions
//verif:reach end
//verif:conc x
func VH_P31_concurrent() {
	vConcurrent(3)
	var got [2]*Data
	done := make(chan int, 2)
	names := []string{"vfresh-0", "vfresh-" + vIntString(vChoice("b", 2))}
	gen := vChoice("gen", 3)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			switch {
			case gen == 2:
				got[i], _ = vCall("gensym", StringWithValue("vg"))
			case gen == 1 && i == 1:
				got[i], _ = vCall("gensym", StringWithValue("vfresh"))
			default:
				got[i] = Intern(names[i])
			}
			done <- i
		}()
	}
	<-done
	<-done
	if gen == 2 {
		vAssert(StringValue(got[0]) != StringValue(got[1]), "generated symbols differ")
	}
	if gen == 0 {
		if names[0] == names[1] {
			vAssert(got[0] == got[1], "the same name gives the same symbol in every process")
		} else {
			vAssert(got[0] != got[1], "different names give different symbols")
		}
		vAssert(got[0] == Intern(names[0]) && got[1] == Intern(names[1]), "and later ones agree")
	}
	vReach("end")
}
