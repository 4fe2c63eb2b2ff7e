package golisp

import (
	"os"
	"sort"
	"unsafe"
)

// Calls of every built-in function with arguments of every kind. The functions
// are taken from the global environment, so one that is added is covered too.

// Functions that are meant to end or block the program, or that read the
// terminal, are left out; those that act on files or start programs are not
// given strings.
var vTotSkip = map[string]bool{"vprobe": true, "vstamp": true, "quit": true, "debug": true, "panic!": true}
// Functions that take text apart as programs or names are given sample texts
// (P19, P24 and P31 are about those).
var vTotText = map[string]bool{"parse": true, "intern": true, "gensym": true, "gensym-naked": true, "json->lisp": true, "format": true, "string-trim": true, "string-trim-left": true, "string-trim-right": true}
var vTotSets = map[string]bool{"union": true, "intersection": true, "complement": true}
var vTotFiles = map[string]bool{"load": true, "open-input-file": true, "open-output-file": true, "list-directory": true, "exec": true, "profile": true}

// Functions whose argument is a size are given small integers.
var vTotSizes = map[string]bool{"make-list": true, "make-channel": true, "interval": true, "general-car-cdr": true, "pow": true, "format": true}

var vTotNames []string
var vTotForms []string

// values of each kind, one set per argument so that they are distinct
var vTotConst [5][]*Data
var vTotElems []*Data
var vTotFns []*Data

func vTotValues() []*Data {
	srcs := []string{
		"{}", "{a: 1 f: (lambda (x) x)}", "{parent*: {a: 1} b: 'x}",
		"(acons 'a 1)", "(acons \"k\" '(1 2) (acons 'b 2))",
		"(lambda () 1)", "(lambda (x) x)", "(lambda (x y) y)",
		"car", "quote", "(list->bytearray '(1 2 3))",
		"(atomic 1)",
	}
	var r []*Data
	for _, s := range srcs {
		r = append(r, vMust(s))
	}
	env := NewSymbolTableFrameBelow(Global, "vtot")
	env.BindLocallyTo(Intern("vb"), vI(1))
	var any int
	null, _ := os.Open("/dev/null")
	return append(r, vByteArray(nil), EnvironmentWithValue(env), PortWithValue(null), ObjectWithTypeAndValue("vany", unsafe.Pointer(&any)))
}

func vTotInit() {
	for i := range vTotConst {
		vTotConst[i] = vTotValues()
	}
	vTotElems = []*Data{vMust("'(1)"), EmptyCons(), vI(1), StringWithValue("s"), vMust("{a: 1}"), vMust("'(1 2)"), vMust("(cons 1 2)"), FloatWithValue(0.5), Intern("vsym"), Intern("vsym:"), vMust("(lambda (x) x)"), vMust("'(a 1)"), vMust("(list->bytearray '(1 2))")}
	vTotFns = []*Data{vMust("(lambda () #t)"), vMust("(lambda (x) x)"), vMust("(lambda (x) #f)"), vMust("(lambda (x y) #t)"), vMust("(lambda (x y) x)"), vMust("+"), vMust("null?"), vMust("if")}
	m, _ := vTotMacro()
	vTotFns = append(vTotFns, m)
	// the functions of this package are all registered by now
	for sym, b := range Global.Bindings {
		if PrimitiveP(b.Val) && !vTotSkip[sym] {
			if PrimitiveValue(b.Val).Special {
				vTotForms = append(vTotForms, sym)
			} else {
				vTotNames = append(vTotNames, sym)
			}
		}
	}
	sort.Strings(vTotNames)
	sort.Strings(vTotForms)
}

func vTotMacro() (*Data, error) {
	env := vEnv()
	_, err := Eval(vParse("(defmacro (vmac x) x)"), env)
	if err != nil {
		panic(err)
	}
	return env.ValueOf(Intern("vmac")), nil
}

func init() { vTotInit() }

// vTotArg is any value: which kind it is is decided as it is looked at.
func vTotArg(i int, fname string, elems []*Data) *Data {
	n := vIntString(i)
	size := vTotSizes[fname]
	x, f := int64(0), float32(2.5)
	var y [3]int64
	if size {
		x = vInt("i"+n, -2, 3)
	} else {
		x = vInt64("i" + n)
		f = vFloat32("f" + n)
		y = [3]int64{vInt64("y" + n), vInt64("y" + n), vInt64("y" + n)}
	}
	alts := []*Data{
		EmptyCons(),
		vList(vOneOf("e"+n, elems)),
		vList(vOneOf("e"+n, elems), vOneOf("e"+n, elems)),
		vList(vI(y[0]), vI(y[1]), vI(y[2])),
		Cons(vOneOf("e"+n, elems), vOneOf("e"+n, elems)),
		Cons(vI(1), Cons(vI(2), StringWithValue("t"))),
		vI(x),
		FloatWithValue(f),
		BooleanWithValue(true), BooleanWithValue(false),
		Intern("vsym"), Intern("vsym:"),
	}
	alts = append(alts, vTotConst[i]...)
	if size && fname != "interval" {
		alts = append(alts, vI(-1<<63))
	}
	if fname == "pow" || fname == "general-car-cdr" {
		alts = append(alts, vI(1<<63-1))
	}
	if vTotText[fname] {
		for _, s := range []string{"", "(", "{\"a\": 1}", "'x", "\"", "~a", "~5,2a~"} {
			alts = append(alts, StringWithValue(s))
		}
	} else if !vTotFiles[fname] {
		s := vString("s"+n, 2)
		vAssume(s[1] < 0x80)
		alts = append(alts, StringWithValue(""), StringWithValue(s))
	}
	return vOneOf("a"+n, alts)
}

// vTotLook reads all of a value up to a depth, so that a value whose tag does
// not fit its contents is noticed.
func vTotLook(d *Data, depth int) {
	if d == nil || depth == 0 || vUndecided(d) {
		return
	}
	switch d.Type {
	case ConsCellType, AlistType, AlistCellType:
		if d.Value != nil {
			vTotLook(Car(d), depth-1)
			vTotLook(Cdr(d), depth-1)
		}
	case IntegerType:
		_ = IntegerValue(d)
	case FloatType:
		_ = FloatValue(d)
	case BooleanType:
		_ = BooleanValue(d)
	case StringType, SymbolType:
		_ = StringValue(d)
	case FunctionType:
		_ = FunctionValue(d).Name
	case MacroType:
		_ = MacroValue(d).Name
	case PrimitiveType:
		_ = PrimitiveValue(d).Name
	case BoxedObjectType:
		_ = ObjectType(d)
	case FrameType:
		for _, v := range FrameValue(d).Data {
			vTotLook(v, depth-1)
		}
	case EnvironmentType:
		_ = EnvironmentValue(d).Name
	case PortType:
		_ = PortValue(d)
	default:
		vAssert(false, "a result has a kind")
	}
}

func vTotCall(names []string, min, max int) {
	name := names[vChoice("prim", len(names))]
	// what is printed does not matter, unless its length is asked for
	vOpaque(name != "format")
	n := min + vChoice("argc", max-min+1)
	p := PrimitiveValue(Global.ValueOf(Intern(name)))
	if !p.checkArgumentCount(n) {
		var args []*Data
		for i := 0; i < n; i++ {
			args = append(args, vI(1))
		}
		_, err := p.Apply(vList(args...), vEnv())
		vAssert(err != nil, name+": a wrong number of arguments is an error")
		vReach("count")
		return
	}
	elems := vTotElems
	if n > 2 && vTier() == 0 {
		elems = elems[:5]
	}
	if n > 1 && vTotSets[name] && vTier() == 0 {
		elems = elems[:5-n]
	}
	var args []*Data
	for i := 0; i < n; i++ {
		args = append(args, vTotArg(i, name, elems))
	}
	vReach(name)
	r, err := p.ApplyWithoutEval(vList(args...), vEnv())
	if err == nil {
		vTotLook(r, 3)
		vReach("value")
	} else {
		vReach("error")
	}
}

// Every function with up to 1 argument.
//
//verif:bounds every registered function, 0 and 1 arguments
//verif:reach count,value,error
//verif:secs 200
func VH_P01_one() { vTotCall(vTotNames, 0, 1) }

//verif:bounds every registered function, 2 arguments
//verif:reach count,value,error
//verif:secs 200
func VH_P01_two() { vTotCall(vTotNames, 2, 2) }

//verif:bounds every registered function, 3 arguments
//verif:reach count,value,error
//verif:secs 200
func VH_P01_three() { vTotCall(vTotNames, 3, 3) }

// ---- special forms

var vTotCode []*Data
var vTotParts []*Data

func init() {
	for _, s := range []string{
		"(vsym)", "(vsym 1)", "((vsym 1))", "((vsym))", "((vsym 1 2))", "(() 1)", "(1)", "((1 2))", "(vsym . 1)", "((vsym . 1))", "((vsym 1) . 2)", "(1 . 2)",
		"(lambda (x) x)", "(lambda (x y) x)", "(quote a)", "(quote (1 2))", "(quote)", "(quote ((a . 1) 2))", "(else 1)", "(else)", "(#t 1)", "(#t => car)", "(unquote 1)", "(unquote)", "(unquote . 1)", "((unquote-splicing (quote (1))))",
		"(quasiquote ((unquote 1)))", "(vsym: 1)", "(error \"x\")", "(list 1 2)", "(car)", "(car 1)", "(1 2)", "((lambda (x) x) 2)", "(car . 1)", "(list 1 . 2)", "(define vd 1)", "(begin)", "(if)", "{a: 1}", "[1 2]",
	} {
		vTotCode = append(vTotCode, vParse(s))
	}
	for _, s := range []string{"()", "1", "\"s\"", "vsym", "vsym:", "#t", "(1)", "(vsym 1)", "(vsym . 1)", "(quote (1))", "car"} {
		vTotParts = append(vTotParts, vParse(s))
	}
}

// vTotTerm is a piece of program, well-formed or not.
func vTotTerm(i int) *Data {
	n := vIntString(i)
	alts := []*Data{
		EmptyCons(),
		vList(vOneOf("p"+n, vTotParts), vOneOf("p"+n, vTotParts)),
		Cons(vOneOf("p"+n, vTotParts), vOneOf("p"+n, vTotParts)),
		vI(vInt64("i" + n)),
		StringWithValue("s"),
		BooleanWithValue(true), BooleanWithValue(false),
		Intern("vsym"), Intern("vsym:"), Intern("car"), Intern("vunbound"),
		vTotConst[i][0], vTotConst[i][6],
	}
	return vOneOf("a"+n, append(alts, vTotCode...))
}

func vTotForm(max int) {
	name := vTotForms[vChoice("form", len(vTotForms))]
	n := vChoice("argc", max+1)
	vOpaque(true)
	p := PrimitiveValue(Global.ValueOf(Intern(name)))
	var args []*Data
	for i := 0; i < n; i++ {
		if name == "do" && i == 1 {
			// the test must end the loop
			args = append(args, vOneOf("test", []*Data{vParse("(#t)"), vParse("(#t 1)"), vParse("(#t . 1)"), vI(1), Intern("vsym"), vParse("(car 1)"), vParse("((undefined-fn 1))"), vParse("((list 1))")}))
			continue
		}
		args = append(args, vTotTerm(i))
	}
	env := vEnv()
	env.BindLocallyTo(Intern("vsym"), vI(3))
	r, err := p.Apply(vList(args...), env)
	if !p.checkArgumentCount(n) {
		vAssert(err != nil, name+": a wrong number of arguments is an error")
		vReach("count")
		return
	}
	vReach(name)
	if err == nil {
		vTotLook(r, 3)
		vReach("value")
	} else {
		vReach("error")
	}
}

// Every special form, with well- and ill-formed pieces of program.
//
//verif:bounds every registered special form, up to 2 pieces of program of 50 shapes each (thorough: 3)
//verif:reach count,value,error
//verif:secs 300
func VH_P01_forms() {
	max := 2
	if vTier() > 0 {
		max = 3
	}
	vTotForm(max)
}
