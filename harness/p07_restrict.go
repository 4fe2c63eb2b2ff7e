package golisp

import "os"

var vRanOps int

func vRestrImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	vRanOps++
	return BooleanWithValue(true), nil
}

var vRestrWays []string

func init() {
	MakeRestrictedPrimitiveFunction("vrestr", "*", vRestrImpl)
	MakeRestrictedSpecialForm("vrestrform", "*", vRestrImpl)
	// Ways of reaching a restricted operation OP from code in an environment.
	vRestrWays = []string{
		"(OP 1)",
		"(let ((al OP)) (al 1))",
		"(begin (define al OP) (al 1))",
		"(apply OP '(1))",
		"(apply OP 1 '(2))",
		"(map OP '(1 2))",
		"(map OP '(1) '(2))",
		"(for-each OP '(1))",
		"(filter OP '(1 2))",
		"(remove OP '(1 2))",
		"(partition OP '(1 2))",
		"(reduce OP 0 '(1 2))",
		"(reduce-left OP 0 '(1 2))",
		"(reduce-right OP 0 '(1 2))",
		"(fold-left OP 0 '(1 2))",
		"(fold-right OP 0 '(1 2))",
		"(any OP '(1 2))",
		"(every OP '(1 2))",
		"(find OP '(1 2))",
		"(find-tail OP '(1 2))",
		"(sort '(2 1) OP)",
		"((lambda (f) (f 1)) OP)",
		"((lambda () (OP 1)))",
		"((lambda () (let ((x 1)) (OP x))))",
		"(begin (define (al x) (OP x)) (al 1))",
		"(begin (define (mk) (lambda (x) (OP x))) ((mk) 1))",
		"(eval '(OP 1))",
		"(eval (list OP 1))",
		"(eval '(OP 1) (eval '(the-environment)))",
		"(let loop ((i 0)) (OP i))",
		"(let* ((i 0) (j (OP i))) j)",
		"(letrec ((f (lambda (x) (OP x)))) (f 1))",
		"(do ((i 0 (+ i 1))) ((== i 1)) (OP i))",
		"(if #t (OP 1) 2)",
		"(cond ((OP 1) 2))",
		"(case 1 ((1) (OP 1)))",
		"(and #t (OP 1))",
		"(or #f (OP 1))",
		"(list 1 (OP 1))",
		"(-> 1 OP)",
		"(-> 1 (OP 2))",
		"(=> 1 OP)",
		"(begin (defmacro (mac x) `(OP ,x)) (mac 1))",
		"(quasiquote (1 (unquote (OP 1))))",
		"(begin (define fr (make-frame go: (lambda (x) (OP x)))) (send fr go: 1))",
		"(begin (define fr (make-frame go: (lambda (x) (OP x)))) (apply-slot fr go: '(1)))",
		"(begin (define fr (make-frame vv: OP)) ((get-slot fr vv:) 1))",
		"(on-error (error \"x\") (lambda (e) (OP e)))",
		"(on-error (OP 1) (lambda (e) (error \"again\")))",
		"(time (OP 1))",
		"((lambda (a . r) (apply OP a r)) 1 2)",
		"((car (list OP)) 1)",
		"(force-it (lambda () (OP 1)))",
	}
}

func vReplaceOP(s, op string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		if i+2 <= len(s) && s[i:i+2] == "OP" {
			out += op
			i++
		} else {
			out += string(s[i])
		}
	}
	return out
}

// A restricted operation, however it is reached, is an error without effect
// exactly when the environment or an enclosing one is restricted.
//verif:bounds a restricted function and a restricted special form; 53 ways of reaching them; environments nested two (thorough three) deep and whatever the code nests further, restricted at any set of levels, before or after the inner environments were made
//verif:reach refused,permitted
func VH_P07_ways() {
	way := vChoice("way", len(vRestrWays))
	op := []string{"vrestr", "vrestrform"}[vChoice("op", 2)]
	depth := 1 + vChoice("depth", 2+vTier())
	late := vBool("late")
	any := false
	src := vReplaceOP(vRestrWays[way], op)
	env := vEnv()
	restrict := vParse("(restrict-environment)")
	var envs []*SymbolTableFrame
	var at []bool
	for i := 0; i < depth; i++ {
		envs = append(envs, env)
		at = append(at, vBool("restricted"))
		any = any || at[i]
		if at[i] && !late {
			_, err := Eval(restrict, env)
			vAssert(err == nil, "restricting an environment")
		}
		if i+1 < depth {
			env = NewSymbolTableFrameBelow(env, "inner")
		}
	}
	for i := range at {
		if at[i] && late {
			_, err := Eval(restrict, envs[i])
			vAssert(err == nil, "restricting an environment")
		}
	}
	_, err := Eval(vParse("(define (force-it f) (f))"), env)
	vAssert(err == nil, "a definition in a restricted environment")
	vRanOps = 0
	_, err = Eval(vParse(src), env)
	if any {
		vAssert(vRanOps == 0, "a restricted operation does not run in a restricted environment")
		vAssert(err != nil, "a restricted operation is an error in a restricted environment")
		vReach("refused")
		return
	}
	if err == nil {
		vAssert(vRanOps > 0, "a restricted operation runs where nothing is restricted")
		vReach("permitted")
	}
}

// A closure made in a restricted environment stays restricted when called
// from an unrestricted one; restricting one environment does not restrict the
// ones around and beside it.
//verif:bounds closures made directly, in nested functions, and before the restriction; called by outer code, through map and apply
func VH_P07_closures() {
	inner := vEnv()
	outer := vEnv()
	mk := []string{"(lambda (x) (vrestr x))", "(let ((y 1)) (lambda (x) (vrestr x)))", "((lambda (y) (lambda (x) (let ((z x)) (vrestr z)))) 1)",
		"(begin (define (f x) (vrestr x)) f)"}[vChoice("make", 4)]
	early := vChoice("early", 2) == 1
	restrict := vParse("(restrict-environment)")
	if !early {
		Eval(restrict, inner)
	}
	f, err := Eval(vParse(mk), inner)
	vAssert(err == nil, "making a closure")
	if early {
		Eval(restrict, inner)
	}
	outer.BindLocallyTo(Intern("f"), f)
	vRanOps = 0
	_, err = Eval(vParse([]string{"(f 1)", "(map f '(1))", "(apply f '(1))", "(let ((g f)) (g 1))", "((lambda (h) (h 1)) f)"}[vChoice("call", 5)]), outer)
	vAssert(err != nil && vRanOps == 0, "a closure made in a restricted environment stays restricted")
	_, err = Eval(vParse("(vrestr 1)"), outer)
	vAssert(err == nil && vRanOps == 1, "other environments are not restricted")
	_, err = Eval(vParse("(vrestr 1)"), NewSymbolTableFrameBelow(Global, "fresh"))
	vAssert(err == nil && vRanOps == 2, "new environments outside the restricted one are not restricted")
	_, err = Eval(vParse("(vrestr 1)"), NewSymbolTableFrameBelow(inner, "fresh"))
	vAssert(err != nil && vRanOps == 2, "new environments inside the restricted one are restricted")
}

type vRestrOp struct{ name, args string }

var vRestrOps = []vRestrOp{
	{"global-eval", "'(vprobe 1)"},
	{"load", `"/dev/null"`},
	{"open-input-file", `"/dev/null"`},
	{"open-output-file", `"/dev/null"`},
	{"open-output-file", `"/dev/null" #t`},
	{"close-port", "va0"},
	{"write-bytes", "[1 2] va0"},
	{"exec", `"true"`},
	{"exec", `"true" "x"`},
	{"debug-on-error", "#f"},
	{"debug-on-error", ""},
	{"add-debug-on-entry", "va1"},
	{"environment-parent", "va2"},
	{"system-global-environment", ""},
	{"make-top-level-environment", `"x"`},
	{"make-top-level-environment", `"x" '(a)`},
	{"make-top-level-environment", `"x" '(a) '(1)`},
	{"find-top-level-environment", `"SystemGlobal"`},
	{"procedure-environment", "va1"},
	{"debug", ""},
	{"panic!", "1"},
}

// Every operation that can reach files, processes, the debugger, the top
// level or other environments is restricted.
//verif:bounds the 16 operations with their argument counts; called directly, under another name, through apply, inside a closure and inside evaluated code
//verif:reach refused,permitted
func VH_P07_operations() {
	k := vChoice("op", len(vRestrOps))
	op := vRestrOps[k]
	src := []string{"(" + op.name + " " + op.args + ")", "(let ((al " + op.name + ")) (al " + op.args + "))", "(apply " + op.name + " (list " + op.args + "))",
		"((lambda () (" + op.name + " " + op.args + ")))", "(eval (list 'apply '" + op.name + " '(list " + op.args + ")))"}[vChoice("way", 5)]
	port, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	vAssert(err == nil, "a port for the arguments")
	fn := vMust("(lambda (x) x)")
	env := vLet(PortWithValue(port), fn, EnvironmentWithValue(vEnv()))
	vProbeCalls = nil
	vProbeAnswer = func(int, []*Data) (*Data, error) { return vI(1), nil }
	restricted := vChoice("restricted", 2) == 1
	if restricted {
		_, err = Eval(vParse("(restrict-environment)"), env)
		vAssert(err == nil, "restricting an environment")
		inner := NewSymbolTableFrameBelow(env, "inner")
		if vChoice("nested", 2) == 1 {
			env = inner
		}
		_, err = Eval(vParse(src), env)
		vAssert(err != nil, op.name+" is an error in a restricted environment")
		vAssert(len(vProbeCalls) == 0, op.name+" has no effect in a restricted environment")
		vReach("refused")
		return
	}
	vAssume(op.name != "debug" && op.name != "panic!")
	_, err = Eval(vParse(src), env)
	if op.name == "add-debug-on-entry" {
		Eval(vParse("(remove-debug-on-entry va1)"), env)
	}
	vAssert(err == nil, op.name+" is permitted in an unrestricted environment")
	vReach("permitted")
}
