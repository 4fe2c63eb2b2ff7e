package golisp

import "strings"

// Each row is an expression in which (p v) is a subexpression under the
// harness's control: it gives v, or an error where the harness decides so.
var vErrRows = []string{
	"(begin (p 1) (p 2) (p 3))",
	"(begin (set! x (p 1)) (set! y (p 2)) (set! x (p 3)))",
	"(if (p #t) (p 1) (p 2))",
	"(if (p #f) (p 1) (p 2))",
	"(when (p #t) (p 1) (set! x 5) (p 2))",
	"(unless (p #f) (p 1) (set! x 5) (p 2))",
	"(cond ((p #f) (p 1)) ((p #t) (p 2) (set! x 1) (p 3)) (else (p 4)))",
	"(cond ((p #f) (p 1)) (else (p 4) (set! x 3) (p 5)))",
	"(case (p 1) ((0) (p 1)) ((1 2) (p 2) (set! y 1) (p 3)) (else (p 4)))",
	"(case (p 9) ((0) (p 1)) (else (p 4) (set! y 1) (p 5)))",
	"(and (p 1) (p 2) (set! x 2) (p 3))",
	"(or (p #f) (p #f) (begin (set! x 2) #f) (p 3) (p 4))",
	"(not (p #t))",
	"(set! x (p 2))",
	"(define z (p 2))",
	"(begin (define (f a) (p a) (set! x a) (p 7)) (f (p 1)) (p 2))",
	"(let ((a (p 1)) (b (p 2))) (set! x a) (p a) (set! y b) (p b))",
	"(let* ((a (p 1)) (b (p a))) (set! x a) (p a) (set! y b) (p b))",
	"(letrec ((a (p 1)) (b (p 2))) (set! x a) (p a) (set! y b) (p b))",
	"(let loop ((i (p 0)) (k (p 1))) (set! x i) (if (p (< i 2)) (loop (p (+ i 1)) (p k)) (p k)))",
	"(do ((i (p 0) (p (+ i 1))) (k (p 1) (p k))) ((p (== i 2)) (p 5) (set! y 4) (p 6)) (set! x i) (p i))",
	"(-> (p 1) (+ (p 2)) (* (p 3)))",
	"(=> (p 1) (+ (p 2)) (begin (set! x 3)) (* (p 3)))",
	"(-> (p 1) p p)",
	"(=> (p 1) p p)",
	"`(a ,(p 1) (b ,(p 2)) ,@(p '(1 2)) c)",
	"((p +) (p 1) (p 2))",
	"((lambda (a b) (p a) (set! x b) (p b)) (p 1) (p 2))",
	"((lambda (a . r) (p a) (set! x r) (p r)) (p 1) (p 2) (p 3))",
	"(f2 (p 1) (p 2))",
	"(f2 (f2 (p 1) (p 2)) (p 3))",
	"(m2 (p 1) (p 2))",
	"(apply + (p 1) (p '(2 3)))",
	"(apply f2 (p '(2 3)))",
	"(apply (p f2) (p 1) (p '(2)))",
	"(eval (p '(begin (p 1) (set! x 8) (p 2))))",
	"(eval (p '(begin (p 1) (p 2))) (p (the-environment)))",
	"(time (begin (p 1) (set! x 3) (p 2)))",
	"(set-car! (p l) (p 9))",
	"(set-cdr! (p l) (p '(9)))",
	"(set-nth! (p l) (p 1) (p 9))",
	"(append! (p l) (p '(9)))",
	"(list (p 1) (p 2) (set! x 4) (p 3))",
	"(cons (p 1) (p 2))",
	"(map p l)",
	"(map (lambda (a b) (set! x a) (p b)) l (p '(7 8 9)))",
	"(map f2 (p l) (p '(7 8 9)))",
	"(for-each (lambda (a) (set! x a) (p a)) (p l))",
	"(for-each (lambda (a b) (p b) (set! x a) (p a)) (p l) (p '(4 5 6)))",
	"(any (lambda (a) (set! x a) (p #f)) (p l))",
	"(every (lambda (a) (set! x a) (p #t)) (p l))",
	"(filter (lambda (a) (set! x a) (p #t)) (p l))",
	"(remove (lambda (a) (set! x a) (p #t)) (p l))",
	"(partition (lambda (a) (set! x a) (p #t)) (p l))",
	"(find (lambda (a) (set! x a) (p #f)) (p l))",
	"(find-tail (lambda (a) (set! x a) (p #f)) (p l))",
	"(memp (lambda (a) (set! x a) (p #f)) (p l))",
	"(reduce (lambda (a b) (set! x a) (p b)) (p 0) (p l))",
	"(reduce-left (lambda (a b) (set! x a) (p b)) (p 0) (p l))",
	"(reduce-right (lambda (a b) (set! x a) (p b)) (p 0) (p l))",
	"(fold-left (lambda (a b) (set! x a) (p b)) (p 0) (p l))",
	"(fold-right (lambda (a b) (set! x a) (p b)) (p 0) (p l))",
	"(sort (p l) (lambda (a b) (set! x a) (p (> a b))))",
	"{a: (p 1) b: (p 2)}",
	"(make-frame a: (p 1) b: (p 2))",
	"(get-slot (p fr) a:)",
	"(set-slot! (p fr) a: (p 5))",
	"(a:! (p fr) (p 5))",
	"(a: (p fr))",
	"(a:? (p fr))",
	"(send (p fr) go: (p 1) (p 2))",
	"(go:> (p fr) (p 1) (p 2))",
	"(send (p fr) up: (p 1) (p 2))",
	"(apply-slot (p fr) go: (p '(1 2)))",
	"(apply-slot (p fr) go: (p 1) (p '(2)))",
	"(apply-slot (p fr) aup: (p '(1 2)))",
	"(remove-slot! (p fr) (p a:))",
	"(clone (p fr))",
	"(acons (p 'q) (p 1) (p al))",
	"(replace-byte! (p ba) (p 0) (p 9))",
	"(append-bytes! (p ba) (p 7))",
	"(atomic-store! (p at) (p 9))",
	"(atomic-swap! (p at) (p 9))",
	"(atomic-add! (p at) (p 9))",
	"(atomic-compare-and-swap! (p at) (p 1) (p 9))",
	"(environment-assign! (p (the-environment)) (p 'x) (p 9))",
	"(environment-define (p (the-environment)) (p 'z) (p 9))",
	"(on-error (p 1) (p handler) (p thunk))",
	"(begin (on-error (error \"inner\") (lambda (e) (set! x 3) (p 1) (set! y 4) (p 2))) (p 3))",
	"(on-error (set! x 1) (lambda (e) (p 0)) (lambda () (p 1) (set! y 4) (p 2)))",
	"(str (p 1) (p 2))",
	"(format #f \"~A ~A\" (p 1) (p 2))",
	"(definition-of f2)",
	"(call-with-probe p)",
	"(begin (p 1) (defmacro (mm a) (p 2) `(begin ,a (p 3))) (mm (set! x (p 4))) (p 5))",
	"(expand (p m2) (p 1) (p 2))",
	"(case (p 'k) ((j) 1) ((k) (let ((x (p 2))) (set! y (p 3)))))",
	"(let ((x (p 1))) (define y (p 2)) (set! x (p 3)) (p 4))",
	"(begin (begin (p 1) (begin (p 2) (set! x (p 3))) (set! y (p 4))) (p 5))",
	"(quote (p 1))",
}

// vErrSkip are rows in which an error is handled by the program itself.
func vErrHandled(src string) bool {
	return strings.HasPrefix(src, "(on-error (p 1)")
}

func vErrEnv() *SymbolTableFrame {
	env := vEnv()
	for _, s := range []string{
		"(define x 10)", "(define y 20)", "(define l (list 1 2 3))",
		"(define al (acons 'k 1 (acons 'j 2)))",
		"(define base {go: (lambda (u v) (p u) (set! x v) (p v)) up: (lambda (u v) 0) aup: (lambda (u v) 0)})",
		"(define fr {proto*: base a: 1 b: 2 go: (lambda (u v) (p u) (set! x v) (set! a v) (p v)) up: (lambda (u v) (send-super up: (p u) (p v))) aup: (lambda (u v) (apply-slot-super aup: (p u) (p (list v))))})",
		"(define ba (list->bytearray '(1 2 3)))",
		"(define at (atomic 1))",
		"(define (f2 u v) (p u) (set! x v) (p v) u)",
		"(defmacro (m2 u v) `(begin ,u (set! x 77) ,v))",
		"(define (handler e) (p 'h) (set! x 3))",
		"(define (thunk) (p 't) (set! y 4))",
		"(define (call-with-probe f) (f 1) (set! x 2) (f 2))",
	} {
		env.BindLocallyTo(Intern("p"), vExProbePrim)
		if _, err := Eval(vParse(s), env); err != nil {
			panic(s + ": " + err.Error())
		}
	}
	return env
}

var vErrStateExpr = "(list x y l al (length (frame-keys fr)) (get-slot-or-nil fr a:) (get-slot-or-nil fr b:) (length (frame-keys base)) ba (atomic-load at))"

// vErrState is what the program can see of its state, and the number of names
// bound in its environment.
func vErrState(env *SymbolTableFrame) (*Data, int) {
	d, err := Eval(vParse(vErrStateExpr), env)
	if err != nil {
		return nil, -1
	}
	return vClone(d), len(env.Bindings)
}

//verif:bounds every special form, call and higher-order function form of the table with an error at an arbitrary evaluated position
//verif:reach err,ok
func VH_P23_forms() {
	src := vErrRows[vChoice("row", len(vErrRows))]
	if vErrHandled(src) {
		return
	}
	env := vErrEnv()
	type seen struct {
		state *Data
		names int
		args  []*Data
	}
	var ref []seen
	vProbeCalls = nil
	vProbeAnswer = func(call int, args []*Data) (*Data, error) {
		s, n := vErrState(env)
		ref = append(ref, seen{s, n, args})
		return args[0], nil
	}
	_, err := Eval(vParse(src), env)
	vAssert(err == nil, "the form must not fail by itself")
	if len(ref) == 0 {
		return
	}
	env = vErrEnv()
	k := vInt("fail", 0, int64(len(ref)))
	vProbeCalls = nil
	failed := false
	vProbeAnswer = func(call int, args []*Data) (*Data, error) {
		if int64(call) == k {
			failed = true
			return nil, vErrBoom
		}
		return args[0], nil
	}
	_, err = Eval(vParse(src), env)
	if !failed {
		vReach("ok")
		vAssert(err == nil, "no error when nothing fails")
		return
	}
	vReach("err")
	n := len(vProbeCalls)
	vAssert(err != nil, "the error must be reported")
	vAssert(strings.Contains(err.Error(), "boom"), "the reported error must be the one that happened")
	vAssert(int64(n) == k+1, "nothing may be evaluated after the error")
	s, m := vErrState(env)
	vAssert(m == ref[n-1].names, "no name may be defined or lost after the error")
	vAssert(vSame(s, ref[n-1].state), "no state change after the error, none undone")
}

// Every built-in function evaluates its arguments before it runs.
//
//verif:bounds every registered non-special built-in called with 1..4 arguments, an error in an arbitrary one of them
//verif:reach run,arity
func VH_P23_args() {
	var names []string
	for _, k := range vSortedKeys(Global.Bindings) {
		b := Global.Bindings[k]
		if PrimitiveP(b.Val) && !PrimitiveValue(b.Val).Special {
			names = append(names, k)
		}
	}
	name := names[vChoice("prim", len(names))]
	n := 1 + vChoice("n", 4)
	src := "(" + name
	for i := 0; i < n; i++ {
		src += " (vprobe " + vIntString(i) + ")"
	}
	expr := vParse(src + ")")
	k := vInt("fail", 0, int64(n-1))
	vProbeCalls = nil
	vProbeAnswer = func(call int, args []*Data) (*Data, error) {
		if int64(call) == k {
			return nil, vErrBoom
		}
		return vI(int64(call)), nil
	}
	_, err := Eval(expr, vEnv())
	vAssert(err != nil, "the error in an argument must be reported")
	c := len(vProbeCalls)
	if c == 0 {
		vReach("arity")
		return
	}
	vReach("run")
	vAssert(strings.Contains(err.Error(), "boom"), "the reported error must be the one that happened")
	vAssert(int64(c) == k+1, "no argument may be evaluated after the error")
	for i, a := range vProbeCalls {
		vAssert(len(a) == 1 && vIsInt(a[0], int64(i)), "arguments must be evaluated in order")
	}
}

//verif:bounds body, handler and final clause each failing or not, raising in nested calls, up to 2 nested on-error forms
//verif:reach handled,clean,raised
func VH_P23_onerror() {
	srcs := []string{
		"(on-error (vprobe 0) (lambda (e) (vprobe 1 e)))",
		"(on-error (vprobe 0) (lambda (e) (vprobe 1 e)) (lambda () (vprobe 2)))",
		"(on-error (begin (vprobe 0) (vprobe 3)) (lambda (e) (vprobe 1 e)) (lambda () (vprobe 2)))",
		"(on-error (map vprobe '(0)) (lambda (e) (vprobe 1 e)) (lambda () (vprobe 2)))",
		"(on-error ((lambda () (vprobe 0))) (begin (vprobe 4) (lambda (e) (vprobe 1 e))) (begin (vprobe 5) (lambda () (vprobe 2))))",
		"(on-error (on-error (vprobe 0) (lambda (e) (vprobe 6 e))) (lambda (e) (vprobe 1 e)) (lambda () (vprobe 2)))",
	}
	form := vChoice("form", len(srcs))
	fail := map[int]bool{}
	msg := map[int]error{0: vErr("zero"), 1: vErr("one"), 2: vErr("two"), 3: vErr("three"), 4: vErr("four"), 5: vErr("five"), 6: vErr("six")}
	val := map[int]int64{}
	for i := 0; i < 7; i++ {
		fail[i] = vBool("fail")
		val[i] = vInt64("val")
	}
	var got []int
	var text string
	vProbeCalls = nil
	vProbeAnswer = func(call int, args []*Data) (*Data, error) {
		i := int(IntegerValue(args[0]))
		got = append(got, i)
		if len(args) > 1 {
			text = StringValue(args[1])
			if !StringP(args[1]) {
				text = "?"
			}
		}
		if fail[i] {
			return nil, msg[i]
		}
		return vI(val[i]), nil
	}
	// the model: the calls in order, the failing one that ends it (-1: none)
	var want []int
	bad := -1
	wantText := ""
	var res *Data
	call := func(i int) bool {
		want = append(want, i)
		if fail[i] {
			bad = i
			return false
		}
		res = vI(val[i])
		return true
	}
	handle := func(i int) {
		wantText = msg[bad].Error()
		bad = -1
		call(i)
	}
	switch form {
	case 0:
		if !call(0) {
			handle(1)
		}
	case 1, 3:
		if !call(0) {
			handle(1)
		} else {
			call(2)
		}
	case 2:
		if !(call(0) && call(3)) {
			handle(1)
		} else {
			call(2)
		}
	case 4:
		if !call(0) {
			b := bad
			bad = -1
			if call(4) {
				bad = b
				handle(1)
			}
		} else if call(5) {
			call(2)
		}
	case 5:
		if !call(0) {
			handle(6)
		}
		if bad >= 0 {
			handle(1)
		} else {
			call(2)
		}
	}
	r, err := Eval(vParse(srcs[form]), vEnv())
	vAssert(len(got) == len(want), "exactly the required parts must be evaluated")
	for i := range got {
		vAssert(got[i] == want[i], "the parts must be evaluated in order")
	}
	if wantText != "" {
		vReach("handled")
		vAssert(strings.Contains(text, wantText), "the handler must be given the message")
	} else {
		vReach("clean")
	}
	if bad >= 0 {
		vReach("raised")
		vAssert(err != nil && strings.Contains(err.Error(), msg[bad].Error()), "an error in a handler or final clause must be reported")
	} else {
		vAssert(err == nil, "a handled error must not be reported")
		vAssert(vIsInt(r, IntegerValue(res)), "the value must be that of the last part")
	}
}

// The error function, with a handler that is not a function.
//
//verif:bounds messages of up to 4 arbitrary bytes; handlers of every kind that is not a function
//verif:reach msg,bad
func VH_P23_error() {
	text := vString("msg", vChoice("len", 5))
	d := StringWithValue(text)
	vAssumeText(text)
	_, err := vEvalWith(vParse("(error va0)"), d)
	vAssert(err != nil, "error must report an error")
	h, err := vEvalWith(vParse("(on-error (error va0) (lambda (e) e))"), d)
	vAssert(err == nil && StringP(h) && strings.Contains(StringValue(h), text), "the handler must be given the message")
	vReach("msg")
	bad := vNonFunction("handler")
	_, err = vEvalWith(vParse("(on-error (error va0) va1)"), d, bad)
	vAssert(err != nil, "a handler that is not a function is an error")
	r, err := vEvalWith(vParse("(on-error va0 va1)"), d, bad)
	vAssert(err == nil && r == d, "without an error the handler does not matter")
	vReach("bad")
}
