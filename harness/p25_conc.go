package golisp

// The environment the operations of the harnesses run below: making an
// environment directly below Global would register it globally each time.
var vcBase *SymbolTableFrame

// vForking starts exploring interleavings. The names the programs use are
// interned before: what processes do while a name is new is the subject of
// VH_P31_concurrent.
func vForking(preempt int) {
	names := []string{"self", "parentProcess", "x", "y", "z", "p", "c", "d", "e", "q", "v", "i", "tag", "err", "f", "vf", "vs0", "vs1", "vs3",
		"twice", "failed", "gone", "done", "vk0", "vk1", "vm", "p*", "lambda", "define", "set!", "let", "do", "quote", "list", "list-ref", "eval", "on-error", "car", "cdr", "+", ">=", "str", "copy", "equal?", "length", "clone", "send",
		"atomic", "atomic-load", "atomic-store!", "atomic-add!", "atomic-swap!", "atomic-compare-and-swap!",
		"fork", "join", "schedule", "wake", "abandon", "reset-timeout", "proc-sleep", "sleep",
		"make-channel", "channel-read", "channel-write", "channel-try-read", "channel-try-write", "close-channel",
		"environment-define", "procedure-environment", "environment-bound-names", "environment-bindings", "environment-assign!", "environment-bound?", "environment-macro-names",
		"set-slot!", "get-slot", "remove-slot!", "has-slot?", "get-slot-or-nil", "frame-keys", "frame-values", "lisp->json"}
	for i := 0; i < 7; i++ {
		names = append(names, vArgNames[i])
	}
	for _, n := range names {
		Intern(n)
		Intern(n + ":")
	}
	vcBase = vEnv()
	vConcurrent(preempt)
}

func vcEnv() *SymbolTableFrame {
	if vcBase == nil {
		vcBase = vEnv()
	}
	return NewSymbolTableFrameBelow(vcBase, "verifconc")
}

func vcEvalWith(expr *Data, vals ...*Data) (*Data, error) {
	env := vcEnv()
	for i, v := range vals {
		env.BindLocallyTo(Intern(vArgNames[i]), v)
	}
	return Eval(expr, env)
}

func vcCall(name string, vals ...*Data) (*Data, error) {
	var expr *Data
	for i := len(vals) - 1; i >= 0; i-- {
		expr = Cons(Intern(vArgNames[i]), expr)
	}
	return vcEvalWith(Cons(Intern(name), expr), vals...)
}

func vcCallOK(name string, vals ...*Data) *Data {
	r, err := vcCall(name, vals...)
	vAssert(err == nil, name+" must not fail")
	return r
}

func vcEvalOK(d *Data) *Data {
	r, err := Eval(d, vcEnv())
	vAssert(err == nil, "evaluation")
	return r
}

func vcMust(src string) *Data { return vcEvalOK(vParse(src)) }

// ---- atomic cells

var vAtomicForms []*Data

func init() {
	for _, s := range []string{
		"(lambda (p) (atomic-load va0))",
		"(lambda (p) (atomic-store! va0 va1))",
		"(lambda (p) (atomic-add! va0 va1))",
		"(lambda (p) (atomic-swap! va0 va1))",
		"(lambda (p) (atomic-compare-and-swap! va0 va1 va2))",
	} {
		vAtomicForms = append(vAtomicForms, vParse(s))
	}
}

type vAtomicOp struct {
	kind int
	x, y int64
}

// vAtomicStep: the answer of op on a cell holding cur, and its new contents.
func vAtomicStep(op vAtomicOp, cur int64) (kind int, ans int64, next int64) {
	switch op.kind {
	case 0:
		return 0, cur, cur
	case 1:
		return 1, 0, op.x
	case 2:
		return 0, cur + op.x, cur + op.x
	case 3:
		return 0, cur, op.x
	}
	if vTake(cur == op.x) {
		return 2, 1, op.y
	}
	return 2, 0, cur
}

func vAtomicAgrees(kind int, ans int64, got *Data) bool {
	switch kind {
	case 0:
		return IntegerP(got) && IntegerValue(got) == ans
	case 1:
		return true // the answer of a store is not specified
	}
	return BooleanP(got) && BooleanValue(got) == (ans == 1)
}

// vAtomicOrder: performing the operations in the given order explains every
// answer and the final contents.
func vAtomicOrder(ops []vAtomicOp, got []*Data, order []int, init, final int64) bool {
	cur := init
	for _, i := range order {
		k, a, n := vAtomicStep(ops[i], cur)
		if !vTake(vAtomicAgrees(k, a, got[i])) {
			return false
		}
		cur = n
	}
	return vTake(cur == final)
}

func vForkOp(cell *Data, op vAtomicOp) *Data {
	f, err := vcEvalWith(vAtomicForms[op.kind], cell, vI(op.x), vI(op.y))
	vAssert(err == nil, "an operation")
	p, err := vcCall("fork", f)
	vAssert(err == nil, "a process is started")
	return p
}

func vAtomicOpN(name string) vAtomicOp {
	o := vAtomicOp{kind: vChoice(name, 5)}
	if o.kind > 0 {
		o.x = vInt64(name + "x")
	}
	if o.kind == 4 {
		o.y = vInt64(name + "y")
	}
	return o
}

// Two processes and the main program each perform an operation on a cell.
//
//verif:bounds two forked processes performing any two of load, store, add, swap, compare-and-swap with arbitrary 64-bit operands on a cell with arbitrary contents, every interleaving with up to 3 preemptions
//verif:reach end
//verif:conc x
func VH_P25_atomic2() {
	a := vAtomicOpN("a")
	b := vAtomicOpN("b")
	init := vInt64("init")
	vForking(3)
	cell := vcCallOK("atomic", vI(init))
	pa := vForkOp(cell, a)
	pb := vForkOp(cell, b)
	ra, err := vcCall("join", pa)
	vAssert(err == nil, "a process is joined")
	rb, err := vcCall("join", pb)
	vAssert(err == nil, "a process is joined")
	fin := vcCallOK("atomic-load", cell)
	vAssert(IntegerP(fin), "the contents are an integer")
	ops := []vAtomicOp{a, b}
	got := []*Data{ra, rb}
	if !vAtomicOrder(ops, got, []int{0, 1}, init, IntegerValue(fin)) {
		vAssert(vAtomicOrder(ops, got, []int{1, 0}, init, IntegerValue(fin)), "the operations behave as if performed one after the other")
	}
	vReach("end")
}

// Several compare-and-swaps that expect the same contents: one succeeds.
//
//verif:bounds three competing processes, arbitrary 64-bit values, every interleaving with up to 3 preemptions
//verif:reach end
//verif:conc x
func VH_P25_cas3() {
	init := vInt64("init")
	var ops []vAtomicOp
	for i := 0; i < 3; i++ {
		y := vInt64("y" + vIntString(i))
		vAssume(y != init)
		ops = append(ops, vAtomicOp{kind: 4, x: init, y: y})
	}
	vForking(3)
	cell := vcCallOK("atomic", vI(init))
	var ps []*Data
	for _, o := range ops {
		ps = append(ps, vForkOp(cell, o))
	}
	won := -1
	for i, p := range ps {
		r, err := vcCall("join", p)
		vAssert(err == nil && BooleanP(r), "compare-and-swap answers a boolean")
		if BooleanValue(r) {
			vAssert(won == -1, "only one compare-and-swap succeeds")
			won = i
		}
	}
	vAssert(won >= 0, "one compare-and-swap succeeds")
	vAssert(vIsInt(vcCallOK("atomic-load", cell), ops[won].y), "the contents are those of the one that succeeded")
	vReach("end")
}

// Processes adding repeatedly lose nothing.
//
//verif:bounds two processes adding twice each and one adding once, arbitrary 64-bit amounts, every interleaving with up to 3 preemptions
//verif:reach end
//verif:conc x
func VH_P25_add() {
	d0, d1, d2 := vInt64("d0"), vInt64("d1"), vInt64("d2")
	vForking(3)
	cell := vcCallOK("atomic")
	twice := vcMust("(lambda (p c d) (atomic-add! c d) (atomic-add! c d))")
	p := vcCallOK("fork", twice, cell, vI(d0))
	q := vcCallOK("fork", twice, cell, vI(d1))
	_, err := vcCall("atomic-add!", cell, vI(d2))
	vAssert(err == nil, "an addition")
	vcCallOK("join", p)
	vcCallOK("join", q)
	vAssert(vIsInt(vcCallOK("atomic-load", cell), 2*d0+2*d1+d2), "no addition is lost")
	vReach("end")
}

// ---- processes

// Joining returns the value of the process, after its effects.
//
//verif:bounds one process setting a variable, a frame slot and an atomic cell and returning an arbitrary integer; joined twice, possibly by two processes at once; every interleaving with up to 3 preemptions
//verif:reach end,race
//verif:conc x
func VH_P25_join() {
	x := vInt64("x")
	how := vChoice("how", 3)
	vForking(3)
	e := vcEnv()
	e.BindLocallyTo(Intern("va0"), vI(0))
	frame := vcMust("{vk0: 0}")
	e.BindLocallyTo(Intern("va1"), frame)
	e.BindLocallyTo(Intern("va2"), vI(x))
	f, err := Eval(vParse("(lambda (p) (set! va0 va2) (vk0:! va1 va2) (+ va2 1))"), e)
	vAssert(err == nil, "a function")
	p := vcCallOK("fork", f)
	e.BindLocallyTo(Intern("va3"), p)
	check := func(r *Data, err error) {
		vAssert(err == nil, "joining a process is no error")
		vAssert(vIsInt(r, x+1), "joining returns the value of the process")
		v, _ := Eval(Intern("va0"), e)
		vAssert(vIsInt(v, x), "the effects of the process have happened")
		vAssert(vIsInt(vcCallOK("get-slot", frame, Intern("vk0:")), x), "the effects of the process have happened")
	}
	switch how {
	case 0:
		r, err := vcCall("join", p)
		check(r, err)
		_, err = vcCall("join", p)
		vAssert(err != nil, "a process can be joined only once")
	case 1:
		j, err := Eval(vParse("(lambda (q) (on-error (join va3) (lambda (err) 'twice)))"), e)
		vAssert(err == nil, "a function")
		q := vcCallOK("fork", j)
		r, rerr := vcCall("join", p)
		s := vcCallOK("join", q)
		if rerr == nil {
			check(r, rerr)
			vAssert(SymbolP(s), "only one of two joins gets the value")
		} else {
			vAssert(vIsInt(s, x+1), "one of two joins gets the value")
			vReach("race")
		}
	case 2:
		bad := vcMust("(lambda (p) (car 5))")
		q := vcCallOK("fork", bad)
		r, err := vcCall("join", q)
		vAssert(err == nil && NilP(r), "a process that fails has no value")
		r, err = vcCall("join", p)
		check(r, err)
	}
	vReach("end")
}

// A process joining itself goes on; one joining another gets its value, even
// when both run the same function.
//
//verif:bounds two processes running the same function, each joining itself; every interleaving with up to 3 preemptions
//verif:reach end
//verif:conc x
func VH_P25_selfjoin() {
	x, y := vInt64("x"), vInt64("y")
	vForking(3)
	f := vcMust("(lambda (p v) (list (join p) v))")
	p := vcCallOK("fork", f, vI(x))
	q := vcCallOK("fork", f, vI(y))
	for i, pr := range []*Data{p, q} {
		r := vcCallOK("join", pr)
		es, ok := vElems(r, 3)
		vAssert(ok && len(es) == 2 && NilP(es[0]), "a process joining itself gets nothing")
		vAssert(vIsInt(es[1], []int64{x, y}[i]), "and goes on to return its value")
	}
	vReach("end")
}

// ---- channels

func vMakeChan(size int) *Data {
	if size == 0 {
		return vcCallOK("make-channel")
	}
	return vcCallOK("make-channel", vI(int64(size)))
}

func vReadOf(r *Data, x int64, more bool) bool {
	es, ok := vElems(r, 3)
	if !ok || len(es) != 2 {
		return false
	}
	if !vIsBool(es[1], more) {
		return false
	}
	if !more {
		return NilP(es[0])
	}
	return vIsInt(es[0], x)
}

// One writer and one reader.
//
//verif:bounds capacities 0 to 2, three arbitrary integers written by a forked process which then closes the channel, every interleaving with up to 3 preemptions
//verif:reach end
//verif:conc x
func VH_P25_channel() {
	size := vChoice("size", 3)
	x := []int64{vInt64("x0"), vInt64("x1"), vInt64("x2")}
	vForking(3)
	c := vMakeChan(size)
	w := vcMust("(lambda (p c x y z) (channel-write c x) (channel-write c y) (channel-write c z) (close-channel c) 'done)")
	p := vcCallOK("fork", w, c, vI(x[0]), vI(x[1]), vI(x[2]))
	for i := 0; i < 3; i++ {
		vAssert(vReadOf(vcCallOK("channel-read", c), x[i], true), "values are read in the order they were written")
	}
	vAssert(vReadOf(vcCallOK("channel-read", c), 0, false), "the end of a closed channel is reported")
	vAssert(vReadOf(vcCallOK("channel-read", c), 0, false), "the end of a closed channel is reported again")
	_, err := vcCall("channel-write", c, vI(1))
	vAssert(err != nil, "writing to a closed channel is an error")
	_, err = vcCall("channel-try-write", c, vI(1))
	vAssert(err != nil, "writing to a closed channel is an error")
	_, err = vcCall("close-channel", c)
	vAssert(err != nil, "closing a closed channel is an error")
	r := vcCallOK("join", p)
	vAssert(SymbolP(r), "the writer ends")
	vReach("end")
}

// Two writers, one reader.
//
//verif:bounds capacities 0 to 2, two processes writing two arbitrary integers each, every interleaving with up to 3 preemptions
//verif:reach end
//verif:conc x
func VH_P25_writers() {
	size := vChoice("size", 3)
	x := [2][2]int64{{vInt64("a0"), vInt64("a1")}, {vInt64("b0"), vInt64("b1")}}
	vForking(3)
	c := vMakeChan(size)
	w := vcMust("(lambda (p c tag x y) (channel-write c (list tag x)) (channel-write c (list tag y)))")
	for i := 0; i < 2; i++ {
		vcCallOK("fork", w, c, vI(int64(i)), vI(x[i][0]), vI(x[i][1]))
	}
	var n [2]int
	for i := 0; i < 4; i++ {
		r := vcCallOK("channel-read", c)
		vAssert(vIsBool(Cadr(r), true), "a value is read")
		v := Car(r)
		k := int(IntegerValue(Car(v)))
		vAssert((k == 0 || k == 1) && n[k] < 2, "nothing is delivered twice")
		vAssert(vIsInt(Cadr(v), x[k][n[k]]), "the values of a writer keep their order")
		n[k]++
	}
	r := vcCallOK("channel-try-read", c)
	vAssert(vIsBool(Car(r), false), "nothing is left")
	vReach("end")
}

// Two readers, one writer: every value goes to exactly one reader.
//
//verif:bounds capacities 0 to 2, two reading processes and two written values, every interleaving with up to 3 preemptions
//verif:reach end
//verif:conc x
func VH_P25_readers() {
	size := vChoice("size", 3)
	x, y := vInt64("x"), vInt64("y")
	vAssume(x != y)
	vForking(3)
	c := vMakeChan(size)
	rd := vcMust("(lambda (p c) (channel-read c))")
	p := vcCallOK("fork", rd, c)
	q := vcCallOK("fork", rd, c)
	vcCallOK("channel-write", c, vI(x))
	vcCallOK("channel-write", c, vI(y))
	a, b := vcCallOK("join", p), vcCallOK("join", q)
	if vTake(vReadOf(a, x, true)) {
		vAssert(vReadOf(b, y, true), "the other reader gets the other value")
	} else {
		vAssert(vReadOf(a, y, true), "a reader gets a written value")
		vAssert(vReadOf(b, x, true), "the other reader gets the other value")
	}
	vReach("end")
}

// Histories of channel operations that never block, against a queue.
//
//verif:bounds capacities 0 to 2, every history of up to 5 operations out of try-write, try-read, write or read (when they cannot block) and close, arbitrary integers; nobody else uses the channel
//verif:reach end,full,empty,closed
func VH_P25_queue() {
	size := vChoice("size", 3)
	c := vMakeChan(size)
	var q []int64
	closed := false
	steps := 5
	if vTier() > 0 {
		steps = 6
	}
	for i := 0; i < steps; i++ {
		op := vChoice("op", 5)
		x := int64(0)
		if op == 0 || op == 2 {
			x = vInt64("x")
		}
		switch op {
		case 0:
			r, err := vcCall("channel-try-write", c, vI(x))
			if closed {
				vReach("closed")
				vAssert(err != nil, "writing to a closed channel is an error")
			} else {
				vAssert(err == nil, "writing without blocking is no error")
				vAssert(vIsBool(r, len(q) < size), "writing without blocking succeeds exactly when there is room")
				if len(q) < size {
					q = append(q, x)
				} else {
					vReach("full")
				}
			}
		case 1:
			r, err := vcCall("channel-try-read", c)
			vAssert(err == nil, "reading without blocking is no error")
			es, ok := vElems(r, 4)
			vAssert(ok && len(es) == 3, "reading without blocking answers a list of three")
			if len(q) > 0 {
				vAssert(vIsBool(es[0], true) && vIsInt(es[1], q[0]) && vIsBool(es[2], true), "the first value is read")
				q = q[1:]
			} else if closed {
				vAssert(vIsBool(es[0], true) && NilP(es[1]) && vIsBool(es[2], false), "the end of a closed channel is reported")
			} else {
				vReach("empty")
				vAssert(vIsBool(es[0], false) && NilP(es[1]) && vIsBool(es[2], true), "nothing is read from an empty channel")
			}
		case 2:
			if !closed && len(q) >= size {
				vAssume(false)
			}
			_, err := vcCall("channel-write", c, vI(x))
			vAssert((err != nil) == closed, "writing fails exactly when the channel is closed")
			if !closed {
				q = append(q, x)
			}
		case 3:
			if !closed && len(q) == 0 {
				vAssume(false)
			}
			r, err := vcCall("channel-read", c)
			vAssert(err == nil, "reading is no error")
			if len(q) > 0 {
				vAssert(vReadOf(r, q[0], true), "the first value is read")
				q = q[1:]
			} else {
				vAssert(vReadOf(r, 0, false), "the end of a closed channel is reported")
			}
		case 4:
			_, err := vcCall("close-channel", c)
			vAssert((err != nil) == closed, "closing fails exactly when the channel is closed")
			closed = true
		}
	}
	vReach("end")
}

// A writer blocked on a channel that is closed gets an error, not a crash.
//
//verif:bounds an unbuffered channel or a full one of size 1; the writer may be before, at or after the write when the channel is closed
//verif:reach end,failed
//verif:conc x
func VH_P25_closewrite() {
	size := vChoice("size", 2)
	vForking(3)
	c := vMakeChan(size)
	if size == 1 {
		vcCallOK("channel-write", c, vI(0))
	}
	w := vcMust("(lambda (p c) (on-error (channel-write c 1) (lambda (err) 'failed)))")
	p := vcCallOK("fork", w, c)
	vcCallOK("close-channel", c)
	r := vcCallOK("join", p)
	vAssert(SymbolP(r) && StringValue(r) == "failed", "the writer gets an error")
	vReach("failed")
	vReach("end")
}

// ---- shared interpreter structures

var vEnvOps, vFrameOps []*Data

func init() {
	for _, s := range []string{
		"(lambda (p x) (set! vs0 x) 0)",
		"(lambda (p x) vs0)",
		"(lambda (p x) (environment-define (procedure-environment vf) 'vs1 x) 0)",
		"(lambda (p x) (environment-bound-names (procedure-environment vf)) 0)",
		"(lambda (p x) (environment-bindings (procedure-environment vf)) 0)",
		"(lambda (p x) (environment-assign! (procedure-environment vf) 'vs0 x) 0)",
		"(lambda (p x) (environment-bound? (procedure-environment vf) 'vs1) 0)",
		"(lambda (p x) (define vs3 x) vs3)",
		"(lambda (p x) (eval '(define vs1 17) (procedure-environment vf)) 0)",
		"(lambda (p x) (environment-macro-names (procedure-environment vf)) 0)",
		"(lambda (p x) (vf x))",
		"(lambda (p x) (do ((i 0 (+ i 1))) ((>= i 1) x) (set! vs0 x)))",
		"(lambda (p x) (let ((y x)) (set! vs0 y) y))",
	} {
		vEnvOps = append(vEnvOps, vParse(s))
	}
	for _, s := range []string{
		"(lambda (p f x) (set-slot! f vk0: x) 0)",
		"(lambda (p f x) (on-error (get-slot f vk0:) (lambda (e) 'gone)))",
		"(lambda (p f x) (remove-slot! f vk0:) 0)",
		"(lambda (p f x) (has-slot? f vk0:) 0)",
		"(lambda (p f x) (get-slot-or-nil f vk1:) 0)",
		"(lambda (p f x) (vk1:! f x) 0)",
		"(lambda (p f x) (frame-keys f) 0)",
		"(lambda (p f x) (frame-values f) 0)",
		"(lambda (p f x) (clone f) 0)",
		"(lambda (p f x) (equal? f {vk0: 1 vk1: 2}) 0)",
		"(lambda (p f x) (equal? f f) 0)",
		"(lambda (p f x) (length f) 0)",
		"(lambda (p f x) (copy f) 0)",
		"(lambda (p f x) (str f) 0)",
		"(lambda (p f x) (lisp->json f) 0)",
		"(lambda (p f x) (on-error (vk0: f) (lambda (e) 'gone)))",
		"(lambda (p f x) (send f vm:) 0)",
	} {
		vFrameOps = append(vFrameOps, vParse(s))
	}
}

// Two processes use the same environment.
//
//verif:bounds every pair of 13 environment operations on one shared environment run by two processes, every interleaving with up to 2 preemptions
//verif:reach end
//verif:conc x
func VH_P25_envs() {
	i := vChoice("i", len(vEnvOps))
	j := vChoice("j", len(vEnvOps))
	vAssume(i <= j)
	x, y := vInt64("x"), vInt64("y")
	vForking(2)
	e := vcEnv()
	e.BindLocallyTo(Intern("vs0"), vI(7))
	vf, _ := Eval(vParse("(lambda (y) y)"), e)
	e.BindLocallyTo(Intern("vf"), vf)
	var ps []*Data
	for k, op := range []int{i, j} {
		f, err := Eval(vEnvOps[op], e)
		vAssert(err == nil, "an operation")
		ps = append(ps, vcCallOK("fork", f, vI([]int64{x, y}[k])))
	}
	for k, p := range ps {
		r := vcCallOK("join", p)
		op := []int{i, j}[k]
		v := []int64{x, y}[k]
		switch op {
		case 1:
			vAssert(IntegerP(r) && (IntegerValue(r) == 7 || IntegerValue(r) == x || IntegerValue(r) == y), "a variable has a value it was given")
		case 7, 10, 11, 12:
			vAssert(vIsInt(r, v), "a local variable belongs to its process")
		default:
			vAssert(vIsInt(r, 0), "the operation succeeds")
		}
	}
	has := func(k int) bool { return i == k || j == k }
	if has(2) || has(8) {
		_, found := e.FindBindingFor(Intern("vs1"))
		vAssert(found, "a definition is not lost")
	}
	if has(0) || has(5) || has(11) || has(12) {
		r, _ := Eval(Intern("vs0"), e)
		vAssert(vIsInt(r, x) || vIsInt(r, y), "an assignment is not lost")
	}
	vReach("end")
}

// Two processes use the same frame.
//
//verif:bounds every pair of 17 frame operations on one shared frame with a parent, run by two processes, every interleaving with up to 2 preemptions
//verif:reach end
//verif:conc x
func VH_P25_frames() {
	i := vChoice("i", len(vFrameOps))
	j := vChoice("j", len(vFrameOps))
	vAssume(i <= j)
	x, y := vInt64("x"), vInt64("y")
	vForking(2)
	par, err := vcEvalWith(vParse("{vm: (lambda () vk1:) vk1: va0}"), vI(9))
	vAssert(err == nil, "a frame")
	f, err := vcEvalWith(vParse("{vk0: 1 p*: va0}"), par)
	vAssert(err == nil, "a frame")
	var ps []*Data
	for k, op := range []int{i, j} {
		ps = append(ps, vcCallOK("fork", vcEvalOK(vFrameOps[op]), f, vI([]int64{x, y}[k])))
	}
	for k, p := range ps {
		r := vcCallOK("join", p)
		op := []int{i, j}[k]
		if op == 1 || op == 15 {
			ok := IntegerP(r) && (IntegerValue(r) == 1 || IntegerValue(r) == x || IntegerValue(r) == y)
			if i == 2 || j == 2 {
				ok = ok || SymbolP(r)
			}
			vAssert(ok, "a slot has a value it was given")
		} else {
			vAssert(vIsInt(r, 0), "the operation succeeds")
		}
	}
	vReach("end")
}


// A method called by one process sees its object, whatever other processes
// call meanwhile.
//
//verif:bounds a function that is both a variable and a slot of a frame; one process calls it as a method, another calls (or looks at) a different or the same function through a variable; arbitrary integers; every interleaving with up to 2 preemptions
//verif:reach end
//verif:conc x
func VH_P25_methods() {
	x := vInt64("x")
	other := vChoice("other", 3)
	vAssume(x != 5)
	vForking(2)
	e := vcEnv()
	e.BindLocallyTo(Intern("x"), vI(5))
	for _, n := range []string{"f", "vf"} {
		f, err := Eval(vParse("(lambda () x)"), e)
		vAssert(err == nil, "a function")
		e.BindLocallyTo(Intern(n), f)
	}
	e.BindLocallyTo(Intern("va0"), vI(x))
	f, err := Eval(vParse("{x: va0 vm: f vk0: (lambda () (vm))}"), e)
	vAssert(err == nil, "a frame")
	a, err := Eval(vParse("(lambda (p fr) (send fr vk0:))"), e)
	vAssert(err == nil, "a function")
	b, err := Eval(vParse([]string{"(lambda (p) (vf))", "(lambda (p) (f))", "(lambda (p) (eq? f vf))"}[other]), e)
	vAssert(err == nil, "a function")
	pa := vcCallOK("fork", a, f)
	pb := vcCallOK("fork", b)
	r := vcCallOK("join", pa)
	vKnown("P25-slot-flag", other > 0 && vIsInt(r, 5))
	vAssert(vIsInt(r, x), "a method sees the slots of its object")
	r = vcCallOK("join", pb)
	if other < 2 {
		vAssert(vIsInt(r, 5), "a function sees the variables around it")
	} else {
		vAssert(vIsBool(r, false), "two functions differ")
	}
	vReach("end")
}
