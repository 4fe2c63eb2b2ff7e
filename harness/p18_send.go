package golisp

// A chain of frames, each the parent of the one before it. Slot vv: and
// method mm: are in any subset of them.
type vChain struct {
	f      []*Data
	hasV   []bool
	v      []int64
	hasM   []bool
	lex    int64
	env    *SymbolTableFrame
	method func(i int) string
}

func vMakeChain(n int, lexical bool, method func(i int) string) *vChain {
	c := &vChain{env: vEnv(), lex: vInt64("lex")}
	if lexical {
		c.env.BindLocallyTo(Intern("vv"), vI(c.lex))
	}
	for i := 0; i < n; i++ {
		f := vCallOK("make-frame")
		hasV := vChoice("hasv", 2) == 1
		x := vInt64("v")
		if hasV {
			vCallOK("set-slot!", f, Intern("vv:"), vI(x))
		}
		hasM := vChoice("hasm", 2) == 1
		if hasM {
			fn, err := Eval(vParse(method(i)), c.env)
			vAssert(err == nil, "a method definition")
			vCallOK("set-slot!", f, Intern("mm:"), fn)
		}
		c.f, c.hasV, c.v, c.hasM = append(c.f, f), append(c.hasV, hasV), append(c.v, x), append(c.hasM, hasM)
	}
	for i := 0; i+1 < n; i++ {
		vCallOK("set-slot!", c.f[i], Intern("p0*:"), c.f[i+1])
	}
	return c
}

func vNearest(has []bool, from int) int {
	for i := from; i < len(has); i++ {
		if has[i] {
			return i
		}
	}
	return -1
}

// vvAt is the value of name vv in a method run for frame i.
func (c *vChain) vvAt(i int) int64 {
	if j := vNearest(c.hasV, i); j >= 0 {
		return c.v[j]
	}
	return c.lex
}

// sendTo sends mm: to frame i with one argument, in one of the ways of sending.
func (c *vChain) sendTo(i int, x int64) (*Data, error) {
	form := []string{"(send va0 mm: va1)", "(mm:> va0 va1)", "(apply-slot va0 mm: (list va1))", "(apply-slot va0 mm: va1 nil)"}[vChoice("send", 4)]
	return vEvalWith(vParse(form), c.f[i], vI(x))
}

func vIsFrame(d, f *Data) bool { return FrameP(d) && FrameValue(d) == FrameValue(f) }

// A send runs the method found by slot lookup with the receiver as self;
// names in the body refer to the receiver's slots, then to the lexical scope.
//verif:bounds chains of 1..3 frames (thorough 4), the method and the slot it refers to in any subset of them, arbitrary integers; sent by send, the shortcut or apply-slot; the name used directly, in a nested let, or in a nested function
//verif:reach ran,missing
func VH_P18_send() {
	n := 1 + vChoice("n", 3+vTier())
	body := vChoice("body", 3)
	c := vMakeChain(n, true, func(i int) string {
		call := "(vprobe " + vIntString(i) + " self vv px)"
		switch body {
		case 1:
			call = "(let ((ly 3)) " + call + ")"
		case 2:
			call = "((lambda (ly) " + call + ") 3)"
		}
		return "(lambda (px) " + call + ")"
	})
	x, y := vInt64("x"), vInt64("y")
	vProbeCalls = nil
	vProbeAnswer = func(int, []*Data) (*Data, error) { return vI(y), nil }
	r, err := c.sendTo(0, x)
	m := vNearest(c.hasM, 0)
	if m < 0 {
		vAssert(err != nil && len(vProbeCalls) == 0, "sending a message that has no method is an error")
		vReach("missing")
		return
	}
	vAssert(err == nil && vIsInt(r, y), "a send gives the value of the method's body")
	vAssert(len(vProbeCalls) == 1, "a send runs one method once")
	g := vProbeCalls[0]
	vAssert(vIsInt(g[0], int64(m)), "the method is that of the nearest frame that has one")
	vAssert(vIsFrame(g[1], c.f[0]), "self is the receiver")
	vAssert(vIsInt(g[2], c.vvAt(0)), "a slot name in the body refers to the receiver's slot, else to the lexical scope")
	vAssert(vIsInt(g[3], x), "the parameter is bound to the argument")
	vReach("ran")
}

// Each super send runs the next method up the chain, still for the receiver.
//verif:bounds chains of 1..3 frames (thorough 4), method and slot in any subset, sent to the first or second frame; super by send-super, the shortcut or apply-slot-super, directly or inside a nested let or function of the method
//verif:reach chained,ended
func VH_P18_super() {
	n := 1 + vChoice("n", 3+vTier())
	how := vChoice("super", 3)
	nest := vChoice("nest", 3)
	c := vMakeChain(n, true, func(i int) string {
		super := []string{"(send-super mm: (+ px 1))", "(mm:^ (+ px 1))", "(apply-slot-super mm: (list (+ px 1)))"}[how]
		switch nest {
		case 1:
			super = "(let ((ly 3)) " + super + ")"
		case 2:
			super = "((lambda (ly) " + super + ") 3)"
		}
		return "(lambda (px) (vprobe " + vIntString(i) + " self vv px) " + super + ")"
	})
	x := vInt64("x")
	to := 0
	if n > 1 {
		to = vChoice("to", 2)
	}
	vProbeCalls = nil
	vProbeAnswer = func(int, []*Data) (*Data, error) { return vI(1), nil }
	_, err := c.sendTo(to, x)
	vAssert(err != nil, "a super send without a method above is an error")
	k := 0
	for m := vNearest(c.hasM, to); m >= 0; m = vNearest(c.hasM, m+1) {
		vAssert(k < len(vProbeCalls), "a super send runs the method of the next frame above")
		g := vProbeCalls[k]
		vAssert(vIsInt(g[0], int64(m)), "a super send runs the method of the next frame above")
		vAssert(vIsFrame(g[1], c.f[to]), "self stays the receiver in a super send")
		vAssert(vIsInt(g[2], c.vvAt(to)), "slot names refer to the receiver's slots in a super send")
		vAssert(vIsInt(g[3], x+int64(k)), "a super send passes its arguments")
		k++
	}
	vAssert(len(vProbeCalls) == k, "a super send runs each method once")
	if k > 1 {
		vReach("chained")
	} else {
		vReach("ended")
	}
}

// The value of a super send is the value of the method it runs.
//verif:bounds two frames, arbitrary integers
func VH_P18_supervalue() {
	c := vMakeChain(2, true, func(i int) string {
		if i == 0 {
			return "(lambda (px) (list 7 (send-super mm: px) px))"
		}
		return "(lambda (px) (vprobe px))"
	})
	vAssume(c.hasM[0] && c.hasM[1])
	x, y := vInt64("x"), vInt64("y")
	vProbeCalls = nil
	vProbeAnswer = func(int, []*Data) (*Data, error) { return vI(y), nil }
	r, err := c.sendTo(0, x)
	vAssert(err == nil && vSeq(r, []int64{7, y, x}), "a super send gives the value of the method above")
}

// Assigning a slot name in a method sets the receiver's own slot if the
// receiver has the slot, itself or from a parent, and the variable otherwise.
//verif:bounds chains of 1..3 frames, slot and method in any subset, arbitrary integers
//verif:reach slot,variable
func VH_P18_assign() {
	n := 1 + vChoice("n", 3)
	nest := vChoice("nest", 2)
	c := vMakeChain(n, true, func(i int) string {
		if nest == 1 {
			return "(lambda (px) (let ((ly 3)) (set! vv px)))"
		}
		return "(lambda (px) (set! vv px))"
	})
	vAssume(vNearest(c.hasM, 0) >= 0)
	x := vInt64("x")
	r, err := c.sendTo(0, x)
	vAssert(err == nil && vIsInt(r, x), "assignment in a method")
	slot := vNearest(c.hasV, 0) >= 0
	for i := range c.f {
		own := FrameValue(c.f[i]).Data["vv:"]
		switch {
		case i == 0 && slot:
			vAssert(vIsInt(own, x), "assigning a slot name sets the receiver's own slot")
		case c.hasV[i]:
			vAssert(vIsInt(own, c.v[i]), "assigning a slot name leaves the ancestors unchanged")
		default:
			vAssert(own == nil, "assigning a slot name adds no slot elsewhere")
		}
	}
	lex := c.lex
	if !slot {
		lex = x
		vReach("variable")
	} else {
		vReach("slot")
	}
	vAssert(vIsInt(c.env.ValueOf(Intern("vv")), lex), "the variable of the same name changes only if there is no such slot")
}

// Parameters and local names of the method come before slots; a method calls
// another method of the receiver by name; slots that are not functions do not
// hide functions; functions called from a method do not see the slots.
//verif:bounds two frames, arbitrary integers
func VH_P18_names() {
	env := vEnv()
	lex, slot, own, x, y := vInt64("lex"), vInt64("slot"), vInt64("own"), vInt64("x"), vInt64("y")
	env.BindLocallyTo(Intern("vv"), vI(lex))
	eval := func(s string) *Data {
		d, err := Eval(vParse(s), env)
		vAssert(err == nil, "evaluation succeeds")
		return d
	}
	eval("(define (outer) vv)")
	parent := vCallOK("make-frame", Intern("vv:"), vI(slot), Intern("other:"), eval("(lambda (k) (vprobe self vv k))"), Intern("car:"), vI(3))
	f := vCallOK("make-frame", Intern("p0*:"), parent)
	if vChoice("own", 2) == 1 {
		vCallOK("set-slot!", f, Intern("vv:"), vI(own))
	} else {
		own = slot
	}
	send := func(method string) *Data {
		vCallOK("set-slot!", f, Intern("go:"), eval(method))
		return vCallOK("send", f, Intern("go:"), vI(x))
	}
	switch vChoice("case", 8) {
	case 0:
		vAssert(vIsInt(send("(lambda (vv) vv)"), x), "a parameter hides the slot of the same name")
	case 1:
		vAssert(vIsInt(send("(lambda (a) (let ((vv a)) vv))"), x), "a local name hides the slot of the same name")
	case 2:
		vProbeCalls = nil
		vProbeAnswer = func(int, []*Data) (*Data, error) { return vI(y), nil }
		r := send("(lambda (a) (other a))")
		vAssert(vIsInt(r, y) && len(vProbeCalls) == 1, "a method calls another method of the receiver by its name")
		g := vProbeCalls[0]
		vAssert(vIsFrame(g[0], f) && vIsInt(g[1], own) && vIsInt(g[2], x), "a method called by name runs for the same receiver")
	case 3:
		vAssert(vIsInt(send("(lambda (a) (car (list a 2)))"), x), "a slot that is not a function does not hide a function")
	case 4:
		vAssert(vIsInt(send("(lambda (a) (outer))"), lex), "a function called from a method does not see the slots")
	case 5:
		vAssert(vIsInt(send("(lambda (a) (set! vv a) vv)"), x), "an assigned slot is read back")
		vAssert(vIsInt(vCallOK("get-slot", parent, Intern("vv:")), slot), "assignment does not change the parent")
	case 6:
		vAssert(vIsInt(send("(lambda (a) (define vv a) vv)"), x), "a definition in a method is local")
		vAssert(vIsInt(vCallOK("get-slot", f, Intern("vv:")), own), "a definition in a method does not change the slots")
	case 7:
		vAssert(vIsFrame(send("(lambda (a) (set-slot! self vv: a) self)"), f), "self is the receiver")
		vAssert(vIsInt(vCallOK("get-slot", f, Intern("vv:")), x), "setting a slot of self changes the receiver")
	}
	vAssert(vIsInt(env.ValueOf(Intern("vv")), lex), "the variable with the slot's name is unchanged")
	vAssert(vIsInt(vCallOK("get-slot", parent, Intern("vv:")), slot), "the parent is unchanged")
}

// Arguments are evaluated once, in order, in the caller's environment; errors
// in them or in the selection run no method.
//verif:bounds send, its shortcut and apply-slot with two arguments; an error in either; a method of 2 parameters; selectors that are missing, inherited, or hold something else than a function
//verif:reach ok,argerror,selerror
func VH_P18_args() {
	env := vEnv()
	a, b, out := vInt64("a"), vInt64("b"), vInt64("out")
	ran := 0
	var got []*Data
	env.BindLocallyTo(Intern("vv"), vI(a))
	fn, err := Eval(vParse("(lambda (p q) (vprobe 9 p q))"), env)
	vAssert(err == nil, "a method definition")
	parent := vCallOK("make-frame", Intern("vv:"), vI(out), Intern("mm:"), fn)
	f := vCallOK("make-frame", Intern("p0*:"), parent, Intern("nf:"), []*Data{vI(1), EmptyCons(), vExPrim, vS("x")}[vChoice("nf", 4)])
	env.BindLocallyTo(Intern("va0"), f)
	sel := []string{"mm:", "nf:", "zz:"}[vChoice("sel", 3)]
	form := []string{"(send va0 " + sel + " (vprobe 0 vv) (vprobe 1 vv))", "(" + sel + "> va0 (vprobe 0 vv) (vprobe 1 vv))",
		"(apply-slot va0 " + sel + " (vprobe 0 vv) (list (vprobe 1 vv)))"}[vChoice("form", 3)]
	e := vChoice("err", 3)
	args := 0
	vProbeCalls = nil
	vProbeAnswer = func(i int, c []*Data) (*Data, error) {
		if vIsInt(c[0], 9) {
			ran++
			got = c
			return vI(out), nil
		}
		vAssert(vIsInt(c[0], int64(args)), "the arguments are evaluated in order")
		vAssert(vIsInt(c[1], a), "the arguments are evaluated in the caller's environment")
		args++
		if i == e {
			return nil, vErrBoom
		}
		return []*Data{vI(a), vI(b)}[i], nil
	}
	r, err := Eval(vParse(form), env)
	switch {
	case sel != "mm:":
		vAssert(err != nil && ran == 0, "selecting something that is not a method is an error")
		vReach("selerror")
	case e < 2:
		vAssert(err != nil && ran == 0 && args == e+1, "an error in an argument ends the send")
		vReach("argerror")
	default:
		vAssert(err == nil && vIsInt(r, out) && ran == 1 && args == 2, "the method runs once with each argument evaluated once")
		vAssert(vIsInt(got[1], a) && vIsInt(got[2], b), "the parameters are bound to the arguments")
		vReach("ok")
	}
}

// The wrong number of arguments, a list that is not one, and super sends
// outside methods are errors and run nothing.
//verif:bounds 0..4 arguments to a method of 2 parameters; super sends at top level and in a plain function
func VH_P18_wrong() {
	env := vEnv()
	fn, err := Eval(vParse("(lambda (p q) (vprobe p q))"), env)
	vAssert(err == nil, "a method definition")
	f := vCallOK("make-frame", Intern("mm:"), fn)
	vProbeCalls = nil
	vProbeAnswer = func(int, []*Data) (*Data, error) { return vI(1), nil }
	switch vChoice("case", 4) {
	case 0:
		n := vChoice("n", 5)
		l, _ := vIntList("x", n)
		if vChoice("apply", 2) == 0 {
			_, err = vCall("apply", vExSend, vExSendHead(f, l))
		} else {
			_, err = vEvalWith(vExApplySlot, f, l)
		}
		vAssert((err == nil) == (n == 2), "a method called with the wrong number of arguments is an error")
		if n != 2 {
			vAssert(len(vProbeCalls) == 0, "the body does not run after a wrong number of arguments")
		} else {
			vAssert(len(vProbeCalls) == 1, "the body runs once")
		}
		return
	case 1:
		_, err = vEvalWith(vExApplySlot, f, vNonList("bad"))
	case 2:
		_, err = vCall("send-super", Intern("mm:"), vI(1), vI(2))
	case 3:
		_, err = Eval(vParse("((lambda (k) (send-super mm: 1 2)) 3)"), env)
	}
	vAssert(err != nil && len(vProbeCalls) == 0, "a malformed send is an error")
}

var vExSend, vExApplySlot *Data

func init() {
	vExSend = vMust("send")
	vExApplySlot = vParse("(apply-slot va0 mm: va1)")
}

func vExSendHead(f, l *Data) *Data { return Cons(f, Cons(Intern("mm:"), l)) }
