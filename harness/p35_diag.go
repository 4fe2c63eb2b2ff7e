package golisp

import "strings"

// Programs whose value, effects and errors are compared with and without
// diagnostics. The answers of vprobe are arbitrary.
var vDiagProgs = []string{
	"(+ (vprobe 0) (vprobe 1))",
	"(begin (vprobe 0) (vprobe 1) (vprobe 2))",
	"(if (> (vprobe 0) 3) (vprobe 1) (vprobe 2))",
	"((lambda (a . b) (list (vprobe a) b)) 1 (vprobe 0) 3)",
	"(letrec ((f (lambda (n) (if (<= n 0) (vprobe n) (+ n (f (- n 1))))))) (f 2))",
	"(map (lambda (x) (vprobe x)) '(1 2 3))",
	"(begin (defmacro (vdm x) `(list ,x (vprobe 1))) (vdm (vprobe 0)))",
	"(list (vprobe 0) (error \"stop\") (vprobe 1))",
	"(on-error (begin (vprobe 0) (car 5)) (lambda (e) (vprobe 1)))",
	"(send {a: 2 m: (lambda (x) (vprobe (+ a x)))} m: (vprobe 0))",
	"(car (vprobe 0))",
	"((vprobe 0) 1)",
	"(let ((a% (lambda (b%d) (vprobe b%d)))) (a% (vprobe 0)))",
	"(do ((i 0 (+ i 1)) (s 0 (+ s (vprobe i)))) ((== i 2) s))",
}

type vDiagRun struct {
	r     *Data
	err   error
	calls [][]*Data
}

func vDiagEval(src string, env *SymbolTableFrame, x []int64) vDiagRun {
	vProbeCalls = nil
	vProbeAnswer = func(call int, args []*Data) (*Data, error) { return vI(x[call%len(x)]), nil }
	r, err := Eval(vParse(src), env)
	return vDiagRun{r, err, vProbeCalls}
}

func vSameRun(a, b vDiagRun) bool {
	if (a.err != nil) != (b.err != nil) || len(a.calls) != len(b.calls) {
		return false
	}
	for i := range a.calls {
		if len(a.calls[i]) != len(b.calls[i]) {
			return false
		}
		for j := range a.calls[i] {
			if !vSame(a.calls[i][j], b.calls[i][j]) {
				return false
			}
		}
	}
	return a.err != nil || vSame(a.r, b.r)
}

// Tracing, profiling and timing do not change what a program computes, which
// calls it makes, nor whether it fails, and leave the flags as they were.
//verif:bounds 14 programs with arbitrary integer answers of the probe; lisp-trace, debug-trace, both, profile to standard output, profile to a file, nested profile, time
//verif:reach value,error
func VH_P35_transparent() {
	x := []int64{vInt64("x"), vInt64("y")}
	src := vDiagProgs[vChoice("prog", len(vDiagProgs))]
	plain := vDiagEval(src, vEnv(), x)
	mode := vChoice("mode", 7)
	var with vDiagRun
	switch mode {
	case 0:
		vCallOK("lisp-trace", BooleanWithValue(true))
		with = vDiagEval(src, vEnv(), x)
		vAssert(vIsBool(vCallOK("lisp-trace"), true), "lisp-trace tells the setting")
		vCallOK("lisp-trace", BooleanWithValue(false))
	case 1:
		vCallOK("debug-trace", BooleanWithValue(true))
		with = vDiagEval(src, vEnv(), x)
		vAssert(vIsBool(vCallOK("debug-trace"), true), "debug-trace tells the setting")
		vCallOK("debug-trace", BooleanWithValue(false))
	case 2:
		vCallOK("debug-trace", BooleanWithValue(true))
		vCallOK("lisp-trace", BooleanWithValue(true))
		with = vDiagEval(src, vEnv(), x)
		vCallOK("debug-trace", BooleanWithValue(false))
		vCallOK("lisp-trace", BooleanWithValue(false))
	case 3:
		with = vDiagEval("(profile "+src+")", vEnv(), x)
	case 4:
		with = vDiagEval("(profile "+src+" \"vscratch-p\")", vEnv(), x)
	case 5:
		with = vDiagEval("(profile (profile "+src+" \"vscratch-p\") \"vscratch-q\")", vEnv(), x)
	case 6:
		with = vDiagEval("(time "+src+")", vEnv(), x)
		vAssert(with.err == nil && IntegerP(with.r) || with.err != nil && plain.err != nil, "time gives a number of milliseconds")
		with.r, with.err = plain.r, plain.err
	}
	vAssert(vSameRun(plain, with), "diagnostics do not change what the program does")
	vAssert(!ProfileEnabled && !LispTrace && !DebugTrace, "the flags are off again")
	vAssert(vSameRun(plain, vDiagEval(src, vEnv(), x)), "nor what it does afterwards")
	if plain.err != nil {
		vReach("error")
	} else {
		vReach("value")
	}
}

type vDiagRec struct {
	time, guid       int64
	mode, kind, name string
}

// vDiagRecords reads a profile file with the interpreter's own reader, the way
// the profile analyser does.
func vDiagRecords(file string) (out []vDiagRec, ok bool) {
	p, err := vCall("open-input-file", StringWithValue(file))
	if err != nil {
		return nil, false
	}
	for {
		d, err := vCall("read", p)
		if err != nil {
			return nil, false
		}
		if vTrue(vCallOK("eof-object?", d)) {
			break
		}
		f, err := Eval(d, vEnv())
		if err != nil || !FrameP(f) {
			return nil, false
		}
		fm := FrameValue(f)
		get := func(s string) *Data { return fm.Get(s) }
		if !IntegerP(get("guid:")) || !SymbolP(get("mode:")) || !SymbolP(get("type:")) || !SymbolP(get("name:")) {
			return nil, false
		}
		out = append(out, vDiagRec{IntegerValue(get("time:")), IntegerValue(get("guid:")), StringValue(get("mode:")), StringValue(get("type:")), StringValue(get("name:"))})
	}
	vCallOK("close-port", p)
	return out, true
}

// The profile of an evaluation holds a record for entering and for leaving
// every function, primitive and special form that was called, properly nested,
// each pair with its own number and not going back in time; also when the
// evaluation fails.
//verif:bounds 14 programs with arbitrary integer answers of the probe, profiled to a file, after no or one earlier profile to the same file
//verif:reach value,error
func VH_P35_records() {
	x := []int64{vInt64("x"), vInt64("y")}
	src := vDiagProgs[vChoice("prog", len(vDiagProgs))]
	if vBool("earlier") {
		vDiagEval("(profile (+ 1 (- 2 3)) \"vscratch-p\")", vEnv(), x)
	}
	run := vDiagEval("(profile "+src+" \"vscratch-p\")", vEnv(), x)
	recs, ok := vDiagRecords("vscratch-p")
	vAssert(ok, "the profile can be read back")
	var open []vDiagRec
	seen := map[int64]bool{}
	probes := 0
	for i, r := range recs {
		vAssert(i == 0 || recs[i-1].time <= r.time, "time does not go back")
		if r.mode == "enter" {
			vAssert(!seen[r.guid], "every call has its own number")
			seen[r.guid] = true
			open = append(open, r)
			vAssert(r.kind == "func" || r.kind == "prim" || r.kind == "form", "the record tells the kind of function")
			if r.name == "vprobe" {
				vAssert(r.kind == "prim", "a primitive is recorded as one")
				probes++
			}
		} else {
			vAssert(r.mode == "exit" && len(open) > 0, "calls are left after they are entered")
			top := open[len(open)-1]
			vAssert(top.guid == r.guid && top.kind == r.kind && top.name == r.name, "calls are left in the reverse order")
			open = open[:len(open)-1]
		}
	}
	vAssert(len(open) == 0, "every call that is entered is left")
	vAssert(probes == len(run.calls), "every call of the probe is recorded")
	if strings.HasPrefix(src, "(let ((a% ") {
		n := 0
		for _, r := range recs {
			if r.kind == "func" && r.mode == "enter" {
				n++
			}
		}
		vAssert(n == 1, "a call of a user-defined function is recorded as one")
	}
	if run.err != nil {
		vReach("error")
	} else {
		vReach("value")
	}
}

// The functions that name the functions to stop at keep a set of names.
//verif:bounds a user-defined function added and removed, other kinds of argument
//verif:reach done
func VH_P35_entry() {
	f := vMust("(begin (define (vdf x) x) vdf)")
	r := vCallOK("add-debug-on-entry", f)
	vAssert(Length(r) == 1, "the function is added")
	if vBool("twice") {
		r = vCallOK("add-debug-on-entry", f)
		vAssert(Length(r) == 1, "adding it again changes nothing")
	}
	vAssert(Length(vCallOK("debug-on-entry")) == 1, "debug-on-entry lists it")
	bad := vOneOf("bad", []*Data{vI(vInt64("i")), EmptyCons(), Intern("vs1"), vExPrim, StringWithValue("vdf")})
	_, err := vCall("add-debug-on-entry", bad)
	vAssert(err != nil, "anything else cannot be added")
	_, err = vCall("remove-debug-on-entry", bad)
	vAssert(err != nil, "nor removed")
	vAssert(Length(vCallOK("debug-on-entry")) == 1, "and the set is the same")
	r = vCallOK("remove-debug-on-entry", f)
	vAssert(NilP(r) && NilP(vCallOK("debug-on-entry")), "the function is removed")
	vReach("done")
}
