package golisp

// vProgKind is one top-level expression, with what evaluating it does.
type vTopExpr struct {
	src   string
	probe bool  // calls the probe with tag
	fails bool  // ends with an error
	value *Data // value otherwise (of the probe's answer when it is called)
}

var vTopKinds = 9

func vTop(i int, answer *Data) vTopExpr {
	tag := vIntString(i)
	switch vChoice("kind", vTopKinds) {
	case 0:
		return vTopExpr{"(vprobe " + tag + ")", true, false, answer}
	case 1:
		return vTopExpr{"(begin (vprobe " + tag + ") (error \"stop\"))", true, true, nil}
	case 2:
		return vTopExpr{"'()", false, false, EmptyCons()}
	case 3:
		return vTopExpr{"()", false, false, EmptyCons()}
	case 4:
		return vTopExpr{"#f", false, false, BooleanWithValue(false)}
	case 5:
		return vTopExpr{"\"(\"", false, false, StringWithValue("(")}
	case 6:
		return vTopExpr{"(define vtop" + tag + " (vprobe " + tag + "))", true, false, answer}
	case 7:
		return vTopExpr{"(if #f (vprobe 9))", false, false, EmptyCons()}
	}
	return vTopExpr{"(let ((x 1)\n  (y 2)) ; (note\n (vprobe " + tag + "))", true, false, answer}
}

var vTopGaps = []string{"\n", " ", "", " ; ) note\n", "\r\n\t\n"}

// vRunText runs the program text through one of the entry points.
func vRunText(entry int, text string) (*Data, error) {
	switch entry {
	case 0:
		return ParseAndEvalAll(text)
	case 1:
		return ParseAndEvalAllInEnvironment(text, vEnv())
	case 2:
		vFresh(vFileA, text)
		return ProcessFile(vFileA)
	case 3:
		vFresh(vFileA, text)
		return vCall("load", StringWithValue(vFileA))
	}
	vFresh(vFileA, text)
	return ProcessFileInEnvironment(vFileA, vEnv())
}

// Running program text evaluates its top-level expressions one after the other,
// each once, until one ends with an error, and gives the last value.
//verif:bounds 0..3 top-level expressions of 9 kinds (thorough 4), 5 kinds of space between them and at the ends, all 5 entry points (program text or file, global or given environment, the load function)
//verif:reach done,failed,empty
func VH_P34_sequence() {
	n := vChoice("n", 4+vTier())
	ans := make([]*Data, n)
	text := ""
	if vBool("lead") {
		text = vTopGaps[4] + ";; first\n"
	}
	var want []int
	var last *Data
	failed := false
	gap := vChoice("gap", len(vTopGaps))
	for i := 0; i < n; i++ {
		ans[i] = vI(vInt64("v"))
		e := vTop(i, ans[i])
		if i > 0 {
			g := vTopGaps[gap]
			if g == "" && e.src[0] == '#' {
				g = " "
			}
			text += g
		}
		text += e.src
		if failed {
			continue
		}
		if e.probe {
			want = append(want, i)
		}
		last = e.value
		failed = e.fails
	}
	if vBool("trail") {
		text += vTopGaps[gap] + ";; last"
	}
	vProbeCalls = nil
	vProbeAnswer = func(call int, args []*Data) (*Data, error) { return ans[IntegerValue(args[0])], nil }
	r, err := vRunText(vChoice("entry", 5), text)
	vAssert(len(vProbeCalls) == len(want), "exactly the expressions up to the first error are evaluated, each once")
	for i, c := range vProbeCalls {
		vAssert(vIsInt(c[0], int64(want[i])), "the expressions are evaluated in order")
	}
	switch {
	case failed:
		vAssert(err != nil, "an error ends the run with that error")
		vReach("failed")
	case n == 0:
		vAssert(err == nil && NilP(r), "a program without expressions gives nil")
		vReach("empty")
	default:
		vAssert(err == nil && vSame(r, last), "the last value is the result")
		vReach("done")
	}
}

// Later expressions see the definitions and assignments of earlier ones.
//verif:bounds arbitrary integers, 5 entry points
//verif:reach done
func VH_P34_defines() {
	x, y := vInt64("x"), vInt64("y")
	vProbeCalls = nil
	vProbeAnswer = func(call int, args []*Data) (*Data, error) { return vI([]int64{x, y}[call]), nil }
	r, err := vRunText(vChoice("entry", 5), "(define vt (vprobe))\n(define (vf a) (list vt a))\n(defmacro (vm b) `(vf ,b))\n(define vu vt)(set! vt (vprobe))\n(cons vu (vm 5))")
	vAssert(err == nil, "the program runs")
	e, ok := vElems(r, 5)
	vAssert(ok && len(e) == 3 && vIsInt(e[0], x) && vIsInt(e[1], y) && vIsInt(e[2], 5), "later expressions see earlier definitions and assignments")
	vReach("done")
}

// Text that cannot be read is an error, after the expressions before it have
// been evaluated.
//verif:bounds 0..2 expressions before 5 kinds of unreadable text, 5 entry points
//verif:reach done
func VH_P34_syntax() {
	n := vChoice("n", 3)
	text := ""
	for i := 0; i < n; i++ {
		text += "(vprobe " + vIntString(i) + ") "
	}
	bad := []string{"(vprobe 9", "(vprobe 9 . )", "[1 300]", "(vprobe '(1 . 2 3))", "{a: 1"}
	text += bad[vChoice("bad", len(bad))]
	vProbeCalls = nil
	vProbeAnswer = func(call int, args []*Data) (*Data, error) { return vI(1), nil }
	_, err := vRunText(vChoice("entry", 5), text)
	vAssert(err != nil, "unreadable text is an error")
	vAssert(len(vProbeCalls) == n, "the expressions before it were evaluated and nothing of it")
	vReach("done")
}

// A file that is not there is an error.
//verif:bounds the three file entry points
//verif:reach done
func VH_P34_missing() {
	var err error
	switch vChoice("entry", 3) {
	case 0:
		_, err = ProcessFile("vscratch-none")
	case 1:
		_, err = vCall("load", StringWithValue("vscratch-none"))
	case 2:
		_, err = ProcessFileInEnvironment("vscratch-none", vEnv())
	}
	vAssert(err != nil, "a missing file is an error")
	vReach("done")
}

// ParseAll gives the expressions without evaluating them, Parse the first of
// them, and ParseAndEval evaluates the first only.
//verif:bounds 1..3 expressions of 9 kinds, 5 kinds of space between them
//verif:reach done
func VH_P34_parse() {
	n := 1 + vChoice("n", 3)
	text := ""
	var srcs []vTopExpr
	gap := vTopGaps[vChoice("gap", len(vTopGaps))]
	x := vI(vInt64("x"))
	for i := 0; i < n; i++ {
		e := vTop(i, x)
		if i > 0 {
			if gap == "" && e.src[0] == '#' {
				text += " "
			}
			text += gap
		}
		text += e.src
		srcs = append(srcs, e)
	}
	vProbeCalls = nil
	vProbeAnswer = func(call int, args []*Data) (*Data, error) { return x, nil }
	all, err := ParseAll(text)
	vAssert(err == nil && len(all) == n, "ParseAll gives every expression")
	for i, d := range all {
		vAssert(vSame(d, vParse(srcs[i].src)), "ParseAll gives the expressions in order")
	}
	one, err := Parse(text)
	vAssert(err == nil && vSame(one, all[0]), "Parse gives the first expression")
	vAssert(len(vProbeCalls) == 0, "parsing evaluates nothing")
	r, err := ParseAndEval(text)
	calls := 0
	if srcs[0].probe {
		calls = 1
	}
	vAssert(len(vProbeCalls) == calls, "ParseAndEval evaluates the first expression once and nothing else")
	if srcs[0].fails {
		vAssert(err != nil, "ParseAndEval gives the error of the expression")
	} else {
		vAssert(err == nil && vSame(r, srcs[0].value), "ParseAndEval gives the value of the expression")
	}
	vReach("done")
}

// For any text, running it is the same as parsing all of it and evaluating the
// expressions in order; loading it from a file gives the same.
//verif:bounds every text of 0..3 ASCII bytes (thorough 4) between two expressions; the entry points that take a text and a file
//verif:reach ok,error
func VH_P34_anytext() {
	mid := vString("t", vChoice("n", 3+vTier()))
	for i := 0; i < len(mid); i++ {
		vAssume(mid[i] < 0x80 && mid[i] != 0)
	}
	x := vI(vInt64("x"))
	text := "(vprobe 0) " + mid + "\n(vprobe 1)"
	vProbeAnswer = func(call int, args []*Data) (*Data, error) { return x, nil }
	all, perr := ParseAll(text)
	vProbeCalls = nil
	var w *Data
	var werr error
	for _, d := range all {
		w, werr = Eval(d, Global)
		if werr != nil {
			break
		}
	}
	calls := len(vProbeCalls)
	vProbeCalls = nil
	r, err := vRunText([]int{0, 2}[vChoice("entry", 2)], text)
	vAssert((err != nil) == (perr != nil || werr != nil), "running a text fails exactly when reading it or evaluating one of its expressions fails")
	vAssert(len(vProbeCalls) == calls, "the same calls are made")
	if err == nil {
		vAssert(r == w || vSame(r, w), "the same value results")
		vReach("ok")
	} else {
		vReach("error")
	}
}

// Comments may contain anything up to the end of the line.
//verif:bounds comments of 0..3 arbitrary ASCII bytes (thorough 4) other than newline between, before and after two expressions
//verif:reach done
func VH_P34_comments() {
	c := vString("c", vChoice("n", 4+vTier()))
	for i := 0; i < len(c); i++ {
		vAssume(c[i] < 0x80 && c[i] != '\n' && c[i] != 0)
	}
	var text string
	switch vChoice("where", 4) {
	case 0:
		text = ";" + c + "\n(vprobe 0)(vprobe 1)"
	case 1:
		text = "(vprobe 0);" + c + "\n(vprobe 1)"
	case 2:
		text = "(vprobe 0) (vprobe ;" + c + "\n1)"
	case 3:
		text = "(vprobe 0) (vprobe 1) ;" + c
	}
	x := vI(vInt64("x"))
	vProbeCalls = nil
	vProbeAnswer = func(call int, args []*Data) (*Data, error) { return x, nil }
	r, err := vRunText([]int{0, 2}[vChoice("entry", 2)], text)
	vAssert(err == nil && vSame(r, x) && len(vProbeCalls) == 2, "comments do not change the program")
	vReach("done")
}
