package golisp

import (
	"os"
)

const vFileA, vFileB = "vscratch-a", "vscratch-b"

// vContents is what the file holds.
func vContents(name string) (string, bool) {
	b, err := os.ReadFile(name)
	return string(b), err == nil
}

func vFresh(name string, text string) {
	f, err := os.Create(name)
	if err != nil {
		panic("cannot create the scratch file")
	}
	f.WriteString(text)
	f.Close()
}

// vAscii is a string whose bytes are arbitrary ASCII.
func vAscii(name string, n int) string {
	s := vString(name, n)
	vAssumeASCII(s)
	return s
}

// vWriteOne performs one output operation and gives the text it has to write;
// port is the text of the port argument, or empty for standard output.
func vWriteOne(name, port string, env *SymbolTableFrame) (src string, text string) {
	arg := ""
	if port != "" {
		arg = " " + port
	}
	s := Intern(name)
	switch vChoice(name, 5) {
	case 0:
		t := vAscii(name, vLen(name, 3))
		env.BindLocallyTo(s, StringWithValue(t))
		return "(write-string " + name + arg + ")", t
	case 1:
		return "(newline" + arg + ")", "\n"
	case 2:
		x := vInt(name, -999, 999)
		env.BindLocallyTo(s, vI(x))
		return "(write " + name + arg + ")", vFmtInt(x, false)
	case 3:
		env.BindLocallyTo(s, vMust(`'(1 ("a" . b) #t [1 2])`))
		return "(write " + name + arg + ")", `(1 ("a" . b) #t [1 2])`
	}
	if port == "" {
		port = "#t"
	}
	t := vAscii(name, 2)
	env.BindLocallyTo(s, StringWithValue(t))
	return "(format " + port + ` "<~a>" ` + name + ")", "<" + t + ">"
}

// A file opened for output holds exactly the texts written to the port, in
// order, after what it held before if it was opened to append and alone
// otherwise.
//verif:bounds 0..2 operations (thorough 3) out of write-string, newline, write and format on a port opened to replace or to append, on a new, an empty and a non-empty file; strings up to 12 bytes (thorough 17), integers -999..999
//verif:reach appended,replaced,new
func VH_P33_write() {
	old := ""
	label := "new"
	switch vChoice("old", 3) {
	case 1:
		vFresh(vFileA, "")
	case 2:
		old = "old " + vAscii("old", 1)
		vFresh(vFileA, old)
		label = "replaced"
	}
	env := vEnv()
	open := `(open-output-file "vscratch-a")`
	switch vChoice("mode", 3) {
	case 0:
		old = ""
	case 1:
		open = `(open-output-file "vscratch-a" #f)`
		old = ""
	case 2:
		open = `(open-output-file "vscratch-a" #t)`
		if old != "" {
			label = "appended"
		}
	}
	p, err := Eval(vParse(open), env)
	vAssert(err == nil && PortP(p), "opening for output gives a port")
	env.BindLocallyTo(Intern("vp"), p)
	w := old
	n := vChoice("n", 3+vTier())
	for i := 0; i < n; i++ {
		src, text := vWriteOne("vw"+vIntString(i), "vp", env)
		_, err := Eval(vParse(src), env)
		vAssert(err == nil, "writing to an open port succeeds")
		w += text
	}
	got, ok := vContents(vFileA)
	vAssert(ok && got == w, "everything written is in the file at once")
	_, err = Eval(vParse("(close-port vp)"), env)
	vAssert(err == nil, "closing succeeds")
	src, _ := vWriteOne("vlast", "vp", env)
	_, err = Eval(vParse(src), env)
	vAssert(err != nil, "writing to a closed port is an error")
	got, ok = vContents(vFileA)
	vAssert(ok && got == w, "the file holds exactly the texts written")
	vReach(label)
}

// write-bytes writes exactly the bytes of the array.
//verif:bounds 0..2 byte arrays of 0..3, 12 and 17 arbitrary bytes
//verif:reach done
func VH_P33_bytes() {
	env := vEnv()
	p, err := Eval(vParse(`(open-output-file "vscratch-a")`), env)
	vAssert(err == nil, "opening for output succeeds")
	env.BindLocallyTo(Intern("vp"), p)
	w := ""
	n := 1 + vChoice("n", 2)
	for i := 0; i < n; i++ {
		b, bs := vBytes("b", vLen("b", 4))
		_, err := vCall("write-bytes", b, p)
		vAssert(err == nil, "write-bytes succeeds")
		w += string(bs)
		vAssert(vSameBytes(vByteSlice(b), bs), "write-bytes leaves the array alone")
	}
	got, ok := vContents(vFileA)
	vAssert(ok && got == w, "the file holds exactly the bytes written")
	vReach("done")
}

// Two ports do not disturb each other.
//verif:bounds 3 operations (thorough 4) on two output ports in any order, integers and texts of 1 byte
//verif:reach done
func VH_P33_twowrite() {
	env := vEnv()
	pa, _ := Eval(vParse(`(open-output-file "vscratch-a")`), env)
	pb, _ := Eval(vParse(`(open-output-file "vscratch-b")`), env)
	wa, wb := "", ""
	for i := 0; i < 3+vTier(); i++ {
		t := vAscii("t", 1)
		p := pa
		if vChoice("which", 2) == 0 {
			wa += t
		} else {
			p = pb
			wb += t
		}
		_, err := vCall("write-string", StringWithValue(t), p)
		vAssert(err == nil, "write-string succeeds")
	}
	ga, _ := vContents(vFileA)
	gb, _ := vContents(vFileB)
	vAssert(ga == wa && gb == wb, "each file holds what was written to its port")
	vReach("done")
}

// vDatum is a value and a text it can be read from.
func vDatum(name string) (*Data, string) {
	switch vChoice(name, 6) {
	case 0:
		x := vInt(name, -99, 99)
		return vI(x), vFmtInt(x, false)
	case 1:
		t := vAscii(name, vChoice(name, 3))
		for i := 0; i < len(t); i++ {
			vAssume(t[i] != '"' && t[i] != '\\' && t[i] != 0)
		}
		return StringWithValue(t), `"` + t + `"`
	case 2:
		return Intern("vs1"), "vs1"
	case 3:
		x := vInt(name, 0, 9)
		return vList(vI(x), vList(Intern("quote"), Intern("a")), vI(2)), "(" + vFmtInt(x, false) + "\n'a 2)"
	case 4:
		return BooleanWithValue(true), "#t"
	}
	return EmptyCons(), "()"
}

var vGaps = []string{" ", "\n", " ; note\n", "\r\n\t"}

// Reading from a port gives the values in the file one after the other and
// then the end-of-file object, every time.
//verif:bounds 0..3 values of 6 kinds separated by one of 4 kinds of blank space, with and without blank space at both ends
//verif:reach done,empty
func VH_P33_read() {
	n := vChoice("n", 3+vTier())
	text := ""
	var w []*Data
	if vBool("lead") {
		text = vGaps[vChoice("gap", len(vGaps))]
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			text += vGaps[vChoice("gap", len(vGaps))]
		}
		d, t := vDatum("d" + vIntString(i))
		w = append(w, d)
		text += t
	}
	if vBool("trail") {
		text += vGaps[vChoice("gap", len(vGaps))]
	}
	vFresh(vFileA, text)
	env := vEnv()
	p, err := Eval(vParse(`(open-input-file "vscratch-a")`), env)
	vAssert(err == nil && PortP(p), "opening for input gives a port")
	for i := 0; i < n; i++ {
		d, err := vCall("read", p)
		vAssert(err == nil && vSame(d, w[i]), "read gives the values of the file in order")
		vAssert(vIsBool(vCallOK("eof-object?", d), false), "a value is not the end-of-file object")
	}
	for i := 0; i < 2; i++ {
		d, err := vCall("read", p)
		vAssert(err == nil && vIsBool(vCallOK("eof-object?", d), true), "read gives the end-of-file object after the last value")
	}
	got, ok := vContents(vFileA)
	vAssert(ok && got == text, "reading leaves the file alone")
	_, err = vCall("write-string", StringWithValue("x"), p)
	vAssert(err != nil, "writing to an input port is an error")
	if n == 0 {
		vReach("empty")
	} else {
		vReach("done")
	}
}

// What write puts into a file, separated by newlines, read gives back.
//verif:bounds 1..2 values (thorough 3) of depth 1: atoms of 4 kinds, lists and dotted pairs of 1..2 integers and strings
//verif:reach done
func VH_P33_roundtrip() {
	p := vCallOK("open-output-file", StringWithValue(vFileA))
	n := 1 + vChoice("n", 2+vTier())
	var w []*Data
	for i := 0; i < n; i++ {
		_, err := vCall("newline", p)
		vAssert(err == nil, "newline succeeds")
		d, _ := vDatum("d" + vIntString(i))
		w = append(w, d)
		_, err = vCall("write", d, p)
		vAssert(err == nil, "write succeeds")
	}
	vCallOK("close-port", p)
	q := vCallOK("open-input-file", StringWithValue(vFileA))
	for i := 0; i < n; i++ {
		d, err := vCall("read", q)
		vAssert(err == nil && vSame(d, w[i]), "read gives back what write wrote")
	}
	d, err := vCall("read", q)
	vAssert(err == nil && vIsBool(vCallOK("eof-object?", d), true), "and then the end-of-file object")
	vReach("done")
}

// Ports are read independently: reads of two ports, on the same or on different
// files, in any order give each the values of its own file in order.
//verif:bounds two input ports on the same file or on two files of 2 values each, 4 reads (thorough 5) in any order
//verif:reach done
func VH_P33_tworead() {
	x := []int64{vInt("x", 0, 9), vInt("x", 0, 9), vInt("y", 0, 9), vInt("y", 0, 9)}
	vFresh(vFileA, vFmtInt(x[0], false)+" "+vFmtInt(x[1], false)+"\n")
	b := vFileA
	if vBool("other") {
		b = vFileB
		vFresh(vFileB, vFmtInt(x[2], false)+" "+vFmtInt(x[3], false)+"\n")
	} else {
		x[2], x[3] = x[0], x[1]
	}
	p := []*Data{vCallOK("open-input-file", StringWithValue(vFileA)), vCallOK("open-input-file", StringWithValue(b))}
	at := []int{0, 0}
	for i := 0; i < 4+vTier(); i++ {
		k := vChoice("which", 2)
		d, err := vCall("read", p[k])
		if at[k] < 2 {
			vAssert(err == nil && vIsInt(d, x[2*k+at[k]]), "each port gives the values of its own file in order")
		} else {
			vAssert(err == nil && vIsBool(vCallOK("eof-object?", d), true), "each port ends after its own last value")
		}
		at[k]++
	}
	vReach("done")
}

// Without a port the text goes to standard output.
//verif:bounds 1..2 operations out of write-string, newline, write and format with standard output redirected to a file
//verif:reach done
func VH_P33_stdout() {
	f, err := os.Create(vFileA)
	if err != nil {
		panic("cannot create the scratch file")
	}
	saved := os.Stdout
	env := vEnv()
	w := ""
	bad := false
	n := 1 + vChoice("n", 2)
	for i := 0; i < n; i++ {
		src, text := vWriteOne("vw"+vIntString(i), "", env)
		os.Stdout = f
		_, err := Eval(vParse(src), env)
		os.Stdout = saved
		bad = bad || err != nil
		w += text
	}
	vAssert(!bad, "writing to standard output succeeds")
	got, ok := vContents(vFileA)
	vAssert(ok && got == w, "standard output receives exactly the texts written")
	vReach("done")
}

// Wrong kinds of arguments and files that are not there are errors, and nothing
// is written.
//verif:bounds every port function with an argument of the wrong kind in each position; files that do not exist; closed ports and ports of the wrong direction
//verif:reach done
func VH_P33_errors() {
	vFresh(vFileA, "kept")
	p := vCallOK("open-output-file", StringWithValue(vFileA), BooleanWithValue(true))
	s := StringWithValue("x")
	bad := vOneOf("bad", []*Data{vI(vInt64("i")), EmptyCons(), BooleanWithValue(vBool("b")), Intern("vs1"), vList(p), FloatWithValue(vFloat32("f")), vExFn, vExPrim, vExEnv})
	var err error
	switch vChoice("case", 14) {
	case 0:
		_, err = vCall("write-string", bad, p)
	case 1:
		_, err = vCall("write-string", s, bad)
	case 2:
		_, err = vCall("write", s, bad)
	case 3:
		_, err = vCall("newline", bad)
	case 4:
		_, err = vCall("write-bytes", bad, p)
	case 5:
		_, err = vCall("write-bytes", vByteArray([]byte{1}), bad)
	case 6:
		_, err = vCall("read", bad)
	case 7:
		_, err = vCall("open-input-file", bad)
	case 8:
		_, err = vCall("open-output-file", bad)
	case 9:
		_, err = vCall("close-port", bad)
	case 10:
		_, err = vCall("open-input-file", StringWithValue("vscratch-none"))
	case 11:
		_, err = vCall("read", p)
	case 12:
		vFresh(vFileB, "1 2")
		q := vCallOK("open-input-file", StringWithValue(vFileB))
		if vBool("started") {
			vCallOK("read", q)
		}
		vCallOK("close-port", q)
		_, err = vCall("read", q)
	case 13:
		q := vCallOK("open-input-file", StringWithValue(vFileA))
		_, err = vCall("write-bytes", vByteArray([]byte{1}), q)
	}
	vAssert(err != nil, "a wrong kind of argument is an error")
	got, ok := vContents(vFileA)
	vAssert(ok && got == "kept", "a failed call writes nothing")
	_, ok = vContents("vscratch-none")
	vAssert(!ok, "opening for input creates nothing")
	vReach("done")
}

// list-directory gives exactly the names that fit the pattern.
//verif:bounds any subset of 4 files, 5 patterns
//verif:reach some,none
func VH_P33_directory() {
	names := []string{"vscratch-a", "vscratch-ab", "vscratch-b.txt", "vscratch-c.txt"}
	here := make([]bool, len(names))
	for i, n := range names {
		here[i] = vBool("f")
		if here[i] {
			vFresh(n, "")
		}
	}
	pats := []string{"vscratch-*", "vscratch-a*", "vscratch-?.txt", "vscratch-b.txt", "vscratch-zz*"}
	fits := [][]bool{{true, true, true, true}, {true, true, false, false}, {false, false, true, true}, {false, false, true, false}, {false, false, false, false}}
	k := vChoice("p", len(pats))
	var w []string
	for i, n := range names {
		if here[i] && fits[k][i] {
			w = append(w, n)
		}
	}
	var r *Data
	var err error
	if vBool("dot") {
		r, err = vCall("list-directory", StringWithValue("."), StringWithValue(pats[k]))
	} else {
		r, err = vCall("list-directory", StringWithValue(""), StringWithValue(pats[k]))
	}
	got, ok := vElems(r, 10)
	vAssert(err == nil && ok && len(got) == len(w), "list-directory gives every name that fits, once")
	for i := range w {
		vAssert(StringP(got[i]) && StringValue(got[i]) == w[i], "list-directory gives the names that fit in order")
	}
	if len(w) == 0 {
		vReach("none")
	} else {
		vReach("some")
	}
}
