package golisp

// vFmtArg is an argument with its two renderings: as displayed and as written.
func vFmtArg(k int) (d *Data, show, write string) {
	switch k {
	case 0:
		return StringWithValue("ab"), "ab", "\"ab\""
	case 1:
		return vI(-12), "-12", "-12"
	case 2:
		return EmptyCons(), "()", "()"
	case 3:
		return vList(Intern("x"), StringWithValue("y")), "(x \"y\")", "(x \"y\")"
	case 4:
		return StringWithValue(""), "", "\"\""
	case 5:
		return BooleanWithValue(true), "#t", "#t"
	case 6:
		return vI(3), "3", "3"
	}
	return Intern("sym"), "sym", "sym"
}

func vRepeat(s string, n int) string {
	r := ""
	for i := 0; i < n; i++ {
		r += s
	}
	return r
}

func vPad(s string, w int, left bool) string {
	p := ""
	if len(s) < w {
		p = vRepeat(" ", w-len(s))
	}
	if left {
		return p + s
	}
	return s + p
}

// vFormat is the documented meaning of a control string, for the arguments
// with displayed form show, written form write and integer value num (where
// isNum).
func vFormat(ctl string, show, write []string, num []int, isNum []bool) (out string, ok bool) {
	at := 0
	for i := 0; i < len(ctl); i++ {
		if ctl[i] != '~' {
			out += ctl[i : i+1]
			continue
		}
		i++
		param := 0
		switch {
		case i < len(ctl) && ctl[i] == '#':
			param = len(show) - at
			i++
		case i < len(ctl) && (ctl[i] == 'V' || ctl[i] == 'v'):
			if at >= len(show) || !isNum[at] {
				return "", false
			}
			param = num[at]
			at++
			i++
		default:
			for i < len(ctl) && ctl[i] >= '0' && ctl[i] <= '9' {
				param = param*10 + int(ctl[i]-'0')
				i++
			}
		}
		mod := false
		if i < len(ctl) && ctl[i] == '@' {
			mod = true
			i++
		}
		if i >= len(ctl) {
			return "", false
		}
		n := param
		if n <= 0 {
			n = 1
		}
		switch ctl[i] {
		case 'A', 'a', 'S', 's':
			if at >= len(show) {
				return "", false
			}
			s := show[at]
			if ctl[i] == 'S' || ctl[i] == 's' {
				s = write[at]
			}
			at++
			out += vPad(s, param, mod)
		case '%':
			out += vRepeat("\n", n)
		case '~':
			out += vRepeat("~", n)
		case '\n':
			for i+1 < len(ctl) && (ctl[i+1] == ' ' || ctl[i+1] >= 9 && ctl[i+1] <= 13) {
				i++
			}
			if mod {
				out += "\n"
			}
		default:
			return "", false
		}
	}
	return out, at == len(show)
}

func vCheckFormat(ctl string, kinds []int) {
	var show, write []string
	var num []int
	var isNum []bool
	args := []*Data{LispFalse, StringWithValue(ctl)}
	for _, k := range kinds {
		d, s, w := vFmtArg(k)
		args = append(args, d)
		show, write = append(show, s), append(write, w)
		isNum = append(isNum, IntegerP(d))
		n := 0
		if IntegerP(d) {
			n = int(IntegerValue(d))
		}
		num = append(num, n)
	}
	want, ok := vFormat(ctl, show, write, num, isNum)
	r, err := vCall("format", args...)
	if ok {
		vReach("ok")
		vAssert(err == nil, "a correct control string must be accepted")
		vAssert(StringP(r) && StringValue(r) == want, "the text with every directive expanded")
	} else {
		vReach("bad")
		vAssert(err != nil, "a wrong number of arguments and unknown or incomplete directives are errors")
	}
	vAssert(StringValue(args[1]) == ctl, "the control string must not change")
}

//verif:bounds any control string of up to 4 ASCII bytes (5 thorough) with 0..2 arguments
//verif:reach ok,bad
//verif:secs 120
func VH_P28_raw() {
	ctl := vString("ctl", vChoice("len", 5+vTier()))
	vAssumeASCII(ctl)
	sets := [][]int{{}, {0}, {6, 0}, {6}, {0, 3}}
	vCheckFormat(ctl, sets[vChoice("args", 3+2*vTier())])
}

// vDirective appends one directive.
func vDirective(alts []string) string { return alts[vChoice("d", len(alts))] }

//verif:bounds three items, each a text or a directive with any parameter, modifier and letter, with the right number of arguments or one more or less, of every kind
//verif:reach ok,bad
//verif:secs 120
func VH_P28_items() {
	letters := []string{"A", "a", "S", "s", "%", "~", "\n", "\n \t\n", "d"}
	params := []string{"", "0", "3", "12", "#", "V", "v"}
	ctl := ""
	var kinds []int
	n := 2 + vTier()
	rest := 0
	for i := 0; i < n; i++ {
		if vBool("text") {
			ctl += "p" + vTextChar("c")
			continue
		}
		p := params[vChoice("param", len(params))]
		at := ""
		if vBool("at") {
			at = "@"
		}
		l := letters[vChoice("letter", len(letters))]
		ctl += "~" + p + at + l
		if p == "V" || p == "v" {
			kinds = append(kinds, []int{6, 1, 0}[vChoice("v", 2+vTier())])
		}
		switch l {
		case "A", "a", "S", "s":
			kinds = append(kinds, (i*3+vChoice("kind", 3+3*vTier()))%8)
			rest++
		}
	}
	switch vChoice("count", 3) {
	case 1:
		kinds = append(kinds, 2)
	case 2:
		if len(kinds) > 0 {
			kinds = kinds[:len(kinds)-1]
		}
	}
	vCheckFormat(ctl, kinds)
}

// vTextChar is an ordinary character.
func vTextChar(name string) string {
	s := vString(name, 1)
	vAssume(s[0] < 0x80 && s[0] != '~')
	return s
}

//verif:bounds any width up to 12 given as a number, as an argument or as the number of arguments; any text of up to 3 bytes
//verif:reach end
func VH_P28_width() {
	w := int(vConcInt(vInt("w", 0, 12)))
	text := vString("t", vChoice("len", 4))
	vAssumeText(text)
	left := vBool("left")
	dir := "A"
	want := text
	if vBool("written") {
		dir = "S"
		want = "\"" + text + "\""
	}
	if left {
		dir = "@" + dir
	}
	want = vPad(want, w, left)
	r, err := vCall("format", LispFalse, StringWithValue("<~"+vDigits(w)+dir+">"), StringWithValue(text))
	vAssert(err == nil && StringP(r) && StringValue(r) == "<"+want+">", "padded to the width")
	r, err = vCall("format", LispFalse, StringWithValue("<~V"+dir+">"), vI(int64(w)), StringWithValue(text))
	vAssert(err == nil && StringP(r) && StringValue(r) == "<"+want+">", "padded to the width given as an argument")
	vReach("end")
}

//verif:bounds destinations and control strings of every wrong kind
//verif:reach end
func VH_P28_kinds() {
	var err error
	if vBool("dest") {
		d := vNonNumber("d")
		vAssume(!BooleanP(d))
		_, err = vCall("format", d, StringWithValue("x"))
	} else {
		c := vNonNumber("c")
		vAssume(!StringP(c))
		_, err = vCall("format", LispFalse, c)
	}
	vAssert(err != nil, "a wrong kind of argument is an error")
	vReach("end")
}
