package golisp

// Any text at all: the engine reports a Go panic or a run over the step limit
// as a violation.
//
//verif:bounds every text of up to 3 bytes (4 thorough) of ASCII, NUL aside
//verif:reach value,none,error
//verif:secs 120
func VH_P19_any() {
	s := vString("s", vChoice("len", 4+vTier()))
	for i := 0; i < len(s); i++ {
		vAssume(s[i] > 0 && s[i] < 0x80)
	}
	vReadAny(s)
}

//verif:bounds every text of one arbitrary byte (2 thorough), NUL aside
//verif:reach value,none,error
//verif:secs 120
func VH_P19_bytes() {
	s := vString("s", vChoice("len", 2+vTier()))
	for i := 0; i < len(s); i++ {
		vAssume(s[i] > 0)
	}
	vReadAny(s)
}

func vReadAny(s string) {
	vOpaque(true) // the text of an error message does not matter
	d, err := Parse(s)
	all, errs := ParseAll(s)
	switch {
	case err != nil:
		vReach("error")
		vAssert(errs != nil, "reading all of it reports the error too")
	case len(all) == 0 && errs == nil:
		vReach("none")
		vAssert(d == nil, "nothing to read")
	case len(all) > 0:
		vReach("value")
		vAssert(vExact(d, all[0]), "the first value is the same")
	}
	vAssert(len(all) <= len(s), "no more values than characters")
}

//verif:bounds every sequence of 3 pieces (4 thorough) of a table of delimiters, atoms and incomplete tokens, written without separation
//verif:reach value,none,error
//verif:secs 120
func VH_P19_pieces() {
	pieces := []string{"(", ")", "'", ".", " ", "a", "1", "\"", "[", "]", "{", "}", "a:", ",", ",@", "`", ";", "\n", "#", "-", "\\", "0x", "#t", "|"}
	n := 3 + vTier()
	s := ""
	for i := 0; i < n; i++ {
		s += pieces[vChoice("p", len(pieces))]
	}
	vReadAny(s)
}

// Integer literals.
//
//verif:bounds every literal of up to 20 decimal digits, with and without a sign
//verif:reach value,error
//verif:secs 120
func VH_P19_decimal() {
	n := []int{1, 3, 10, 18, 19, 20}[vChoice("len", 6)]
	ds := vString("d", n)
	var v uint64 // up to 19 digits fit
	for i := 0; i < n; i++ {
		vAssume(ds[i]-'0' <= 9)
		if n == 20 && i == 0 {
			continue
		}
		v = v*10 + uint64(ds[i]-'0')
	}
	over := v > 1<<63 || n == 20 && ds[0] != '0'
	neg := vBool("neg")
	if neg {
		ds = "-" + ds
	}
	d, err := Parse(ds)
	if vTake(over || !neg && v > 1<<63-1) {
		vReach("error")
		vAssert(err != nil, "a number outside the 64-bit range is an error")
		return
	}
	vReach("value")
	w := int64(v)
	if neg {
		w = -w
	}
	vAssert(err == nil && vIsInt(d, w), "the number that is written")
}

//verif:bounds every hexadecimal literal of up to 2 and binary literal of up to 6 digits; those of up to 17 and 65 digits with an arbitrary digit anywhere and the other ones all low or all high; both prefixes
//verif:reach value,error
//verif:secs 120
func VH_P19_hex() {
	var v uint64
	over := false
	var text string
	if vBool("hex") {
		n := []int{1, 2, 8, 15, 16, 17}[vChoice("len", 6)]
		ds := vDigitText(n, n <= 2, 'f')
		for i := 0; i < n; i++ {
			c := ds[i]
			var x uint64
			switch {
			case c >= '0' && c <= '9':
				x = uint64(c - '0')
			case c >= 'a' && c <= 'f':
				x = uint64(c-'a') + 10
			case c >= 'A' && c <= 'F':
				x = uint64(c-'A') + 10
			default:
				vAssume(false)
			}
			over = over || i >= 16 && v >= 1<<60
			v = v*16 + x
		}
		text = []string{"0x", "#x"}[vChoice("prefix", 2)] + ds
	} else {
		n := []int{1, 2, 6, 63, 64, 65}[vChoice("len", 6)]
		ds := vDigitText(n, n <= 6, '1')
		for i := 0; i < n; i++ {
			vAssume(ds[i] == '0' || ds[i] == '1')
			over = over || i >= 64 && v >= 1<<63
			v = v*2 + uint64(ds[i]-'0')
		}
		text = "#b" + ds
	}
	d, err := Parse(text)
	if vTake(over || v > 1<<63-1) {
		vReach("error")
		vAssert(err != nil, "a number outside the 64-bit range is an error")
		return
	}
	vReach("value")
	vAssert(err == nil && vIsInt(d, int64(v)), "the number that is written")
}

// vDigitText is a text of n characters: all arbitrary, or one arbitrary and
// the others all zero or all the given digit.
func vDigitText(n int, all bool, high byte) string {
	if all {
		return vString("d", n)
	}
	b := make([]byte, n)
	fill := byte('0')
	if vBool("high") {
		fill = high
	}
	for i := range b {
		b[i] = fill
	}
	at := vChoice("at", n)
	return string(b[:at]) + vString("d", 1) + string(b[at+1:])
}

var vTokens = []string{"(", ")", "'", "a", "12", "\"s t\"", ". ", "`", ",", "[", "]", "{", "}", "k:", "#t", "-3", "1.5", ",@"}

func vTokenSep(full bool) string {
	n := 5
	if full {
		n = 9
	}
	switch vChoice("sep", n) {
	case 0:
		return " "
	case 1:
		return "\n"
	case 2:
		return "; x ( \" '\n"
	case 3:
		return "\t \r\n"
	case 4:
		return " ;\n"
	case 5:
		return ";;a\n;b\n "
	case 6:
		return "\f"
	case 7:
		return "\v\n"
	}
	return "\u00a0"
}

func vSameReading(x []*Data, ex error, y []*Data, ey error) bool {
	if (ex != nil) != (ey != nil) || len(x) != len(y) {
		return false
	}
	for i := range x {
		if !vExact(x[i], y[i]) {
			return false
		}
	}
	return true
}

// White space and comments between tokens do not matter.
//
//verif:bounds every sequence of 3 tokens of a table, with any white space or comment before, between and after them
//verif:reach value,error
//verif:secs 120
func VH_P19_space() {
	n := 3
	sep := 1 + vChoice("at", 3)
	plain, spaced := "", ""
	s := vTokenSep(vTier() > 0)
	for i := 0; i < n; i++ {
		t := vTokens[vChoice("t", len(vTokens))]
		plain += " " + t
		if i+1 == sep {
			spaced += s + t
		} else {
			spaced += " " + t
		}
	}
	spaced += s
	vCompareReading(plain+" ", spaced)
}

func vCompareReading(a, b string) {
	x, ex := ParseAll(a)
	y, ey := ParseAll(b)
	if ex != nil {
		vReach("error")
	} else {
		vReach("value")
	}
	vAssert(vSameReading(x, ex, y, ey), "white space and comments must not change what is read")
}

//verif:bounds longer texts with every one of their gaps filled with white space or comments
//verif:reach value
func VH_P19_gaps() {
	rows := [][]string{
		{"(", "a", ".", "b", ")"},
		{"(", "a", "b", ".", "(", "c", ")", ")"},
		{"(", "define", "(", "f", "x", ".", "r", ")", "'", "(", "x", "r", ")", ")"},
		{"`", "(", "a", ",", "b", ",@", "c", ".", "d", ")"},
		{"[", "1", "2", "255", "]"},
		{"{", "a:", "1", "b:", "\"x y\"", "}"},
		{"(", ")", "'", "(", ")", "(", "(", ")", ")"},
		{"0x1F", "#b101", "#xfe", "-12", "1.25", "#t", "#f", "a-b?"},
		{"(", "'", "a", ".", "'", "b", ")"},
	}
	row := rows[vChoice("row", len(rows))]
	plain, spaced := "", ""
	at := vChoice("at", len(row)+1)
	s := vTokenSep(true)
	both := vBool("everywhere")
	for i, t := range row {
		plain += " " + t
		if i == at || both {
			spaced += s + t
		} else {
			spaced += " " + t
		}
	}
	spaced += s
	vCompareReading(plain, spaced)
}

// Quote shorthand.
//
//verif:bounds the four shorthands in front of every expression of a table, at top level and inside lists
//verif:reach end
func VH_P19_quotes() {
	short := []string{"'", "`", ",", ",@"}
	long := []string{"quote", "quasiquote", "unquote", "unquote-splicing"}
	exprs := []string{"a", "12", "-3", "\"s\"", "(a b)", "(a . b)", "()", "#t", "'a", "`(a ,b)", "[1 2]", "k:", "(quote a)", "((a) b)", "1.5", "{a: 1}", "0x1f"}
	i, j := vChoice("short", 4), vChoice("expr", len(exprs))
	pre, post := "", ""
	switch vChoice("ctx", 4) {
	case 1:
		pre, post = "(x ", " y)"
	case 2:
		pre, post = "(x . ", ")"
	case 3:
		pre, post = "'", ""
	}
	if vBool("space") {
		short[i] += " "
	}
	x, ex := ParseAll(pre + short[i] + exprs[j] + post)
	y, ey := ParseAll(pre + "(" + long[i] + " " + exprs[j] + ")" + post)
	vAssert(ex == nil && ey == nil && len(x) == 1 && vSameReading(x, ex, y, ey), "shorthand reads as the spelled-out form")
	vReach("end")
}

// A string literal.
//
//verif:bounds every string literal of up to 4 characters of ASCII, NUL aside
//verif:reach end,escape
//verif:secs 120
func VH_P19_strings() {
	n := vChoice("len", 5)
	s := vString("s", n)
	want := ""
	for i := 0; i < n; i++ {
		vAssume(s[i] > 0 && s[i] < 0x80 && s[i] != '"')
		if s[i] == '\\' {
			vReach("escape")
			i++
			vAssume(i < n && s[i] > 0 && s[i] < 0x80)
			if s[i] == 'n' {
				want += "\n"
				continue
			}
		}
		want += s[i : i+1]
	}
	x, err := ParseAll("\"" + s + "\" 7")
	vAssert(err == nil && len(x) == 2 && StringP(x[0]) && StringValue(x[0]) == want && vIsInt(x[1], 7), "the characters between the quotes")
	vReach("end")
}

// A whole text is read and evaluated expression by expression.
//
//verif:bounds texts of 3 expressions of every shape, the empty list included
//verif:reach end
func VH_P19_all() {
	exprs := []string{"(vprobe N)", "()", "12", "nil", "; note\n", "(if #f (vprobe 9))", "\"s\"", "'()"}
	src := ""
	var want []int64
	read := 0
	for i := 0; i < 3; i++ {
		k := vChoice("e", len(exprs))
		if k == 0 {
			src += "(vprobe " + vIntString(i) + ") "
			want = append(want, int64(i))
			read++
			continue
		}
		if k != 4 {
			read++
		}
		src += exprs[k] + " "
	}
	all, err := ParseAll(src)
	vAssert(err == nil && len(all) == read, "every expression is read")
	vProbeCalls = nil
	vProbeAnswer = func(call int, args []*Data) (*Data, error) { return args[0], nil }
	_, err = ParseAndEvalAllInEnvironment(src, vEnv())
	vAssert(err == nil, "evaluating the text")
	vAssert(len(vProbeCalls) == len(want), "every expression is evaluated once")
	for i, a := range vProbeCalls {
		vAssert(vIsInt(a[0], want[i]), "in order")
	}
	vReach("end")
}
