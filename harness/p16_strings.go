package golisp

func vS(s string) *Data { return StringWithValue(s) }

func vIsStr(d *Data, s string) bool { return StringP(d) && StringValue(d) == s }

// vText is an arbitrary string of at most max bytes over the whole byte range.
func vText(name string, max int) string { return vString(name, vChoice(name+"~len", max+1)) }

// vTextOver is an arbitrary string of at most max bytes over a small alphabet.
func vTextOver(name, alphabet string, max int) string {
	s := vText(name, max)
	for i := 0; i < len(s); i++ {
		ok := false
		for j := 0; j < len(alphabet); j++ {
			ok = ok || s[i] == alphabet[j]
		}
		vAssume(ok)
	}
	return s
}

// vKept: the argument is still the string it was.
func vKept(d *Data, s string) { vAssert(vIsStr(d, s), "the argument is unchanged") }

func vStrList(d *Data, w []string) bool {
	l, ok := vElems(d, len(w)+1)
	if !ok || len(l) != len(w) {
		return false
	}
	for i := range l {
		if !vIsStr(l[i], w[i]) {
			return false
		}
	}
	return true
}

// Length, emptiness and substring; indices outside the string are errors.
//verif:bounds strings of 0..4 (thorough 0..6) arbitrary bytes, all 64-bit start and end
//verif:reach ok,error
func VH_P16_substring() {
	s := vText("s", 4+2*vTier())
	d := vS(s)
	vAssert(vIsInt(vCallOK("string-length", d), int64(len(s))), "string-length counts the bytes")
	vAssert(vIsBool(vCallOK("string-null?", d), len(s) == 0), "string-null? recognises the empty string")
	a, b := vInt64("start"), vInt64("end")
	r, err := vCall("substring", d, vI(a), vI(b))
	vKept(d, s)
	if a < 0 || b < a || b > int64(len(s)) {
		vAssert(err != nil, "a range outside the string is an error")
		vReach("error")
		return
	}
	vAssert(err == nil && StringP(r), "a range inside the string is accepted")
	g := StringValue(r)
	vAssert(int64(len(g)) == b-a, "substring has as many characters as the range")
	for i := 0; i < len(g); i++ {
		vAssert(g[i] == s[int(a)+i], "substring has the characters of the range")
	}
	vReach("ok")
}

// Prefix, suffix and containment tests.
//verif:bounds strings of 0..4 (thorough 0..5) and 0..3 arbitrary bytes
//verif:reach yes,no
func VH_P16_contains() {
	s, p := vText("s", 4+vTier()), vText("p", 3)
	ds, dp := vS(s), vS(p)
	at := func(i int) bool { return i >= 0 && i+len(p) <= len(s) && s[i:i+len(p)] == p }
	in := false
	for i := 0; i+len(p) <= len(s); i++ {
		in = in || at(i)
	}
	vAssert(vIsBool(vCallOK("string-prefix?", dp, ds), at(0)), "string-prefix? is a match at the start")
	vAssert(vIsBool(vCallOK("string-suffix?", dp, ds), at(len(s)-len(p))), "string-suffix? is a match at the end")
	vAssert(vIsBool(vCallOK("substring?", dp, ds), in), "substring? is a match anywhere")
	vKept(ds, s)
	vKept(dp, p)
	if in {
		vReach("yes")
	} else {
		vReach("no")
	}
}

// Splitting at a separator and joining with it restores the text; the pieces
// are the text between separators and contain none.
//verif:bounds texts of 0..4 (thorough 0..5) arbitrary bytes, separators of 1..2 arbitrary bytes
//verif:reach one,more
func VH_P16_split() {
	s := vText("s", 4+vTier())
	sep := vString("sep", 1+vChoice("sep~len", 2))
	d, ds := vS(s), vS(sep)
	r := vCallOK("string-split", d, ds)
	var want []string
	from := 0
	for i := 0; i+len(sep) <= len(s); {
		if s[i:i+len(sep)] == sep {
			want = append(want, s[from:i])
			i += len(sep)
			from = i
		} else {
			i++
		}
	}
	want = append(want, s[from:])
	vAssert(vStrList(r, want), "string-split gives the pieces between separators")
	vKept(d, s)
	vKept(ds, sep)
	vAssert(vIsStr(vCallOK("string-join", r, ds), s), "joining the pieces restores the text")
	if len(want) > 1 {
		vReach("more")
	} else {
		vReach("one")
	}
}

// Splitting at the empty separator gives one piece per character.
//verif:bounds ASCII texts of 1..4 characters
func VH_P16_splitchars() {
	n := 1 + vChoice("n", 4)
	s := vString("s", n)
	vAssumeASCII(s)
	r := vCallOK("string-split", vS(s), vS(""))
	var want []string
	for i := 0; i < n; i++ {
		want = append(want, s[i:i+1])
	}
	vAssert(vStrList(r, want), "an empty separator splits into characters")
	vAssert(vIsStr(vCallOK("string-join", r), s), "joining without separator restores the text")
}

// Joining concatenates the strings with the separator between them.
//verif:bounds lists of 0..3 strings of 0..2 arbitrary bytes; separators absent, nil or 0..2 bytes; a non-string element at any position
//verif:reach ok,error
func VH_P16_join() {
	n := vChoice("n", 4)
	bad := vChoice("bad", n+1)
	var l []*Data
	var parts []string
	for i := 0; i < n; i++ {
		p := vText("p", 2)
		parts = append(parts, p)
		if i == bad {
			l = append(l, []*Data{vI(vInt64("x")), EmptyCons(), Intern("sym")}[vChoice("badkind", 3)])
		} else {
			l = append(l, vS(p))
		}
	}
	list := vList(l...)
	args := []*Data{list}
	sep := ""
	switch vChoice("sepkind", 3) {
	case 1:
		args = append(args, EmptyCons())
	case 2:
		sep = vText("sep", 2)
		args = append(args, vS(sep))
	}
	r, err := vCall("string-join", args...)
	if bad < n {
		vAssert(err != nil, "joining something that is not a string is an error")
		vReach("error")
		return
	}
	want := ""
	for i, p := range parts {
		if i > 0 {
			want += sep
		}
		want += p
	}
	vAssert(err == nil && vIsStr(r, want), "string-join concatenates with separators between")
	for i := range l {
		vKept(l[i], parts[i])
	}
	vReach("ok")
}

// Trimming removes exactly the leading and trailing characters of the set.
//verif:bounds ASCII texts of 0..3 (thorough 0..4) characters with the default white space or a set of 0..1 ASCII characters; texts and sets of 2 over the letters a-d
//verif:secs 200
func VH_P16_trim() {
	n := 3 + vTier()
	var s string
	set := " \t\r\n\v\f"
	var args []*Data
	switch vChoice("set", 3) {
	case 0:
		s = vText("s", n)
		vAssumeASCII(s)
		args = []*Data{vS(s)}
	case 1:
		s = vText("s", n)
		vAssumeASCII(s)
		set = vText("set", 1)
		vAssumeASCII(set)
		args = []*Data{vS(s), vS(set)}
	case 2:
		s = vTextOver("s", "abcd", n)
		set = vString("set", 2)
		vAssume((set[0] == 'a' || set[0] == 'b') && (set[1] == 'b' || set[1] == 'c'))
		args = []*Data{vS(s), vS(set)}
	}
	in := func(c byte) bool {
		r := false
		for i := 0; i < len(set); i++ {
			r = r || set[i] == c
		}
		return r
	}
	lo, hi := 0, len(s)
	which := vChoice("side", 3)
	if which != 1 {
		for lo < hi && in(s[lo]) {
			lo++
		}
	}
	if which != 0 {
		for hi > lo && in(s[hi-1]) {
			hi--
		}
	}
	r := vCallOK([]string{"string-trim-left", "string-trim-right", "string-trim"}[which], args...)
	vAssert(vIsStr(r, s[lo:hi]), "trimming removes the characters of the set at the ends only")
	vKept(args[0], s)
}

func vUp(c byte) byte {
	if c >= 'a' && c <= 'z' {
		return c - 32
	}
	return c
}

func vDown(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

func vMapStr(s string, f func(i int, c byte) byte) string {
	b := make([]byte, len(s))
	for i := range b {
		b[i] = f(i, s[i])
	}
	return string(b)
}

// Case conversion changes exactly the letters; only the forms with an
// exclamation mark change their argument.
//verif:bounds ASCII texts of 0..4 (thorough 0..6) characters
func VH_P16_case() {
	s := vText("s", 4+2*vTier())
	vAssumeASCII(s)
	up := vMapStr(s, func(i int, c byte) byte { return vUp(c) })
	down := vMapStr(s, func(i int, c byte) byte { return vDown(c) })
	capital := vMapStr(s, func(i int, c byte) byte {
		if i == 0 {
			return vUp(c)
		}
		return vDown(c)
	})
	k := vChoice("fn", 3)
	name := []string{"string-upcase", "string-downcase", "string-capitalize"}[k]
	want := []string{up, down, capital}[k]
	d := vS(s)
	r := vCallOK(name, d)
	vAssert(vIsStr(r, want), name+" converts the letters")
	vKept(d, s)
	vAssert(r != d, name+" makes a new string")
	b := vCallOK(name+"!", d)
	vAssert(vIsStr(b, want), name+"! returns the converted string")
	vAssert(vIsStr(d, want), name+"! converts its argument in place")
}

// Capitalising keeps characters outside ASCII whole.
//verif:bounds one of three multi-byte characters without case, followed by an arbitrary ASCII letter
func VH_P16_capmulti() {
	c := vByte("c")
	vAssume(c >= 'A' && c <= 'Z')
	lead := []string{"\u00a7", "\u00bf", "\u4e16"}[vChoice("lead", 3)]
	r := vCallOK("string-capitalize", vS(lead+string([]byte{c})))
	vAssert(vIsStr(r, lead+string([]byte{vDown(c)})), "string-capitalize keeps the first character whole")
}

// The order comparisons are the byte-wise dictionary order, and the -ci forms
// the same on the text without case.
//verif:bounds pairs of strings of 0..3 (thorough 0..4) arbitrary bytes; ASCII for the case-insensitive forms
//verif:reach less,equal,greater
func VH_P16_compare() {
	a, b := vText("a", 3+vTier()), vText("b", 3+vTier())
	da, db := vS(a), vS(b)
	ci := ""
	ka, kb := a, b
	if vChoice("ci", 2) == 1 {
		ci = "-ci"
		vAssumeASCII(a)
		vAssumeASCII(b)
		ka = vMapStr(a, func(i int, c byte) byte { return vDown(c) })
		kb = vMapStr(b, func(i int, c byte) byte { return vDown(c) })
	}
	lt, eq := false, len(ka) == len(kb)
	for i := 0; ; i++ {
		if i >= len(ka) || i >= len(kb) {
			lt = len(ka) < len(kb)
			break
		}
		if ka[i] != kb[i] {
			lt = ka[i] < kb[i]
			eq = false
			break
		}
	}
	vAssert(vIsBool(vCallOK("string"+ci+"=?", da, db), eq), "string=? is equality of the text")
	vAssert(vIsBool(vCallOK("string"+ci+"<?", da, db), lt), "string<? is the dictionary order")
	vAssert(vIsBool(vCallOK("string"+ci+">?", da, db), !lt && !eq), "string>? is the reverse order")
	vAssert(vIsBool(vCallOK("string"+ci+"<=?", da, db), lt || eq), "string<=? is less or equal")
	vAssert(vIsBool(vCallOK("string"+ci+">=?", da, db), !lt), "string>=? is not less")
	vKept(da, a)
	vKept(db, b)
	switch {
	case lt:
		vReach("less")
	case eq:
		vReach("equal")
	default:
		vReach("greater")
	}
}

// vNonString is a value that is not a string.
func vNonString(name string) *Data {
	switch vChoice(name, 8) {
	case 0:
		return vI(vInt64(name))
	case 1:
		return EmptyCons()
	case 2:
		return FloatWithValue(1.5)
	case 3:
		return Intern("vsym")
	case 4:
		return BooleanWithValue(true)
	case 5:
		return Copy(vExList)
	case 6:
		return Copy(vExFrame)
	}
	return vExBytes
}

// A value that is not a string, in any string position, is an error and
// changes nothing.
//verif:bounds every string function, every string position, 8 kinds of other values
func VH_P16_kinds() {
	one := []string{"string-trim", "string-trim-left", "string-trim-right", "string-upcase", "string-upcase!",
		"string-downcase", "string-downcase!", "string-capitalize", "string-capitalize!", "string-length", "string-null?", "parse"}
	two := []string{"string-split", "substring?", "string-prefix?", "string-suffix?", "string-trim", "string-trim-left", "string-trim-right",
		"string=?", "string<?", "string>?", "string<=?", "string>=?",
		"string-ci=?", "string-ci<?", "string-ci>?", "string-ci<=?", "string-ci>=?"}
	bad := vNonString("bad")
	keep := vClone(bad)
	var err error
	switch vChoice("arity", 3) {
	case 0:
		_, err = vCall(one[vChoice("fn", len(one))], bad)
	case 1:
		fn := two[vChoice("fn", len(two))]
		if vChoice("pos", 2) == 0 {
			_, err = vCall(fn, bad, vS("ab"))
		} else {
			_, err = vCall(fn, vS("ab"), bad)
		}
	case 2:
		_, err = vCall("substring", bad, vI(0), vI(0))
		vAssert(err != nil, "substring of something that is not a string is an error")
		vAssume(!IntegerP(bad))
		if vChoice("pos", 2) == 0 {
			_, err = vCall("substring", vS("abc"), bad, vI(1))
		} else {
			_, err = vCall("substring", vS("abc"), vI(0), bad)
		}
	}
	vAssert(err != nil, "a value of the wrong kind is an error")
	vAssert(vExact(bad, keep), "the argument is unchanged")
}

// Long texts behave like short ones.
//verif:bounds two fixed texts of 13 and 21 ASCII characters with an arbitrary ASCII character at any position; every string function; joining 4, 7 and 12 pieces
//verif:reach done
func VH_P16_long() {
	base := []string{"  Abc, dEf, gh", "xyXYxy a,b, c, , DEf  \t"}[vChoice("base", 2)]
	at := vChoice("at", len(base))
	c := vByte("c")
	vAssume(c < 0x80)
	raw := []byte(base)
	raw[at] = c
	s := string(raw)
	d := vS(s)
	switch op := vChoice("op", 8); op {
	case 0:
		vAssert(vIsInt(vCallOK("string-length", d), int64(len(s))), "string-length counts the bytes")
		i := []int{0, 1, 8, len(s) - 1, len(s)}[vChoice("i", 5)]
		j := []int{0, 5, 9, len(s) - 1, len(s)}[vChoice("j", 5)]
		r, err := vCall("substring", d, vI(int64(i)), vI(int64(j)))
		if j < i {
			vAssert(err != nil, "a range that ends before it starts is an error")
		} else {
			vAssert(err == nil && vIsStr(r, s[i:j]), "substring has the characters of the range")
		}
	case 1:
		sep := []string{",", ", ", "xy"}[vChoice("sep", 3)]
		var want []string
		from := 0
		for i := 0; i+len(sep) <= len(s); {
			if vTake(s[i:i+len(sep)] == sep) {
				want = append(want, s[from:i])
				i += len(sep)
				from = i
			} else {
				i++
			}
		}
		want = append(want, s[from:])
		r := vCallOK("string-split", d, vS(sep))
		vAssert(vStrList(r, want), "string-split gives the pieces between separators")
		vAssert(vIsStr(vCallOK("string-join", r, vS(sep)), s), "joining the pieces restores the text")
	case 2:
		set := " \t\r\n\v\f"
		args := []*Data{d}
		if vChoice("set", 2) == 1 {
			set = "xyXY \t"
			args = append(args, vS(set))
		}
		in := func(c byte) bool {
			for i := 0; i < len(set); i++ {
				if vTake(set[i] == c) {
					return true
				}
			}
			return false
		}
		lo, hi := 0, len(s)
		which := vChoice("side", 3)
		for which != 1 && lo < hi && in(s[lo]) {
			lo++
		}
		for which != 0 && hi > lo && in(s[hi-1]) {
			hi--
		}
		r := vCallOK([]string{"string-trim-left", "string-trim-right", "string-trim"}[which], args...)
		vAssert(vIsStr(r, s[lo:hi]), "trimming removes the characters of the set at the ends only")
	case 3:
		k := vChoice("fn", 3)
		want := vMapStr(s, func(i int, c byte) byte {
			if k == 0 || k == 2 && i == 0 {
				return vUp(c)
			}
			return vDown(c)
		})
		name := []string{"string-upcase", "string-downcase", "string-capitalize"}[k]
		vAssert(vIsStr(vCallOK(name, d), want), name+" converts the letters")
		vKept(d, s)
		vAssert(vIsStr(vCallOK(name+"!", d), want) && vIsStr(d, want), name+"! converts its argument in place")
		return
	case 4:
		o := vS(base)
		lt, eq := c < base[at], c == base[at]
		a, b := s, base
		ci := ""
		if vChoice("ci", 2) == 1 {
			ci = "-ci"
			lt, eq = vDown(c) < vDown(base[at]), vDown(c) == vDown(base[at])
			o = vS(vMapStr(base, func(i int, c byte) byte { return vUp(c) }))
		}
		_, _ = a, b
		vAssert(vIsBool(vCallOK("string"+ci+"=?", d, o), eq), "string=? is equality of the text")
		vAssert(vIsBool(vCallOK("string"+ci+"<?", d, o), lt), "string<? is the dictionary order")
		vAssert(vIsBool(vCallOK("string"+ci+">?", d, o), !lt && !eq), "string>? is the reverse order")
		vAssert(vIsBool(vCallOK("string"+ci+"<=?", d, o), lt || eq), "string<=? is less or equal")
		vAssert(vIsBool(vCallOK("string"+ci+">=?", d, o), !lt), "string>=? is not less")
	case 5:
		i := []int{0, 4, 8}[vChoice("i", 3)]
		n := []int{5, 7, 9}[vChoice("n", 3)]
		if i+n > len(base) {
			n = len(base) - i
		}
		p := base[i : i+n]
		if vTake(c != base[at]) && at >= i && at < i+n {
			// the only occurrence was disturbed
			vAssert(vIsBool(vCallOK("string-prefix?", vS(p), d), false), "string-prefix? is a match at the start")
			vAssert(vIsBool(vCallOK("substring?", vS(p), d), false), "substring? is a match anywhere")
			return
		}
		vAssert(vIsBool(vCallOK("string-prefix?", vS(p), d), i == 0), "string-prefix? is a match at the start")
		vAssert(vIsBool(vCallOK("string-suffix?", vS(base[i:]), vS(base)), true), "string-suffix? is a match at the end")
		vAssert(vIsBool(vCallOK("string-suffix?", vS(base), d), !vTake(c != base[at])), "string-suffix? is a match at the end")
		vAssert(vIsBool(vCallOK("substring?", vS(p), d), true), "substring? is a match anywhere")
	case 6:
		n := []int{4, 7, 12}[vChoice("pieces", 3)]
		sep := []string{"", ", "}[vChoice("sep", 2)]
		var l []*Data
		want := ""
		for i := 0; i < n; i++ {
			p := base[:i%3]
			if i == at%n {
				p = s
			}
			if i > 0 {
				want += sep
			}
			want += p
			l = append(l, vS(p))
		}
		vAssert(vIsStr(vCallOK("string-join", vList(l...), vS(sep)), want), "string-join concatenates with separators between")
	case 7:
		vAssert(vIsBool(vCallOK("string-null?", d), false), "string-null? recognises the empty string")
	}
	vKept(d, s)
	vReach("done")
}
