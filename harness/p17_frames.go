package golisp

// A model of frames: own slots as integers, parents by index.
type vFrameModel struct {
	val     [3]int64 // value of slot vk0:, vk1:, vk2:
	has     [3]bool
	parents []int
}

// vMayBe: x is a value that slot k of frame i may be found to have: its own
// one, or else one that a parent may be found to have.
func vMayBe(m []*vFrameModel, seen int, i, k int, d *Data) bool {
	if seen&(1<<uint(i)) != 0 {
		return false
	}
	if m[i].has[k] {
		return vIsInt(d, m[i].val[k])
	}
	for _, p := range m[i].parents {
		if vMayBe(m, seen|1<<uint(i), p, k, d) {
			return true
		}
	}
	return false
}

// vHasSlot: slot k is found in frame i or one of its ancestors.
func vHasSlot(m []*vFrameModel, seen int, i, k int) bool {
	if seen&(1<<uint(i)) != 0 {
		return false
	}
	if m[i].has[k] {
		return true
	}
	for _, p := range m[i].parents {
		if vHasSlot(m, seen|1<<uint(i), p, k) {
			return true
		}
	}
	return false
}

var vSlotNames = []string{"vk0:", "vk1:", "vk2:"}
var vParentNames = []string{"p0*:", "p1*:", "p2*:", "p3*:"}
var vGetForms, vHasForms, vSetForms []*Data

func init() {
	for _, n := range vSlotNames {
		vGetForms = append(vGetForms, vParse("("+n+" va0)"))
		vHasForms = append(vHasForms, vParse("("+n+"? va0)"))
		vSetForms = append(vSetForms, vParse("("+n+"! va0 va1)"))
	}
}

// vCheckSlot: reading slot k of frame i agrees with the model in every way of
// reading it.
func vCheckSlot(m []*vFrameModel, f []*Data, i, k int, short bool) {
	key := Intern(vSlotNames[k])
	has := vHasSlot(m, 0, i, k)
	r, err := vCall("get-slot", f[i], key)
	n := vCallOK("get-slot-or-nil", f[i], key)
	vAssert(vIsBool(vCallOK("has-slot?", f[i], key), has), "has-slot? tells whether the frame or an ancestor has the slot")
	if short {
		h, herr := vEvalWith(vHasForms[k], f[i])
		vAssert(herr == nil && vIsBool(h, has), "the ? shortcut agrees with has-slot?")
		g, gerr := vEvalWith(vGetForms[k], f[i])
		vAssert((gerr == nil) == has, "the slot shortcut is an error exactly for a missing slot")
		if has {
			vAssert(vMayBe(m, 0, i, k, g), "the slot shortcut reads the slot")
		}
	}
	if !has {
		vAssert(err != nil, "get-slot of a missing slot is an error")
		vAssert(NilP(n), "get-slot-or-nil of a missing slot is nil")
		vReach("missing")
		return
	}
	vAssert(err == nil && vMayBe(m, 0, i, k, r), "get-slot finds the frame's own slot or that of its nearest ancestor")
	vAssert(vMayBe(m, 0, i, k, n), "get-slot-or-nil finds the frame's own slot or that of its nearest ancestor")
	vReach("found")
}

// Lookup through any parent graph.
//verif:bounds 3 frames (thorough 4) with every set of parent links between them, cycles included; one slot present in any subset of the frames with arbitrary integer values; several parents are searched in any order
//verif:reach found,missing
func VH_P17_lookup() {
	n := 3 + vTier()
	vMapPerm(true)
	var m []*vFrameModel
	var f []*Data
	for i := 0; i < n; i++ {
		m = append(m, &vFrameModel{})
		f = append(f, vCallOK("make-frame"))
	}
	for i := 0; i < n; i++ {
		if vChoice("has", 2) == 1 {
			m[i].has[0], m[i].val[0] = true, vInt64("x")
			vCallOK("set-slot!", f[i], Intern("vk0:"), vI(m[i].val[0]))
		}
		for j := 0; j < n; j++ {
			if i != j && (j > i || j == 0 && i == n-1) && vChoice("link", 2) == 1 {
				m[i].parents = append(m[i].parents, j)
				vCallOK("set-slot!", f[i], Intern(vParentNames[j]), f[j])
			}
		}
	}
	vCheckSlot(m, f, 0, 0, true)
}

// Setting and removing slots affects only the frame itself; a clone starts
// with the same slots and then changes independently.
//verif:bounds three frames: a child of a parent, the parent, and a clone of either made at any point; 2 changes (thorough 3) of any slot or parent link of any frame, arbitrary integer values; every slot of every frame read afterwards
//verif:reach found,missing,cloned
func VH_P17_history() {
	m := []*vFrameModel{{parents: []int{1}}, {}}
	f := []*Data{vCallOK("make-frame"), vCallOK("make-frame")}
	vCallOK("set-slot!", f[0], Intern("p0*:"), f[1])
	set := func(i, k, how int) {
		x := vInt64("x")
		m[i].has[k], m[i].val[k] = true, x
		var r *Data
		var err error
		if how == 0 {
			r, err = vCall("set-slot!", f[i], Intern(vSlotNames[k]), vI(x))
		} else {
			r, err = vEvalWith(vSetForms[k], f[i], vI(x))
		}
		vAssert(err == nil && vIsInt(r, x), "setting a slot gives the value")
	}
	// an arbitrary start: slot 0 anywhere, slot 1 in the parent
	start := vChoice("start", 4)
	if start&1 != 0 {
		set(0, 0, 0)
	}
	if start&2 != 0 {
		set(1, 0, 0)
		set(1, 1, 0)
	}
	for step := 0; step < 2+vTier(); step++ {
		i := vChoice("frame", len(f))
		switch vChoice("op", 5) {
		case 0:
			set(i, vChoice("slot", 2), 0)
		case 1:
			set(i, vChoice("slot", 2), 1)
		case 2:
			k := vChoice("slot", 2)
			had := m[i].has[k]
			m[i].has[k] = false
			vAssert(vIsBool(vCallOK("remove-slot!", f[i], Intern(vSlotNames[k])), had), "remove-slot! tells whether the frame itself had the slot")
		case 3:
			vAssume(len(f) < 3)
			c := vCallOK("clone", f[i])
			vAssert(vIsBool(vCallOK("eqv?", c, f[i]), true), "a clone equals its original")
			copied := *m[i]
			m = append(m, &copied)
			f = append(f, c)
			vReach("cloned")
		case 4:
			vAssume(len(m[i].parents) > 0)
			m[i].parents = nil
			vAssert(vIsBool(vCallOK("remove-slot!", f[i], Intern("p0*:")), true), "removing a parent link")
		}
	}
	for i := range f {
		for k := 0; k < 2; k++ {
			vCheckSlot(m, f, i, k, false)
		}
		keys, ok := vElems(vCallOK("frame-keys", f[i]), 4)
		vAssert(ok, "frame-keys is a list")
		vals, ok := vElems(vCallOK("frame-values", f[i]), 4)
		vAssert(ok && len(vals) == len(keys), "frame-values has one value per key")
		count := 0
		for k := 0; k < 2; k++ {
			if m[i].has[k] {
				count++
				in := false
				for j := range keys {
					if keys[j] == Intern(vSlotNames[k]) {
						in = true
					}
				}
				vAssert(in, "frame-keys has every slot of the frame itself")
				in = false
				for j := range vals {
					in = in || vIsInt(vals[j], m[i].val[k])
				}
				vAssert(in, "frame-values has the value of every slot of the frame itself")
			}
		}
		vAssert(len(keys) == count+len(m[i].parents), "frame-keys has only slots of the frame itself")
	}
}

// make-frame gives a frame with exactly the given slots.
//verif:bounds 0..3 slots, keys possibly repeated, arbitrary integer values, and through the frame literal with names as values
func VH_P17_make() {
	n := vChoice("n", 4)
	m := &vFrameModel{}
	var args []*Data
	for i := 0; i < n; i++ {
		k := vChoice("key", 3)
		x := vInt64("x")
		m.has[k], m.val[k] = true, x
		args = append(args, Intern(vSlotNames[k]), vI(x))
	}
	f := vCallOK("make-frame", args...)
	vAssert(FrameP(f), "make-frame gives a frame")
	g := vCallOK("make-frame", args...)
	for k := 0; k < 3; k++ {
		vCheckSlot([]*vFrameModel{m}, []*Data{f}, 0, k, true)
	}
	vCallOK("set-slot!", g, Intern("vk0:"), vI(vInt64("y")))
	vCheckSlot([]*vFrameModel{m}, []*Data{f}, 0, 0, false)
}

// Wrong kinds and counts of arguments are errors that change nothing.
//verif:bounds every frame function, each argument of a wrong kind
func VH_P17_kinds() {
	f := Copy(vExFrame)
	keep := vClone(f)
	key := Intern("a:")
	var notFrame, notKey *Data
	switch vChoice("nf", 6) {
	case 0:
		notFrame = vI(vInt64("x"))
	case 1:
		notFrame = EmptyCons()
	case 2:
		notFrame = vS("a")
	case 3:
		notFrame = Copy(vExAlist)
	case 4:
		notFrame = key
	case 5:
		notFrame = vExFn
	}
	switch vChoice("nk", 5) {
	case 0:
		notKey = vI(vInt64("y"))
	case 1:
		notKey = EmptyCons()
	case 2:
		notKey = vS("a:")
	case 3:
		notKey = Intern("a")
	case 4:
		notKey = f
	}
	var err error
	switch vChoice("fn", 14) {
	case 0:
		_, err = vCall("get-slot", notFrame, key)
	case 1:
		_, err = vCall("get-slot", f, notKey)
	case 2:
		_, err = vCall("get-slot-or-nil", notFrame, key)
	case 3:
		_, err = vCall("get-slot-or-nil", f, notKey)
	case 4:
		_, err = vCall("has-slot?", notFrame, key)
	case 5:
		_, err = vCall("has-slot?", f, notKey)
	case 6:
		_, err = vCall("set-slot!", notFrame, key, vI(9))
	case 7:
		_, err = vCall("set-slot!", f, notKey, vI(9))
	case 8:
		vAssume(!NilP(notFrame)) // documented: nothing to remove
		_, err = vCall("remove-slot!", notFrame, key)
	case 9:
		_, err = vCall("remove-slot!", f, notKey)
	case 10:
		_, err = vCall([]string{"clone", "frame-keys", "frame-values"}[vChoice("one", 3)], notFrame)
	case 11:
		_, err = vCall("make-frame", key, vI(1), notKey, vI(2))
	case 12:
		_, err = vCall("make-frame", key, vI(1), key)
	case 13:
		_, err = vCall("send", f, notKey)
		vAssert(err != nil, "a selector of the wrong kind is an error")
		_, err = vCall("send", notFrame, key)
	}
	vAssert(err != nil, "an argument of the wrong kind is an error")
	vAssert(vExact(f, keep), "the frame is unchanged")
}

// A parent slot that holds something else than a frame gives no slots.
//verif:bounds six kinds of values in the parent slot
func VH_P17_badparent() {
	bad := []*Data{vI(1), EmptyCons(), vS("a"), Copy(vExAlist), vExFn, Intern("a:")}[vChoice("bad", 6)]
	f := vCallOK("make-frame", Intern("p0*:"), bad, Intern("vk1:"), vI(4))
	m := []*vFrameModel{{}}
	m[0].has[1], m[0].val[1] = true, 4
	vCheckSlot(m, []*Data{f}, 0, 0, true)
	vCheckSlot(m, []*Data{f}, 0, 1, true)
}

// A slot shadows the ones of its ancestors whatever its value is.
//verif:bounds a chain of 3 frames, the slot in any subset of them with values of 9 kinds (nil, false, zero, empty string, empty list, frame, function, symbol, any integer), set by function, literal or from a method
//verif:reach found,missing
func VH_P17_values() {
	vals := []*Data{EmptyCons(), LispFalse, vI(0), vS(""), Copy(vExFrame), vExFn, Intern("vsym"), vI(vInt64("x")), LispTrue}
	var f []*Data
	for i := 0; i < 3; i++ {
		f = append(f, vCallOK("make-frame"))
		if i > 0 {
			vCallOK("set-slot!", f[i-1], Intern("p0*:"), f[i])
		}
	}
	var want *Data
	near := vChoice("near", 4)
	for i := near; i < 3; i++ {
		if i > near {
			if vBool("has") {
				vCallOK("set-slot!", f[i], Intern("vk0:"), vI(vInt64("above")))
			}
			continue
		}
		v := vals[vChoice("value", len(vals))]
		want = v
		switch vChoice("how", 3) {
		case 0:
			vCallOK("set-slot!", f[i], Intern("vk0:"), v)
		case 1:
			_, err := vEvalWith(vSetForms[0], f[i], v)
			vAssert(err == nil, "setting a slot")
		case 2:
			vCallOK("set-slot!", f[i], Intern("vk0:"), vI(99))
			vCallOK("set-slot!", f[i], Intern("vset:"), vMust("(lambda (v) (set! vk0 v))"))
			vCallOK("send", f[i], Intern("vset:"), v)
			vCallOK("remove-slot!", f[i], Intern("vset:"))
		}
	}
	key := Intern("vk0:")
	vAssert(vIsBool(vCallOK("has-slot?", f[0], key), want != nil), "has-slot? tells whether the frame or an ancestor has the slot")
	r, err := vCall("get-slot", f[0], key)
	n := vCallOK("get-slot-or-nil", f[0], key)
	if want == nil {
		vAssert(err != nil && NilP(n), "a missing slot is an error or nil")
		vReach("missing")
		return
	}
	vAssert(err == nil && vSame(r, want) && vSame(n, want), "the nearest slot is found whatever its value")
	g, gerr := vEvalWith(vGetForms[0], f[0])
	vAssert(gerr == nil && vSame(g, want), "the slot shortcut finds the nearest slot whatever its value")
	vReach("found")
}


// Exactly the slots whose names end in a star are parents.
//verif:bounds slot names of 1..4 arbitrary bytes before the colon, holding a frame, another kind of value or a frame with a parent of its own
//verif:reach parent,plain
func VH_P17_names() {
	s := vString("s", 1+vChoice("len", 4))
	parent := s[len(s)-1] == '*'
	x := vInt64("x")
	p := vCallOK("make-frame", Intern("vk0:"), vI(x))
	if vChoice("far", 2) == 1 {
		p = vCallOK("make-frame", Intern("p0*:"), p)
	}
	vAssume(s != "vk0")
	f := vCallOK("make-frame")
	vCallOK("set-slot!", f, SymbolWithName(s+":"), p)
	vAssert(vIsBool(vCallOK("has-slot?", f, Intern("vk0:")), parent), "a slot is inherited exactly through slots whose names end in a star")
	n := vCallOK("get-slot-or-nil", f, Intern("vk0:"))
	_, err := vCall("get-slot", f, Intern("vk0:"))
	vAssert((err == nil) == parent, "get-slot agrees with has-slot?")
	if parent {
		vAssert(vIsInt(n, x), "the inherited value is found")
		vReach("parent")
		return
	}
	vAssert(NilP(n), "nothing is inherited through an ordinary slot")
	vReach("plain")
}
