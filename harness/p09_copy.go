package golisp

// A copy equals the original, in the same order, and changing either one in
// place is not visible through the other.
//verif:bounds values nested to depth 2 (lists, dotted lists, association lists, frames of 1..2 elements; atoms of 7 kinds at depth 1, integers below), every mutable node of either value, two mutations per node kind
//verif:reach equal,mutated
func VH_P09_copy() {
	var v *Data
	if vChoice("size", 2) == 0 {
		v = vGen("v", 1, 7, 7, 2)
	} else {
		v = vGen("v", 2, 1, 1, 2)
	}
	before := vClone(v)
	c := vCallOK("copy", v)
	vAssert(vExact(v, before), "copy leaves its argument unchanged")
	vAssert(vExact(c, before), "a copy has the same contents in the same order")
	vAssert(vTrue(vCallOK("equal?", v, c)), "a copy equals the original")
	vReach("equal")
	x, y := c, v
	if vChoice("side", 2) == 1 {
		x, y = v, c
	}
	nodes := vMutable(x, nil)
	if len(nodes) == 0 {
		return
	}
	vMutate(nodes[vChoice("node", len(nodes))], vChoice("how", 2))
	vAssert(vExact(y, before), "changing one of a value and its copy does not change the other")
	vReach("mutated")
}

// A history of several changes on both sides.
//verif:bounds lists of 2 integers and a frame of 2 slots, every sequence of 2 (thorough 3) changes on either side
//verif:reach done
func VH_P09_history() {
	inner := vCallOK("make-frame", vSlotN(0), vI(vInt64("x")), vSlotN(1), vI(vInt64("x")))
	b, _ := vBytes("b", 2)
	v := vList(vList(vI(vInt64("x")), vI(vInt64("x"))), inner, b)
	c := vCallOK("copy", v)
	av, ac := vClone(v), vClone(c)
	vAssert(vExact(av, ac), "a copy equals its original")
	for i := 0; i < 2+vTier(); i++ {
		tgt := v
		if vChoice("side", 2) == 1 {
			tgt = c
		}
		nodes := vMutable(tgt, nil)
		vMutate(nodes[vChoice("node", len(nodes))], vChoice("how", 2))
		if tgt == v {
			av = vClone(v)
		} else {
			ac = vClone(c)
		}
		vAssert(vExact(v, av) && vExact(c, ac), "changes stay on their own side")
	}
	vReach("done")
}
