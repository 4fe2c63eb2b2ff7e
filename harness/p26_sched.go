package golisp

import "sync"

// (vstamp) notes the time of its call.
var vStampMutex sync.Mutex
var vStampTimes []int64

func vStampImpl(args *Data, env *SymbolTableFrame) (*Data, error) {
	now := vClock()
	vStampMutex.Lock()
	vStampTimes = append(vStampTimes, now)
	vStampMutex.Unlock()
	return vI(0), nil
}

func vStamps() []int64 {
	vStampMutex.Lock()
	defer vStampMutex.Unlock()
	return vStampTimes
}

var vSchedBody, vSleepBody *Data

func init() {
	MakePrimitiveFunction("vstamp", "0", vStampImpl)
	vSchedBody = vParse("(lambda (p x) (vstamp) (+ x 1))")
	vSleepBody = vParse("(lambda (p d) (vstamp) (let ((v (proc-sleep p d))) (vstamp) v))")
}

const vMs = 1000000

func vSleep(ms int64) {
	_, err := vcCall("sleep", vI(ms))
	vAssert(err == nil, "sleep")
}

// A scheduled process runs once, after its delay, with its arguments.
//
//verif:bounds any delay from -2 to 40 ms, any integer argument, optionally woken or scheduled next to another process with its own delay; every interleaving with up to 2 preemptions and every moment the time may pass
//verif:reach end,order
//verif:conc x
func VH_P26_once() {
	d := vInt("d", -2, 40)
	x := vInt64("x")
	how := vChoice("how", 3)
	d2 := int64(0)
	if how == 2 {
		d2 = vInt("d2", -2, 40)
	}
	vForking(2)
	body := vcEvalOK(vSchedBody)
	start := vClock()
	p := vcCallOK("schedule", vI(d), body, vI(x))
	var q *Data
	switch how {
	case 1:
		vcCallOK("wake", p)
	case 2:
		q = vcCallOK("schedule", vI(d2), vcMust("(lambda (p) 7)"))
	}
	r := vcCallOK("join", p)
	vAssert(vIsInt(r, x+1), "joining a scheduled process gives its value")
	st := vStamps()
	vAssert(len(st) == 1, "a scheduled process runs once")
	vAssert(st[0] >= start+d*vMs, "a scheduled process does not run before its delay has passed")
	if how == 2 {
		vAssert(vIsInt(vcCallOK("join", q), 7), "joining a scheduled process gives its value")
		vAssert(vClock() >= start+d2*vMs, "a scheduled process does not run before its delay has passed")
		vReach("order")
	}
	_, err := vcCall("join", p)
	vAssert(err != nil, "a process can be joined only once")
	vReach("end")
}

// Abandoning, resetting and waking a scheduled process at any time.
//
//verif:bounds any delay from 0 to 40 ms, up to 2 operations out of abandon, reset-timeout and wake, each after sleeping for any 0 to 40 ms; every interleaving with up to 1 preemption and every moment the time may pass
//verif:reach end,abandoned,ran,reset
//verif:conc x
func VH_P26_history() {
	d := vInt("d", 0, 40)
	n := 2
	var ops [2]int
	var ts [2]int64
	for i := 0; i < n; i++ {
		ops[i] = vChoice("op", 4)
		if ops[i] < 3 {
			ts[i] = vInt("t", 0, 40)
		}
	}
	vAssume(!(ops[0] == 3 && ops[1] != 3))
	vForking(1)
	body := vcEvalOK(vSchedBody)
	start := vClock()
	p := vcCallOK("schedule", vI(d), body, vI(1))
	earliest := start + d*vMs // the body does not run before
	never := false
	abandoned := false
	for i := 0; i < n; i++ {
		if ops[i] == 3 {
			continue
		}
		vSleep(ts[i])
		before := vClock()
		switch ops[i] {
		case 0:
			_, err := vcCall("abandon", p)
			vAssert(err == nil, "abandoning a scheduled process is no error")
			abandoned = true
			if vTake(vClock() < earliest) {
				never = true
			}
		case 1:
			_, err := vcCall("reset-timeout", p)
			vAssert(err == nil, "resetting a scheduled process is no error")
			if vTake(vClock() < earliest) {
				vReach("reset")
				earliest = before + d*vMs
			}
		case 2:
			vcCallOK("wake", p)
		}
	}
	r := vcCallOK("join", p)
	st := vStamps()
	vAssert(len(st) <= 1, "a scheduled process runs at most once")
	if never {
		vAssert(len(st) == 0, "a process abandoned before its delay has passed does not run")
		vReach("abandoned")
	}
	if !abandoned {
		vAssert(len(st) == 1, "a scheduled process runs unless abandoned")
	}
	if len(st) == 1 {
		vAssert(st[0] >= earliest, "a scheduled process does not run before its delay has passed")
		vAssert(vIsInt(r, 2), "joining gives the value")
		vReach("ran")
	} else {
		vAssert(NilP(r), "joining an abandoned process gives nil")
	}
	vReach("end")
}

// vDelay is a number of milliseconds: negative, up to 63 years, the largest
// that fit a duration, or larger.
func vDelay(name string) int64 {
	switch vChoice(name+"size", 4) {
	case 0:
		return vInt(name, 0, 2000000000000)
	case 1:
		return vInt(name, -9223372036854775808, 0)
	case 2:
		return 9223372036853 + int64(vChoice(name+"edge", 4))
	}
	return vInt(name, 9223372036856, 9223372036854775807)
}

// Without anybody else using the processor, times are exact.
//
//verif:bounds delays from 0 to 2*10^12 ms, all negative ones, those around the longest duration and all longer ones, one operation out of abandon, reset-timeout, wake, or none after sleeping for any 0 to 1000 ms, then waiting for any 0 to 3000 ms; no preemption
//verif:reach end,ran,abandoned,reset
//verif:conc x
//verif:nonative real time is not exact
func VH_P26_exact() {
	d := vDelay("d")
	t := vInt("t", 0, 1000)
	w := vInt("w", 0, 3000)
	op := vChoice("op", 4)
	// what happens at the same moment may happen in any order
	vAssume(d != t && d != t+w && t > 0 && w > 0)
	if op == 1 {
		vAssume(d != w)
	}
	vForking(0)
	body := vcEvalOK(vSchedBody)
	p := vcCallOK("schedule", vI(d), body, vI(1))
	vSleep(t)
	vAssert((len(vStamps()) == 1) == (d < t), "a scheduled process runs when its delay has passed")
	switch op {
	case 0:
		vcCallOK("abandon", p)
	case 1:
		vcCallOK("reset-timeout", p)
	case 2:
		vcCallOK("wake", p)
	}
	vSleep(w)
	st := vStamps()
	if d < t {
		vAssert(len(st) == 1, "a scheduled process runs once")
		if vTake(d > 0) {
			vAssert(st[0] == d*vMs, "a scheduled process runs when its delay has passed")
		}
		vReach("ran")
	} else {
		switch op {
		case 0:
			vAssert(len(st) == 0, "an abandoned process does not run")
			vReach("abandoned")
		case 1:
			vAssert((len(st) == 1) == (d < w), "resetting the timeout restarts the delay")
			if len(st) == 1 {
				vAssert(st[0] == (t+d)*vMs, "resetting the timeout restarts the delay")
				vReach("reset")
			}
		default:
			vAssert((len(st) == 1) == (d < t+w), "a scheduled process runs when its delay has passed")
			if len(st) == 1 {
				vAssert(st[0] == d*vMs, "a scheduled process runs when its delay has passed")
			}
		}
	}
	vReach("end")
}

// Sleeping and waking.
//
//verif:bounds a process sleeping for any 0 to 40 ms, woken after any 0 to 40 ms, possibly twice; every interleaving with up to 2 preemptions and every moment the time may pass
//verif:reach end,woken,slept
//verif:conc x
func VH_P26_sleep() {
	d := vInt("d", 0, 40)
	t := vInt("t", 0, 40)
	twice := vChoice("wakes", 3)
	vForking(2)
	body := vcEvalOK(vSleepBody)
	p := vcCallOK("fork", body, vI(d))
	vSleep(t)
	before := vClock()
	for i := 0; i < twice; i++ {
		vcCallOK("wake", p)
	}
	r := vcCallOK("join", p)
	st := vStamps()
	vAssert(len(st) == 2, "a sleeping process resumes once")
	if vTake(vIsBool(r, true)) {
		vAssert(twice > 0, "a process that is not woken sleeps")
		vAssert(st[1] >= before, "a process is woken when it is woken")
		vReach("woken")
	} else {
		vAssert(vIsBool(r, false), "proc-sleep reports whether it was woken")
		vAssert(st[1] >= st[0]+d*vMs, "a process that is not woken sleeps for its time")
		vReach("slept")
	}
	vReach("end")
}

// Without anybody else using the processor, a sleeping process resumes when
// it is woken or when its time has passed, whichever comes first.
//
//verif:bounds a process sleeping for any time from 1 to 2*10^12 ms, around the longest duration, or longer, woken after any 0 to 1000 ms; or woken before it sleeps
//verif:reach end,woken,slept,early
//verif:conc x
//verif:nonative real time is not exact
func VH_P26_sleepexact() {
	d := vDelay("d")
	t := vInt("t", 1, 1000)
	early := vChoice("early", 2) == 1
	vAssume(d != t && d > 0)
	vForking(0)
	if early {
		// the process is woken while it does something else
		p := vcCallOK("fork", vcMust("(lambda (p d v) (sleep v) (vstamp) (let ((r (proc-sleep p d))) (vstamp) (cons r (proc-sleep p 1))))"), vI(d), vI(t))
		vcCallOK("wake", p)
		r := vcCallOK("join", p)
		vAssert(vIsBool(Car(r), true) && vIsBool(Cdr(r), false), "a process woken before it sleeps does not sleep, once")
		st := vStamps()
		vAssert(st[0] == t*vMs && st[1] == t*vMs, "a process woken before it sleeps does not sleep")
		vReach("early")
		return
	}
	p := vcCallOK("fork", vcEvalOK(vSleepBody), vI(d))
	vSleep(t)
	vcCallOK("wake", p)
	r := vcCallOK("join", p)
	st := vStamps()
	vAssert(vIsBool(r, t < d), "a process is woken when it is woken before its time has passed")
	if t < d {
		vAssert(st[1] == t*vMs, "a woken process resumes at once")
		vReach("woken")
	} else {
		vAssert(st[1] == d*vMs, "a sleeping process resumes when its time has passed")
		vReach("slept")
	}
	vReach("end")
}

// Operations on processes that are not scheduled, and on other values.
//
//verif:bounds wake, abandon, reset-timeout, proc-sleep, join and schedule on every kind of value
//verif:reach end,forked
func VH_P26_errors() {
	k := vChoice("op", 5)
	v := vProcArg("v")
	isProc := ObjectP(v) && ObjectType(v) == "Process"
	var err error
	switch k {
	case 0:
		_, err = vcCall("wake", v)
		vAssert((err == nil) == isProc, "wake needs a process")
	case 1:
		_, err = vcCall("abandon", v)
		vAssert(err != nil, "only scheduled processes can be abandoned")
	case 2:
		_, err = vcCall("reset-timeout", v)
		vAssert(err != nil, "only scheduled processes can be reset")
	case 3:
		_, err = vcCall("join", v)
		vAssert((err == nil) == isProc, "join needs a process")
	case 4:
		_, err = vcCall("schedule", v, vcMust("(lambda (p) 1)"))
		vAssert((err == nil) == IntegerP(v), "schedule needs an integer delay")
	}
	if isProc {
		vReach("forked")
	}
	vReach("end")
}

func vProcArg(name string) *Data {
	switch vChoice(name, 9) {
	case 0:
		return vI(vInt(name+"i", 0, 3))
	case 1:
		return nil
	case 2:
		return vMust("(fork (lambda (p) 1))")
	case 3:
		return vMust("(make-channel)")
	case 4:
		return vMust("(atomic 1)")
	case 5:
		return StringWithValue("5")
	case 6:
		return FloatWithValue(1.5)
	case 7:
		return vMust("(lambda (p) 1)")
	}
	return vList(vI(1))
}
