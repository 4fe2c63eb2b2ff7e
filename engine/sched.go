package main

import (
	"math"
	"fmt"
	"go/types"
)

// ---- vector clocks

type VC []int32

func (v VC) get(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v VC) join(o VC) VC {
	if len(o) > len(v) {
		n := make(VC, len(o))
		copy(n, v)
		v = n
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}

func (v VC) clone() VC { return append(VC(nil), v...) }

func (v VC) inc(i int) VC {
	for len(v) <= i {
		v = append(v, 0)
	}
	v[i]++
	return v
}

type shadowT struct {
	wg    int
	wc    int32
	wpos  string
	rd    VC
	rpos  map[int]string
	ar    VC // atomic reads and writes, per goroutine
	aw    VC
	apos  string
}

// raceAtomic: an atomic access conflicts with plain accesses only.
func (m *Machine) raceAtomic(key any, write bool) {
	g := m.cur
	if g == nil {
		return
	}
	s := m.shadow[key]
	if s == nil {
		s = &shadowT{wg: -1}
		m.shadow[key] = s
	}
	if s.wg >= 0 && s.wg != g.id && s.wc > g.vc.get(s.wg) {
		m.reportRace(g, s.wpos, write, key)
	}
	if write {
		for i, c := range s.rd {
			if i != g.id && c > g.vc.get(i) {
				m.reportRace(g, s.rpos[i], write, key)
			}
		}
	}
	v := &s.ar
	if write {
		v = &s.aw
	}
	for len(*v) <= g.id {
		*v = append(*v, 0)
	}
	(*v)[g.id] = g.vc.get(g.id)
	s.apos = m.accessPos(g)
}

// syncObj is the modelled state of a mutex, waitgroup, once, cond or atomic.
type syncObj struct {
	writer  *Goroutine
	readers map[*Goroutine]int
	waitW   int // goroutines waiting to write (block new readers)
	n       int64
	clk     VC
	rclk    VC
	done    bool
}

func (m *Machine) obj(p *Value) *syncObj {
	if p == nil {
		m.rt("invalid memory address or nil pointer dereference")
	}
	o := m.side[p]
	if o == nil {
		o = &syncObj{}
		m.side[p] = o
	}
	return o
}

func (m *Machine) acquire(g *Goroutine, c VC) {
	if m.race {
		g.vc = g.vc.join(c)
	}
}

func (m *Machine) release(g *Goroutine, c *VC) {
	if m.race {
		*c = c.join(g.vc)
		*c = c.clone()
		g.vc = g.vc.inc(g.id)
	}
}

func (m *Machine) raceAccess(key any, write bool) {
	g := m.cur
	if g == nil || !m.race {
		return
	}
	s := m.shadow[key]
	if s == nil {
		s = &shadowT{wg: -1}
		m.shadow[key] = s
	}
	if s.wg >= 0 && s.wg != g.id && s.wc > g.vc.get(s.wg) {
		m.reportRace(g, s.wpos, write, key)
	}
	for i, c := range s.aw {
		if i != g.id && c > g.vc.get(i) {
			m.reportRace(g, s.apos, write, key)
		}
	}
	if write {
		for i, c := range s.ar {
			if i != g.id && c > g.vc.get(i) {
				m.reportRace(g, s.apos, write, key)
			}
		}
		for i, c := range s.rd {
			if i != g.id && c > g.vc.get(i) {
				m.reportRace(g, s.rpos[i], write, key)
			}
		}
		s.wg = g.id
		s.wc = g.vc.get(g.id)
		s.wpos = m.accessPos(g)
		s.rd = nil
	} else {
		for len(s.rd) <= g.id {
			s.rd = append(s.rd, 0)
		}
		s.rd[g.id] = g.vc.get(g.id)
		if s.rpos == nil {
			s.rpos = map[int]string{}
		}
		s.rpos[g.id] = m.accessPos(g)
	}
}

func (m *Machine) raceDeep(p *Value, write bool) {
	if a, ok := p.r.(*Aggr); ok {
		for i := range a.f {
			m.raceAccess(&a.f[i], write)
			m.raceDeep(&a.f[i], write)
		}
	}
}

func (m *Machine) accessPos(g *Goroutine) string {
	if len(g.stack) == 0 {
		return "?"
	}
	return m.where2(g, 2)
}

func (m *Machine) where2(g *Goroutine, n int) string {
	s := ""
	for i := len(g.stack) - 1; i >= 0 && n > 0; i, n = i-1, n-1 {
		fr := g.stack[i]
		if s != "" {
			s += " < "
		}
		s += shortFn(fr.fi.name)
	}
	return s
}

func (m *Machine) reportRace(g *Goroutine, other string, write bool, key any) {
	if m.stats != nil && m.path != nil {
		kind := "read"
		if write {
			kind = "write"
		}
		a, b := m.accessPos(g), other
		if raceIgnored(a, b) {
			return
		}
		panic(pathEnd{"race", fmt.Sprintf("data race: %s in [%s] unordered with access in [%s]", kind, a, b)})
	}
}

var raceIgnore func(a, b string) bool

func raceIgnored(a, b string) bool { return raceIgnore != nil && raceIgnore(a, b) }

// ---- goroutines

func (m *Machine) newG(name string) *Goroutine {
	g := &Goroutine{id: m.nextG, name: name}
	m.nextG++
	m.gs = append(m.gs, g)
	return g
}

func (m *Machine) doGo(g *Goroutine, fr *Frame, in *Instr) {
	c := in.call
	args := m.evalArgs(fr, c)
	var fi *FuncInfo
	var env []Value
	switch {
	case c.builtin != "":
		panic(engineErr("go builtin"))
	case c.invoke != nil:
		fi, args = m.resolveInvoke(fr, c, args)
	case c.static != nil:
		fi = m.p.Func(c.static)
	default:
		fv := m.get(fr, &c.fn)
		if fv.r == nil {
			m.rt("go of nil func value")
		}
		cl := fv.r.(*Closure)
		fi = m.p.Func(cl.fn)
		env = cl.env
	}
	ng := m.newG(fi.name)
	if m.race {
		ng.vc = g.vc.clone().inc(ng.id)
		g.vc = g.vc.inc(g.id)
		ng.hvc = g.hvc.clone().inc(ng.id)
		g.hvc = g.hvc.inc(g.id)
	}
	m.push(ng, fi, args, env, -1)
}

// schedPoint is called before a synchronisation operation; it may switch to
// another goroutine. Returns true if the current goroutine must yield (the
// operation is retried when it is scheduled again).
func (m *Machine) schedPoint(g *Goroutine, obj any, write bool) bool {
	if !m.conc {
		return false
	}
	conf := m.noteSync(g, obj, write)
	if !conf || g.nested > 0 || m.preempt <= 0 {
		return false
	}
	return m.preemptHere(g)
}

func (m *Machine) preemptHere(g *Goroutine) bool {
	if g.why == "resched" {
		g.why = ""
		return false
	}
	others := m.runnable(g)
	tm := 0
	if m.pending() {
		tm = 1
	}
	if len(others)+tm == 0 {
		return false
	}
	k := m.choose(1 + len(others) + tm)
	if k == 0 {
		return false
	}
	m.preempt--
	g.why = "resched"
	if k <= len(others) {
		m.path.next = others[k-1]
	} else {
		m.advanceClock()
		m.path.next = nil
		// after the clock moved, any of the woken goroutines may run first
		g.why = ""
		return m.schedPoint2(g)
	}
	return true
}

func (m *Machine) schedPoint2(g *Goroutine) bool {
	others := m.runnable(g)
	k := m.choose(1 + len(others))
	if k == 0 {
		return false
	}
	g.why = "resched"
	m.path.next = others[k-1]
	return true
}

func (m *Machine) isReady(g *Goroutine) bool {
	if g.done {
		return false
	}
	if g.timerOnly {
		return g.due
	}
	if g.wait != nil {
		return m.waitReady(g)
	}
	if g.ready != nil {
		return g.ready()
	}
	return true
}

func (m *Machine) runnable(except *Goroutine) []*Goroutine {
	var r []*Goroutine
	for _, g := range m.gs {
		if g != except && m.isReady(g) {
			r = append(r, g)
		}
	}
	return r
}

type timerT struct {
	when   Value
	active bool
	ch     *Chan
	fn     Value
	key    *Value
}


func (m *Machine) intOp(op Op, a, b Value) Value {
	if a.sym() == nil && b.sym() == nil {
		switch op {
		case OAdd:
			return Value{b: a.b + b.b}
		case OSub:
			return Value{b: a.b - b.b}
		}
	}
	return m.fromTerm(m.ctx.Bin(op, m.sig(a, int64TI), m.sig(b, int64TI)), int64TI)
}

// before decides a < b (signed), forking when the order is open.
func (m *Machine) before(a, b Value) bool {
	if a.sym() == nil && b.sym() == nil {
		return int64(a.b) < int64(b.b)
	}
	return m.branch(m.ctx.Bin(OSlt, m.sig(a, int64TI), m.sig(b, int64TI)))
}

func (m *Machine) clockAt(d int64) Value { return m.intOp(OAdd, m.clock, mkInt(d)) }

// whenAfter is the time d from now; now: it has come already.
func (m *Machine) whenAfter(d Value) (when Value, now bool) {
	if !m.before(mkInt(0), d) {
		return m.clock, true
	}
	w := m.intOp(OAdd, m.clock, d)
	if m.before(w, mkInt(0)) {
		return mkInt(math.MaxInt64), false
	}
	return w, false
}

// startTimer starts (or restarts) t to fire after d.
func (m *Machine) startTimer(t *timerT, d Value) {
	when, now := m.whenAfter(d)
	t.when, t.active = when, true
	known := false
	for _, x := range m.timers {
		known = known || x == t
	}
	if !known {
		m.timers = append(m.timers, t)
	}
	if now {
		m.fire(t)
	}
}

// pending: something happens when time passes.
func (m *Machine) pending() bool {
	for _, g := range m.gs {
		if !g.done && g.timerOnly && !g.due {
			return true
		}
	}
	for _, t := range m.timers {
		if t.active {
			return true
		}
	}
	return false
}

// advanceClock moves the clock to the next event. The times may be symbolic:
// which event comes first is decided by the solver, every feasible order on
// its own path.
func (m *Machine) advanceClock() bool {
	var gs []*Goroutine
	var ts []*timerT
	var next Value
	some := false
	see := func(w Value) {
		if !some || m.before(w, next) {
			next = w
		}
		some = true
	}
	for _, g := range m.gs {
		if !g.done && g.timerOnly && !g.due {
			gs = append(gs, g)
			see(g.deadline)
		}
	}
	for _, t := range m.timers {
		if t.active {
			ts = append(ts, t)
			see(t.when)
		}
	}
	if !some {
		return false
	}
	m.clock = next
	for _, g := range gs {
		if !m.before(next, g.deadline) {
			g.due = true
		}
	}
	for _, t := range ts {
		if !m.before(next, t.when) {
			m.fire(t)
		}
	}
	return true
}

func (m *Machine) fire(t *timerT) {
	t.active = false
	if t.ch != nil && len(t.ch.buf) == 0 {
		if p, i := m.partner(nil, t.ch, false); p != nil {
			p.chRes = &chResult{idx: i, val: m.timeValue(), ok: true}
			return
		}
	}
	if t.ch != nil && len(t.ch.buf) < t.ch.cap {
		t.ch.buf = append(t.ch.buf, m.timeValue())
		t.ch.vc = append(t.ch.vc, nil)
		t.ch.hvc = append(t.ch.hvc, nil)
	}
	if t.fn.r != nil {
		cl := t.fn.r.(*Closure)
		ng := m.newG("timer")
		if m.race {
			ng.vc = ng.vc.inc(ng.id)
			ng.hvc = ng.hvc.inc(ng.id)
		}
		m.push(ng, m.p.Func(cl.fn), nil, cl.env, -1)
	}
}

// schedule runs goroutines until main is done.
func (m *Machine) schedule(main *Goroutine) {
	cur := main
	for {
		m.cur = cur
		cur.ready = nil
		cur.deadline2(m)
		m.run(cur, 0)
		if cur.pan != nil && len(cur.stack) == 0 {
			panic(pathEnd{"crash", cur.pan.text()})
		}
		if len(cur.stack) == 0 {
			cur.done = true
			if cur == main {
				return
			}
		}
		if m.path != nil && m.path.next != nil {
			cur = m.path.next
			m.path.next = nil
			continue
		}
		rs := m.runnable(nil)
		for len(rs) == 0 {
			if !m.advanceClock() {
				desc := ""
				for _, g := range m.gs {
					if !g.done {
						desc += fmt.Sprintf(" [g%d %s]", g.id, m.where2(g, 3))
					}
				}
				panic(pathEnd{"deadlock", "all goroutines blocked:" + desc})
			}
			rs = m.runnable(nil)
		}
		if len(rs) == 1 {
			cur = rs[0]
		} else if m.conc {
			cur = rs[m.choose(len(rs))]
		} else {
			// prefer main last-run order
			cur = rs[0]
		}
	}
}

func (g *Goroutine) deadline2(m *Machine) {}

// ---- mutexes

func (m *Machine) lock(g *Goroutine, p *Value) (blocked bool) {
	if m.schedPoint(g, p, true) {
		m.ctlBlock = true
		return true
	}
	o := m.obj(p)
	free := func() bool { return o.writer == nil && len(o.readers) == 0 }
	if !free() {
		if m.canBlock(g, "lock") {
			if !o.hasWaiter(g) {
				o.waitW++
				g.waitObj(o)
			}
			g.ready = free
			m.ctlBlock = true
			return true
		}
	}
	if o.hasWaiter(g) {
		o.waitW--
		o.dropWaiter(g)
	}
	o.writer = g
	m.acquire(g, o.clk)
	m.acquire(g, o.rclk)
	return false
}

func (m *Machine) tryLock(g *Goroutine, p *Value) bool {
	o := m.obj(p)
	if o.writer != nil || len(o.readers) > 0 {
		return false
	}
	o.writer = g
	m.acquire(g, o.clk)
	m.acquire(g, o.rclk)
	return true
}

var waiters = struct{}{}

func (g *Goroutine) waitObj(o *syncObj) {
	if o.readers == nil {
		o.readers = map[*Goroutine]int{}
	}
	o.waiting(g, true)
}

func (o *syncObj) waiting(g *Goroutine, on bool) {
	if on {
		g.waitingOn = o
	} else {
		g.waitingOn = nil
	}
}
func (o *syncObj) hasWaiter(g *Goroutine) bool { return g.waitingOn == o }
func (o *syncObj) dropWaiter(g *Goroutine)     { g.waitingOn = nil }

func (m *Machine) canBlock(g *Goroutine, what string) bool {
	if g.nested > 0 {
		panic(pathEnd{"unsupported", "blocking " + what + " inside a nested call at " + m.where(g)})
	}
	return true
}

func (m *Machine) unlock(g *Goroutine, p *Value) {
	o := m.obj(p)
	if o.writer == nil {
		panic(pathEnd{"crash", "fatal error: sync: unlock of unlocked mutex at " + m.where(g)})
	}
	o.writer = nil
	m.release(g, &o.clk)
}

func (m *Machine) rlock(g *Goroutine, p *Value) bool {
	if m.schedPoint(g, p, false) {
		m.ctlBlock = true
		return true
	}
	o := m.obj(p)
	free := func() bool { return o.writer == nil && o.waitW == 0 }
	if !free() {
		m.canBlock(g, "rlock")
		g.ready = free
		m.ctlBlock = true
		return true
	}
	if o.readers == nil {
		o.readers = map[*Goroutine]int{}
	}
	o.readers[g]++
	m.acquire(g, o.clk)
	return false
}

func (m *Machine) runlock(g *Goroutine, p *Value) {
	o := m.obj(p)
	n := 0
	for _, c := range o.readers {
		n += c
	}
	if n == 0 {
		panic(pathEnd{"crash", "fatal error: sync: RUnlock of unlocked RWMutex at " + m.where(g)})
	}
	if o.readers[g] > 0 {
		o.readers[g]--
		if o.readers[g] == 0 {
			delete(o.readers, g)
		}
	} else {
		for k := range o.readers {
			o.readers[k]--
			if o.readers[k] == 0 {
				delete(o.readers, k)
			}
			break
		}
	}
	m.release(g, &o.rclk)
}

// ---- channels

type waitCase struct {
	ch   *Chan
	send bool
	val  Value
	vc   VC
}

type waiter struct{}

func (m *Machine) waitReady(g *Goroutine) bool {
	for i := range g.wait {
		if m.caseReady(g, &g.wait[i]) {
			return true
		}
	}
	return false
}

// partner finds the goroutine that has been blocked longest offering the
// opposite operation.
func (m *Machine) partner(g *Goroutine, ch *Chan, wantSend bool) (*Goroutine, int) {
	var best *Goroutine
	bi := -1
	for _, o := range m.gs {
		if o == g || o.done || o.wait == nil || o.chRes != nil || best != nil && best.waitSeq < o.waitSeq {
			continue
		}
		for i := range o.wait {
			if o.wait[i].ch == ch && o.wait[i].send == wantSend {
				best, bi = o, i
				break
			}
		}
	}
	return best, bi
}

func (m *Machine) caseReady(g *Goroutine, w *waitCase) bool {
	if g.chRes != nil {
		return true
	}
	ch := w.ch
	if ch == nil {
		return false
	}
	if w.send {
		if ch.closed || len(ch.buf) < ch.cap {
			return true
		}
		p, _ := m.partner(g, ch, false)
		return p != nil && ch.cap == 0
	}
	if len(ch.buf) > 0 || ch.closed {
		return true
	}
	p, _ := m.partner(g, ch, true)
	return p != nil
}

type chResult struct {
	idx int
	val Value
	ok  bool
}

// perform executes a ready case.
func (m *Machine) perform(g *Goroutine, w *waitCase) (Value, bool) {
	ch := w.ch
	if w.send {
		if ch.closed {
			m.rt("send on closed channel")
		}
		if p, i := m.partner(g, ch, false); p != nil && len(ch.buf) == 0 {
			p.chRes = &chResult{idx: i, val: w.val, ok: true}
			m.acquire(p, g.vc)
			p.hvc = p.hvc.join(g.hvc)
			if ch.cap == 0 {
				pv := p.vc.clone()
				m.acquire(g, pv)
			}
			m.bump(g)
			m.bump(p)
			return Value{}, true
		}
		ch.buf = append(ch.buf, w.val)
		if m.race {
			ch.vc = append(ch.vc, g.vc.clone())
			ch.hvc = append(ch.hvc, g.hvc.clone())
			m.acquire(g, ch.clk)
			m.bump(g)
		}
		return Value{}, true
	}
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		if m.race {
			if len(ch.vc) > 0 {
				m.acquire(g, ch.vc[0])
				ch.vc = ch.vc[1:]
			}
			if len(ch.hvc) > 0 {
				g.hvc = g.hvc.join(ch.hvc[0])
				ch.hvc = ch.hvc[1:]
			}
			ch.clk = ch.clk.join(g.vc)
			m.bump(g)
		}
		if p, i := m.partner(g, ch, true); p != nil {
			ch.buf = append(ch.buf, p.wait[i].val)
			if m.race {
				ch.vc = append(ch.vc, p.vc.clone())
				ch.hvc = append(ch.hvc, p.hvc.clone())
				p.hvc = p.hvc.inc(p.id)
			}
			p.chRes = &chResult{idx: i, ok: true}
		}
		return v, true
	}
	if p, i := m.partner(g, ch, true); p != nil {
		v := p.wait[i].val
		p.chRes = &chResult{idx: i, ok: true}
		pv := p.vc.clone()
		m.acquire(p, g.vc)
		m.acquire(g, pv)
		g.hvc = g.hvc.join(p.hvc)
		m.bump(g)
		m.bump(p)
		return v, true
	}
	if ch.closed {
		m.acquire(g, ch.clk)
		return Value{}, false
	}
	panic(engineErr("perform: not ready"))
}

func (m *Machine) bump(g *Goroutine) {
	if m.race {
		g.hvc = g.hvc.inc(g.id)
		g.vc = g.vc.inc(g.id)
	}
}

func (m *Machine) chanClose(g *Goroutine, ch *Chan) {
	if ch.closed {
		m.rt("close of closed channel")
	}
	ch.closed = true
	if m.race {
		ch.clk = ch.clk.join(g.vc)
		m.bump(g)
	}
}

// chanOp executes send/recv/select. Returns true if blocked (pc rewound).
func (m *Machine) chanOp(g *Goroutine, fr *Frame, in *Instr) bool {
	var cases []waitCase
	blocking := true
	switch in.op {
	case iSend:
		c, _ := m.get(fr, &in.a).r.(*Chan)
		cases = []waitCase{{ch: c, send: true, val: copyVal(m.get(fr, &in.b))}}
	case iRecv:
		c, _ := m.get(fr, &in.a).r.(*Chan)
		cases = []waitCase{{ch: c}}
	case iSelect:
		blocking = in.flag
		for i := range in.sel {
			s := &in.sel[i]
			c, _ := m.get(fr, &s.ch).r.(*Chan)
			w := waitCase{ch: c, send: s.dir == types.SendOnly}
			if w.send {
				w.val = copyVal(m.get(fr, &s.send))
			}
			cases = append(cases, w)
		}
	}
	if g.chRes == nil && g.wait == nil && m.conc {
		conf := false
		for i := range cases {
			if c := cases[i].ch; c != nil {
				if m.noteSync(g, c, true) || c.nt {
					conf = true
				}
			}
		}
		if conf && g.nested == 0 && m.preempt > 0 && m.preemptHere(g) {
			fr.pc--
			return true
		}
	}
	finish := func(idx int, v Value, ok bool) {
		g.wait = nil
		g.chRes = nil
		switch in.op {
		case iRecv:
			if !ok && v.r == nil && v.b == 0 {
				v = m.zero(in.t)
			}
			if in.flag {
				fr.regs[in.dst] = Value{r: &Aggr{f: []Value{v, mkBool(ok)}}}
			} else {
				fr.regs[in.dst] = v
			}
		case iSelect:
			tt := in.t.(*types.Tuple)
			a := &Aggr{f: []Value{mkInt(int64(idx)), mkBool(ok)}}
			k := 2
			for i := range in.sel {
				if in.sel[i].dir == types.RecvOnly {
					if i == idx && ok {
						a.f = append(a.f, v)
					} else {
						a.f = append(a.f, m.zero(tt.At(k).Type()))
					}
					k++
				}
			}
			fr.regs[in.dst] = Value{r: a}
		}
	}
	if g.chRes != nil {
		r := g.chRes
		ok := r.ok
		if in.op == iSelect && in.sel[r.idx].dir == types.SendOnly {
			ok = false
		}
		finish(r.idx, r.val, ok)
		return false
	}
	var rdy []int
	for i := range cases {
		if m.caseReady(g, &cases[i]) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) == 0 {
		if !blocking {
			finish(-1, Value{}, false)
			return false
		}
		m.canBlock(g, "channel operation")
		g.wait = cases
		m.waitSeq++
		g.waitSeq = m.waitSeq
		fr.pc--
		return true
	}
	k := 0
	if len(rdy) > 1 {
		k = m.choose(len(rdy))
	}
	g.wait = nil
	i := rdy[k]
	v, ok := m.perform(g, &cases[i])
	if in.op == iSelect && cases[i].send {
		ok = false
	}
	finish(i, v, ok)
	return false
}
