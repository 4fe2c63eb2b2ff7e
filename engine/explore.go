package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Path is the state of one symbolic execution path.
type Path struct {
	gen, wgen int
	confKey   string
	conf      map[string]bool
	newConf   map[string]bool
	acc       map[any]*syncAcc
	accN      map[int]int
	h        *Harness
	prefix   []int32
	pos      int
	taken    []int32
	pc       []*Term
	pcIDs    map[int32]bool // term id -> value
	model    Model
	seed     map[string]uint64
	ev       *Evaluator
	noModel  bool
	inputs   []Input
	names    map[string]int
	asserts  int
	reached  map[string]bool
	next     *Goroutine
	candidates []Candidate
	notes    []string
	kf       []string
	forks    int
	dom      map[int32]*domain // variables with few values
}

// traceSlow reports slow branch decisions.
var traceSlow = os.Getenv("VERIF_SLOW") != ""

// domain is the set of values a variable with few values can still take as
// far as the constraints on it alone go.
type domain struct {
	mask  bitset
	mixed bool // it also occurs in constraints together with other variables
}

// smallVar makes a variable with values 0..n-1, n at most 256.
func (m *Machine) smallVar(name string, n int) *Term {
	c := m.ctx
	v := c.Var(fmt.Sprintf("%s~s%d", name, n), 8)
	if n < 256 {
		m.assume(c.Bin(OUlt, v, c.Const(8, uint64(n))))
	}
	return v
}

// domain gives the domain of a variable, nil if it has too many values.
func (p *Path) domain(v *Term) *domain {
	id := int32(v.k)
	if d, ok := p.dom[id]; ok {
		return d
	}
	_, n := v.domain()
	if n == 0 {
		return nil
	}
	d := &domain{}
	for i := 0; i < n; i++ {
		d.mask[i>>6] |= 1 << (i & 63)
	}
	if p.dom == nil {
		p.dom = map[int32]*domain{}
	}
	p.dom[id] = d
	return d
}

// domainOf gives the values of the only variable of t, one with few values,
// for which t holds; nil if t is not of that form.
func (m *Machine) domainOf(t *Term) (d *domain, v *Term, r bitset) {
	vs := t.Vars()
	if len(vs) != 1 {
		return
	}
	v = m.ctx.vars[vs[0]]
	d = m.path.domain(v)
	if d == nil {
		return
	}
	if t.truth == nil {
		t.truth = new(bitset)
		lo, n := v.domain()
		for i := 0; i < n; i++ {
			if NewEval(Model{vs[0]: uint64(lo + int64(i))}).Eval(t) != 0 {
				t.truth[i>>6] |= 1 << (i & 63)
			}
		}
	}
	for i := range r {
		r[i] = d.mask[i] & t.truth[i]
	}
	return
}

type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
	t    *Term
	ts   []*Term
	conc string
}

type Candidate struct {
	Harness string  `json:"harness"`
	Kind    string  `json:"kind"` // assert crash hang race deadlock
	Msg     string  `json:"msg"`
	Inputs  []Input `json:"inputs"`
	Sched   []int32 `json:"schedule,omitempty"`
	Prefix  []int32 `json:"prefix,omitempty"`
	KF      []string `json:"kf,omitempty"`
}

type Harness struct {
	Name    string
	Prop    string
	Fn      *ssa.Function
	Doc     string
	Bounds  string
	Tier    string // quick or thorough
	Budget  int64
	Secs    int
	ExpectReach []string
	Hang    bool // budget exhaustion is a violation candidate
	Opts    map[string]string
}

type work struct {
	prefix []int32
	model  map[string]uint64
	gen    int // generation of the conflict set inside a concurrent section; 0 before it
}

// confSet is the set of synchronisation objects on which different goroutines
// perform conflicting operations, for one case (the decisions before
// vConcurrent). Preemption is explored before operations on these objects
// only. Every explored path checks that no other object had conflicting
// operations; if one had, it is added and the case is explored again.
type confSet struct {
	gen    int
	set    map[string]bool
	prefix []int32
	model  map[string]uint64
}

type syncAcc struct {
	name   string
	rd, wr VC // when each goroutine last operated on the object
}

// enterConc starts the concurrent section of the path.
func (m *Machine) enterConc() {
	p := m.path
	if p == nil || p.gen != 0 {
		return
	}
	key := make([]byte, 0, 4*len(p.taken))
	for _, d := range p.taken {
		key = append(key, byte(d), byte(d>>8), byte(d>>16), byte(d>>24))
	}
	p.confKey = string(key)
	e := m.exp
	e.mu.Lock()
	defer e.mu.Unlock()
	cs := e.conf[p.confKey]
	if cs == nil {
		cs = &confSet{gen: 1, set: map[string]bool{}, prefix: append([]int32(nil), p.taken...)}
		if !p.noModel {
			cs.model = m.exportModel(nil)
		}
		e.conf[p.confKey] = cs
	}
	if p.wgen != 0 && p.wgen != cs.gen {
		panic(pathEnd{"stale", ""})
	}
	p.gen = cs.gen
	p.conf = cs.set
	p.acc = map[any]*syncAcc{}
	p.accN = map[int]int{}
}

// leaveConc records the conflicts the path met.
func (m *Machine) leaveConc(p *Path) {
	if len(p.newConf) == 0 {
		return
	}
	e := m.exp
	e.mu.Lock()
	defer e.mu.Unlock()
	cs := e.conf[p.confKey]
	n := map[string]bool{}
	for k := range cs.set {
		n[k] = true
	}
	grew := false
	for k := range p.newConf {
		if !n[k] {
			n[k] = true
			grew = true
		}
	}
	if !grew || e.stop {
		return
	}
	cs.set = n
	cs.gen++
	e.queue = append(e.queue, work{cs.prefix, cs.model, 0})
	e.cond.Signal()
}

// noteSync records that g is about to operate on a synchronisation object and
// tells whether preemption before the operation must be explored.
func (m *Machine) noteSync(g *Goroutine, obj any, write bool) bool {
	p := m.path
	if p == nil || p.acc == nil {
		return m.conc
	}
	a := p.acc[obj]
	if a == nil {
		a = &syncAcc{name: fmt.Sprintf("g%d.%d", g.id, p.accN[g.id])}
		p.accN[g.id]++
		p.acc[obj] = a
	}
	clash := false
	for i, c := range a.wr {
		clash = clash || i != g.id && c > g.hvc.get(i)
	}
	if write {
		for i, c := range a.rd {
			clash = clash || i != g.id && c > g.hvc.get(i)
		}
	}
	v := &a.rd
	if write {
		v = &a.wr
	}
	for len(*v) <= g.id {
		*v = append(*v, 0)
	}
	(*v)[g.id] = g.hvc.get(g.id)
	if clash && !p.conf[a.name] {
		if p.newConf == nil {
			p.newConf = map[string]bool{}
		}
		p.newConf[a.name] = true
		if os.Getenv("VDBG") != "" {
			fmt.Println("CONF", a.name, m.where2(g, 6))
		}
	}
	return p.conf[a.name]
}

type RunStats struct {
	mu        sync.Mutex
	Paths     int
	PathsDone int
	Assume    int
	Crash     int
	Hang      int
	Unsup     int
	Incon     int
	Asserts   int
	AssertQ   int
	Unknown   int
	Domain    int
	Steps     int64
	Solver    SolverStats
	Reached   map[string]int
	Fns       map[string]bool
	UnsupMsgs map[string]int
	Cands     []Candidate
	TimedOut  bool
	Dropped   int
	Samples   []string
	SampleC   []Candidate
	Pruned    int
	MaxForks  int
}

func newStats() *RunStats {
	return &RunStats{Reached: map[string]int{}, Fns: map[string]bool{}, UnsupMsgs: map[string]int{}}
}

// ---- path-level operations

func (m *Machine) mark(t *Term) {
	p := m.path
	p.pcIDs[t.id] = true
	switch t.op {
	case OAnd:
		m.mark(t.a)
		m.mark(t.b)
	case ONot:
		p.pcIDs[t.a.id] = false
		if t.a.op == OOr {
			m.mark(m.ctx.Not(t.a.a))
			m.mark(m.ctx.Not(t.a.b))
		}
	}
}

func (m *Machine) assumeTrue(t *Term) {
	p := m.path
	if t.isConst() {
		if t.k == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if v, ok := m.known(t); ok && v {
		return
	}
	m.mark(t)
	m.addPC(p, t)
}

func (m *Machine) addPC(p *Path, t *Term) {
	if t.op == OAnd {
		m.addPC(p, t.a)
		m.addPC(p, t.b)
		return
	}
	p.pc = append(p.pc, t)
	if d, _, r := m.domainOf(t); d != nil {
		d.mask = r
	} else if vs := t.Vars(); len(vs) > 1 {
		for _, v := range vs {
			if d := p.domain(m.ctx.vars[v]); d != nil {
				d.mixed = true
			}
		}
	}
}

func (m *Machine) known(t *Term) (bool, bool) {
	p := m.path
	if v, ok := p.pcIDs[t.id]; ok {
		return v, true
	}
	if t.op == ONot {
		if v, ok := p.pcIDs[t.a.id]; ok {
			return !v, true
		}
	}
	return false, false
}

// slice returns the path-condition conjuncts relevant to t.
func (m *Machine) slicePC(t *Term) []*Term {
	vars := map[int32]bool{}
	for _, v := range t.Vars() {
		vars[v] = true
	}
	out := []*Term{t}
	used := make([]bool, len(m.path.pc))
	for {
		changed := false
		for i, c := range m.path.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.Vars() {
				if vars[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, c)
				for _, v := range c.Vars() {
					vars[v] = true
				}
			}
		}
		if !changed {
			break
		}
	}
	return out
}

func (m *Machine) evalT(t *Term) (uint64, bool) {
	p := m.path
	if p.noModel {
		return 0, false
	}
	// seed values for variables that became known
	for _, v := range t.Vars() {
		if _, ok := p.model[v]; !ok {
			if x, ok := p.seed[m.ctx.vars[v].name]; ok {
				p.model[v] = x
				p.ev = nil
			}
		}
	}
	if p.ev == nil {
		p.ev = NewEval(p.model)
	}
	return p.ev.Eval(t), true
}

func (m *Machine) setModel(nm Model) {
	p := m.path
	for k, v := range nm {
		p.model[k] = v
	}
	p.ev = nil
}

// ensureModel makes sure the path has a model of its condition.
func (m *Machine) ensureModel() {
	p := m.path
	if !p.noModel {
		return
	}
	r, nm := m.solver.Check(p.pc)
	switch r {
	case Sat:
		p.noModel = false
		p.model = Model{}
		p.seed = nil
		m.setModel(nm)
	case Unsat:
		panic(pathEnd{"assume", ""})
	default:
		panic(pathEnd{"inconclusive", "solver unknown on path condition"})
	}
}

func (m *Machine) exportModel(over Model) map[string]uint64 {
	p := m.path
	out := map[string]uint64{}
	for k, v := range p.seed {
		out[k] = v
	}
	for k, v := range p.model {
		out[m.ctx.vars[k].name] = v
	}
	for k, v := range over {
		out[m.ctx.vars[k].name] = v
	}
	return out
}

func (m *Machine) branch(t *Term) bool {
	if t.isConst() {
		return t.k != 0
	}
	if v, ok := m.known(t); ok {
		return v
	}
	p := m.path
	if p == nil {
		panic(engineErr("symbolic branch during init"))
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.taken = append(p.taken, d)
		if d == 1 {
			m.assumeTrue(t)
			return true
		}
		m.assumeTrue(m.ctx.Not(t))
		return false
	}
	m.ensureModel()
	v, _ := m.evalT(t)
	side := v != 0
	this, other := t, m.ctx.Not(t)
	if !side {
		this, other = other, this
	}
	var r SatRes
	var nm Model
	if d, v, vals := m.domainOf(other); d != nil && (vals.first() < 0 || !d.mixed) {
		r = Unsat
		if i := vals.first(); i >= 0 {
			lo, _ := v.domain()
			r, nm = Sat, Model{int32(v.k): uint64(lo + int64(i))}
		}
		m.stats.mu.Lock()
		m.stats.Domain++
		m.stats.mu.Unlock()
	} else {
		m.checkTime()
		t0 := time.Now()
		r, nm = m.solver.Check(m.slicePC(other))
		if traceSlow && time.Since(t0) > time.Second {
			fmt.Fprintf(os.Stderr, "slow branch %v %v at %s\n", r, time.Since(t0), m.where(m.cur))
		}
	}
	if r != Unsat {
		od := int32(1)
		if side {
			od = 0
		}
		np := append(append([]int32(nil), p.taken...), od)
		var mod map[string]uint64
		if r == Sat {
			mod = m.exportModel(nm)
		} else {
			m.stats.mu.Lock()
			m.stats.Unknown++
			m.stats.mu.Unlock()
		}
		m.enqueue(work{np, mod, p.gen})
		p.forks++
		d := int32(0)
		if side {
			d = 1
		}
		p.taken = append(p.taken, d)
		m.assumeTrue(this)
		return side
	}
	// other side infeasible: forced, no decision recorded as a fork, but the
	// replay must see the same sequence, so record it.
	d := int32(0)
	if side {
		d = 1
	}
	p.taken = append(p.taken, d)
	m.assumeTrueForced(this)
	return side
}

// checkTime ends the path when the time for the harness is over.
func (m *Machine) checkTime() {
	if m.path != nil && m.exp != nil && time.Now().After(m.exp.deadline) {
		m.exp.late.Store(true)
		panic(pathEnd{"inconclusive", "time limit at " + m.where(m.cur)})
	}
}

// assumeTrueForced records an implied fact (no new conjunct needed).
func (m *Machine) assumeTrueForced(t *Term) {
	m.mark(t)
}

func (m *Machine) choose(n int) int {
	p := m.path
	if n <= 1 {
		return 0
	}
	if p == nil {
		return 0
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.taken = append(p.taken, d)
		return int(d)
	}
	var mod map[string]uint64
	if !p.noModel {
		mod = m.exportModel(nil)
	}
	for i := n - 1; i >= 1; i-- {
		m.enqueue(work{append(append([]int32(nil), p.taken...), int32(i)), mod, p.gen})
	}
	p.forks++
	p.taken = append(p.taken, 0)
	return 0
}

func (m *Machine) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	for i := 0; i < 600; i++ {
		p := m.path
		var v uint64
		// During prefix replay the value candidates must be identical to the
		// original run, so candidate values are taken from the decision list.
		if p.pos < len(p.prefix) {
			v = uint64(uint32(p.prefix[p.pos])) | uint64(uint32(p.prefix[p.pos+1]))<<32
			p.pos += 2
			p.taken = append(p.taken, p.prefix[p.pos-2], p.prefix[p.pos-1])
		} else {
			m.ensureModel()
			v, _ = m.evalT(t)
			p.taken = append(p.taken, int32(uint32(v)), int32(uint32(v>>32)))
		}
		if m.branch(m.ctx.Eq(t, m.ctx.Const(t.w, v))) {
			return v
		}
	}
	panic(pathEnd{"inconclusive", "too many values to concretize at " + m.where(m.cur)})
}

func (m *Machine) assume(t *Term) {
	if t.isConst() {
		if t.k == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	p := m.path
	if v, ok := m.known(t); ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if p.pos < len(p.prefix) || p.noModel {
		m.assumeTrue(t)
		if p.pos >= len(p.prefix) {
			m.ensureModel()
		}
		return
	}
	v, _ := m.evalT(t)
	if v == 0 {
		r, nm := m.solver.Check(m.slicePC(t))
		if r == Unsat {
			panic(pathEnd{"assume", ""})
		}
		if r == Unknown {
			panic(pathEnd{"inconclusive", "solver unknown on assumption"})
		}
		m.setModel(nm)
	}
	m.assumeTrue(t)
}

// assert checks that t holds on this path; records a candidate otherwise.
func (m *Machine) assert(t *Term, msg string) {
	p := m.path
	p.asserts++
	if t.isConst() {
		if t.k == 0 {
			m.candidate("assert", msg, nil)
			panic(pathEnd{"violation", msg})
		}
		return
	}
	if v, ok := m.known(t); ok && v {
		return
	}
	if p.pos < len(p.prefix) {
		// already decided by the path that forked this one
		m.assumeTrue(t)
		return
	}
	m.ensureModel()
	m.stats.mu.Lock()
	m.stats.AssertQ++
	m.stats.mu.Unlock()
	v, _ := m.evalT(t)
	nt := m.ctx.Not(t)
	if v == 0 {
		m.candidate("assert", msg, nil)
	} else {
		r, nm := m.solver.Check(m.slicePC(nt))
		switch r {
		case Unsat:
			m.assumeTrueForced(t)
			return
		case Unknown:
			m.stats.mu.Lock()
			m.stats.Unknown++
			m.stats.Incon++
			m.stats.UnsupMsgs["solver unknown on assertion: "+msg]++
			m.stats.mu.Unlock()
			m.assumeTrue(t)
			return
		case Sat:
			m.candidate("assert", msg, nm)
		}
	}
	// continue under the assumption that it holds
	m.assume(t)
}

func (m *Machine) candidate(kind, msg string, over Model) {
	p := m.path
	if p.noModel {
		r, nm := m.solver.Check(p.pc)
		if r == Sat {
			p.noModel = false
			p.model = Model{}
			m.setModel(nm)
		} else if r == Unsat {
			return
		}
	}
	mod := Model{}
	for k, v := range p.model {
		mod[k] = v
	}
	for i := range p.inputs {
		for _, t := range append([]*Term{p.inputs[i].t}, p.inputs[i].ts...) {
			if t != nil && t.op == OVar {
				if _, ok := mod[int32(t.k)]; !ok {
					if x, ok := p.seed[t.name]; ok {
						mod[int32(t.k)] = x
					}
				}
			}
		}
	}
	for k, v := range over {
		mod[k] = v
	}
	ev := NewEval(mod)
	c := Candidate{Harness: p.h.Name, Kind: kind, Msg: msg, Prefix: append([]int32(nil), p.taken...), KF: append([]string(nil), p.kf...)}
	for _, in := range p.inputs {
		o := Input{Name: in.Name, Kind: in.Kind}
		switch {
		case in.ts != nil:
			b := make([]byte, len(in.ts))
			for i, t := range in.ts {
				b[i] = byte(ev.Eval(t))
			}
			o.Val = fmt.Sprintf("%x", b)
		case in.t != nil:
			v := ev.Eval(in.t)
			switch in.Kind {
			case "int", "int64":
				o.Val = fmt.Sprint(int64(v))
			default:
				o.Val = fmt.Sprint(v)
			}
		default:
			o.Val = in.conc
		}
		c.Inputs = append(c.Inputs, o)
	}
	p.candidates = append(p.candidates, c)
}

func (m *Machine) freshName(name string) string {
	p := m.path
	n := p.names[name]
	p.names[name]++
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

// ---- exploration driver

type Explorer struct {
	p       *Program
	h       *Harness
	mu      sync.Mutex
	cond    *sync.Cond
	queue   []work
	active  int
	stop    bool
	stats   *RunStats
	deadline time.Time
	late    atomic.Bool
	conf    map[string]*confSet
	maxPaths int
	maxQ    int
}

func (m *Machine) enqueue(w work) {
	e := m.exp
	e.mu.Lock()
	if !e.stop {
		e.queue = append(e.queue, w)
	}
	e.cond.Signal()
	e.mu.Unlock()
}

// Explore runs all paths of h on the given machines.
func Explore(p *Program, h *Harness, ms []*Machine, secs int) *RunStats {
	e := &Explorer{p: p, h: h, stats: newStats(), deadline: time.Now().Add(time.Duration(secs) * time.Second)}
	e.cond = sync.NewCond(&e.mu)
	e.queue = []work{{nil, map[string]uint64{}, 0}}
	e.conf = map[string]*confSet{}
	var wg sync.WaitGroup
	go func() {
		// wake sleepers at the deadline
		time.Sleep(time.Until(e.deadline))
		e.mu.Lock()
		e.cond.Broadcast()
		e.mu.Unlock()
	}()
	for _, m := range ms {
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			m.exp = e
			m.stats = e.stats
			before := m.solver.Stats
			for {
				w, ok := e.take()
				if !ok {
					break
				}
				m.runPath(h, w)
				e.mu.Lock()
				e.active--
				if e.active == 0 && len(e.queue) == 0 {
					e.cond.Broadcast()
				}
				e.mu.Unlock()
			}
			a := m.solver.Stats
			e.stats.mu.Lock()
			e.stats.Solver.Queries += a.Queries - before.Queries
			e.stats.Solver.CacheHits += a.CacheHits - before.CacheHits
			e.stats.Solver.Unsat += a.Unsat - before.Unsat
			e.stats.Solver.SatN += a.SatN - before.SatN
			e.stats.Solver.UnknownN += a.UnknownN - before.UnknownN
			e.stats.Solver.Time += a.Time - before.Time
			if a.MaxQuery > e.stats.Solver.MaxQuery {
				e.stats.Solver.MaxQuery = a.MaxQuery
			}
			for fi := range m.hitFn {
				e.stats.Fns[fi.name] = true
			}
			m.hitFn = map[*FuncInfo]bool{}
			e.stats.mu.Unlock()
		}(m)
	}
	wg.Wait()
	e.stats.Dropped = len(e.queue)
	if (len(e.queue) > 0 || e.late.Load()) && !e.stopped() {
		e.stats.TimedOut = true
	}
	return e.stats
}

func (e *Explorer) stopped() bool {
	e.stats.mu.Lock()
	defer e.stats.mu.Unlock()
	return len(e.stats.Cands) >= maxCands
}

const maxCands = 40

func (e *Explorer) take() (work, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || time.Now().After(e.deadline) {
			e.cond.Broadcast()
			return work{}, false
		}
		if n := len(e.queue); n > 0 {
			w := e.queue[n-1]
			e.queue = e.queue[:n-1]
			e.active++
			return w, true
		}
		if e.active == 0 {
			return work{}, false
		}
		e.cond.Wait()
	}
}

func (m *Machine) resetPath() {
	m.gs = nil
	m.cur = nil
	m.nextG = 0
	m.clock = Value{}
	m.side = map[*Value]*syncObj{}
	m.shadow = map[any]*shadowT{}
	m.race = false
	m.conc = false
	m.preempt = 0
	m.opaque = false
	m.mapPerm = false
	m.ctlBlock = false
	m.ctlYield = false
	m.timers = nil
	m.steps = 0
	m.forceDepth = 0
	m.pools = map[*Value][]Value{}
	m.files = map[string]*fileT{}
	m.opens = map[*Value]*openT{}
	m.out.Reset()
	m.chanN = 0
	m.mapN = 0
}

func (m *Machine) runPath(h *Harness, w work) {
	m.resetPath()
	p := &Path{h: h, prefix: w.prefix, model: Model{}, seed: w.model, noModel: w.model == nil, wgen: w.gen, pcIDs: map[int32]bool{}, names: map[string]int{}, reached: map[string]bool{}}
	m.path = p
	m.budget = h.Budget
	end := m.execPath(h)
	m.leaveConc(p)
	m.rollback()
	st := m.stats
	if end.kind == "crash" || end.kind == "race" || end.kind == "deadlock" || end.kind == "hang" {
		m.candidate(end.kind, end.msg, nil)
	}
	st.mu.Lock()
	st.Paths++
	st.Steps += m.steps
	st.Asserts += p.asserts
	if p.forks > st.MaxForks {
		st.MaxForks = p.forks
	}
	switch end.kind {
	case "done":
		st.PathsDone++
		for r := range p.reached {
			st.Reached[r]++
		}
		if len(st.Samples) < 3 || (st.PathsDone%97 == 0 && len(st.Samples) < 6) {
			st.mu.Unlock()
			s, c := m.samplePath(p)
			st.mu.Lock()
			if s != "" {
				st.Samples = append(st.Samples, s)
				st.SampleC = append(st.SampleC, c)
			}
		}
	case "assume", "stale":
		st.Assume++
	case "crash", "race", "deadlock":
		st.Crash++
	case "hang":
		st.Hang++
	case "violation":
	case "unsupported", "inconclusive":
		st.Unsup++
		st.UnsupMsgs[end.kind+": "+end.msg]++
	}
	if len(p.candidates) > 0 {
		st.Cands = append(st.Cands, p.candidates...)
	}
	stop := len(st.Cands) >= maxCands
	st.mu.Unlock()
	if stop {
		m.exp.mu.Lock()
		m.exp.stop = true
		m.exp.cond.Broadcast()
		m.exp.mu.Unlock()
	}
	m.path = nil
	if len(m.ctx.tab) > 3000000 {
		m.resetCtx()
	}
}

func (m *Machine) resetCtx() {
	old := m.solver
	m.ctx = NewTermCtx()
	st := old.Stats
	to := old.Timeout
	old.Close()
	m.solver = NewSolver(m.ctx)
	m.solver.Stats = st
	m.solver.Timeout = to
}

func (m *Machine) samplePath(p *Path) (string, Candidate) {
	save := p.candidates
	m.candidate("sample", "", nil)
	if len(p.candidates) == len(save) {
		return "", Candidate{}
	}
	c := p.candidates[len(p.candidates)-1]
	p.candidates = save
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s pc=%d asserts=%d:", p.h.Name, len(p.pc), p.asserts)
	for i, in := range c.Inputs {
		if i > 12 {
			sb.WriteString(" ...")
			break
		}
		fmt.Fprintf(&sb, " %s=%s", in.Name, in.Val)
	}
	return sb.String(), c
}

func (m *Machine) execPath(h *Harness) (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end = x
			case EngineError:
				end = pathEnd{"unsupported", "engine: " + x.msg}
			case rtPanic:
				end = pathEnd{"crash", x.msg}
			case nestedPanic:
				end = pathEnd{"crash", "panic"}
			default:
				end = pathEnd{"unsupported", fmt.Sprintf("engine panic %v", r)}
			}
		}
	}()
	g := m.newG("main")
	m.cur = g
	m.push(g, m.p.Func(h.Fn), nil, nil, -1)
	m.schedule(g)
	return pathEnd{"done", ""}
}

// ---- machine creation

func NewMachine(p *Program) *Machine {
	ctx := NewTermCtx()
	m := &Machine{p: p, ctx: ctx, solver: NewSolver(ctx), tinfos: map[types.Type]*tinfo{}, typeKey: map[types.Type]string{}, inits: map[*ssa.Package]bool{}, hitFn: map[*FuncInfo]bool{}, onces: map[*Value]bool{}}
	m.budget = 1 << 60
	m.depthLimit = 3000
	return m
}

// RunInit executes package initialisers of the interpreted packages.
func (m *Machine) RunInit() error {
	m.resetPath()
	m.path = nil
	m.stats = newStats()
	end := func() (end pathEnd) {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(pathEnd); ok {
					end = x
					return
				}
				end = pathEnd{"unsupported", fmt.Sprint(r)}
			}
		}()
		g := m.newG("init")
		m.cur = g
		m.push(g, m.p.Func(m.p.target.Func("init")), nil, nil, -1)
		m.schedule(g)
		return pathEnd{"done", ""}
	}()
	if end.kind != "done" {
		return fmt.Errorf("package initialisation: %s %s", end.kind, end.msg)
	}
	m.initDone = true
	m.hitFn = map[*FuncInfo]bool{}
	m.logging = true
	m.undo = nil
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func dumpJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0644)
}

var _ = rand.Int
