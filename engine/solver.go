package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

func (r SatRes) String() string { return []string{"unsat", "sat", "unknown"}[r] }

type solverProc struct {
	name string
	args []string
	cmd  *exec.Cmd
	in   *bufio.Writer
	out  *bufio.Reader
	nq   int
}

type SolverStats struct {
	Queries   int
	CacheHits int
	ModelHits int
	Unsat     int
	SatN      int
	UnknownN  int
	Time      time.Duration
	MaxQuery  time.Duration
}

type Solver struct {
	ctx     *TermCtx
	main    *solverProc
	alt     *solverProc
	cache   map[string]cacheEnt
	Stats   SolverStats
	Timeout time.Duration
	Log     io.Writer
}

type cacheEnt struct {
	r SatRes
	m Model
}

func NewSolver(ctx *TermCtx) *Solver {
	s := &Solver{ctx: ctx, cache: map[string]cacheEnt{}, Timeout: 10 * time.Second}
	return s
}

func (s *Solver) startProc(name string, args ...string) *solverProc {
	p := &solverProc{name: name, args: args}
	p.cmd = exec.Command(name, args...)
	in, err := p.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	p.cmd.Stderr = os.Stderr
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	p.in = bufio.NewWriterSize(in, 1<<16)
	p.out = bufio.NewReaderSize(out, 1<<16)
	return p
}

func (p *solverProc) kill() {
	if p != nil && p.cmd != nil && p.cmd.Process != nil {
		p.cmd.Process.Kill()
		go p.cmd.Wait()
	}
}

func (s *Solver) Close() {
	s.main.kill()
	s.alt.kill()
	s.main, s.alt = nil, nil
}

// readSexp reads one line or one balanced s-expression.
func (p *solverProc) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := p.out.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		if !started {
			if b == ' ' || b == '\n' || b == '\r' || b == '\t' {
				continue
			}
			started = true
		}
		if b == '\n' && depth == 0 {
			return sb.String(), nil
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// Check decides satisfiability of the conjunction of the given terms.
func (s *Solver) Check(conj []*Term) (SatRes, Model) {
	ids := make([]int, 0, len(conj))
	seen := map[int32]bool{}
	var cs []*Term
	for _, t := range conj {
		if t.isConst() {
			if t.k == 0 {
				return Unsat, nil
			}
			continue
		}
		if !seen[t.id] {
			seen[t.id] = true
			ids = append(ids, int(t.id))
			cs = append(cs, t)
		}
	}
	if len(cs) == 0 {
		return Sat, Model{}
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.Stats.CacheHits++
		return e.r, e.m
	}
	t0 := time.Now()
	// portfolio: short attempts with each solver before long ones
	r, m := s.run(cs, 0, s.Timeout/10)
	if r == Unknown {
		r, m = s.run(cs, 1, s.Timeout/2)
	}
	if r == Unknown {
		r, m = s.run(cs, 2, s.Timeout)
	}
	if r == Unknown {
		r, m = s.run(cs, 1, 3*s.Timeout)
	}
	if r == Sat {
		// validate the model against the evaluator
		ev := NewEval(m)
		for _, t := range cs {
			if ev.Eval(t) == 0 {
				fmt.Fprintf(os.Stderr, "engine: model does not satisfy term %s\n", t)
				r = Unknown
				break
			}
		}
	}
	d := time.Since(t0)
	s.Stats.Time += d
	if d > s.Stats.MaxQuery {
		s.Stats.MaxQuery = d
	}
	s.Stats.Queries++
	switch r {
	case Sat:
		s.Stats.SatN++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.UnknownN++
	}
	s.cache[key] = cacheEnt{r, m}
	return r, m
}

func (s *Solver) run(cs []*Term, which int, lim time.Duration) (SatRes, Model) {
	var p *solverProc
	switch which {
	case 0:
		if s.main == nil {
			s.main = s.startProc("z3", "-in", "-smt2")
		}
		p = s.main
		fmt.Fprintf(p.in, "(set-option :timeout %d)\n", lim.Milliseconds())
	case 1:
		if s.alt != nil {
			s.alt.kill()
		}
		s.alt = s.startProc("cvc5", "--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", lim.Milliseconds()))
		fmt.Fprintf(s.alt.in, "(set-logic QF_BVFP)\n")
		p = s.alt
	default:
		if s.alt != nil {
			s.alt.kill()
		}
		s.alt = s.startProc("z3-new", "-in", "-smt2")
		fmt.Fprintf(s.alt.in, "(set-option :timeout %d)\n", lim.Milliseconds())
		p = s.alt
	}
	var sb strings.Builder
	vars := writeDefs(&sb, cs)
	fmt.Fprintf(p.in, "(push 1)\n%s", sb.String())
	for _, t := range cs {
		fmt.Fprintf(p.in, "(assert %s)\n", ref(t))
	}
	fmt.Fprintf(p.in, "(check-sat)\n")
	if err := p.in.Flush(); err != nil {
		s.reset(which)
		return Unknown, nil
	}
	if s.Log != nil {
		fmt.Fprintf(s.Log, "(push 1)\n%s", sb.String())
		for _, t := range cs {
			fmt.Fprintf(s.Log, "(assert %s)\n", ref(t))
		}
		fmt.Fprintf(s.Log, "(check-sat)\n(pop 1)\n")
	}
	watchdog := time.AfterFunc(2*lim+2*time.Second, func() { p.cmd.Process.Kill() })
	defer watchdog.Stop()
	line, err := p.readSexp()
	if err != nil {
		s.reset(which)
		return Unknown, nil
	}
	var res SatRes
	var m Model
	switch strings.TrimSpace(line) {
	case "sat":
		res = Sat
		m = Model{}
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vars {
				fmt.Fprintf(&q, "v%d ", v.k)
			}
			q.WriteString("))\n")
			p.in.WriteString(q.String())
			p.in.Flush()
			out, err := p.readSexp()
			if err != nil || strings.HasPrefix(out, "(error") {
				s.reset(which)
				return Unknown, nil
			}
			parseModel(out, m)
		}
	case "unsat":
		res = Unsat
	default:
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintf(os.Stderr, "solver error: %s\n", line)
			s.reset(which)
			return Unknown, nil
		}
		res = Unknown
	}
	fmt.Fprintf(p.in, "(pop 1)\n")
	p.nq++
	if p.nq > 20000 {
		s.reset(which)
	}
	return res, m
}

func (s *Solver) reset(which int) {
	if which == 0 {
		s.main.kill()
		s.main = nil
	} else {
		s.alt.kill()
		s.alt = nil
	}
}

// parseModel parses ((v0 #x00) (v1 true) (v2 (_ bv3 4)) ...)
func parseModel(s string, m Model) {
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(s))
	i := 0
	for i < len(toks) {
		if len(toks[i]) > 1 && toks[i][0] == 'v' && i+1 < len(toks) {
			id, err := strconv.Atoi(toks[i][1:])
			if err != nil {
				i++
				continue
			}
			v := toks[i+1]
			switch {
			case strings.HasPrefix(v, "#x"):
				x, _ := strconv.ParseUint(v[2:], 16, 64)
				m[int32(id)] = x
				i += 2
			case strings.HasPrefix(v, "#b"):
				x, _ := strconv.ParseUint(v[2:], 2, 64)
				m[int32(id)] = x
				i += 2
			case v == "true":
				m[int32(id)] = 1
				i += 2
			case v == "false":
				m[int32(id)] = 0
				i += 2
			case v == "(":
				if toks[i+2] == "_" && strings.HasPrefix(toks[i+3], "bv") {
					x, _ := strconv.ParseUint(toks[i+3][2:], 10, 64)
					m[int32(id)] = x
				}
				i += 2
			default:
				i++
			}
		} else {
			i++
		}
	}
}
