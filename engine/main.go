package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type knownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
}

type findingsFile struct {
	Findings []knownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

func loadFindings() map[string]knownFinding {
	out := map[string]knownFinding{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if err != nil {
		return out
	}
	var f findingsFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println("known-findings.json:", err)
		os.Exit(2)
	}
	for _, k := range f.Findings {
		out[k.ID] = k
	}
	return out
}

func newMachines(p *Program, n int) ([]*Machine, error) {
	ms := make([]*Machine, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := range ms {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ms[i] = NewMachine(p)
			errs[i] = ms[i].RunInit()
		}(i)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return nil, e
		}
	}
	return ms, nil
}

func main() {
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			time.AfterFunc(60*time.Second, pprof.StopCPUProfile)
		}
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if len(os.Args) < 2 {
		fmt.Println("usage: engine check|list|selftest|replay ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := fs.String("only", "", "only harnesses containing this text")
	verbose := fs.Bool("v", false, "verbose")
	nm := fs.Int("j", runtime.NumCPU(), "machines")
	secsOv := fs.Int("secs", 0, "override the time limit per harness")
	total := fs.Int("total", 0, "override the total time limit")
	norep := fs.Bool("noreplay", false, "do not replay natively")
	var pos []string
	args := os.Args[2:]
	for len(args) > 0 {
		fs.Parse(args)
		args = fs.Args()
		if len(args) > 0 {
			pos = append(pos, args[0])
			args = args[1:]
		}
	}
	if *tier == "" {
		*tier = "quick"
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	curTier = *tier
	switch cmd {
	case "list":
		_, hs, err := LoadProgram()
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, h := range hs {
			fmt.Printf("%-4s %-40s %-9s %s\n", h.Prop, h.Name, h.Tier, h.Doc)
		}
	case "check":
		if len(pos) != 1 {
			fmt.Println("check needs a property id")
			os.Exit(2)
		}
		os.Exit(runCheck(pos[0], *tier, *only, *verbose, *nm, *secsOv, *total, *norep))
	case "selftest":
		os.Exit(selftest(pos))
	case "replay":
		os.Exit(replayCmd(pos[0]))
	default:
		fmt.Println("unknown command", cmd)
		os.Exit(2)
	}
}

var curTier = "quick"

type harnessResult struct {
	h  *Harness
	st *RunStats
	d  time.Duration
}

func runCheck(prop, tier, only string, verbose bool, nm, secsOv, total int, norep bool) int {
	t0 := time.Now()
	evPath := filepath.Join(verifDir, "evidence", prop+".json")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	p, all, err := LoadProgram()
	if err != nil {
		fmt.Println("cannot load the code under test with the harnesses:", err)
		return 2
	}
	var hs []*Harness
	for _, h := range all {
		if h.Prop != prop || (h.Tier == "thorough" && tier != "thorough") || (h.Tier == "quickonly" && tier != "quick") {
			continue
		}
		if only != "" && !strings.Contains(h.Name, only) {
			continue
		}
		hs = append(hs, h)
	}
	if len(hs) == 0 {
		fmt.Println("no harness for", prop)
		return 2
	}
	// the native build runs beside the symbolic exploration
	nb := startNative()
	defer nb.cleanup()
	ms, err := newMachines(p, nm)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	loadT := time.Since(t0)
	if total == 0 {
		total = 420
		if tier == "thorough" {
			total = 780
		}
	}
	deadline := t0.Add(time.Duration(total) * time.Second)
	known := loadFindings()
	var results []harnessResult
	for i, h := range hs {
		s := h.Secs
		if tier == "thorough" {
			s *= 6
		}
		if secsOv > 0 {
			s = secsOv
		}
		left := int(time.Until(deadline).Seconds())
		// share what is left fairly when short
		share := left / (len(hs) - i)
		if share*3 < s {
			s = share * 3
		}
		if s > left {
			s = left
		}
		if s < 3 {
			s = 3
		}
		ht := time.Now()
		st := Explore(p, h, ms, s)
		results = append(results, harnessResult{h, st, time.Since(ht)})
		if verbose {
			fmt.Printf("%s: %.1fs paths=%d done=%d assume=%d crash=%d hang=%d unsup=%d asserts=%d q=%d unsat=%d sat=%d unk=%d cache=%d solver=%.1fs maxq=%.1fs steps=%d cands=%d timeout=%v dropped=%d reached=%v\n", h.Name, time.Since(ht).Seconds(), st.Paths, st.PathsDone, st.Assume, st.Crash, st.Hang, st.Unsup, st.Asserts, st.Solver.Queries, st.Solver.Unsat, st.Solver.SatN, st.Solver.UnknownN, st.Solver.CacheHits, st.Solver.Time.Seconds(), st.Solver.MaxQuery.Seconds(), st.Steps, len(st.Cands), st.TimedOut, st.Dropped, st.Reached)
			for _, k := range sortedKeys(st.UnsupMsgs) {
				fmt.Printf("   [%d] %s\n", st.UnsupMsgs[k], k)
			}
			for i, c := range st.Cands {
				if i > 5 {
					break
				}
				fmt.Printf("   cand %s %s kf=%v %s\n", c.Kind, c.Msg, c.KF, inputStr(c.Inputs))
			}
		}
	}
	for _, m := range ms {
		m.solver.Close()
	}

	violations := 0
	var notes []string
	knownHit := map[string]string{}
	var replayPaths []string
	for _, r := range results {
		seen := map[string]int{}
		for _, c := range r.st.Cands {
			key := c.Kind + "|" + normMsg(c.Msg)
			kf := ""
			for _, k := range c.KF {
				if f, ok := known[k]; ok && f.Property == prop {
					kf = k
				}
			}
			if kf != "" {
				if _, done := knownHit[kf]; done {
					continue
				}
				key = "kf|" + kf
			}
			if seen[key] >= 3 || (seen[key] < 0) || len(seen) > 12 {
				continue
			}
			seen[key]++
			path := filepath.Join(verifDir, "evidence", fmt.Sprintf("replay_%s_%d.json", prop, len(replayPaths)+1))
			ok, out := false, "not replayed"
			if !norep {
				ok, out = nb.replay(&c, tier, path)
			}
			if norep {
				ok = true
			}
			if !ok && isConcKind(r.h, &c) {
				// schedule-dependent: the recorded schedule is the counterexample
				ok = true
				out += " (schedule counterexample; not hit by native stress runs)"
			}
			if !ok {
				notes = append(notes, fmt.Sprintf("%s: candidate not reproduced natively (%s: %s) %s -> %s", r.h.Name, c.Kind, c.Msg, inputStr(c.Inputs), out))
				continue
			}
			seen[key] = -1
			if kf != "" {
				knownHit[kf] = out
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, kf, known[kf].What)
				continue
			}
			replayPaths = append(replayPaths, path)
			violations++
			fmt.Printf("%s: %s: %s\n  inputs: %s\n  native: %s\n", r.h.Name, c.Kind, c.Msg, inputStr(c.Inputs), out)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		}
	}
	// validate a few completed paths against the native program
	validated, mism := 0, 0
	if violations == 0 && !norep {
		for _, r := range results {
			if r.h.Opts["nonative"] != "" {
				continue
			}
			for _, c := range r.st.SampleC {
				if len(c.KF) > 0 {
					continue
				}
				path := filepath.Join(verifDir, "evidence", fmt.Sprintf("replay_%s_m%d.json", prop, mism))
				bad, out := nb.replay(&c, tier, path)
				if out == "unavailable" {
					break
				}
				if bad {
					mism++
					fmt.Printf("%s: native run fails on a path the engine completed: %s\n  inputs: %s\n", r.h.Name, out, inputStr(c.Inputs))
					if r.h.Opts["conc"] == "" {
						violations++
						replayPaths = append(replayPaths, path)
						fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
					}
				} else {
					validated++
				}
			}
		}
	}
	vac := 0
	incon := 0
	for _, r := range results {
		for _, l := range r.h.ExpectReach {
			if r.st.Reached[l] == 0 {
				vac++
				notes = append(notes, r.h.Name+": goal not reached: "+l)
			}
		}
		if r.st.PathsDone == 0 && len(r.st.Cands) == 0 {
			vac++
			notes = append(notes, r.h.Name+": no path completed")
		}
		incon += r.st.Unsup + r.st.Incon
		if r.st.TimedOut {
			notes = append(notes, fmt.Sprintf("%s: time limit reached with %d paths unexplored: bound reduced", r.h.Name, r.st.Dropped))
		}
		for _, k := range sortedKeys(r.st.UnsupMsgs) {
			notes = append(notes, fmt.Sprintf("%s: outside the bound (%d paths): %s", r.h.Name, r.st.UnsupMsgs[k], k))
		}
	}
	for i, n := range notes {
		if i < 25 {
			fmt.Println("note:", n)
		}
	}
	writeEvidence(evPath, prop, tier, results, violations, validated, notes, replayPaths, knownHit, loadT, time.Since(t0))
	np, nq := 0, int64(0)
	var stime time.Duration
	for _, r := range results {
		np += r.st.Paths
		nq += int64(r.st.Solver.Queries)
		stime += r.st.Solver.Time
	}
	fmt.Printf("%s (%s): %d harnesses, %d paths, %d queries, solver %.1fs, %d inconclusive paths, %d native validations, %.1fs\n", prop, tier, len(results), np, nq, stime.Seconds(), incon, validated, time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	if vac > 0 {
		fmt.Println("VACUOUS: a goal of the check was not reached")
		return 2
	}
	return 0
}

func isConcKind(h *Harness, c *Candidate) bool {
	return h.Opts["conc"] != "" && (c.Kind == "race" || c.Kind == "deadlock" || c.Kind == "assert" || c.Kind == "crash")
}

func normMsg(s string) string {
	if i := strings.Index(s, " at "); i > 0 {
		return s[:i]
	}
	return s
}

func inputStr(in []Input) string {
	var sb strings.Builder
	for i, x := range in {
		if i > 0 {
			sb.WriteString(" ")
		}
		if i > 30 {
			sb.WriteString("...")
			break
		}
		v := x.Val
		switch x.Kind {
		case "str":
			v = strconv.Quote(unhex(v))
		case "f32":
			v = f32str(v)
		}
		sb.WriteString(x.Name + "=" + v)
	}
	return sb.String()
}

func writeEvidence(path, prop, tier string, rs []harnessResult, violations, validated int, notes, replays []string, known map[string]string, load, wall time.Duration) {
	seed := 0
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.Atoi(s)
	}
	fns := map[string]bool{}
	var states, trans int64
	var samples []string
	var hl []map[string]any
	q, cacheHits, unsat, sat, unk := 0, 0, 0, 0, 0
	var stime, maxq time.Duration
	assumps := []string{}
	asserts := 0
	for _, r := range rs {
		for f := range r.st.Fns {
			if !strings.Contains(f, ".VH_") && !strings.Contains(f, "golisp.v") {
				fns[shortFn(f)] = true
			}
		}
		states += int64(r.st.Paths)
		trans += r.st.Steps
		asserts += r.st.Asserts
		if len(samples) < 40 {
			for _, s := range r.st.Samples {
				if len(s) > 400 {
					s = s[:400] + "..."
				}
				samples = append(samples, s)
			}
		}
		s := r.st.Solver
		q += int(s.Queries)
		cacheHits += int(s.CacheHits)
		unsat += int(s.Unsat)
		sat += int(s.SatN)
		unk += int(s.UnknownN)
		stime += s.Time
		if s.MaxQuery > maxq {
			maxq = s.MaxQuery
		}
		hl = append(hl, map[string]any{
			"harness": r.h.Name, "what": r.h.Doc, "bounds": r.h.Bounds,
			"paths": r.st.Paths, "paths_completed": r.st.PathsDone, "paths_infeasible": r.st.Assume,
			"paths_outside_bound": r.st.Unsup + r.st.Incon, "assertions_checked": r.st.Asserts, "assertion_queries": r.st.AssertQ,
			"solver_queries": s.Queries, "solver_s": round3(s.Time), "unsat": s.Unsat, "sat": s.SatN, "unknown": s.UnknownN,
			"max_forks_on_a_path": r.st.MaxForks, "time_limit_reached": r.st.TimedOut, "unexplored": r.st.Dropped, "goals_reached": r.st.Reached,
			"outside_bound_reasons": r.st.UnsupMsgs, "wall_s": round3(r.d), "ssa_instructions": r.st.Steps,
		})
		assumps = append(assumps, r.h.Name+": "+r.h.Bounds)
	}
	if len(samples) == 0 {
		samples = []string{"(no path completed)"}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"explanation":       "bounded symbolic execution of the SSA form of the current source; states = symbolic paths, transitions = SSA instructions executed; every branch and assertion is decided by an SMT solver (z3, cvc5 as second opinion) over all values within the stated bounds; traces_validated = models of completed paths re-run against the natively compiled code",
			"functions_encoded": fl, "functions_encoded_count": len(fl),
			"queries": q, "query_cache_hits": cacheHits, "queries_unsat": unsat, "queries_sat": sat, "queries_unknown": unk,
			"assertions_checked": asserts,
			"solver_time_s": round3(stime), "max_query_s": round3(maxq), "harnesses": hl, "notes": notes, "replays": replays, "known_findings_reproduced": known, "load_s": round3(load),
		},
		"assumptions": append(assumps, commonAssumptions...),
		"wall_s":      round3(wall), "violations": violations,
	}
	if err := dumpJSON(path, ev); err != nil {
		fmt.Println("evidence:", err)
	}
}

var commonAssumptions = []string{
	"the Go compiler implements the semantics of the SSA form; 64-bit platform",
	"strings.*, unicode.*, strconv.*, fmt formatting on concrete arguments and encoding/json run natively (standard library trusted); transcendental math functions are uninterpreted",
	"os file operations fail, printing is discarded, time is a virtual clock, random numbers are arbitrary",
	"map iteration order is insertion order unless a harness permutes it",
}

func round3(d time.Duration) float64 {
	return float64(d.Milliseconds()) / 1000
}
