package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// selftest runs the repository's Lisp tests through the engine's own
// interpretation of the SSA form and through the native program and compares.
func selftest(pos []string) int {
	p, _, err := LoadProgram()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	nb := startNative()
	defer nb.cleanup()
	ms, err := newMachines(p, 1)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	m := ms[0]
	<-nb.done
	if nb.err != nil {
		fmt.Println(nb.err)
		return 2
	}
	lib, err := os.ReadFile(filepath.Join(repoDir, "lisp/testing.lsp"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	files, _ := filepath.Glob(filepath.Join(repoDir, "tests/*.lsp"))
	bad := 0
	h := &Harness{Name: "selftest", Fn: p.target.Func("VSelfTest"), Budget: 1 << 40}
	for _, f := range files {
		if len(pos) > 0 && !strings.Contains(f, pos[0]) {
			continue
		}
		src, _ := os.ReadFile(f)
		m.stats = newStats()
		m.exp = &Explorer{}
		m.resetPath()
		m.path = &Path{h: h, model: Model{}, pcIDs: map[int32]bool{}, names: map[string]int{}, reached: map[string]bool{}}
		m.budget = h.Budget
		res := ""
		end := func() (end pathEnd) {
			defer func() {
				if r := recover(); r != nil {
					if x, ok := r.(pathEnd); ok {
						end = x
						return
					}
					panic(r)
				}
			}()
			g := m.newG("main")
			m.cur = g
			slot := &Frame{fi: &FuncInfo{name: "slot"}, regs: make([]Value, 1)}
			_ = slot
			m.push(g, m.p.Func(h.Fn), []Value{mkStr(string(lib)), mkStr(string(src))}, nil, -1)
			m.schedule(g)
			return pathEnd{"done", ""}
		}()
		gl := m.p.target.Members["VSelfResult"]
		_ = gl
		res = m.force(m.cur, (*m.global(m.p.GlobalIndex(m.p.target.Var("VSelfResult")))).str()).s
		steps := m.steps
		m.rollback()
		out, nerr := exec.Command(nb.bin, "-self", filepath.Join(repoDir, "lisp/testing.lsp"), f).CombinedOutput()
		nres := string(out)
		if i := strings.Index(nres, "SELF:"); i >= 0 {
			nres = strings.TrimSpace(nres[i+5:])
		}
		res = strings.TrimSpace(res)
		if end.kind != "done" || res != nres {
			bad++
			fmt.Printf("MISMATCH %s: engine %s %s\n  engine: %s\n  native: %s (%v)\n", filepath.Base(f), end.kind, end.msg, trunc(res, 1500), trunc(nres, 1500), nerr)
		} else {
			fmt.Printf("ok %s %s (%d steps)\n", filepath.Base(f), trunc(res, 60), steps)
		}
	}
	if bad > 0 {
		return 1
	}
	return 0
}
