package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const targetPkg = "github.com/steelseries/golisp"

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

const readlineStub = `package golisp

func ReadLine(prompt *string) *string { return nil }
func AddHistory(line string)           {}
func ClearHistory()                    {}
func WriteHistoryToFile(f string)      {}
func LoadHistoryFromFile(f string)     {}
func TruncateHistoryFile(f string, n int) {}
`

// harnessFiles returns overlay path -> contents for the harness sources.
func harnessFiles() (map[string][]byte, []string, error) {
	out := map[string][]byte{}
	dir := filepath.Join(verifDir, "harness")
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, nil, err
	}
	var names []string
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return nil, nil, err
		}
		out[filepath.Join(repoDir, "zz_vh_"+e.Name())] = b
		f, err := parser.ParseFile(token.NewFileSet(), e.Name(), b, 0)
		if err != nil {
			return nil, nil, err
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "VH_") {
				names = append(names, fd.Name.Name)
			}
		}
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString("package golisp\n\nfunc init() {\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\tvRegistry[%q] = %s\n", n, n)
	}
	sb.WriteString("}\n")
	out[filepath.Join(repoDir, "zz_vh_registry.go")] = []byte(sb.String())
	out[filepath.Join(repoDir, "zz_vh_stub.go")] = []byte(readlineStub)
	return out, names, nil
}

func goEnv(cgo bool) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "CGO_ENABLED", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GOSUMDB":
			continue
		}
		env = append(env, e)
	}
	c := "0"
	if cgo {
		c = "1"
	}
	return append(env, "GOFLAGS=-mod=mod", "CGO_ENABLED="+c, "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off")
}

var interpPkgs = []string{
	targetPkg,
	"github.com/steelseries/bufrr", "github.com/SteelSeries/bufrr", "gopkg.in/fatih/set.v0", "github.com/SteelSeries/set.v0",
	"strings", "strconv", "unicode", "unicode/utf8", "sort", "slices", "container/list",
	"bytes", "bufio", "io", "math", "math/bits", "cmp", "iter", "internal/bytealg", "internal/stringslite",
	"internal/itoa", "unicode/utf16", 
}

func LoadProgram() (*Program, []*Harness, error) {
	ov, _, err := harnessFiles()
	if err != nil {
		return nil, nil, err
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Env:     goEnv(false),
		Overlay: ov,
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, nil, fmt.Errorf("load: %v", e)
		}
	}
	if len(pkgs) != 1 {
		return nil, nil, fmt.Errorf("expected one package, got %d", len(pkgs))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, funcs: map[*ssa.Function]*FuncInfo{}, globals: map[*ssa.Global]int{}, tinfos: map[types.Type]*tinfo{}, initPkgs: map[string]bool{}}
	p.target = spkgs[0]
	p.targetPath = targetPkg
	for _, n := range interpPkgs {
		p.initPkgs[n] = true
	}
	p.initPkgs[pkgs[0].PkgPath] = true
	p.intr = buildIntrinsics(targetPkg)
	p.newTimers = false
	if pkgs[0].Module != nil && pkgs[0].Module.GoVersion != "" {
		parts := strings.Split(pkgs[0].Module.GoVersion, ".")
		if len(parts) >= 2 {
			mi, _ := strconv.Atoi(parts[1])
			p.newTimers = mi >= 23
		}
	}
	// initialisers of packages that are not interpreted do nothing
	for _, sp := range prog.AllPackages() {
		if !p.initPkgs[sp.Pkg.Path()] {
			p.intr[sp.Pkg.Path()+".init"] = noop
		}
	}
	var hs []*Harness
	for _, f := range pkgs[0].Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "VH_") {
				continue
			}
			h := &Harness{Name: fd.Name.Name, Fn: p.target.Func(fd.Name.Name), Tier: "quick", Budget: 2000000, Secs: 60, Opts: map[string]string{}}
			parts := strings.Split(fd.Name.Name, "_")
			h.Prop = parts[1]
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//")
					if !strings.HasPrefix(t, "verif:") {
						h.Doc += strings.TrimSpace(t) + " "
						continue
					}
					kv := strings.SplitN(strings.TrimPrefix(t, "verif:"), " ", 2)
					val := ""
					if len(kv) > 1 {
						val = strings.TrimSpace(kv[1])
					}
					switch kv[0] {
					case "bounds":
						h.Bounds += val + " "
					case "tier":
						h.Tier = val
					case "budget":
						h.Budget, _ = strconv.ParseInt(val, 10, 64)
					case "secs":
						h.Secs, _ = strconv.Atoi(val)
					case "hang":
						h.Hang = true
					case "reach":
						for _, x := range strings.Split(val, ",") {
							h.ExpectReach = append(h.ExpectReach, strings.TrimSpace(x))
						}
					default:
						h.Opts[kv[0]] = val
					}
				}
			}
			h.Doc = strings.TrimSpace(h.Doc)
			h.Bounds = strings.TrimSpace(h.Bounds)
			hs = append(hs, h)
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	return p, hs, nil
}
