package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func unhex(s string) string {
	b, err := hex.DecodeString(s)
	if err != nil {
		return s
	}
	return string(b)
}

func f32str(s string) string {
	u, _ := strconv.ParseUint(s, 10, 32)
	return fmt.Sprintf("%v(0x%x)", math.Float32frombits(uint32(u)), u)
}

type nativeBuild struct {
	once sync.Once
	dir  string
	bin  string
	race string
	err  error
	done chan struct{}
	raceOnce sync.Once
}

const replayMain = `package main

import "github.com/steelseries/golisp"

func main() { golisp.VReplayMain() }
`

func startNative() *nativeBuild {
	nb := &nativeBuild{done: make(chan struct{})}
	go func() {
		defer close(nb.done)
		nb.dir, nb.err = os.MkdirTemp("", "verif-native-")
		if nb.err != nil {
			return
		}
		nb.bin = filepath.Join(nb.dir, "replay")
		nb.err = nb.build(nb.bin, false)
	}()
	return nb
}

func (nb *nativeBuild) build(out string, race bool) error {
	ov, _, err := harnessFiles()
	if err != nil {
		return err
	}
	ov[filepath.Join(repoDir, "zzverif", "main.go")] = []byte(replayMain)
	rep := map[string]string{}
	i := 0
	for k, v := range ov {
		f := filepath.Join(nb.dir, fmt.Sprintf("ov%v_%d.go", race, i))
		i++
		if err := os.WriteFile(f, v, 0644); err != nil {
			return err
		}
		rep[k] = f
	}
	js, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(nb.dir, fmt.Sprintf("overlay%v.json", race))
	os.WriteFile(ovf, js, 0644)
	args := []string{"build", "-overlay", ovf, "-o", out}
	if race {
		args = append(args, "-race")
	} else {
		args = append(args, "-gcflags=all=-d=checkptr=1")
	}
	args = append(args, "./zzverif")
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv(race)
	if race {
		// cgo is needed by the race runtime; the readline binding stays stubbed
		rep[filepath.Join(repoDir, "goreadline.go")] = filepath.Join(nb.dir, "empty.go")
		os.WriteFile(filepath.Join(nb.dir, "empty.go"), []byte("package golisp\n"), 0644)
		js, _ := json.Marshal(map[string]any{"Replace": rep})
		os.WriteFile(ovf, js, 0644)
	}
	o, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v: %s", err, trunc(string(o), 600))
	}
	return nil
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (nb *nativeBuild) cleanup() {
	<-nb.done
	if nb.dir != "" {
		os.RemoveAll(nb.dir)
	}
}

type replayFile struct {
	Harness string  `json:"harness"`
	Tier    string  `json:"tier"`
	Inputs  []Input `json:"inputs"`
	Kind    string  `json:"kind"`
	Msg     string  `json:"msg"`
	Prefix  []int32 `json:"decisions,omitempty"`
	Native  string  `json:"native,omitempty"`
}

// replay runs the candidate natively; true if the real code fails.
func (nb *nativeBuild) replay(c *Candidate, tier, path string) (bool, string) {
	<-nb.done
	if nb.err != nil {
		return false, "unavailable: " + nb.err.Error()
	}
	rf := replayFile{Harness: c.Harness, Tier: tier, Inputs: c.Inputs, Kind: c.Kind, Msg: c.Msg, Prefix: c.Prefix}
	if err := dumpJSON(path, rf); err != nil {
		return false, err.Error()
	}
	bin := nb.bin
	runs := 1
	if c.Kind == "race" || c.Kind == "deadlock" {
		nb.raceOnce.Do(func() {
			nb.race = filepath.Join(nb.dir, "replayrace")
			if err := nb.build(nb.race, true); err != nil {
				nb.race = ""
			}
		})
		if nb.race != "" {
			bin = nb.race
		}
		runs = 20
	}
	fail, out := false, ""
	for i := 0; i < runs; i++ {
		fail, out = nb.runOnce(bin, path)
		if fail {
			break
		}
	}
	if fail {
		rf.Native = out
		dumpJSON(path, rf)
	} else {
		os.Remove(path)
	}
	return fail, out
}

func (nb *nativeBuild) runOnce(bin, path string) (bool, string) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	work, err := os.MkdirTemp("", "verif-run-")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(work)
	abs, _ := filepath.Abs(path)
	// bounded memory: allocation bugs must not take the sandbox down
	cmd := exec.CommandContext(ctx, "bash", "-c", fmt.Sprintf("ulimit -v 12000000; exec %q %q", bin, abs))
	if strings.HasSuffix(bin, "race") {
		cmd = exec.CommandContext(ctx, bin, abs)
	}
	cmd.Dir = work
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var buf bytes.Buffer
	cmd.Stdout = &limitW{b: &buf}
	cmd.Stderr = &limitW{b: &buf}
	err = cmd.Run()
	out := buf.String()
	if ctx.Err() != nil {
		return true, "did not terminate within 20s"
	}
	if strings.Contains(out, "WARNING: DATA RACE") {
		return true, "data race reported by the race detector"
	}
	if err == nil {
		return false, strings.TrimSpace(lastLine(out))
	}
	if ee, ok := err.(*exec.ExitError); ok {
		switch ee.ExitCode() {
		case 3:
			for _, l := range strings.Split(out, "\n") {
				if strings.HasPrefix(l, "VERIF-FAIL") {
					return true, l
				}
			}
			return true, "assertion failed"
		case 4, 5:
			return false, strings.TrimSpace(lastLine(out))
		}
		return true, trunc(firstPanic(out), 300)
	}
	return false, err.Error()
}

type limitW struct{ b *bytes.Buffer }

func (l *limitW) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func lastLine(s string) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	return ls[len(ls)-1]
}

func firstPanic(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	return strings.TrimSpace(s)
}

func replayCmd(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	nb := startNative()
	<-nb.done
	defer nb.cleanup()
	if nb.err != nil {
		fmt.Println(nb.err)
		return 2
	}
	fail, out := nb.runOnce(nb.bin, path)
	fmt.Println(rf.Harness, inputStr(rf.Inputs))
	fmt.Println(out)
	if fail {
		return 1
	}
	return 0
}
