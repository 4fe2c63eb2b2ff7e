#!/usr/bin/env python3
"""Plant the bugs of a spec file: python3 tools/mkseed.py SPEC.py [ID...]

A spec is a Python file that calls bug(id, prop, needs, breaks, edits, demo):
edits is a list of (file, old, new); demo is the body of a Go test function in
package golisp, with helpers ev(src) (value as text, or "ERR") and must(src,
want). The demonstration runs through a build overlay. Everything is confirmed
in /repo, which is restored after each bug."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# SEED_REPO=COPY works in a copy of /repo instead of /repo itself
R = os.environ.get("SEED_REPO", "/repo")
B = []
def bug(id, prop, needs, breaks, edits, demo): B.append((id, prop, needs, breaks, edits, demo))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

HEAD = '''package golisp

import (
	"fmt"
	"runtime"
	"sync"
	"testing"
	"time"
)

var _ = runtime.Gosched
var _ sync.Mutex
var zzT *testing.T

func ev(src string) (out string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprint("PANIC ", r)
			}
		}()
		r, err := ParseAndEval(src)
		if err != nil {
			done <- "ERR"
			return
		}
		done <- String(r)
	}()
	select {
	case out = <-done:
	case <-time.After(20 * time.Second):
		out = "HANG"
	}
	return
}

func must(src, want string) {
	if got := ev(src); got != want {
		zzT.Errorf("%s gives %s, expected %s", src, got, want)
	}
}

func TestZZDemo(t *testing.T) {
	zzT = t
'''
DEMO = '''#!/bin/bash
# Runs demo_test.go inside the package through a build overlay.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd /repo || exit 1
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$d/demo_test.go.txt" "$t/demo_test.go"
printf '{"Replace":{"/repo/zz_demo_test.go":"%s/demo_test.go"}}' "$t" > "$t/ov.json"
timeout 250 go test RACE-overlay "$t/ov.json" -run '^TestZZDemo$' -count=1 .
'''
def main():
    spec, only = sys.argv[1], sys.argv[2:]
    g = dict(bug=bug); exec(open(spec).read(), g)
    if sh(f"git -C {R} status --porcelain").stdout.strip(): sys.exit(R + " not clean")
    for id, prop, needs, breaks, edits, demo in B:
        if only and id not in only: continue
        d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
        race = "-race " if "//race" in demo else ""
        open(d+"/demo_test.go.txt", "w").write(HEAD + demo + "\n}\n" if "func TestZZDemo" not in demo else demo)
        open(d+"/demo.sh", "w").write(DEMO.replace("RACE", race)); os.chmod(d+"/demo.sh", 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d+"/meta.json", "w"), indent=1)
        st = []
        c = sh(f"d={d}; sed 's:^d=.*:d={d}:; s:/repo:{R}:g' {d}/demo.sh | bash", cwd=R)
        st.append("demo clean ok" if c.returncode == 0 else "DEMO FAILS CLEAN:\n" + c.stdout[-1500:])
        try:
            for f, old, new in edits:
                s = open(f"{R}/{f}").read()
                if s.count(old) != 1: st.append(f"EDIT {f}: {s.count(old)} matches for {old!r}"); break
                open(f"{R}/{f}", "w").write(s.replace(old, new))
            else:
                open(d+"/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
                b = sh(f"sed s:/repo:{R}:g /opt/vp/build.sh | bash")
                if b.returncode: st.append("BUILD " + b.stdout[-800:])
                t = sh(f"sed s:/repo:{R}:g /opt/vp/test.sh > /tmp/seed_test.sh; bash /tmp/seed_test.sh /tmp/seed_o.json").stdout.strip().splitlines()[-1]
                st.append(t if "562 passed" in t else "TESTS " + t)
                c = sh(f"d={d}; sed 's:^d=.*:d={d}:; s:/repo:{R}:g' {d}/demo.sh | bash", cwd=R)
                st.append("demo fails with bug" if c.returncode else "DEMO PASSES WITH BUG")
                c = sh(f"cd {V} && VERIF_REPO={R} VERIF_TIER=quick VERIF_SEED=1 timeout 900 bash check.sh {prop} quick")
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                st.append(f"check rc={c.returncode} " + ("CAUGHT " + v[0] if c.returncode == 1 and v else "MISSED " + c.stdout[-600:]))
        finally:
            sh(f"git -C {R} checkout -- .")
        print(id, prop, "|", " | ".join(st), flush=True)
main()
