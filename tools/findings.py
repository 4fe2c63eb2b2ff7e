#!/usr/bin/env python3
"""Writes known-findings.json: recorded (unrepaired) findings and the fix: commits of /repo."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FINDINGS = [
 dict(id="P25-slot-flag", property="P25",
  what="VH_P25_methods: whether a call runs as a method is kept in a flag of the shared Function (SlotFunction), written by every name lookup: "
       "when the same function is both a slot and a variable, another process looking the variable up between this process's lookup and its call "
       "makes the method run without its object (lookup in symbol_table_frame.go ValueOfWithFunctionSlotCheck, use in data.go Apply)"),
]

# commit subject -> property it broke
PROPS = """
5e9de04 P02
b477083 P02
dd7b98d P04
552a392 P03
69c64d3 P10
a202f69 P30
238cf6d P11
91e3de5 P11
213454d P01
e011be4 P15
fd6338f P02
fb43432 P30
b1a2920 P23
fc1b54f P16
c379bb0 P16
1c45584 P21
61e25fd P09
9978c49 P08
1fa8039 P22
f944fbd P10
9fffba8 P14
263b964 P30
eabad51 P15
1214d4d P17
05222ec P18
5a33a13 P29
9c1904a P07
deb4626 P07
5053cbc P23
e626a8e P23
057d3b2 P23
f161892 P21
77c28e6 P31
5b7fcc0 P31
75f17c5 P28
94233a9 P28
2254329 P28
6d8af6d P19
6ac34f7 P19
8b9412a P19
e91cb09 P19
070974e P20
3e1a326 P20
f06f95a P20
adf6490 P25
e5d8c8c P25
eb3eba1 P25
e800cc0 P25
6c75cff P25
1f24b63 P25
25c71d2 P25
b381bee P26
c1fa77b P26
9c8598d P24
0363553 P24
c7d0873 P24
4917f66 P24
623afc3 P24
8879c40 P33
09a38e5 P35
"""
def main():
    props = dict(l.split() for l in PROPS.split("\n") if l)
    log = subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
    fixed, missing = [], []
    for l in log.splitlines():
        h, s = l.split(" ", 1)
        if not s.startswith("fix: "):
            continue
        if h[:7] not in props:
            missing.append(l)
            continue
        fixed.append(f"fixed: property={props[h[:7]]} {h} {s[5:]}")
    json.dump(dict(findings=FINDINGS, fixed=fixed), open(os.path.join(here, "known-findings.json"), "w"), indent=1)
    print(len(FINDINGS), "findings;", len(fixed), "fixed;", "unmapped:", missing)
main()
