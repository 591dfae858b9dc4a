#!/usr/bin/env python3
"""Writes known_findings.json: the defects found in /repo and repaired by "fix:" commits
(status fixed: these entries suppress nothing) and any recorded but unrepaired ones."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = dict(l.split(None, 1) for l in """c8f1579 C02
bbcae33 C02
a4c7923 C02
b04a505 C01
ed61213 C03
068caec C02
f1ac0af C02
c95ecc4 C19
edabd8d C05
73171c7 C22
9ee99db C18
7b5d29e C42
b071ca9 C05
9051760 C09
02ea56c C06
62d7617 C13
3fceef5 C07
f06b6ad C24
87aeadd C24
b54d445 C24
18512f8 C24
3916f7d C24
e101a01 C34
a82b67e C40
42a96ee C44
ae1a2aa C41
d25c024 C41
cea8762 C48
f5e3f9d C31
49062e9 C47
515bff7 C47
bfd7ce4 C47
a277fbd C20
ea69095 C24
beaf787 C24
3019000 C32
fcac347 C33
56656c3 C33
546a52f C37
6a22547 C39
e219d54 C39
0a77656 C39
13ba3ad C49
2bfeaec C47
b75321e C43
9d3eb2b C43
0aa07e6 C43
2e43c8c C43
3c0aa47 C43
74eb52d C43
65b43e1 C25
31ce8ac C14
9f17535 C27
f35e337 C47""".splitlines())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    pid = FIX.pop(h)
    out.append(dict(id="fix-" + h, property=pid, status="fixed", commit=h, what="fixed: property=%s %s %s" % (pid, h, s[5:])))
assert not FIX, FIX
json.dump(dict(findings=out), open(V + "/known_findings.json", "w"), indent=1)
print(len(out))
