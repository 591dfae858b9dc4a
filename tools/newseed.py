#!/usr/bin/env python3
"""Plant a bug: newseed.py SPEC.py   (developer tool; not used by any check)
SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], KIND ('dns'|'my'|'tool'),
DEMO (C source) and optionally SH (shell body run with $T scratch and $D own folder).
Writes /verif/seeded/ID, then confirms: builds, stable tests pass, demo passes without and fails with."""
import os, sys, subprocess, json, shutil
V = "/verif"; R = "/repo"
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec["ID"]; d = "%s/seeded/%s" % (V, ID)
def sh(c, **k): return subprocess.run(c, shell=True, cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert sh("git status --porcelain").stdout.strip() == "", "repo not clean"
os.makedirs(d, exist_ok=True)
try:
    for f, old, new in spec["EDITS"]:
        s = open(R + "/" + f).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(R + "/" + f, "w").write(s.replace(old, new))
    p = sh("git diff").stdout
    assert p
    open(d + "/patch.diff", "w").write(p)
finally:
    sh("git checkout -- .")
# are the changed lines original ones?
base = sh("git rev-list --max-parents=0 HEAD").stdout.strip()
for f, old, new in spec["EDITS"]:
    o = sh("git show %s:%s" % (base, f)).stdout
    if old not in o: print("NOTE: context of %s differs from the original; check the changed lines" % f)
K = spec["KIND"]
if K in ("dns", "tool"):
    shutil.rmtree(d + "/shim", ignore_errors=True); shutil.copytree(V + "/harness/shim", d + "/shim")
if spec.get("DEMO"): open(d + "/demo.c", "w").write(spec["DEMO"])
h = '#!/bin/bash\n# cwd: the repository.  Exit 0: the property holds on this demonstration.\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\nexport ASAN_OPTIONS=detect_leaks=0 TZ=UTC LC_ALL=C\n'
if K == "dns":
    h += 'F="-include $D/shim/config.h -I$D/shim -I. -Idnstable -D_GNU_SOURCE -std=gnu11 -w -g -O1 -fsanitize=address"\n'
    h += 'gcc $F dnstable/*.c libmy/my_format.c libmy/varint.c libmy/b64_encode.c libmy/heap.c libmy/my_fileset.c libmy/argv.c $D/shim/*.c $D/demo.c -o "$T/demo" -lm || exit 2\n'
elif K == "my":
    h += 'gcc -I. -Ilibmy -D_GNU_SOURCE -std=gnu11 -w -g -O1 -fsanitize=address %s $D/demo.c -o "$T/demo" -lpthread -lm || exit 2\n' % spec.get("SRC", "")
elif K == "tool":
    h += 'F="-include $D/shim/config.h -I$D/shim -I. -Idnstable -D_GNU_SOURCE -std=gnu11 -w -g -O1 -fsanitize=address"\n'
    h += 'for t in lookup dump; do gcc $F src/dnstable_$t.c dnstable/*.c libmy/my_format.c libmy/varint.c libmy/b64_encode.c libmy/heap.c libmy/my_fileset.c libmy/argv.c $D/shim/*.c -o "$T/$t" -lm || exit 2; done\n'
    if spec.get("DEMO"): h += 'gcc $F $D/demo.c $D/shim/*.c -o "$T/demo" -lm || exit 2\n'
h += spec.get("SH", 'cd "$T" && timeout 60 ./demo\n')
open(d + "/demo.sh", "w").write(h)
os.chmod(d + "/demo.sh", 0o755)
json.dump(dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
shutil.copy(sys.argv[1], d + "/seed.py.diff") if False else None
def demo():
    cp = "/tmp/seedcopy"; shutil.rmtree(cp, ignore_errors=True); shutil.copytree(d, cp)
    r = sh("bash %s/demo.sh" % cp); shutil.rmtree(cp); return r
sh("bash /opt/vp/build.sh")
a = demo()
try:
    x = sh("git apply %s/patch.diff" % d); assert x.returncode == 0, x.stdout
    b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
    c = demo()
finally:
    sh("git checkout -- ."); sh("bash /opt/vp/build.sh")
tt = json.load(open("/tmp/seedtest.json"))
fails = [k for k in str(tt).split() if "fail" in k.lower()]
print(ID, "clean demo rc", a.returncode, a.stdout[-600:] if a.returncode else "", "| build", b.returncode, "tests", t.returncode, str(tt)[-160:], "| patched demo rc", c.returncode, c.stdout[-300:])
print("OK" if a.returncode == 0 and c.returncode not in (0, 2, 124) and b.returncode == 0 else "*** NOT GOOD")
