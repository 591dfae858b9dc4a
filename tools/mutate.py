#!/usr/bin/env python3
"""mutate.py FILE N SEED OUT CHECK...: N random small changes of /repo's FILE, each in a scratch copy; which check notices first (developer tool)."""
import sys, re, random, subprocess, os, shutil, tempfile, threading
F, N, SEED, OUT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
CH = sys.argv[5:]
r = random.Random(SEED)
src = open("/repo/" + F).read().split("\n")
OPS = [(r"(?<![<\-=>])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![->=])>(?![>=])", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["1", "3"]), (r"\bcontinue;", ["break;"]), (r"\+\+", ["--"]), (r"\+=", ["-=", "="]), (r"if \(!", ["if ("]),
       (r"res_success\b", ["res_failure"]), (r"res_failure\b", ["res_success"]), (r"sizeof\((\w+)\)", ["1"]), (r"& 0x\w+", ["& 0xff"]), (r"<<", [">>"]), (r">>", ["<<"])]
cands, infun, comment = [], False, False
for i, l in enumerate(src):
    if l.startswith("{"): infun = True
    elif l.startswith("}"): infun = False
    t = l.strip()
    l0 = l; l = re.sub(r"/\*.*?(\*/|$)", lambda m: " " * len(m.group()), l)
    if not infun or t.startswith(("/*", "*", "//", "#", "assert")) or not t:
        continue
    for p, subs in OPS:
        for m in re.finditer(p, l):
            if '"' in l[:m.start()] and l[:m.start()].count('"') % 2: continue
            for s in subs:
                cands.append((i, l0[:m.start()] + s + l0[m.end():]))
    if re.match(r"^\s+[\w>\-\.\*\[\]\(\)]+ (=|\+=|-=) .*;$", l) or re.match(r"^\s+\w+\(.*\);$", l):
        if not re.match(r"^\s+(my_free|free|return|ubuf_destroy|mtbl_\w+_destroy)", l) and not re.match(r"^\s+(const |uint|size_t|int |struct |bool |char )", l):
            cands.append((i, re.match(r"^\s*", l).group() + ";"))
r.shuffle(cands)
cands = cands[:N]
lock = threading.Lock()
def one(i, new):
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        s = list(src); s[i] = new
        open(d + "/" + F, "w").write("\n".join(s))
        env = dict(os.environ, VERIF_REPO=d, VERIF_NOMC="1", VERIF_TIER="quick", VERIF_EVID=d + "/evid")
        for c in CH:
            p = subprocess.run(["timeout", "400", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "bin/check"), c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            if p.returncode == 1 and "VIOLATION" in p.stdout: return "killed by " + c
            if p.returncode != 0:
                return ("uncompilable" if "compile failed" in p.stdout else "broken rc=%d in %s: %s" % (p.returncode, c, p.stdout[-300:]))
        return "SURVIVED"
    finally:
        shutil.rmtree(d, ignore_errors=True)
def worker():
    while True:
        with lock:
            if not cands: return
            i, new = cands.pop()
        v = one(i, new)
        with lock:
            open(OUT, "a").write("%s:%d %s\n   - %s\n   + %s\n" % (F, i + 1, v, src[i].strip(), new.strip()))
ts = [threading.Thread(target=worker) for _ in range(int(os.environ.get("JOBS", "3")))]
[t.start() for t in ts]; [t.join() for t in ts]
