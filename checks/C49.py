"""C49: atomic counters and pointers, thread numbers and reading, under every interleaving of memory accesses within a bound."""
from vlib import *

CFG = "INIT Init\nNEXT Next\nINVARIANT CCInv\nCHECK_DEADLOCK FALSE\n"

def build(ctx, opt):
    d = os.path.join(ctx.dir, "c" + opt)
    os.makedirs(d)
    base = ["gcc", "-std=gnu11", "-g", opt, "-w", "-D_GNU_SOURCE", "-I" + HARN, "-I" + REPO, "-I" + REPO + "/libmy"]
    red = ["-fsanitize=thread", "-Dpthread_mutex_lock=q_mutex_lock", "-Dpthread_mutex_unlock=q_mutex_unlock", "-Dpthread_mutex_trylock=q_mutex_trylock",
           "-Dpthread_mutex_init=q_mutex_init", "-Dpthread_mutex_destroy=q_mutex_destroy", "-Dpthread_once=q_once", "-Dsched_yield=q_yield", "-Dpthread_yield=q_yield",
           "-Dusleep=q_usleep", "-Dnanosleep=q_nanosleep"] + ["-Dpthread_spin_%s=q_spin_%s" % (x, x) for x in ("init", "destroy", "lock", "trylock", "unlock")]
    ctx._cc(base + red + ["-c", HARN + "/conc_ops.c", "-o", d + "/ops.o"])
    ctx._cc(base + red + ["-c", REPO + "/libmy/threadnum.c", "-o", d + "/threadnum.o"])
    ctx._cc(base + [HARN + "/drv_conc.c", d + "/ops.o", d + "/threadnum.o", "-o", d + "/drv", "-lpthread"])
    return d + "/drv"

def corrupt(c, r):
    if c["op"] == "rb":
        c["out"]["taken"] += 1
        return c
    if c["op"] == "seq":
        e = r.choice(c["ev"]); e[r.choice([2, 3])][r.randrange(4)] ^= 1
        return c
    e = r.choice([e for e in c["ev"] if e[0] == "r"])
    e[3] += r.choice([50, -60])
    return c

def run(ctx):
    r = ctx.rng
    for k in ("cnt", "ptr", "thr"):
        ctx.mc("ConcMC", "ConcMC_%s%s.cfg" % (k, "2" if ctx.thorough else ""))
    exes = [build(ctx, "-O1"), build(ctx, "-O2")]
    CNT = ["add:1", "add:2", "add:-3", "sub:1", "sub:-2", "inc:0", "dec:0", "zero:0", "subt:1", "subt:2", "dect:0", "inct:0", "addn:-2", "addn:1", "read:0"]
    PTR = ["pset:1", "pset:2", "pset:3", "read:0"]
    lines = []
    def thread(ops, n): return ",".join(r.choice(ops) for _ in range(n))
    for kind, ops in (("a32", CNT), ("a64", CNT)):
        for a in ops:
            for b in (ops if ctx.thorough else r.sample(ops, 5)):
                lines.append("explore %s %d 3 %s %s" % (kind, r.choice([0, 1, -1, 2, -2]), a, b))
        for _ in range(ctx.n(4, 40)):
            lines.append("explore %s %d 2 %s %s" % (kind, r.choice([0, 1, -1]), thread(ops, 2), thread(ops, 2)))
            lines.append("random %s %d %d %d %s" % (kind, r.choice([0, 1, -3, 7]), r.randrange(1 << 30), ctx.n(150, 600), " ".join(thread(ops, r.randint(1, 3)) for _ in range(3))))
    for a in PTR:
        for b in PTR:
            lines.append("explore ptr %d 4 %s %s" % (r.choice([0, 1, 2]), a, b))
    for _ in range(ctx.n(5, 40)):
        lines.append("explore ptr 0 2 %s %s" % (thread(PTR, 2), thread(PTR, 2)))
        lines.append("random ptr %d %d %d %s" % (r.randint(0, 3), r.randrange(1 << 30), ctx.n(200, 600), " ".join(thread(PTR, r.randint(1, 3)) for _ in range(3))))
    lines += ["explore thr 0 3 reg:0 reg:0", "explore thr 0 2 reg:0,reg:0 reg:0", "explore thr 0 2 reg:0 reg:0 reg:0"]
    for _ in range(ctx.n(2, 20)):
        lines.append("random thr 0 %d %d %s" % (r.randrange(1 << 30), ctx.n(150, 600), " ".join(["reg:0"] * r.randint(2, 4))))
    cases, runs, seen = [], 0, set()
    for e in exes:
        for l, o in zip(lines, ctx.drive(e, lines, shards=8)):
            w = l.split()
            m = dict(op="h", kind=w[1], v0=int(w[2]), ev=[], req=l)
            if "crash" in o:
                cases.append(dict(m, crash=o["crash"]))
                continue
            runs += o["runs"]
            for h in o["hs"]:
                k = (w[1], w[2], json.dumps(h))
                if k not in seen:
                    seen.add(k); cases.append(dict(m, ev=h))
    ctx.notes["schedules_run"] = runs
    ctx.notes["different_histories"] = len(cases)
    # the whole range of values, one thread
    sl = []
    for kind in ("a32", "a64"):
        for _ in range(ctx.n(80, 1500)):
            w = 32 if kind == "a32" else 64
            v = r.choice([0, 1, -1, 2**(w - 1) - 1, -2**(w - 1), 2**31 - 1, -2**31, r.getrandbits(w - 1), -r.getrandbits(w - 1), r.getrandbits(w // 2)])
            ops = []
            for _ in range(r.randint(1, 12)):
                o = r.choice(["add", "sub", "inc", "dec", "zero", "subt", "dect", "inct", "addn", "read", "add", "sub", "subt", "addn", "inct", "dect"])
                ops.append("%s:%d" % (o, r.choice([0, 1, -1, 2, 2**31 - 1, -2**31 + 1, r.randrange(-2**31 + 1, 2**31), max(-2**31 + 1, min(2**31 - 1, v)), max(-2**31 + 1, min(2**31 - 1, -v))])))
            sl.append(("seq %s %d %s" % (kind, v, " ".join(ops)), dict(op="seq", kind=kind, v=limbs(v % 2**64))))
    for need in range(0, 9):
        for _ in range(ctx.n(25, 300)):
            s = []
            for _ in range(r.randint(0, 8)):
                s.append(r.choice([-1, -1, 0, -2]) if r.random() < 0.35 else r.choice([1, 1, 2, 3, need + 1, r.randint(1, 9)]))
            if r.random() < .4: s = [x for x in s if x not in (0, -2)] + [1] * need
            t = {-1: "e", 0: "z", -2: "x"}
            sl.append(("rb %d %s" % (need, " ".join(t.get(x, "d%d" % x) for x in s)), dict(op="rb", kind="rb", need=need, script=s)))
    for n in (300, 5000):
        s = [r.randint(1, 90) if r.random() < .9 else -1 for _ in range(n // 20)]
        sl.append(("rb %d %s" % (n, " ".join("e" if x < 0 else "d%d" % x for x in s)), dict(op="rb", kind="rb", need=n, script=s)))
    for (l, m), o in zip(sl, ctx.drive(exes[0], [x[0] for x in sl])):
        c = dict(m, req=l, ev=[], out=dict(ok=0, taken=0, bs=[]))
        if "crash" in o: c["crash"] = o["crash"]
        elif m["op"] == "seq": c["ev"] = o["ev"]
        else: c["out"] = o
        cases.append(c)
    for i in ctx.validate("ConcTrace", cases, corrupt=corrupt, nneg=60, cfg=CFG)[:12]:
        ctx.violation("rejected by ConcTrace", dict(request=cases[i]["req"], case=cases[i], module="ConcTrace"))
    ctx.assumptions += ["interleavings of memory accesses under sequential consistency; accesses of the compiled code at -O1 and -O2", "the numbers of unregistered threads are not judged"]
