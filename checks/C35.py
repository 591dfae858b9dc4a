"""C35: both trees: every operation on every shape reachable with a few elements, and long histories with many."""
from vlib import *

CFG = "INIT Init\nNEXT Next\nINVARIANT CCInv\nCHECK_DEADLOCK FALSE\n"

def corrupt(c, r):
    es = [e for e in c["ev"] if e[0] != "=" and e[4]]
    if not es:
        return None
    e = r.choice(es)
    k = r.randrange(4)
    if k == 0 and e[0] in "irfgnpmM":
        e[2] = e[2] + 1
    elif k == 1:
        n = r.choice(e[4]); n[r.choice([1, 2])] = n[0]
    elif k == 2 and c["kind"] == "rb":
        n = r.choice(e[4]); n[3] = n[0]
    else:
        e[4].pop()
    return c

def run(ctx):
    r = ctx.rng
    ctx.mc("TreeMC", "TreeMC2.cfg" if ctx.thorough else "TreeMC.cfg")
    exe = ctx.build_my("drv_tree.c", only=["heap"])
    # every shape
    lines = ["explore rb %d %d" % (k, ctx.n(700, 6000)) for k in ((1, 3, 5, 7) if not ctx.thorough else (1, 3, 5, 7, 8))]
    lines += ["explore splay %d %d" % (k, ctx.n(400, 3000)) for k in (1, 2, 4, 5)]
    cases, shapes = [], 0
    for l, o in zip(lines, ctx.drive(exe, lines)):
        m = dict(kind=l.split()[1], again=1, ev=[], req=l)
        if "crash" in o:
            cases.append(dict(m, crash=o["crash"]))
            continue
        shapes += o["states"]
        cases += [dict(m, ev=h) for h in o["hs"]]
    bad = ctx.validate("TreeTrace", cases, corrupt=corrupt, nneg=30, cfg=CFG)
    for i in bad:
        ctx.violation("not allowed by Tree", cases[i])
    ctx.notes["shapes"] = shapes
    # long histories
    reqs = []
    for _ in range(ctx.n(80, 800)):
        kind = r.choice(["rb", "rb", "splay"])
        K = r.choice([3, 8, 20, 40])
        order = list(range(1, K + 1))
        how = r.choice(["up", "down", "random", "ends"])
        ops = []
        if how == "up":
            ops = ["i%d" % k for k in order]
        elif how == "down":
            ops = ["i%d" % k for k in reversed(order)]
        elif how == "ends":
            ops = ["i%d" % (k // 2 + 1 if k % 2 else K - k // 2) for k in range(K)]
        for _ in range(r.randint(0, 60)):
            o = r.choice("iiirrrfgnpmM" if kind == "rb" else "iiirrrfnmMS")
            ops.append("%s%d" % (o, r.randint(1, K)))
        if r.random() < .5:
            r.shuffle(order)
            ops += ["r%d" % k for k in order]
        reqs.append(("%s %s" % (kind, " ".join(["%d" % K] + ops)), dict(kind=kind, again=0)))
    def mkcase(m, o):
        if o and not o["empty"]:
            return dict(m, ev=[["?", 0, 0, 9, [], [], [], 0]])
        return dict(m, ev=o["ev"] if o else [])
    ctx.conform("TreeTrace", exe, reqs, mkcase, corrupt=corrupt, nneg=30, cfg=CFG, drive_kw=dict(shards=4))
    ctx.assumptions += ["elements with distinct keys that stay where they are while linked; both trees instantiated with one element type each"]
