"""C34: the heap, over histories of all its operations with ties, rebuilds and clips."""
from vlib import *

def corrupt(c, r):
    e = r.choice(c["ev"])
    k = r.randrange(3)
    if k == 0 and e[4]:
        e[4][r.randrange(len(e[4]))] = len(c["key"]) + 7
    elif k == 1:
        e[3] += 1
    else:
        es = [e for e in c["ev"] if e[0] in "okr" and e[2]]
        if not es:
            return None
        e = r.choice(es)
        e[2] = 0
    return c

def run(ctx):
    r = ctx.rng
    ctx.mc("HeapMC", "HeapMC2.cfg" if ctx.thorough else "HeapMC.cfg")
    exe = ctx.build_my("drv_heap.c", only=["heap"])
    reqs = []
    for _ in range(ctx.n(260, 3000)):
        n = r.choice([4, 8, 20, 60])
        span = r.choice([1, 2, 3, 8, 1000])
        keys = [r.randint(-span, span) for _ in range(n)]
        free, held, loose, ops = list(range(1, n + 1)), 0, False, []
        bias = r.choice([.3, .5, .6, .8])
        for _ in range(r.randint(3, 2 * n + 10)):
            x = r.random()
            if x < .05:
                ops.append("x"); held = 0; loose = False; free = []
            elif x < .1:
                k = r.randint(0, held + 2); ops.append("c%d" % k); held = min(held, k)
            elif x < .1 + bias * .7 and free:
                i = free.pop(r.randrange(len(free)))
                if loose or r.random() < .3:
                    ops.append("a%d" % i); loose = True
                else:
                    ops.append("p%d" % i)
                held += 1
            elif loose:
                ops.append("h"); loose = False
            elif x < .75 and r.random() < .3 and free:
                ops.append("r%d" % free.pop(r.randrange(len(free))))
            elif r.random() < .2:
                ops.append("m%d" % r.randint(-span - 1, span + 1))
            elif r.random() < .3:
                ops.append("k")
                ops.append("o"); held = max(0, held - 1)
            elif r.random() < .1:
                ops.append("h")
            else:
                ops.append("o"); held = max(0, held - 1)
        if loose:
            ops.append("h")
        ops += r.choice([[], ["o"] * (held + 1)])
        mode = r.choice([0, 0, 1, 2])
        # an element that left the heap may come back: not exercised, so that its number says which it is
        reqs.append(("run %d %s %s" % (mode, ",".join(map(str, keys)), " ".join(ops)), dict(key=keys, mode=mode)))
    for _ in range(ctx.n(4, 20)):
        n = ctx.n(150, 400)
        keys = [r.randint(0, 50) for _ in range(n)]
        ids = r.sample(range(1, n + 1), n)
        half = n // 2
        ops = ["a%d" % i for i in ids[:half]] + ["h"] + ["p%d" % i for i in ids[half:]] + ["k", "o"] * n + ["o", "k"]
        reqs.append(("run 0 %s %s" % (",".join(map(str, keys)), " ".join(ops)), dict(key=keys, mode=0)))
    for _ in range(ctx.n(40, 400)):      # as a merge uses it: the least element moves on and is put back
        n = r.choice([2, 3, 5, 9, 17])
        span = r.choice([2, 8, 60])
        keys = [r.randint(-span, span) for _ in range(n)]
        ops = r.choice([["p%d" % i for i in range(1, n + 1)], ["a%d" % i for i in range(1, n + 1)] + ["h"]])
        at = -span
        for _ in range(r.randint(5, 60)):
            at += r.choice([0, 0, 1, 2])
            ops.append(r.choice(["m%d" % (at + r.choice([0, 0, 1, 3])), "m%d" % (at + r.randint(0, 2 * span)), "k"] + ["m%d" % r.randint(-span, 2 * span)]))
        ops += ["k", "o"] * n
        mode = r.choice([0, 0, 1, 2])
        reqs.append(("run %d %s %s" % (mode, ",".join(map(str, keys)), " ".join(ops)), dict(key=keys, mode=mode)))
    def mkcase(m, o):
        if o and not o["gone"]:
            return dict(m, ev=[["?", 0, 0, 0, [], 9]])
        return dict(m, ev=o["ev"] if o else [])
    ctx.conform("HeapTrace", exe, reqs, mkcase, corrupt=corrupt, nneg=40, cfg="INIT Init\nNEXT Next\nINVARIANT CCInv\nCHECK_DEADLOCK FALSE\n", drive_kw=dict(shards=4))
    ctx.assumptions += ["operations that need an ordered heap are used after a rebuild whenever elements were added without one"]
