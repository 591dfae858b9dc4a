"""C36: linked lists: every short sequence of operations, and long random ones."""
from vlib import *

CFG = "INIT Init\nNEXT Next\nINVARIANT CCInv\nCHECK_DEADLOCK FALSE\n"

def corrupt(c, r):
    e = r.choice(c["ev"])
    k = r.randrange(5)
    s = r.choice(e[4])
    if k < 3:
        s[k] += 1
    elif k == 3:
        s[r.choice([3, 4])].append(9)
    else:
        j = r.randrange(len(e[5])); e[5][j] ^= 1
    return c

def apply(q, o):
    """the generator's own book-keeping, to name members correctly"""
    k, a = o[0], o[1:]
    if k in "PJ": q[a[0]].insert(0, a[1])
    elif k in "AIE": q[a[0]].append(a[1])
    elif k == "B": q[a[0]].insert(q[a[0]].index(a[1]), a[2])
    elif k == "F": q[a[0]].insert(q[a[0]].index(a[1]) + 1, a[2])
    elif k in "UTD": q[a[0]].remove(a[1])
    elif k == "C": q[a[0]] += q[a[1]]; q[a[1]] = []

def moves(q, ne):
    out = [x for x in range(1, ne + 1) if not any(x in l for l in q)]
    ms = []
    for l in range(len(q)):
        for x in out:
            ms += [(o, l, x) for o in "PAIJE"]
            ms += [(o, l, b, x) for b in q[l] for o in "BF"]
        ms += [(o, l, x) for x in q[l] for o in "UTD"]
        ms += [("C", l, k) for k in range(len(q)) if k != l]
    return ms

def fmt(o):
    return ":".join(map(str, o))

def run(ctx):
    r = ctx.rng
    ctx.mc("ListMC", "ListMC2.cfg" if ctx.thorough else "ListMC.cfg")
    exe = ctx.build_my("drv_list.c", only=["heap"])
    reqs = []
    def add(nl, ne, ops):
        reqs.append(("run %d %d %s" % (nl, ne, " ".join(map(fmt, ops))), dict(nl=nl)))
    # every sequence of two operations after every way of reaching lists of up to three elements in two lists
    starts = [[]]
    for n in range(1, 4):
        for cut in range(n + 1):
            starts.append([("A", 0 if i < cut else 1, i + 1) for i in range(n)])
    for s in starts:
        q = [[], []]
        for o in s:
            apply(q, o)
        for o in moves(q, 4):
            q2 = [list(x) for x in q]
            apply(q2, o)
            nxt = moves(q2, 4)
            add(2, 4, s + [o] + ([r.choice(nxt), ] if nxt else []))
            if ctx.thorough:
                for o2 in nxt:
                    add(2, 4, s + [o, o2])
    for _ in range(ctx.n(150, 2000)):
        nl, ne = r.randint(1, 3), r.choice([2, 5, 12])
        q, ops = [[] for _ in range(nl)], []
        for _ in range(r.randint(5, 50)):
            ms = moves(q, ne)
            if not ms:
                break
            k = r.choice(sorted({m[0] for m in ms}))
            o = r.choice([m for m in ms if m[0] == k])
            apply(q, o); ops.append(o)
        add(nl, ne, ops)
    ctx.conform("ListTrace", exe, reqs, lambda m, o: dict(m, ev=o["ev"] if o else []), corrupt=corrupt, nneg=40, cfg=CFG, drive_kw=dict(shards=4))
    ctx.assumptions += ["operations are given members and non-members as the macros require (their assertions are compiled out)"]
