"""C37: vectors and byte buffers: every short sequence of operations, and long random ones across growth boundaries."""
from vlib import *

CFG = "INIT Init\nNEXT Next\nINVARIANT CCInv\nCHECK_DEADLOCK FALSE\n"

def corrupt(c, r):
    e = r.choice(c["ev"])
    s = r.choice(e[5])
    k = r.randrange(5)
    if k < 3:
        s[k] += 1
    elif s[3]:
        j = r.randrange(len(s[3])); s[k][j] ^= 1
    else:
        s[k].append(1)
    return c

def op(o, v, n=0, xs=(), x=None):
    t = "%s:%d:%d:%s" % (o, v, n, "".join("%04x" % y for y in xs) or "-")
    return t if x is None else t + ":%d" % x

def run(ctx):
    r = ctx.rng
    ctx.mc("VecMC", "VecMC2.cfg" if ctx.thorough else "VecMC.cfg")
    exe = ctx.build_my("drv_vec.c", only=["varint"])
    reqs = []
    def add(kind, nv, hint, ops):
        reqs.append(("run %s %d %d %s" % (kind, nv, hint, " ".join(ops)), dict(nv=nv)))
    def val(kind):
        return r.choice([0, 1, 34, 65, 255, r.randrange(256)]) if kind == "b" else r.choice([0, 1, 65535, r.randrange(65536)])
    def vals(kind, n):
        return [val(kind) for _ in range(n)]
    def txt(n):
        return [r.choice([37, 65, 92, 255, r.randrange(1, 256)]) for _ in range(n)]
    def cnt():
        return r.choice([0, 0, 1, 1, 2, 3, 5, 8, 17, r.randrange(70)] + ([r.choice([126, 127, 128, 254, 255, 256, 257, 511, 512, 600])] if r.random() < .1 else []))
    def rnd(kind, nv, o=None):
        v = r.randrange(nv)
        o = o or r.choice("iAAPPPXXCRVVDKZ" + ("ssffftccrrul" if kind == "b" else ""))
        if o in "iZ": return op(o, v, r.choice([0, 1, 2, 3, 7, 16]))
        if o == "A": return op(o, v, 0, vals(kind, 1))
        if o == "P": return op(o, v, 0, vals(kind, cnt()))
        if o == "X": return op(o, v, r.randrange(nv))
        if o == "C": return op(o, v, r.choice([0, 1, 2, 5, r.randrange(40), 10**6]))
        if o == "V":
            n = cnt(); return op(o, v, n, vals(kind, r.randint(0, n)))
        if o in "su": return op(o, v, 0, txt(cnt()))
        if o == "l": return op(o, v, 0, r.choice([[0x6c, 0x69, 0x74], txt(cnt())]))
        if o == "f": return op(o, v, r.randrange(5), txt(cnt()), r.choice([0, 7, -1, 12345, -2147483647, r.randrange(10**9)]))
        if o == "r": return op(o, v, r.choice([0, 1, 65, 255, 46]))
        return op(o, v)
    # every pair of operations after every fill level around a boundary
    for kind in "bwq":
        ops = "iAPXCRVDKZ" + ("sftcrul" if kind == "b" else "")
        for hint in (0, 1, 2, 4):
            for fill in range(0, 6):
                for a in ops:
                    b = r.choice(ops)
                    for b in ops if ctx.thorough else [b]:
                        pre = [op("P", 0, 0, vals(kind, fill))] + ([op("A", 0, 0, [0])] if r.random() < 0.3 else [])
                        add(kind, 2, hint, pre + [rnd(kind, 1, a), rnd(kind, 2, b), rnd(kind, 2)])
    # a byte buffer that doubles from its standard size, and one extended with itself over and over
    for kind in "bwq":
        add(kind, 1, 1, [op("A", 0, 0, [7])] + [op("X", 0, 0)] * 9 + [op("D", 0)])
        add(kind, 1, 3, [op("P", 0, 0, [1, 2, 3])] + [op("X", 0, 0), op("C", 0, 5)] * 4 + [op("D", 0)])
    for _ in range(ctx.n(220, 4000)):
        kind, nv = r.choice("bbbwq"), r.randint(1, 3)
        ops, tot = [], 0
        for _ in range(r.randint(5, 40)):
            ops.append(rnd(kind, nv))
            if ops[-1][0] == "X":
                tot += 1
                if tot % 3 == 0:
                    ops += [op("C", v, r.randrange(60)) for v in range(nv)]
        add(kind, nv, r.choice([0, 1, 2, 5, 64]), ops)
    ctx.conform("VecTrace", exe, reqs, lambda m, o: dict(m, ev=o["ev"] if o else []), corrupt=corrupt, nneg=40, cfg=CFG, drive_kw=dict(shards=4))
    ctx.assumptions += ["texts handed to the string helpers do not lie in the buffer they are added to"]
