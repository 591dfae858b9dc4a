"""C48: time arithmetic, conversions and sleeping on a simulated clock."""
from vlib import *

CFG = "CONSTANT Second = 1000000000\nINIT CCInit\nNEXT CCNext\nINVARIANT CCInv\nCHECK_DEADLOCK FALSE\n"

def corrupt(c, r):
    o = c["out"]
    k = r.choice(sorted(o))
    if k == "cmp":
        o[k] = 1 if o[k] <= 0 else -1
    else:
        x = o[k][0] if k == "self" else o[k]
        if r.random() < 0.5:
            x[0][3] ^= 2
        else:
            x[1] = (x[1] + 5000) % 10**9
    return c

def T(t):
    return [limbs(t[0] % 2**64), t[1]]

def run(ctx):
    r = ctx.rng
    ctx.mc("TimeMC", "TimeMC2.cfg" if ctx.thorough else "TimeMC.cfg")
    B = 10**9
    reqs = {}
    def ns(): return r.choice([0, 1, 2, B - 1, B - 2, B // 2, 1000, 999, r.randrange(B)])
    def sec(): return r.choice([0, 1, -1, 2, 59, -86400, 2**31 - 1, 2**31, -2**31, 2**32, 2**40, 2**61, -2**61, r.randrange(2**31), r.randrange(-1000, 1000)])
    f = "%d:%d"
    for s1 in (0, 1, -1, 5):
        for s2 in (0, 1, -1, 5):
            for n1 in (0, 1, B // 2, B - 1):
                for n2 in (0, 1, B // 2, B - 1):
                    a, b = (s1, n1), (s2, n2)
                    reqs["ari %s %s" % (f % a, f % b)] = dict(op="ari", a=T(a), b=T(b))
    for _ in range(ctx.n(500, 10000)):
        a = (sec(), ns()); b = r.choice([(sec(), ns()), (a[0], ns()), (a[0] + 1, a[1]), a])
        reqs["ari %s %s" % (f % a, f % b)] = dict(op="ari", a=T(a), b=T(b))
        s = (r.choice([0, 1, 2, 2**20, 2**30, 2**31 - 1, r.randrange(2**r.randint(1, 31))]), ns())
        reqs["dbl " + f % s] = dict(op="dbl", a=T(s))
        k = r.randint(0, 9); w = r.choice([0, 1, r.randrange(2**21)]); m = r.choice([0, 1, 2**k - 1, r.randrange(2**k)]) % 2**k
        a = (w, m * (B >> k))
        reqs["frac %s %d %d" % (f % a, (w << k) + m, k)] = dict(op="frac", a=T(a))
        a = (r.choice([0, 1, 1700000000, r.randrange(2**32)]), ns())
        reqs["now " + f % a] = dict(op="now", a=T(a))
        a = (r.choice([0, 0, 1, 3, 100000]), ns())
        tot = a[0] * B + a[1]
        i = [r.choice([0, 1, min(tot // 2, B), r.randrange(max(1, min(tot // 3, B)))]) for _ in range(r.choice([0, 0, 1, 2, 5, 30]))]
        late = r.choice([0, 0, r.randrange(B)])
        reqs["slp %s %s l%d" % (f % a, " ".join("i%d" % x for x in i), late)] = dict(op="slp", a=T(a), late=late)
    rq = sorted(reqs.items())
    for name, d in (("tod", []), ("clk", ["-DHAVE_CLOCK_GETTIME=1"])):
        exe = ctx.build_my("drv_time.c", only=["varint"], extra=d, name="time_" + name)
        q = rq if name == "tod" else [x for x in rq if x[0][:3] == "now" or r.random() < 0.2]
        ctx.conform("TimeTrace", exe, q, lambda m, o: dict(m, out=o or {}), corrupt=corrupt, nneg=30, cfg=CFG, drive_kw=dict(shards=4))
    ctx.assumptions += ["times handed in are normalised; seconds do not overflow 64 bits", "a time is preserved through a double to the resolution the double has at its size"]
