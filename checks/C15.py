"""C15: answers do not depend on how data is split or ordered among files."""
from qgen import *

def run(ctx):
    r = ctx.rng
    exe = ctx.build_dns("drv_dns.c")
    ctx.mc("SplitMC", "SplitMC2.cfg" if ctx.thorough else "SplitMC.cfg")
    stores = []
    for b in range(ctx.n(6, 30)):       # one content, several divisions of it
        files, rngs = gen_files(r, r.choice([2, 3, 4]), r.choice([8, 16]), spread=r.choice([.4, .7]), windows=r.random() < .5)
        n = len(files)
        stores.append(Store(ctx, files, rngs, "b%d" % b))
        o = list(range(n)); r.shuffle(o)
        stores.append(Store(ctx, files, rngs, "b%do" % b, o))
        # scatter the observations over other files: those without time ranges, or with wide ones
        m = r.choice([1, 2, 3, 5])
        f2 = [dict() for _ in range(m)]
        for f in files:
            for k, v in f.items():
                if k[0] in (TIME_RANGE,):
                    continue
                free = [x for x in f2 if k not in x]
                if free:
                    r.choice(free)[k] = v
        r2 = [None] * m
        for i, x in enumerate(f2):
            if r.random() < .5:
                x[bytes([TIME_RANGE])] = varint(0) + varint(M64)
                r2[i] = (0, M64)
        stores.append(Store(ctx, f2, r2, "b%ds" % b))
    qs = []
    for _ in range(ctx.n(2500, 25000)):
        q = mkq(r, stores, r.choice(KINDS + [Q_TIME, Q_VERSION, Q_SOURCE]), src="s")
        k = aim(r, q) if q.kind < 4 and r.random() < .45 else None
        if k:
            aim_fences(r, q, k)
        else:
            put_data(r, q, pwild=.5); put_rr(r, q, .3); put_bw(r, q, .2)
            if r.random() < .3:
                put_fences(r, q)
        qs.append(q.ord(r.randrange(6)).run())
    run_queries(ctx, exe, stores, qs)
