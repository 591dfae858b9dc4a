"""C13: an offset skips exactly that many results, and queries can be run again."""
from qgen import *

def run(ctx):
    r = ctx.rng
    exe = ctx.build_dns("drv_dns.c")
    stores = [gen_store(ctx, "%d" % i, r.choice([1, 2, 3]), r.choice([8, 16, 24])) for i in range(ctx.n(14, 60))]
    stores += [few_store(ctx, "j%d" % i) for i in range(ctx.n(8, 30))]
    qs = []
    for _ in range(ctx.n(2000, 20000)):
        q = mkq(r, stores, r.choice(KINDS + [Q_SOURCE, Q_VERSION]))
        if q.srck == "s" and "st-j" in q.store.dir and r.random() < .6 and fill_query(r, q):
            pass
        elif q.kind < 4 and r.random() < .3 and (k := aim(r, q)):
            aim_fences(r, q, k)
        else:
            put_data(r, q, pwild=.7); put_rr(r, q, .2); put_bw(r, q, .1)
            if r.random() < .35:
                put_fences(r, q, .3)
        if r.random() < .25:
            q.agg(0)
        q.off(r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 13, M64, 2**32, 2**32 + 1, 2**63]))
        q.ord(r.randrange(4)).run(r.choice([-1, -1, 0, 1, 2]))
        for _ in range(r.randint(1, 2)):
            if r.random() < .3:
                q.off(r.randint(0, 4))
            q.run(r.choice([-1, -1, 1, 2]))
        qs.append(q)
    run_queries(ctx, exe, stores, qs)
