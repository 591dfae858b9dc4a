"""C11: time fences select exactly the records whose merged times satisfy them."""
from qgen import *

def run(ctx):
    r = ctx.rng
    exe = ctx.build_dns("drv_dns.c")
    ctx.mc("FenceMC", "FenceMC2.cfg" if ctx.thorough else "FenceMC.cfg")
    stores = [gen_store(ctx, "%d" % i, r.choice([1, 2, 2, 3, 3, 4]), r.choice([5, 10, 16]), spread=r.choice([.3, .5, .8]), windows=r.random() < .7) for i in range(ctx.n(24, 120))]
    stores += [few_store(ctx, "j%d" % i) for i in range(ctx.n(8, 30))]
    qs = []
    for _ in range(ctx.n(3000, 30000)):
        q = mkq(r, stores, r.choice(KINDS))
        if "st-j" in q.store.dir and r.random() < .6 and fill_query(r, q):
            pass
        elif r.random() < .5 and (k := aim(r, q)):
            aim_fences(r, q, k)
        else:
            put_data(r, q, pwild=.5); put_rr(r, q, .15); put_bw(r, q, .1); put_fences(r, q, r.choice([.3, .5, .8]))
        qs.append(q.ord(r.randrange(4)).run())
    run_queries(ctx, exe, stores, qs)
