"""C12: unaggregated results list each file's observations separately."""
from qgen import *

def run(ctx):
    r = ctx.rng
    exe = ctx.build_dns("drv_dns.c")
    ctx.mc("FenceMC", "FenceMC.cfg")
    stores = [gen_store(ctx, "%d" % i, r.choice([1, 2, 3, 3, 4]), r.choice([5, 10, 16]), spread=r.choice([.5, .9]), windows=r.random() < .5) for i in range(ctx.n(18, 80))]
    stores += [few_store(ctx, "j%d" % i) for i in range(ctx.n(8, 30))]
    qs = []
    for _ in range(ctx.n(2500, 25000)):
        q = mkq(r, stores, r.choice(KINDS + [Q_TIME, Q_VERSION, Q_SOURCE]))
        if not ("st-j" in q.store.dir and r.random() < .6 and fill_query(r, q)):
            put_data(r, q, pwild=.4); put_rr(r, q, .25); put_bw(r, q, .2)
            if r.random() < .4:
                put_fences(r, q)
        if r.random() < .15:
            q.agg(1)
        q.agg(0)
        if r.random() < .2:
            q.off(r.randint(0, 4))
        q.ord(r.randrange(4)).run()
        if r.random() < .2:
            q.agg(1).run()
        qs.append(q)
    run_queries(ctx, exe, stores, qs)
