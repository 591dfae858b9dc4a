"""C21: statistics counters count what the lookup really did."""
from qgen import *

def run(ctx):
    r = ctx.rng
    exe = ctx.build_dns("drv_dns.c")
    ctx.mc("FenceMC", "FenceMC.cfg")
    stores = [gen_store(ctx, "%d" % i, r.choice([1, 2, 3, 4, 5]), r.choice([8, 16, 24]), windows=r.random() < .7, spread=r.choice([.3, .6])) for i in range(ctx.n(16, 80))]
    stores += [few_store(ctx, "j%d" % i) for i in range(ctx.n(8, 30))]
    qs = []
    for _ in range(ctx.n(2500, 20000)):
        q = mkq(r, stores, r.choice(KINDS + KINDS + [Q_TIME, Q_VERSION, Q_SOURCE]))
        key = None
        if "st-j" in q.store.dir and r.random() < .6 and fill_query(r, q):
            q.srck = "s"
            key = False
        elif r.random() < .35 and len(q.store.files) > 1:
            q.srck = "s"
            key = aim(r, q)
        else:
            put_data(r, q, pwild=.5); put_rr(r, q, .3); put_bw(r, q, .4)
        if key is False:
            pass
        elif key is not None:
            aim_fences(r, q, key)
        elif r.random() < .7:
            put_fences(r, q, r.choice([.2, .5]))
        if r.random() < .2:
            q.agg(0)
        if r.random() < .3:
            q.off(r.choice([1, 2, 5, 1000]))
        q.stats().ord(r.randrange(4)).run(-1 if r.random() < .85 else r.randint(0, 3))
        qs.append(q)
    run_queries(ctx, exe, stores, qs, corrupt=corrupt_stats)
    ctx.conform("StatNamesTrace", exe, [("names", {})], lambda m, o: dict(stages=o["stages"] if o else [], cats=o["cats"] if o else [], bad=o["bad"] if o else 1), nneg=3)
