"""C17: testing an entry against a query agrees with running the query."""
from qgen import *

def run(ctx):
    r = ctx.rng
    exe = ctx.build_dns("drv_dns.c")
    ctx.mc("SplitMC", "SplitMC2.cfg" if ctx.thorough else "SplitMC.cfg")
    stores = [gen_store(ctx, "%d" % i, 1, r.choice([6, 10])) for i in range(ctx.n(16, 60))]
    qs = []
    for _ in range(ctx.n(1200, 10000)):
        q = mkq(r, stores, r.choice(KINDS + [Q_RRSET, Q_TIME, Q_VERSION, Q_SOURCE]))
        put_data(r, q, pwild=.5); put_rr(r, q, .4); put_bw(r, q, .5)
        if r.random() < .7:
            put_fences(r, q, r.choice([.2, .4]))
        f = q.store.files[0]
        q.run()
        for k in r.sample(sorted(f), min(len(f), 6)):
            q.filt(k, f[k])
        if r.random() < .3:
            k, v = stored(rnd_record(r))
            if len(k) < 600:
                q.filt(k, v)
        qs.append(q)
    run_queries(ctx, exe, stores, qs)
