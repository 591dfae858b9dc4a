"""C10: raw rdata lookups return exactly the records with those bytes."""
from qgen import *

def run(ctx):
    r = ctx.rng
    exe = ctx.build_dns("drv_dns.c")
    stores = [gen_store(ctx, "%d" % i, r.choice([1, 1, 2, 3]), r.choice([10, 20, 30]), kinds=("rdata",)) for i in range(ctx.n(14, 60))]
    qs = []
    for _ in range(ctx.n(2500, 25000)):
        q = mkq(r, stores, Q_RAW)
        put_data(r, q); put_rr(r, q, .4)
        qs.append(q.ord(r.randrange(4)).run())
    run_queries(ctx, exe, stores, qs)
