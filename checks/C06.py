"""C06: rrset lookups by owner, type and bailiwick return exactly the matching records."""
from qgen import *

def run(ctx):
    r = ctx.rng
    exe = ctx.build_dns("drv_dns.c")
    stores = [gen_store(ctx, "%d" % i, r.choice([1, 1, 2, 3]), r.choice([6, 12, 20])) for i in range(ctx.n(14, 60))]
    qs = []
    for _ in range(ctx.n(2000, 20000)):
        q = mkq(r, stores, Q_RRSET)
        put_data(r, q, pwild=.05); put_rr(r, q); put_bw(r, q)
        qs.append(again(r, q.ord(r.randrange(4)).run(), .15, pwild=.3))
    run_queries(ctx, exe, stores, qs)
