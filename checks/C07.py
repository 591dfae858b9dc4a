"""C07: wildcard rrset lookups return exactly the names under the pattern."""
from qgen import *

def run(ctx):
    r = ctx.rng
    exe = ctx.build_dns("drv_dns.c")
    ctx.mc("NameMC", "NameMC2.cfg" if ctx.thorough else "NameMC.cfg")
    stores = [gen_store(ctx, "%d" % i, r.choice([1, 1, 2, 3]), r.choice([8, 16, 24]), names=ff_names(r) if i % 3 == 2 else None, kinds=("rrset",)) for i in range(ctx.n(14, 60))]
    qs = []
    for _ in range(ctx.n(2500, 25000)):
        q = mkq(r, stores, Q_RRSET)
        put_data(r, q, pwild=1); put_rr(r, q, .35); put_bw(r, q, .25)
        qs.append(again(r, q.ord(r.randrange(4)).run(), .2, pwild=.9))
    run_queries(ctx, exe, stores, qs)
