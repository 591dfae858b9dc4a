"""C08: rdata name lookups return exactly the records naming that name."""
from qgen import *

def run(ctx):
    r = ctx.rng
    exe = ctx.build_dns("drv_dns.c")
    ctx.mc("NameMC", "NameMC2.cfg" if ctx.thorough else "NameMC.cfg")
    ty = [t for t in RR_TYPES if t in NAME_SEARCH] * 2 + [TXT, A, AAAA, DS, 65280]
    stores = [gen_store(ctx, "%d" % i, r.choice([1, 1, 2, 3]), r.choice([8, 16, 24]), names=ff_names(r) if i % 3 == 2 else None, kinds=("rdata",), types=ty) for i in range(ctx.n(14, 60))]
    qs = []
    for _ in range(ctx.n(2500, 25000)):
        q = mkq(r, stores, Q_NAME)
        put_data(r, q, pwild=.5); put_rr(r, q, .45)
        qs.append(again(r, q.ord(r.randrange(4)).run(), .2, pwild=.7))
    run_queries(ctx, exe, stores, qs)
