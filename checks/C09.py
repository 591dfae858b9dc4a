"""C09: address lookups return exactly the addresses in the asked range."""
from qgen import *

def run(ctx):
    r = ctx.rng
    exe = ctx.build_dns("drv_dns.c")
    ctx.mc("AddrMC", "AddrMC2.cfg" if ctx.thorough else "AddrMC.cfg")
    ty = [A, A, A, AAAA, AAAA, AAAA, TXT, 65280, NS]
    stores = [gen_store(ctx, "%d" % i, r.choice([1, 1, 1, 2, 3]), r.choice([10, 20, 30, 40]), kinds=("rdata",), types=ty, mimic=r.choice([0, .3, .8])) for i in range(ctx.n(14, 80))]
    qs = []
    for _ in range(ctx.n(2500, 25000)):
        q = mkq(r, stores, Q_IP)
        put_data(r, q); put_rr(r, q, .1)
        qs.append(q.ord(r.randrange(4)).run())
    run_queries(ctx, exe, stores, qs)
