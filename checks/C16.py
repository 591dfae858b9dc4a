"""C16: names match without regard to letter case unless case is kept."""
from qgen import *

def run(ctx):
    r = ctx.rng
    exe = ctx.build_dns("drv_dns.c")
    ctx.mc("SplitMC", "SplitMC2.cfg" if ctx.thorough else "SplitMC.cfg")
    mixed = [name(x) for x in ("Example.com", "example.com", "EXAMPLE.COM", "www.Example.com", "www.example.com", "WWW.example.com", "eXample.org", "com", "COM", "a.Com", "a.com", "[x].com", "{x}.com", "@z.com", "`z.com")]
    stores = [gen_store(ctx, "%d" % i, r.choice([1, 1, 2]), r.choice([10, 20, 30]), names=mixed + [pick_name(r) for _ in range(3)]) for i in range(ctx.n(12, 50))]
    # targets in mixed case as well
    for i in range(ctx.n(4, 12)):
        ctx_files, rg = gen_files(r, 1, 24, kinds=("rdata",), types=[NS, CNAME, PTR, MX, SOA, NSEC])
        stores.append(Store(ctx, ctx_files, rg, "t%d" % i))
    qs = []
    for _ in range(ctx.n(2500, 20000)):
        q = mkq(r, stores, r.choice([Q_RRSET, Q_RRSET, Q_NAME]))
        if r.random() < .6:
            q.case(r.choice([0, 1, 1]))
        put_data(r, q, pwild=.3); put_rr(r, q, .2); put_bw(r, q, .4)
        if r.random() < .2:
            q.case(r.choice([0, 1]))
        q.run()
        if r.random() < .3:
            put_data(r, q, pwild=.3); q.run()
        qs.append(q)
    run_queries(ctx, exe, stores, qs)
