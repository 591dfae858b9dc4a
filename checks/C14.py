"""C14: time limits end a lookup early and never lose or invent results."""
from qgen import *

def run(ctx):
    r = ctx.rng
    exe = ctx.build_dns("drv_dns.c")
    ctx.mc("TimeoutMC", "TimeoutMC.cfg")
    stores = [gen_store(ctx, "%d" % i, r.choice([1, 1, 2, 3]), r.choice([8, 16, 24]), windows=r.random() < .5) for i in range(ctx.n(14, 60))]
    stores += [few_store(ctx, "j%d" % i) for i in range(ctx.n(8, 30))]
    qs = []
    for _ in range(ctx.n(2500, 20000)):
        q = mkq(r, stores, r.choice(KINDS))
        if not ("st-j" in q.store.dir and r.random() < .6 and fill_query(r, q)):
            put_data(r, q, pwild=.7); put_rr(r, q, .3); put_bw(r, q, .2)
            if r.random() < .3:
                put_fences(r, q, .3)
        if r.random() < .15:
            q.agg(0)
        if r.random() < .15:
            q.off(r.randint(1, 3))
        step = r.choice([1, 7, 100, 999, 1000])
        k = r.random()
        if k < .75:
            q.to(r.choice([0, 1, 2, 3, 5, 1000, 2500, 10**6, 10**6 * 2]) * (step if r.random() < .7 else 1) % 2000000)
        if k > .5:
            q.dl(r.choice([0, 1, 3, 10, 30, 1000, 1999, 10**6]) * (step if r.random() < .7 else 1) % 2000000)
        if r.random() < .1:
            q.to(None)
        # mostly small steps with a few long ones, so that continuing always gets further
        q.adv([r.choice([0, 0, 1, step, step, r.randrange(0, 3 * step + 1)]) for _ in range(r.randint(1, 12))])
        q.ord(r.randrange(4))
        if r.random() < .35:       # limits changed, set or cleared on the way
            q.run(r.choice([0, 1, 1, 2, 3]))
            for _ in range(r.choice([1, 1, 2, 3])):
                if r.random() < .6: q.to(r.choice([None, None, 0, 1, step, 3 * step, 1999]))
                if r.random() < .6: q.dl(r.choice([None, None, 0, 3, 10 * step, 1999]))
                q.more(r.choice([0, 1, 1, 2, 4]))
            q.to(None).dl(None).more()
        else:
            q.run()
        if r.random() < .3:
            q.to(None).dl(None).run()
        qs.append(q)
    run_queries(ctx, exe, stores, qs, corrupt=corrupt_time)
