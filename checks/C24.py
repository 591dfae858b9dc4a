"""C24: unusable query parameters are refused and explained, and change nothing else."""
from qgen import *

def setting(r, q):
    """one random setting, usable or not, of any kind"""
    op = r.choice(["data", "data", "data", "rr", "rr", "bw", "bw", "fp", "fp", "case", "agg", "off", "odd"])
    k = q.kind
    if op == "data":
        c = r.random()
        if c < .12:
            q.null("data")
        elif c < .5:
            if k in (Q_RRSET, Q_NAME):
                q.bad("data", r.choice(BAD_NAMES))
            elif k == Q_RAW:
                q.bad("data", r.choice(BAD_RAW))
            elif k == Q_IP:
                q.bad("data", r.choice(BAD_IP))
            elif k == Q_VERSION:
                q.bad("data", r.choice(BAD_VT))
            else:
                q.bad("data", r.choice(["", "x", "example.com", "1.2.3.4"]))
        elif k in (Q_SOURCE, Q_TIME):
            q.bad("data", "example.com")
        else:
            put_data(r, q, pwild=.4)
    elif op == "rr":
        c = r.random()
        if c < .12:
            q.null("rr")
        elif c < .45:
            q.bad("rr", r.choice(BAD_RR))
        elif c < .6:
            q.any(r.choice(["ANY", "any", "TYPE255", "ANY-DNSSEC"]))
        else:
            q.rr(r.choice(RR_TYPES), r)
    elif op == "bw":
        c = r.random()
        if c < .15:
            q.null("bw")
        elif c < .45:
            q.bad("bw", r.choice(BAD_NAMES))
        else:
            q.bw(an_owner(r, q.store), r)
    elif op == "fp":
        c = r.random()
        if c < .6:
            q.fence(r.randrange(4), fence_val(r, q.store))
        elif c < .7:
            q.fence(r.randrange(4), None)
        elif c < .85:
            q.fence(r.choice([4, 5, 9, 100, 255]), r.choice([None, 1000]))
        else:
            q.fence(r.randrange(4), r.choice([None, 1000]), ln=r.choice([0, 1, 4, 7, 9, 16]))
    elif op == "case":
        q.case(r.randrange(2))
    elif op == "agg":
        q.agg(r.randrange(2))
    elif op == "off":
        q.off(r.choice([0, 1, 2, M64]))
    else:
        q.fence(r.choice([4, 5, 9, 100, 255]), 1000)

def run(ctx):
    r = ctx.rng
    exe = ctx.build_dns("drv_dns.c")
    stores = [gen_store(ctx, "%d" % i, r.choice([1, 2, 3]), r.choice([6, 12])) for i in range(ctx.n(14, 50))]
    for i in range(2):
        stores.append(Store(ctx, [{}], [None], "e%d" % i))
    qs = []
    for _ in range(ctx.n(3500, 30000)):
        q = mkq(r, stores, r.choice(KINDS + [Q_TIME, Q_VERSION, Q_SOURCE, Q_RAW, Q_IP]))
        for _ in range(r.choice([1, 1, 2, 3])):
            for _ in range(r.choice([1, 2, 3, 5, 8])):
                setting(r, q)
            if r.random() < .3:
                put_data(r, q, pwild=.3) if q.kind not in (Q_SOURCE, Q_TIME) else None
            f = q.store.files[0]
            q.run(r.choice([-1, -1, -1, 2]))
            for k in r.sample(sorted(f), min(len(f), r.randint(0, 2))):
                q.filt(k, f[k])
        qs.append(q)
    qs = [q for q in qs if not root_mx(q)]
    run_queries(ctx, exe, stores, qs)

def root_mx(q):
    """records kept unsliced cannot be told apart by a lookup of the root name narrowed to one-name types"""
    return q.kind == Q_NAME and any(e["e"] == "set" and e["op"] == "data" and e["m"].get("v") == [0] for e in q.ev)
