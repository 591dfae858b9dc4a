"""C23: a reader of a set file follows it.
Histories of one reader (set file replaced, reload requested, scans and reused query objects opened, read partly, read on after later reloads, closed) are
recorded through the real reader and checked as behaviours of Follow, each answer being what Query gives for the files listed."""
from qgen import *

CFG = "INIT FTInit\nNEXT FTNext\nINVARIANT CCInv\nCHECK_DEADLOCK FALSE\n"

def history(r, ix, st, setfile, fuzzy):
    n = len(st.files)
    toks, ev = [], []
    def listing():
        k = r.random()
        l = [] if k < .06 else r.sample(range(n), r.randint(1, n)) if k < .8 else [r.randrange(n)]
        l = l + ([n + 5] if r.random() < .15 else [])          # a file that does not exist
        r.shuffle(l)
        toks.append("list=" + (".".join(map(str, l)) or "-"))
        ev.append(dict(e="list", f=[i + 1 for i in l if i < n]))
    listing()
    toks.append("start=0"); ev.append(dict(e="start"))
    nq = r.randint(1, 3)
    for i in range(nq):
        q = mkq(r, [st], r.choice(KINDS + KINDS + [Q_TIME, Q_VERSION, Q_SOURCE]), 0, "s")
        put_data(r, q, pwild=.4); put_rr(r, q, .2); put_bw(r, q, .15)
        if r.random() < .4:
            put_fences(r, q, .3)
        if r.random() < .3:
            q.agg(0)
        if r.random() < .15:
            q.off(r.choice([1, 2]))
        toks.append("def=%d" % q.kind); ev.append(dict(e="def", kind=q.kind))
        toks.extend(q.toks); ev.extend(dict(e, n=i + 1) for e in q.ev)
    open_ = {}
    def opn():
        free = [k for k in (1, 2, 3) if k not in open_]
        if not free:
            return
        k = free[0]
        if r.random() < .3:
            w = r.choice([0, 1, 2, 3, 253, 254, 255, 1000])
            toks.append("scan=%d.%d" % (k, w)); ev.append(dict(e="scan", k=k, w=w))
        else:
            i = r.randint(1, nq)
            toks.append("ask=%d.%d" % (k, i)); ev.append(dict(e="ask", k=k, n=i))
        open_[k] = True
    def get(k, full):
        m = -1 if full else r.choice([0, 1, 1, 2, 3])
        toks.append("get=%d.%d" % (k, m)); ev.append(dict(e="get", k=k, n=1000000 if m < 0 else m))
    def close(k):
        toks.append("close=%d" % k); ev.append(dict(e="close", k=k)); del open_[k]
    def settle():
        for k in sorted(open_):
            if r.random() < .7:
                get(k, True)
            close(k)
    for _ in range(r.randint(4, 9)):
        k = r.random()
        if k < .25:
            listing()
            if r.random() < .3:
                listing()
        if k < .4:
            if not (fuzzy and r.random() < .6):
                settle()
            toks.append("reload"); ev.append(dict(e="reload"))
        opn()
        for s in sorted(open_):
            if r.random() < .6:
                get(s, r.random() < .4)
        if open_ and r.random() < .4:
            close(r.choice(sorted(open_)))
    settle()
    return "follow %s %s" % (setfile, " ".join(toks)), dict(store=ix, ev=ev)

def mkc(m, o):
    evs = [dict(e) for e in m["ev"]]
    obs = [e for e in evs if e["e"] in ("set", "get")]
    c = dict(store=m["store"], ev=evs)
    if o is None:
        for e in obs:
            e["out"] = {}
        return c
    if len(o["ev"]) != len(obs):
        c["crash"] = "driver answered %d events for %d" % (len(o["ev"]), len(obs))
    for e, g in zip(obs, o["ev"]):
        e["out"] = g
    return c

def corrupt_f(c, rng):
    """an answer that lacks an entry, or repeats one, or shows what another listing gives"""
    gets = [e for e in c["ev"] if e["e"] == "get" and e["out"]["res"]]
    if not gets:
        return None
    e = rng.choice(gets)
    res = e["out"]["res"]
    k = rng.random()
    if k < .4 and e["out"]["end"]:
        del res[rng.randrange(len(res))]
    elif k < .7 and e["out"]["end"]:
        res.append(dict(res[0]))
    else:
        i = rng.randrange(len(res))
        res[i]["t"] ^= 1
    return c

def run(ctx):
    r = ctx.rng
    exe = ctx.build_dns("drv_dns.c")
    ctx.mc("FollowMC", "FollowMC.cfg")
    ctx.mc("FollowMC", "FollowMC2.cfg")
    stores = [gen_store(ctx, "%d" % i, r.choice([2, 3, 3, 4]), r.choice([3, 5, 8]), windows=r.random() < .7, spread=r.choice([.3, .6])) for i in range(ctx.n(8, 30))]
    sf = os.path.join(ctx.dir, "stores.ndjson")
    with open(sf, "w") as fh:
        for s in stores:
            fh.write(json.dumps(s.json()) + "\n")
    reqs = []
    for j in range(ctx.n(1200, 9000)):
        i = r.randrange(len(stores))
        reqs.append(history(r, i + 1, stores[i], os.path.join(stores[i].dir, "set-%d" % j), r.random() < .5))
    ctx.conform("FollowTrace", exe, reqs, mkc, env=dict(STORES=sf), corrupt=corrupt_f, nneg=40, cfg=CFG, drive_kw=dict(shards=8))
