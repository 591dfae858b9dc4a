"""C28: what is held stays as it is, and everything is given back.
Lives of readers, queries, iterators, entries and texts, taken, used and given back in every permitted order, each lived three times over: recorded
through the real library (memory and descriptors in use after every step) and checked as behaviours of Life."""
from qgen import *

CFG = "INIT Init\nNEXT Next\nINVARIANT CCInv\nCHECK_DEADLOCK FALSE\n"
NQ, NI, NE, NT = 3, 3, 6, 3

def settings(r, q):
    """settings, some refused, some replaced"""
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        c = r.random()
        if c < .12:
            q.bad("data", r.choice(BAD_NAMES if q.kind in (Q_RRSET, Q_NAME) else BAD_IP if q.kind == Q_IP else BAD_RAW if q.kind == Q_RAW else BAD_VT))
        elif c < .16:
            q.null("data")
        put_data(r, q, pwild=.5)
    put_rr(r, q, .3); put_bw(r, q, .3)
    if r.random() < .1: q.bad("rr", r.choice(BAD_RR))
    if r.random() < .15: q.bad("bw", r.choice(BAD_NAMES))
    if r.random() < .1: q.null("bw")
    if r.random() < .5: put_fences(r, q, .5)
    if r.random() < .1: q.fence(r.randrange(4), None)
    if r.random() < .2: q.agg(0)
    if r.random() < .2: q.off(r.choice([1, 2, 50]))
    if r.random() < .2: q.to(r.choice([5, 50, 1000]))
    if r.random() < .15: q.dl(r.choice([5, 50, 1000]))
    if r.random() < .05: q.to(None)

def round_(r, st, srck):
    toks, ev = [], []
    def do(tok, e="use", k=0, n=0):
        toks.append(tok); ev.append(dict(e=e, k=k, n=n))
    held = dict(q={}, i={}, e=set(), t=set())       # q: slot -> asked by, i: slot -> query or 0
    opened = False
    f = st.files[0]
    rec = [(k, v) for g in st.files for k, v in g.items()]
    last = r.choice(["lifo", "entries last", "any"])
    def free(kind, n):
        x = [k for k in range(1, n + 1) if k not in held[kind]]
        return r.choice(x) if x else None
    def fin(kind, k):
        if kind == "i":
            do("close=%d" % k, "close", k); del held["i"][k]
        elif kind == "q":
            do("drop=%d" % k, "drop", k); del held["q"][k]
        elif kind == "e":
            do("free=%d" % k, "free", k); held["e"].discard(k)
        else:
            do("untext=%d" % k, "untext", k); held["t"].discard(k)
    for _ in range(r.choice([6, 12, 20, 30])):
        c = r.random()
        if not opened:
            do("open", "open"); opened = True
        if c < .12:
            k = free("q", NQ)
            if k:
                q = mkq(r, [st], r.choice(KINDS + KINDS + [Q_TIME, Q_VERSION, Q_SOURCE]), 0, srck)
                fill = "st-j" in st.dir and r.random() < .6 and fill_query(r, q)
                kk = not fill and aim(r, q) if q.kind in KINDS and r.random() < .5 else None
                if fill:
                    pass
                elif kk:
                    aim_fences(r, q, kk)
                else:
                    settings(r, q)
                do("def=%d.%d" % (k, q.kind), "def", k); held["q"][k] = q
                do("set=%d" % k)
                for t in q.toks: do(t)
                if r.random() < .3: do("err=%d" % k)
                if fill and free("i", NI) and free("e", NE):
                    j, x = free("i", NI), free("e", NE)
                    do("ask=%d.%d" % (j, k), "ask", j, k); held["i"][j] = k
                    for _ in range(r.choice([2, 12, 25])):
                        do("next=%d.%d" % (x, j), "next", x, j); held["e"].add(x); fin("e", x)
        elif c < .32:
            k = free("i", NI)
            if k and held["q"] and r.random() < .8:
                n = r.choice(sorted(held["q"]))
                do("ask=%d.%d" % (k, n), "ask", k, n); held["i"][k] = n
            elif k:
                w = r.choice([0, 1, 2, 3, 253, 254, 255, 1000])
                do("scan=%d.%d" % (k, w), "scan", k, w); held["i"][k] = 0
        elif c < .38:
            k = free("e", NE)
            if k and held["i"]:
                n = r.choice(sorted(held["i"]))
                for _ in range(r.choice([3, 12, 25])):
                    do("next=%d.%d" % (k, n), "next", k, n); held["e"].add(k); fin("e", k)
        elif c < .6:
            for _ in range(r.choice([1, 1, 2, 4])):
                k = free("e", NE)
                if k and held["i"]:
                    n = r.choice(sorted(held["i"]))
                    do("next=%d.%d" % (k, n), "next", k, n); held["e"].add(k)
                    if r.random() < .4: fin("e", k)
        elif c < .66:
            k = free("e", NE)
            if k and rec:
                kb, vb = r.choice(rec)
                if r.random() < .4: kb = kb[:r.randrange(len(kb))] or kb[:1]
                elif r.random() < .3: vb = vb[:-1]
                do("dec=%d.%s.%s" % (k, kb.hex() or "-", vb.hex() or "-"), "dec", k); held["e"].add(k)
        elif c < .74 and held["e"]:
            k = r.choice(sorted(held["e"])); do("look=%d" % k, "look", k)
        elif c < .8 and held["e"]:
            k = free("t", NT)
            if k:
                n = r.choice(sorted(held["e"]))
                do("text=%d.%d.%d" % (k, n, r.choice([0, 1, 2, 3, 6, 7, 11, 15])), "text", k, n); held["t"].add(k)
        elif c < .83 and held["t"]:
            k = r.choice(sorted(held["t"])); do("textlook=%d" % k, "textlook", k)
        elif c < .86:
            if srck == "s":
                l = r.sample(range(len(st.files)), r.randint(0, len(st.files)))
                do("list=" + (".".join(map(str, l)) or "-"))
            do("reload")
        elif c < .88 and held["q"] and held["e"]:
            do("filt=%d.%d" % (r.choice(sorted(held["q"])), r.choice(sorted(held["e"]))))
        elif c < .9 and held["i"]:
            do("stat=%d.%d.%d" % (r.choice(sorted(held["i"])), r.randrange(11), r.randrange(5)))
        elif c < .92:
            do("adv=%s" % ",".join(str(r.choice([0, 1, 30])) for _ in range(3)))
        elif c < .94:
            do("ord=%d" % r.randrange(4))
        else:
            hs = [("i", k) for k in held["i"]] + [("q", k) for k in held["q"] if k not in held["i"].values()] + [("e", k) for k in held["e"]] + [("t", k) for k in held["t"]]
            if hs: fin(*r.choice(sorted(hs)))
            elif opened and r.random() < .5:
                do("shut", "shut"); opened = False
    # everything back
    if last == "entries last":
        ks = ["i", "q", "R", "e", "t"]
    elif last == "lifo":
        ks = ["t", "e", "i", "q", "R"]
    else:
        ks = ["i", "R", "t", "q", "e"] if r.random() < .5 else ["e", "i", "R", "q", "t"]
    for x in ks:
        if x == "R":
            if opened: do("shut", "shut"); opened = False
        else:
            for k in r.sample(sorted(held[x]), len(held[x])):
                if x in "et" and r.random() < .7:
                    do(("look=%d" if x == "e" else "textlook=%d") % k, "look" if x == "e" else "textlook", k)
                fin(x, k)
    return toks, ev

def mkc(m, o):
    evs = [dict(e) for _ in range(3) for e in m["round"]]
    c = dict(ev=evs, warm=len(m["round"]))
    if o is None:
        for e in evs: e["out"] = {}
        return c
    if len(o["ev"]) != len(evs):
        c["crash"] = "driver answered %d events for %d" % (len(o["ev"]), len(evs))
    for e, g in zip(evs, o["ev"]):
        e["out"] = g
    return c

def corrupt_l(c, rng):
    """memory or a descriptor more at the end, or an entry that has changed meanwhile"""
    k = rng.random()
    looks = [e for e in c["ev"] if e["e"] in ("look", "textlook") and not e["out"]["none"]]
    if k < .4 and looks:
        e = rng.choice(looks)
        if e["e"] == "look": e["out"]["c"]["t"] ^= 1
        else: e["out"]["c"] = e["out"]["c"][:-1]
    elif k < .7:
        c["ev"][-1]["out"]["mem"] += rng.choice([1, 16, -8])
    elif k < .85:
        c["ev"][-1]["out"]["fds"] += 1
    else:
        gs = [i for i, e in enumerate(c["ev"]) if e["e"] in ("shut", "close")]
        del c["ev"][rng.choice(gs)]
    return c

def run(ctx):
    r = ctx.rng
    exe = ctx.build_dns("drv_life.c")
    ctx.mc("LifeMC", "LifeMC2.cfg" if ctx.thorough else "LifeMC.cfg")
    stores = [gen_store(ctx, "%d" % i, r.choice([1, 2, 2, 3, 4]), r.choice([3, 8, 16]), windows=r.random() < .7, spread=r.choice([.3, .5, .8])) for i in range(ctx.n(12, 40))]
    stores += [few_store(ctx, "j%d" % i) for i in range(ctx.n(8, 24))]
    for s in stores[:3]:            # malformed records among the others
        bad(r, s)
    reqs = []
    for j in range(ctx.n(700, 6000)):
        st = r.choice(stores)
        srck = "f" if len(st.files) == 1 and r.random() < .7 else "s"
        src = st.src("f") if srck == "f" else "s:" + os.path.join(st.dir, "life-%d" % j)
        if srck == "s":
            shutil.copy(st.setfile, src[2:])
        toks, ev = round_(r, st, srck)
        reqs.append(("life %s %s" % (src, " ".join(toks * 3)), dict(round=ev)))
    ctx.conform("LifeTrace", exe, reqs, mkc, corrupt=corrupt_l, nneg=40, cfg=CFG, drive_kw=dict(shards=8))
    ctx.assumptions += ["an iterator is closed before its query and its reader, as the manual's examples do; a query's settings stay as they are while it is being answered",
                        "memory is what the sanitizer's allocator counts; the stand-in for libmtbl counts with it"]

def bad(r, s):
    """a few undecodable records, in the files themselves"""
    for i, p in enumerate(s.paths):
        f = dict(s.files[i])
        for _ in range(4):
            k = r.choice(sorted(f))
            k2 = k[:r.randint(1, len(k))]
            f.setdefault(k2, r.choice([b"", b"\x80", f[k][:-1]]))
        if len(s.paths) == 1:
            s.files[i] = f
            with open(p, "wb") as fh:
                fh.write(b"SHIMTBL1")
                for k in sorted(f):
                    fh.write(len(k).to_bytes(4, "little") + len(f[k]).to_bytes(4, "little") + k + f[k])
