"""Random queries aimed at what a store holds."""
from store import *

def owner_of(k):
    return rev(k[1:1 + uname_len(k[1:])])
def rrset_keys(s):
    return [k for k in s.keys if k[0] == RRSET]
def rdata_keys(s):
    return [k for k in s.keys if k[0] == RDATA]
def an_owner(r, s):
    rk = rrset_keys(s)
    return pick_name(r) if not rk or r.random() < .12 else owner_of(r.choice(rk))
def targets(s):
    o = []
    for k in rdata_keys(s):
        d, t = dec_rdata(k)
        n = uname_len(d)
        if t in NAME_SEARCH and n:
            o.append((d[:n], t))
    return o
def a_target(r, s):
    t = targets(s)
    return pick_name(r) if not t or r.random() < .12 else r.choice(t)[0]
def near(r, w):
    """a name next to w: parent, child, sibling, last byte changed"""
    ls = labels(w)
    k = r.random()
    if k < .3 and ls:
        ls = ls[1:]
    elif k < .5:
        ls = [r.choice([b"www", b"a", b"*", b"x"])] + ls
    elif k < .7 and ls:
        i = r.randrange(len(ls))
        ls[i] = ls[i][:-1] + bytes([ls[i][-1] ^ 1])
    elif k < .85 and ls:
        ls = ls[:-1]
    elif ls:
        ls = ls[::-1]
    w2 = wire(ls)
    return w2 if len(w2) <= 255 else w

def wild(r, w, side=None):
    """a wildcard pattern around w"""
    ls = labels(w)
    side = side or r.choice("LR")
    c = r.choice([b"*", b"*", b"+"])
    n = len(ls)
    # usually keep all but one label, so that something is found
    k = min(n, r.choice([0, 1, 1, 1, 2, 3]))
    if r.random() < .05:
        k = 0
    if side == "L":
        p = [c] + ls[k:]
    else:
        p = ls[:n - k] + [c]
    if r.random() < .04:
        p = [r.choice([b"*", b"+"])] + p
    if r.random() < .05 and len(p) > 1:       # not on a label boundary
        i = 1 if side == "L" else len(p) - 2
        if len(p[i]) > 1:
            p[i] = p[i][1:] if side == "L" else p[i][:-1]
    if r.random() < .08 and p:                # only looks like a wildcard at its end
        end = r.choice([b"\x01*", b"\x01+", b"*", b"\x01*", b"\x01*\0"])
        i = len(p) - 1
        if p[i] in (b"*", b"+") and i > 0 and r.random() < .7:
            p, i = p[:-1], i - 1
        x = p[i]
        p[i] = (x[:-len(end)] + end if len(x) > len(end) and r.random() < .6 else x[:40] + end)
    w2 = wire(p)
    return w2 if len(w2) <= 255 else wire([c])

def again(r, q, p=.2, **kw):
    """sometimes: use the query object for other data too, and then once more for the first"""
    if r.random() >= p:
        return q
    n = len(q.toks)
    put_data(r, q, **kw)
    if r.random() < .4:
        put_rr(r, q, .3)
    q.run()
    if r.random() < .3:
        put_data(r, q, **kw)
        q.run()
    return q

def kind_of(w):
    ls = labels(w)
    return "L" if ls and ls[0] in (b"*", b"+") else "R" if ls and ls[-1] in (b"*", b"+") else "E"

def some_type(r, s, kind):
    if kind == Q_RRSET:
        return r.choice(RR_TYPES)
    if r.random() < .85:
        ts = [dec_rdata(k)[1] for k in rdata_keys(s)]
        if ts:
            return r.choice(ts)
    return r.choice(RR_TYPES)

def put_data(r, q, pwild=.3, sides=None):
    """the searched data; returns whether a record type may follow"""
    s, k = q.store, q.kind
    if k == Q_RRSET:
        w = an_owner(r, s)
        if r.random() < .12:
            w = near(r, w)
        if r.random() < pwild:
            w = wild(r, w, sides)
        q.name(w, r)
    elif k == Q_NAME:
        w = a_target(r, s)
        if r.random() < .12:
            w = near(r, w)
        if r.random() < pwild:
            w = wild(r, w, sides)
        q.name(w, r)
        q.target = w
    elif k == Q_IP:
        put_ip(r, q)
    elif k == Q_RAW:
        rk = rdata_keys(s)
        if rk and r.random() < .9:
            key = r.choice(rk)
            d, t = dec_rdata(key)
            c = r.random()
            if c < .4:
                b = d
            elif c < .6:
                b = d[:r.randint(0, len(d))]
            elif c < .75:
                b = key[1:r.randint(1, len(key))]
            elif c < .9 and d:
                b = d[:-1] + bytes([d[-1] ^ 1])
            else:
                b = d + r.choice([b"\0", b"\1", varint(t), b"\xff"])
        else:
            b = bytes(r.randrange(256) for _ in range(r.randint(1, 4)))
        q.raw(b or b"\0", r)
    elif k == Q_VERSION:
        if r.random() < .6:
            t, v = r.choice([("rrset", 0), ("rrset_name", 1), ("rdata", 2), ("rdata_name", 3)])
            q.vtype(t, v)
    return q

def put_ip(r, q):
    s = q.store
    ads = {4: [], 16: []}
    for k in rdata_keys(s):
        d, t = dec_rdata(k)
        if t == A and len(d) == 4:
            ads[4].append(d)
        if t == AAAA and len(d) == 16:
            ads[16].append(d)
    fam = r.choice([4, 4, 16])
    pick = (pick4 if fam == 4 else pick6)
    def one():
        a = r.choice(ads[fam]) if ads[fam] and r.random() < .85 else pick(r)
        if r.random() < .15:
            v = int.from_bytes(a, "big") + r.choice([-1, 1])
            a = max(0, min(256 ** fam - 1, v)).to_bytes(fam, "big")
        return a
    c = r.random()
    a = one()
    if c < .3:
        q.addr(a)
    elif c < .65:
        n = r.choice([0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 30, 31, 32] + ([33, 40, 47, 48, 63, 64, 65, 96, 104, 112, 119, 120, 121, 126, 127, 128] if fam == 16 else []))
        q.prefix(a, n)
    else:
        b = one()
        if a > b and r.random() < .9:
            a, b = b, a
        q.range(a, b)

def put_rr(r, q, p=.5):
    """narrow by type where that is meaningful"""
    s, k = q.store, q.kind
    if r.random() >= p:
        if r.random() < .2 and k != Q_IP:
            q.any(r.choice(["ANY", "any", "TYPE255", "ANY-DNSSEC", "Type255", "Any-Dnssec"]))
        return q
    if k == Q_RRSET:
        q.rr(r.choice(RR_TYPES) if r.random() < .5 else rr_of(r, s), r)
    elif k == Q_NAME:
        ts = [t for _, t in targets(s)] or [NS]
        t = r.choice(ts)
        if r.random() < .5:
            mine = [t2 for n, t2 in targets(s) if n == q.target]
            t = r.choice(mine) if mine else t
        if q.target == b"\0" and t in (MX, SRV):
            t = NS
        q.rr(t, r)
    elif k == Q_RAW:
        q.rr(some_type(r, s, k), r)
    elif k == Q_IP and r.random() < .3:
        q.rr(r.choice([A, AAAA, NS]), r)
    return q

def rr_of(r, s):
    rk = rrset_keys(s)
    if not rk:
        return A
    k = r.choice(rk)
    p, t, sh = 1 + uname_len(k[1:]), 0, 0
    while True:
        b = k[p]; p += 1
        t |= (b & 127) << sh; sh += 7
        if b < 128:
            return t

def put_bw(r, q, p=.35):
    if q.kind == Q_RRSET and r.random() < p:
        o = an_owner(r, q.store)
        q.bw(r.choice([o, wire(labels(o)[1:]), wire(labels(o)[-1:]), b"\0", pick_name(r)]), r)
    return q

def fence_val(r, s):
    k = r.random()
    if k < .8:
        return r.choice(TM) + r.choice([0, 0, -1, 1])
    if k < .9:
        vs = [v for f in s.files for kk, v in f.items() if kk[0] in (0, 2)]
        if vs:
            return r.choice(triplet_of(r.choice(vs))[:2])
    return r.choice([0, 1, 999, 2000, M64, 2**32, 2**40])

def put_fences(r, q, p=.5):
    for w in range(4):
        if r.random() < p:
            q.fence(w, fence_val(r, q.store))
    return q

def aim(r, q, several=True):
    """search what finds one chosen record, preferably one that several files hold; returns its key"""
    s = q.store
    ks = [k for k in s.keys if k[0] in (RRSET, RDATA)]
    if not ks:
        put_data(r, q)
        return None
    many = [k for k in ks if sum(k in f for f in s.files) > 1]
    key = r.choice(many if several and many and r.random() < .9 else ks)
    if key[0] == RRSET:
        q.kind = Q_RRSET
        w = owner_of(key)
    else:
        d, t = dec_rdata(key)
        n = uname_len(d)
        if t == A and len(d) == 4 or t == AAAA and len(d) == 16:
            q.kind = Q_IP
            q.addr(d) if r.random() < .5 else q.prefix(d, r.choice([8, 16, 24, len(d) * 8]))
            return key
        if not (t in NAME_SEARCH and n) or r.random() < .2:
            q.kind = Q_RAW
            q.raw(d[:r.randint(1, len(d))] if d and r.random() < .5 else d or b"\0", r)
            return key
        q.kind = Q_NAME
        w = d[:n]
    if r.random() < .4:
        w = wild(r, w)
    q.name(w, r)
    q.target = w
    return key

def aim_fences(r, q, key):
    """fences around the times the files hold for that record"""
    vs = [triplet_of(f[key]) for f in q.store.files if key in f]
    lo, hi = [x[0] for x in vs] + [min(x[0] for x in vs)], [x[1] for x in vs] + [max(x[1] for x in vs)]
    ws = r.choice([[0, 3], [1, 3], [0, 2], [1, 2], [0], [1], [2], [3], [0, 1, 2, 3], [0, 1, 3], [0, 2, 3]])
    for w in ws:
        v = r.choice(lo if w < 2 else hi) + r.choice([0, 0, 0, -1, 1])
        q.fence(w, max(0, min(M64, v)))
    return q

def few_store(ctx, tag, **kw):
    """few names, many records of each, the files' times apart: fences that some files lie outside of and whose records are joined in"""
    r = ctx.rng
    return gen_store(ctx, tag, r.choice([2, 3, 4]), r.choice([8, 16]), names=[pick_name(r) for _ in range(r.choice([1, 2]))],
                     types=r.choice([[A, AAAA, NS, MX, TXT], [A, NS], [MX, SOA, A]]), windows=True, spread=r.choice([.5, .8]), **kw)

def fill_query(r, q):
    """everything of an owner name, with a fence that some of the files lie outside of; False if there are none"""
    rg = [x for x in q.store.ranges if x]
    ks = [x for x in q.store.keys if x[0] == RRSET]
    if len(rg) < 2 or not ks:
        return False
    q.kind = Q_RRSET
    q.name(owner_of(r.choice(ks)), r)
    if r.random() < .7: q.fence(3, max(0, r.choice(sorted(x[1] for x in rg)[1:]) - r.choice([0, 0, 1])))
    else: q.fence(0, r.choice(sorted(x[0] for x in rg)[:-1]) + r.choice([0, 0, 1]))
    if r.random() < .3: q.fence(r.choice([0, 1, 2]), fence_val(r, q.store))
    return True

def mkq(r, stores, kind, i=None, src=None):
    i = r.randrange(len(stores)) if i is None else i
    s = stores[i]
    q = Q(i + 1, s, kind, src or ("f" if len(s.files) == 1 and r.random() < .6 else "s"))
    return q

KINDS = [Q_RRSET, Q_RRSET, Q_NAME, Q_NAME, Q_IP, Q_RAW]
