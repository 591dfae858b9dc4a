"""C02: arbitrary bytes decode as the record grammar says, within bounds."""
from qgen import *

def damage(r, k):
    w = r.random()
    if len(k) < 2: return k + b"\x01"
    i = r.randrange(1, len(k))
    if w < .35: return k[:i]
    if w < .7: return k[:i] + bytes([r.choice([0, 1, 3, 4, 63, 64, 127, 128, 255, r.randrange(256)])]) + k[i + 1:]
    if w < .85: return k + bytes(r.choice([0, 1, 4, 128, 255]) for _ in range(r.randint(1, 3)))
    return k[:i] + k[i + 1:]

def run(ctx):
    r = ctx.rng
    ctx.mc("RecordMC", "RecordMC.cfg")
    exe = ctx.build_dns("drv_entry.c", extra=["-fsanitize=undefined", "-fno-sanitize=alignment"])
    reqs, seen = [], set()
    def add(k, v, top=3000):
        if (k, v) in seen or len(k) > top:
            return
        seen.add((k, v))
        reqs.append(("dec %s %s" % (hexs(k), hexs(v)), dict(op="dec", key=list(k), val=list(v))))
    small = [dict(kind=RRSET, name=name("a.b"), bailiwick=name("b"), rrtype=t, rdatas=[b"\x01", b"zz"], first=300, last=400, count=1) for t in (1, 300)]
    small += [dict(kind=RDATA, name=name("a.b"), rrtype=t, rdatas=[b"\x01zz"], slice=s, first=300, last=400, count=1) for t, s in ((1, 0), (300, 2))]
    small += [dict(kind=k, name=name("a.bc"), index=b"\x00\x01\x40") for k in (RRSET_NAME, RDATA_NAME)]
    small += [dict(kind=SOURCE, text=b"xy"), dict(kind=TIME_RANGE, first=300, last=400), dict(kind=VERSION, vkind=0, version=300)]
    for d in small:
        k, v = stored(d)
        for n in range(len(k) + 1):
            add(k[:n], v)
        for n in range(len(v) + 1):
            add(k, v[:n])
        for i in range(len(k)):
            for b in (0, 1, 2, 63, 64, 127, 128, 192, 255, k[i] ^ 1, (k[i] + 1) & 255):
                add(k[:i] + bytes([b]) + k[i + 1:], v)
            add(k[:i] + k[i + 1:], v)
        for i in range(len(v)):
            for b in (0, 1, 127, 128, 255):
                add(k, v[:i] + bytes([b]) + v[i + 1:])
        for x in (b"\0", b"\x80", b"\xff" * 11, b"\1\0", b"\x80\x80\x80\x80\x01", b"\x80" * 9 + b"\x01"):
            add(k + x, v); add(k, v + x); add(k, x)
    for b in range(256):
        add(bytes([b]), b""); add(bytes([b, 0, 1, 0]), b"\1\1\1"); add(bytes([b, 1]), b"\1")
    add(b"", b"")
    # rdata at and above the greatest length, whole and cut short
    for n in (65535, 65536, 65537, 65538):
        k = k_rrset(name("a.b"), 1, name("b"), [b"\x01" * n])
        add(k, b"\1\1\1", 80000); add(k[:-1], b"\1\1\1", 80000)
        for sl in (2, 3, 6, n - 65535):
            if 0 < sl and n - sl <= 65535:
                add(k_rdata(name("a.b"), 1, b"\x01" * n, sl), b"\1\1\1", 80000)
    for n in (2**16, 2**21, 2**28, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**35 + 4):     # lengths that only look right when cut to fewer bits
        k = k_rrset(name("a.b"), 1, name("b"), [])
        for b in (b"", b"\1", b"\1" * 4, b"\1" * 5):
            add(k + varint(n) + b, b"\1\1\1")
            add(k + varint(n + 1) + b, b"\1\1\1")
    for _ in range(ctx.n(2500, 40000)):
        k, v = stored(rnd_record(r))
        for _ in range(r.randint(1, 2)):
            w = r.random()
            tgt = k if r.random() < .7 or not v else v
            if not tgt:
                continue
            i = r.randrange(len(tgt))
            if w < .4:
                n = tgt[:i]
            elif w < .7:
                n = tgt[:i] + bytes([r.choice([0, 1, 63, 64, 127, 128, 255, r.randrange(256)])]) + tgt[i + 1:]
            elif w < .8:
                n = tgt[:i] + tgt[i + 1:]
            elif w < .9:
                n = tgt[:i] + bytes(r.randrange(256) for _ in range(r.randint(1, 3))) + tgt[i:]
            else:
                n = tgt + bytes(r.choice([0, 128, 255, r.randrange(256)]) for _ in range(r.randint(1, 11)))
            if tgt is k:
                k = n
            else:
                v = n
        add(k, v)
    for _ in range(ctx.n(800, 20000)):     # short noise after each type byte
        add(bytes([r.choice([0, 0, 1, 2, 2, 3, 254, 255, 255, r.randrange(256)])]) + bytes(r.choice([0, 1, 2, 3, 97, 128, 255]) for _ in range(r.randint(0, 9))),
            bytes(r.choice([0, 1, 127, 128, 255]) for _ in range(r.randint(0, 6))))
    def mk(m, o):
        return dict(m, out=o or {})
    ctx.conform("RecordTrace", exe, reqs, mk, drive_kw=dict(shards=4))
    # scans over sources that hold malformed records among well-formed ones
    pool = [(bytes(m["key"]), bytes(m["val"])) for _, m in reqs]
    sreqs = []
    for _ in range(ctx.n(150, 1500)):
        kv = {}
        for _ in range(r.randint(1, 12)):
            k, v = r.choice(pool) if r.random() < .6 else stored(rnd_record(r))
            if len(k) < 300:
                kv[k] = v
        kvs = sorted(kv.items())
        if kvs:
            sreqs.append(("scan " + " ".join("%s %s" % (hexs(k), hexs(v)) for k, v in kvs), dict(op="scan", kvs=[[list(k), list(v)] for k, v in kvs])))
    ctx.conform("RecordTrace", exe, sreqs, mk, drive_kw=dict(shards=4))
    # lookups in tables that hold malformed records: they find exactly the well-formed ones
    exe2 = ctx.build_dns("drv_dns.c")
    raw, cand = [], []
    for i in range(ctx.n(16, 60)):
        files, rngs = gen_files(r, 1, r.choice([8, 16, 24]))
        f = files[0]
        raw.append((files, rngs))
        for k in list(f):
            if k[0] in (RRSET, RDATA):
                for _ in range(r.choice([0, 1, 1, 2])):
                    k2 = damage(r, k)
                    if k2 not in f:
                        cand.append((i, k2, f[k]))
                if r.random() < .1:
                    cand.append((i, k, f[k][:r.randrange(len(f[k]))]))
    decodes = set(ctx.validate("Undecodable", [dict(key=list(k), vals=[[1, list(v)]]) for _, k, v in cand], nneg=0, count=False))
    good = [sorted(fs[0]) for fs, _ in raw]
    for j, (i, k, v) in enumerate(cand):
        if j not in decodes:
            raw[i][0][0][k] = v
    ctx.notes["malformed records in queried tables"] = len(cand) - len(decodes)
    stores = [Store(ctx, fs, rg, "m%d" % i) for i, (fs, rg) in enumerate(raw)]
    for s, g in zip(stores, good):
        s.allkeys, s.keys = s.keys, g
    qs = []
    for _ in range(ctx.n(1200, 9000)):
        q = mkq(r, stores, r.choice(KINDS))
        put_data(r, q, pwild=.5); put_rr(r, q, .3); put_bw(r, q, .2)
        if r.random() < .3: put_fences(r, q, .3)
        if r.random() < .2: q.agg(0)
        q.run(-1)
        qs.append(q)
    run_queries(ctx, exe2, stores, qs, sane=False)
    ctx.assumptions += ["decoding is driven on exact-size heap copies under AddressSanitizer and UBSan, so reads outside the record are seen",
                        "malformed records are scanned from a single source; merging malformed values of one key from several files is outside the property"]
