"""Cases for the renderings of entries (C19, C20)."""
from dnsgen import *

DATES = [0, 1, 59, 60, 3599, 3600, 86399, 86400, 951782399, 951782400, 951868799, 951868800, 1078012799, 1078012800, 4107542399, 4107542400,
         13569465600, 2147483647, 2147483648, 4294967295, 4294967296, 253402300798, 253402300799, 253402300800, 10**12, 2**40, 2**50,
         2**63 - 1, 2**63, M64, 67768036191676799 - 10**10, 67768036191676799 + 10**10]

def run_fmt(ctx, op):
    r = ctx.rng
    ctx.mc("FormatMC", "FormatMC.cfg")
    exe = ctx.build_dns("drv_entry.c")
    reqs, seen = [], set()
    def add(d, zone=None):
        k, v = stored(d)
        for z in ([zone] if zone is not None else [r.randrange(2)]):
            if (k, v, z) in seen or len(k) > 2500:
                return
            seen.add((k, v, z))
            reqs.append(("fmt %s %s %d %s" % (hexs(k), hexs(v), z, op[0]), dict(op=op, key=list(k), val=list(v), zone=z)))
    base = dict(kind=RRSET, name=name("www.example.com"), bailiwick=name("example.com"), rrtype=A, rdatas=[b"\x01\x02\x03\x04"], first=5, last=6, count=7)
    tm = list(DATES)
    for y in range(1970, 2200, 1 if ctx.thorough else 7):       # both ends of February and of the year
        import calendar
        for m, d in ((1, 1), (2, 28), (3, 1), (12, 31)):
            tm.append(calendar.timegm((y, m, d, 0, 0, 0)) + r.randrange(86400))
    for y in (2400, 2900, 3000, 4000, 9996, 9999):
        for m, d in ((2, 28), (3, 1), (12, 31)):
            tm.append(calendar.timegm((y, m, d, 23, 59, 59)))
    for _ in range(ctx.n(150, 3000)):
        tm.append(r.randrange(1, 2**r.randint(10, 48)))
    for t in tm:
        add(dict(base, first=t, last=t or 1), r.randrange(2))
        if r.random() < .3:
            add(dict(kind=TIME_RANGE, first=t, last=r.choice(tm)))
    for v in NUMS:
        add(dict(base, count=v)); add(dict(base, kind=RDATA, slice=0, count=v))
        add(dict(kind=VERSION, vkind=r.choice([0, 1, 2, 3, 4, 9, 10, 99, 100, 252, 253, 254, 255]), version=v & 0xffffffff))
    for vk in list(range(0, 6)) + [9, 10, 99, 100, 200, 252, 253, 254, 255]:
        add(dict(kind=VERSION, vkind=vk, version=vk))
    for t in range(0, 300, 1 if ctx.thorough else 3):
        add(dict(base, rrtype=t)); add(dict(base, kind=RDATA, slice=0, rrtype=t))
    for t in (300, 999, 1000, 9999, 10000, 32768, 32769, 32770, 65535):
        add(dict(base, rrtype=t))
    for c in range(256):        # every byte in every string position that can hold it
        n = wire([b"x" + bytes([c]) + b"y", b"z"])
        add(dict(base, name=n)); add(dict(base, bailiwick=n)); add(dict(base, rrtype=TXT, rdatas=[b"\x03a" + bytes([c]) + b"b"]))
        if c:
            add(dict(kind=SOURCE, text=b"a" + bytes([c]) + b"b"))
        add(dict(kind=RDATA_NAME, name=n, index=b"\x01")); add(dict(kind=RRSET_NAME, name=n, index=b""))
        add(dict(base, kind=RDATA, slice=0, rrtype=NS, rdatas=[n]))
        add(dict(base, kind=RDATA, slice=0, rrtype=65280, rdatas=[bytes([c, 255 - c])]))
    for n in range(0, 6):
        add(dict(base, rdatas=[bytes([i, 1, 2, 3]) for i in range(n)]))
        add(dict(base, rdatas=[bytes([i]) * i for i in range(n)], rrtype=77))
    for ix in (b"", b"\x01", b"\x00", b"\x01\x01", b"\x00\x01\x40", b"\x00\x01\x40\x01\x01\x80", b"\x00\x01\x40\x00\x01\x40", b"\x00\x02\x40", b"\x01\x01\x01\x00\x01\x01",
               index_bytes(range(0, 1000, 37)), index_bytes(TYPES), b"\x00\x01\x40\x05", b"\x00\x00\x40"):
        for k in (RRSET_NAME, RDATA_NAME):
            add(dict(kind=k, name=name("a.b"), index=ix))
    for _ in range(ctx.n(500, 8000)):
        d = rnd_record(r)
        for f in ("first", "last"):
            if f in d:
                d[f] = r.choice(DATES) if r.random() < .3 else r.randrange(2**r.randint(1, 46))
        if d["kind"] == SOURCE:
            d["text"] = bytes(c for c in d["text"] if c)
        add(d)
    def mk(m, o):
        return dict(m, out=o or {})
    def corrupt(c, rng):
        o = c["out"]
        k = rng.choice([k for k in o if k not in ("ok", "rp") and len(o[k]) > 0])
        i = rng.randrange(len(o[k]))
        if rng.random() < .5:
            del o[k][i]
        else:
            o[k][i] = o[k][i] ^ 1 if o[k][i] != 32 else 33
        return c
    ctx.conform("FormatTrace", exe, reqs, mk, corrupt=corrupt, drive_kw=dict(shards=4))
    ctx.assumptions += ["the presentation of rdata values is libwdns's (here: the stand-in's) and is taken as given",
                        "source info is text without NUL bytes; bytes above 127 are passed through as they are",
                        "C locale: counts in text carry no digit grouping"]
