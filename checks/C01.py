"""C01: every stored record decodes to exactly what was stored."""
from dnsgen import *

def run(ctx):
    r = ctx.rng
    ctx.mc("RecordMC", "RecordMC.cfg" if ctx.thorough else "RecordMC0.cfg")
    exe = ctx.build_dns("drv_entry.c")
    reqs, seen = [], set()
    def add(d, top=9000):
        k, v = stored(d)
        if (k, v) in seen or len(k) > top:
            return
        seen.add((k, v))
        reqs.append(("dec %s %s" % (hexs(k), hexs(v)), dict(op="rec", rec=tla(d), key=list(k), val=list(v))))
    # every value at each boundary of its encoding, in every place a number is stored
    base = dict(kind=RRSET, name=name("www.example.com"), bailiwick=name("example.com"), rrtype=A, rdatas=[b"\x01\x02\x03\x04"], first=5, last=6, count=7)
    for f in ("first", "last", "count"):
        for v in NUMS:
            add(dict(base, **{f: v}))
            add(dict(base, kind=RDATA, slice=0, **{f: v}))
    for t in TYPES:
        add(dict(base, rrtype=t)); add(dict(base, kind=RDATA, slice=0, rrtype=t))
        add(dict(kind=VERSION, vkind=t & 255, version=t * 77777 & 0xffffffff))
    for n in range(0, 12):
        add(dict(base, rdatas=[bytes([i]) * i for i in range(n)]))
        add(dict(base, rdatas=[b"xyz" * 4] * 1, kind=RDATA, slice=n))
    for n in (32767, 32768, 65534, 65535):      # rdata up to the longest there can be
        add(dict(base, rdatas=[bytes([n & 255]) * n, b"r"]), 70000)
        for sl in (0, 2):
            add(dict(base, rdatas=[b"q" * sl + bytes([n & 255]) * (n - sl)], kind=RDATA, slice=sl), 70000)
    for n in (126, 127, 128, 255, 256, 300) + ((16383, 16384) if ctx.thorough else ()):
        add(dict(base, rdatas=[b"q" * n, b"r"]))
        add(dict(base, rdatas=[b"q" * n], kind=RDATA, slice=0))
        add(dict(base, rdatas=[b"q" * n], kind=RDATA, slice=6))
    for _ in range(ctx.n(1500, 20000)):
        add(rnd_record(r))
    if ctx.thorough:
        for _ in range(300):
            add(rnd_record(r, big=True))
    def mk(m, o):
        return dict(m, out=o or {})
    ctx.conform("RecordTrace", exe, reqs, mk, drive_kw=dict(shards=4))
    ctx.assumptions += ["well-formed records: names of at most 255 bytes with labels of at most 63, record types of 16 bits, rdata of at most 65535 bytes",
                        "libwdns is replaced by a stand-in (name parsing and reversal) and libmtbl by a stand-in (varint and fixed encodings)"]
