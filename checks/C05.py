"""C05: index and metadata records merge to unions, covering ranges and lowest versions."""
from mergecases import *

def run(ctx):
    r = ctx.rng
    ctx.mc("MergeMC", "MergeMC.cfg")
    exe = ctx.build_dns("drv_merge.c", extra=["-fsanitize=undefined", "-fno-sanitize=alignment"])
    nk = [bytes([RRSET_NAME]) + name("a.b"), bytes([RDATA_NAME]) + rev(name("a.b")), bytes([RRSET_NAME]), bytes([RDATA_NAME])]
    reqs = []
    def types():
        k = r.random()
        if k < .3:
            return [r.choice(TYPES) for _ in range(r.randint(1, 6))]
        if k < .5:
            w = r.choice([0, 1, 2, 127, 255])
            return [w * 256 + r.choice([0, 1, 7, 8, 15, 247, 248, 254, 255, r.randrange(256)]) for _ in range(r.randint(1, 10))]
        if k < .6:
            return [r.randrange(65536) for _ in range(r.randint(1, 60))]
        return [r.choice([A, NS, CNAME, SOA, MX, TXT, AAAA, 257, 32769]) for _ in range(r.randint(1, 5))]
    def ix():
        ts = types()
        return index_bytes(ts, r.choice(["auto", "auto", "two", "bitmap"]))
    singles = [b"\x00", b"\x01", b"\xff", b"\x00\x00", b"\x01\x00", b"\xff\x00", b"\x00\x01", b"\x01\x01", b"\xff\xff", b"\x00\x01\x40", b"\x00\x01\x80",
               b"\x00\x20" + b"\0" * 31 + b"\x01", b"\x01\x01\x80", b"\xff\x20" + b"\0" * 31 + b"\x01", b""]
    for a in singles:
        for b in singles:
            reqs.append(merge_req(r.choice(nk), [a, b], "0.1"))
    for _ in range(ctx.n(1000, 15000)):
        n = r.choice([2, 2, 3, 3, 4, 6])
        vals = [ix() for _ in range(n)]
        if r.random() < .1:
            vals[r.randrange(n)] = b""
        if r.random() < .15:
            vals[0] = vals[-1]
        reqs.append(merge_req(r.choice(nk), vals, order(r, n)))
    # every window in use; every type; sparse and dense
    full = index_bytes(range(65536))
    big = [index_bytes(range(i, 65536, 256)) for i in (0, 255)] + [index_bytes(range(0, 65536, 7)), full, index_bytes(range(0, 65536, 2)), index_bytes(range(1, 65536, 2))]
    for a, b in [(0, 1), (1, 2), (4, 5), (3, 0), (3, 3), (2, 5)]:
        reqs.append(merge_req(nk[0], [big[a], big[b]], "0.1"))
        if ctx.thorough:
            reqs.append(merge_req(nk[1], [big[b], big[a], index_bytes(types())], "2.0,3.1"))
    reqs.append(merge_req(nk[0], [full, b"\x05"], "0.1"))
    reqs.append(merge_req(nk[0], [big[4], b"\x05\x05", big[5]], "0.1,3.2"))
    # time ranges
    for _ in range(ctx.n(400, 6000)):
        n = r.randint(2, 5)
        vals = [varint(rnd_num(r)) + varint(rnd_num(r)) for _ in range(n)]
        if r.random() < .1:
            vals[r.randrange(n)] = b""
        reqs.append(merge_req(bytes([TIME_RANGE]), vals, order(r, n)))
    # versions
    for _ in range(ctx.n(400, 5000)):
        n = r.randint(2, 5)
        vals = [varint(r.choice([0, 1, 2, 127, 128, 16384, 2**31, 2**32 - 1, r.getrandbits(32)])) for _ in range(n)]
        if r.random() < .15:
            vals[r.randrange(n)] = b""
        reqs.append(merge_req(bytes([VERSION, r.choice([0, 1, 2, 3, 0, 1, 2, 3, 4, 253, 254, 255])]), vals, order(r, n)))
    for t in (b"", b"x", b"x" * 300):
        for vals in ([b"", b""], [b"", b"", b""]):
            reqs.append(merge_req(bytes([SOURCE]) + t, vals, order(r, len(vals))))
    ctx.conform("MergeTrace", exe, reqs, mk, corrupt=corrupt, drive_kw=dict(shards=4))
    ctx.assumptions += ["stored indexes list at least one type or are empty, and bitmap windows ascend (RFC 4034 form)"]
