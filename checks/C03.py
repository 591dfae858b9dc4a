"""C03: type indexes answer membership and listing exactly."""
from mergecases import *

def run(ctx):
    r = ctx.rng
    ctx.mc("IndexMC", "IndexMC.cfg")
    exe = ctx.build_dns("drv_merge.c", extra=["-fsanitize=undefined", "-fno-sanitize=alignment"])
    reqs, seen = [], set()
    def add(ix, kind=None):
        for k in ([kind] if kind is not None else [RRSET_NAME, RDATA_NAME]):
            if (ix, k) not in seen:
                seen.add((ix, k))
                reqs.append(("idx %d %s" % (k, hexs(ix)), dict(op="idx", kind=k, ix=list(ix))))
    add(b"")
    for t in list(range(0, 256, 1 if ctx.thorough else 5)) + [1, 2, 255]:
        add(bytes([t]), r.choice([RRSET_NAME, RDATA_NAME]))
    for t in TYPES + [r.randrange(65536) for _ in range(60)]:
        add(bytes([t & 255, t >> 8]), r.choice([RRSET_NAME, RDATA_NAME]))
        add(index_bytes([t], "bitmap"), r.choice([RRSET_NAME, RDATA_NAME]))
    for byte in range(32):      # first and last bit of each byte of a window
        for bit in (0, 7):
            add(index_bytes([byte * 8 + bit, 256 + byte * 8 + bit, 65280 + byte * 8 + bit]), r.choice([RRSET_NAME, RDATA_NAME]))
    for _ in range(ctx.n(250, 4000)):
        n = r.choice([1, 2, 3, 5, 20, 80])
        w = [r.randrange(256) for _ in range(r.randint(1, 5))] + [0]
        add(index_bytes([r.choice(w) * 256 + r.randrange(256) for _ in range(n)]), r.choice([RRSET_NAME, RDATA_NAME]))
    for step in (1, 3, 256, 257):
        add(index_bytes(range(0, 65536, step)), RRSET_NAME)
    # blocks with trailing zero bytes, and malformed indexes
    for ix in (b"\x00\x03\x40\x00\x00", b"\x00\x20" + b"\x01" * 32, b"\x00\x02\x00\x00\x01\x01\x80", b"\x00\x00\x40", b"\x00\x01", b"\x00\x05\x40\x40", b"\x01\x01\x40\x00\x01\x40",
               b"\x00\x01\x40\x00\x01\x40", b"\x00\x01\x40\x05", b"\x00\x01\x40\x05\x01", b"\xff\xff\xff", b"\x05\xff\x01\x01", b"\x00\x01\x01\xff"):
        add(ix)
    # blocks that reach past their windows, up to and beyond as many bits as there are types
    for n in (32, 33, 40):
        add(b"".join(bytes([w, 255]) + b"\xff" * 255 for w in range(n)), RRSET_NAME)
    add(b"".join(bytes([w, 255]) + b"\xff" * 255 for w in range(32)) + bytes([200, 32]) + b"\xff" * 32, RRSET_NAME)
    add(b"".join(bytes([w, 255]) + b"\xff" * 255 for w in range(32)) + bytes([200, 33]) + b"\xff" * 32 + b"\x80", RRSET_NAME)
    for _ in range(ctx.n(300, 5000)):
        ix = index_bytes([r.choice(TYPES) for _ in range(r.randint(2, 6))])
        i = r.randrange(len(ix))
        w = r.random()
        ix = ix[:i] if w < .4 else ix[:i] + bytes([r.choice([0, 1, 31, 32, 255, r.randrange(256)])]) + ix[i + 1:] if w < .8 else ix + bytes([r.randrange(256)])
        add(ix, r.choice([RRSET_NAME, RDATA_NAME]))
    def corrupt(c, rng):
        o = c["out"]
        k = rng.choice(["list", "has"])
        if o[k] and rng.random() < .5:
            del o[k][rng.randrange(len(o[k]))]
        elif o[k]:
            o[k][rng.randrange(len(o[k]))] ^= 1
        else:
            o["n"] += 1
        return c
    sm = [q for q in reqs if len(q[1]["ix"]) < 3000]
    ctx.conform("MergeTrace", exe, reqs, mk, corrupt=corrupt, drive_kw=dict(shards=4))
    ctx.assumptions += ["the membership answer on a malformed index is unspecified (only memory safety and an empty list are required)"]
