"""C38: variable-length integers."""
from vlib import *

def run(ctx):
    r = ctx.rng
    ctx.mc("VarintMC", "VarintMC.cfg")
    exe = ctx.build_my("drv_varint.c")
    vals = set(range(0, 300)) | {0, 2**64 - 1}
    for i in range(64):
        for d in (-2, -1, 0, 1, 2):
            vals.add((2**i + d) % 2**64)
    for i in range(0, 64):
        for j in range(i):
            if r.random() < ctx.n(0.25, 1):
                vals.add(2**i | 2**j)
    for _ in range(ctx.n(1500, 30000)):
        vals.add(r.getrandbits(r.randint(1, 64)))
    reqs = [("enc %x" % v, dict(op="enc", v=limbs(v))) for v in sorted(vals)]
    seqs = set()
    alpha = [0x00, 0x01, 0x7f, 0x80, 0x81, 0xff]
    for n in (1, 2, 3):
        for k in range(len(alpha) ** n):
            s, x = [], k
            for _ in range(n):
                s.append(alpha[x % 6]); x //= 6
            seqs.add(bytes(s))
    for _ in range(ctx.n(2500, 40000)):
        n = r.randint(1, 13)
        k = r.randint(1, n)
        s = [r.choice([r.randrange(128, 256), 0x80, 0xff]) for _ in range(k - 1)] + [r.choice([r.randrange(128), 0, 1, 127, 0x80])]
        s += [r.randrange(256) for _ in range(n - k)]
        seqs.add(bytes(s))
    for s in sorted(seqs):
        f = ""
        if any(b < 128 for b in s[:5]) or len(s) >= 5:
            f += "3"
        if any(b < 128 for b in s[:10]) or len(s) >= 10:
            f += "6"
        reqs.append(("dec %s %s" % (s.hex(), f or "0"), dict(op="dec", bs=list(s))))
    def mk(m, o):
        c = dict(m)
        c["out"] = o or {}
        return c
    ctx.conform("VarintTrace", exe, reqs, mk)
    ctx.assumptions += ["buffers handed to the decoders either contain a terminating byte or have the full maximum length"]
