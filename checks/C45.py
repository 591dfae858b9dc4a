"""C45: the checksum, in both implementations and through the dispatcher, every length and alignment."""
from sums import *

def run(ctx):
    r = ctx.rng
    ctx.mc("SumMC", "SumMC2.cfg" if ctx.thorough else "SumMC.cfg")
    exe = ctx.build_my("drv_sum.c", only=MODS, extra=["-DTIGHT", "-DVALGRIND"])
    seqs = set()
    for n in range(0, 80):
        for _ in range(ctx.n(3, 30)):
            seqs.add(bytes(r.randrange(256) for _ in range(n)))
        seqs.add(bytes(n)); seqs.add(b"\xff" * n)
    # every table entry of every slice
    for x in range(256):
        seqs.add(bytes([x])); seqs.add(bytes((x + 37 * k) % 256 for k in range(8))); seqs.add(bytes((x * 5 + 101 * k) % 256 for k in range(16)))
    for k in range(128):
        seqs.add(((1 << k)).to_bytes(16, "little"))
    for n in [255, 256, 257, 511, 1023, 1029]:
        for _ in range(ctx.n(1, 8)):
            seqs.add(bytes(r.randrange(256) for _ in range(n)))
    reqs = [("crc %s" % (s.hex() or "-"), dict(op="crc", bs=list(s))) for s in sorted(seqs)]
    ctx.conform("SumTrace", exe, reqs, mk, corrupt=corrupt, nneg=40, drive_kw=dict(shards=4))
    ctx.assumptions += ["little-endian machine; the hardware implementation is checked when the processor has it"]
