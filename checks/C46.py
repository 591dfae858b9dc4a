"""C46: the string hash, every length up to seventy, alignment and kind of seed, with varying bytes around the key."""
from sums import *

def run(ctx):
    r = ctx.rng
    ctx.mc("SumMC", "SumMC2.cfg" if ctx.thorough else "SumMC.cfg")
    exes = [ctx.build_my("drv_sum.c", only=MODS, extra=["-DTIGHT", "-DVALGRIND"], name="sum_tight"),
            ctx.build_my("drv_sum.c", only=MODS, san=False, name="sum_plain")]
    reqs = {}
    def add(b, pc, pb):
        reqs["hash %s %x %x" % (bytes(b).hex() or "-", pc, pb)] = dict(op="hash", bs=list(b), pc=w2(pc), pb=w2(pb))
    def seed():
        return r.choice([0, 0, 1, 0xffffffff, 0x21524111, r.getrandbits(32)])
    for n in range(0, 74):
        for _ in range(ctx.n(8, 100)):
            add([r.choice([0, 255, r.randrange(256)]) for _ in range(n)], seed(), seed())
    for n in (4, 12, 13, 24):
        for k in range(8 * n):
            add((1 << k).to_bytes(n, "little"), 0, 0)
    for n in (255, 256, 300):
        add([r.randrange(256) for _ in range(n)], seed(), seed())
    rq = sorted(reqs.items())
    for exe in exes:
        ctx.conform("SumTrace", exe, rq, mk, corrupt=corrupt, nneg=20, drive_kw=dict(shards=4))
    ctx.assumptions += ["little-endian machine", "the plain build reads whole words that hold the last bytes of the key, as published; the build for memory checkers (-DVALGRIND) is the one run under AddressSanitizer"]
