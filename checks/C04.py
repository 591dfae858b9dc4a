"""C04: merged observations keep the earliest, latest and total, in any order and grouping."""
from mergecases import *

def run(ctx):
    r = ctx.rng
    ctx.mc("MergeMC", "MergeMC.cfg")
    exe = ctx.build_dns("drv_merge.c")
    keys = [k_rrset(name("a.b"), 1, name("b"), [b"abcd"]), k_rdata(name("a.b"), 2, name("c.d")), bytes([0]), bytes([2])]
    reqs = []
    def num(cap=2**64):
        v = r.choice(NUMS) if r.random() < .5 else r.getrandbits(r.randint(1, 64))
        return v % cap
    pairs = [(a, b) for a in (0, 1, 127, 128, 2**32 - 1, 2**32, 2**63, M64) for b in (0, 1, 127, 128, 2**32 - 1, 2**32, 2**63, M64)]
    for a, b in pairs:           # boundary values against each other, in each field and both orders
        reqs.append(merge_req(r.choice(keys), [v_triplet(a, 5, 1), v_triplet(b, 6, 2)], "0.1"))
        reqs.append(merge_req(r.choice(keys), [v_triplet(1, a, 1), v_triplet(2, b, 2)], "1.0"))
        if a + b <= M64:
            reqs.append(merge_req(r.choice(keys), [v_triplet(1, 2, a), v_triplet(1, 2, b)], "0.1"))
    for _ in range(ctx.n(1500, 25000)):
        n = r.choice([2, 2, 3, 3, 4, 5, 8, 13])
        vals = []
        near = r.getrandbits(r.randint(1, 64))
        for _ in range(n):
            f, l = num(), num()
            if r.random() < .4:
                f = (near + r.randint(-2, 2)) % 2**64
            if r.random() < .4:
                l = (near + r.randint(-2, 2)) % 2**64
            vals.append(v_triplet(f, l, num(2**64 // n)))
        if r.random() < .2:
            vals[-1] = vals[0]
        for _ in range(2 if n > 2 else 1):
            reqs.append(merge_req(r.choice(keys), vals, order(r, n)))
    ctx.conform("MergeTrace", exe, reqs, mk, corrupt=corrupt, drive_kw=dict(shards=4))
    ctx.assumptions += ["stored values are well-formed triplets and the counts' sum is below 2^64; merging works on the stored numbers"]
