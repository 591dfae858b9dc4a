"""C42: prefix bounds and successors of addresses."""
from codec import *

def run(ctx):
    r = ctx.rng
    exe = build(ctx)
    reqs = []
    def add(b, p, al): reqs.append(("ip %d %d %s" % (al, p, hx(b)), dict(op="ip", bs=list(b), p=p)))
    for n in (4, 16):
        for p in range(8 * n + 1):
            for b in [[0] * n, [255] * n, [r.choice([0, 255, 127, 128]) for _ in range(n)]] + [[r.randrange(256) for _ in range(n)] for _ in range(ctx.n(2, 40))]:
                add(b, p, r.randrange(8))
        # every carry length, from every byte below it
        for k in range(n + 1):
            for x in (0, 1, 127, 128, 254, 255):
                b = [r.randrange(256) for _ in range(n)]
                b[n - k:] = [255] * k
                if k < n: b[n - k - 1] = x
                add(b, r.randint(0, 8 * n), r.randrange(8))
        for k in range(8 * n):
            v = (1 << k) - 1
            for d in (0, 1, 2):
                add(((v + d) % (1 << 8 * n)).to_bytes(n, "big"), r.randint(0, 8 * n), r.randrange(8))
    go(ctx, exe, reqs)
    ctx.assumptions += ["prefix lengths up to the length of the address"]
