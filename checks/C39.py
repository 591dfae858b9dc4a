"""C39: base32 encoding and decoding, every output size."""
from codec import *

def run(ctx):
    r = ctx.rng
    exe = build(ctx)
    reqs = []
    def enc(b, size): reqs.append(("e32 %d %s" % (size, hx(b)), dict(op="e32", bs=list(b), size=size)))
    def dec(b, size): reqs.append(("d32 %d %s" % (size, hx(b)), dict(op="d32", bs=list(b), size=size)))
    A = b"0123456789ABCDEFGHIJKLMNOPQRSTUVabcdefghijklmnopqrstuv"
    for n in range(0, 24):
        for rep in range(ctx.n(2, 12)):
            b = [r.choice([0, 255, 1, 128, r.randrange(256)]) for _ in range(n)]
            full = (8 * n + 4) // 5
            sizes = set(range(0, full + 4)) if rep == 0 else {0, full, full + 1, r.randint(0, full + 9)}
            for s in sizes: enc(b, s)
    for x in range(256):
        enc([x], 2); enc([0, x], 8); enc([x, 0, 0, x, x], 9)
        dec([x], 5); dec([48, x], 5); dec([x, 48], 1); dec([65] * 7 + [x], 5); dec([65] * 8 + [x], 5); dec([65] * 8 + [x], 6)
    for n in range(0, 26):
        for rep in range(ctx.n(3, 20)):
            b = [r.choice(A) for _ in range(n)]
            full = n * 5 // 8
            for s in (set(range(0, full + 7)) if rep == 0 else {full, full + 5, r.randint(0, full + 9)}): dec(b, s)
            # padded
            pad = (-n) % 8
            dec(b + [61] * pad, full + r.choice([0, 1, 9])); dec(b + [61] * r.randint(0, 9), full + 3)
            # foreign characters anywhere
            if n:
                b2 = list(b); b2[r.randrange(n)] = r.choice([0, 32, 45, 87, 119, 128, 255, 64, 96, 47, 58, r.randrange(256)])
                for s in {full, full + 5, 0, r.randint(0, full)}: dec(b2, s)
    # what the encoder makes, the decoder reads, also with letters in the other case
    for _ in range(ctx.n(150, 3000)):
        n = r.randint(0, 70)
        b = [r.randrange(256) for _ in range(n)]
        v = int.from_bytes(bytes(b), "big") << ((-8 * n) % 5)
        t = [b"0123456789ABCDEFGHIJKLMNOPQRSTUV"[v >> (5 * k) & 31] for k in reversed(range((8 * n + 4) // 5))]
        enc(b, len(t) + 8)
        dec([c + 32 if c > 64 and r.random() < 0.5 else c for c in t], n + r.choice([0, 0, 1, 5, 8]))
    def cor(c, r):
        if c["op"] == "d32" and not all(x in A for x in c["bs"]):
            return None
        return corrupt(c, r)
    go(ctx, exe, reqs, corrupt=cor)
    ctx.assumptions += ["the result of decoding text with anything but padding after padding is not claimed"]
