"""C40: base64 streaming in every division of short inputs, and random divisions of long ones."""
from codec import *

def divide(b, r):
    """a random division, empty chunks included"""
    cs, i = [], 0
    while i < len(b):
        k = r.choice([0, 1, 1, 2, 3, 4, 5, 7, 20])
        cs.append(b[i:i + k]); i += k
    return cs or [[]]

def divisions(b):
    n = len(b)
    for m in range(1 << max(0, n - 1)):
        cs, cur = [], []
        for i in range(n):
            cur.append(b[i])
            if i == n - 1 or m >> i & 1:
                cs.append(cur); cur = []
        yield cs

def run(ctx):
    r = ctx.rng
    exe = build(ctx)
    reqs = [("v64", dict(op="v64"))]
    def add(op, cs): reqs.append(("%s %s" % (op, " ".join(hx(c) for c in cs)), dict(op=op)))
    A = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    def val(): return r.choice([0, 255, 128, 127, r.randrange(256)])
    def ch(p): return r.choice([10, 13, 32, 45, 95, 61, 0, 127, 128, 255, 42, 44, 58, 64, 91, 96, 123, 171, r.randrange(256)]) if r.random() < p else r.choice(A)
    for n in range(0, 8):
        for cs in divisions([val() for _ in range(n)]): add("e64", cs)
        for p in (0, 0.3):
            for cs in divisions([ch(p) for _ in range(n)]): add("d64", cs)
    for x in range(256):
        add("e64", [[x]]); add("e64", [[0, x]]); add("e64", [[0], [0], [x]])
        add("d64", [[65, x, 66, 67, 68]]); add("d64", [[97, 98, 99], [x], [100, x, 101]])
        add("d64", [[A[x % 64], A[x // 4 % 64], 61, 61]])
    for _ in range(ctx.n(250, 5000)):
        add("e64", divide([val() for _ in range(r.randint(0, 90))], r))
        add("d64", divide([ch(r.choice([0, 0, 0.1, 0.6])) for _ in range(r.randint(0, 100))], r))
    go(ctx, exe, reqs)
    ctx.assumptions += ["output buffers have room for the input and a few bytes more: the decoder keeps a byte it has not completed in the caller's buffer"]
