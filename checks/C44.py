"""C44: replacing text and printing byte strings."""
from codec import *
import itertools

def run(ctx):
    r = ctx.rng
    exe = build(ctx)
    reqs = []
    def rep(s, o, n):
        reqs.append(("rep %s %s %s" % (hx(s), hx(o), hx(n)), dict(op="rep", bs=list(s), o=list(o), n=list(n))))
    def prn(b): reqs.append(("prn %s" % hx(b), dict(op="prn", bs=list(b))))
    pats = [b"", b"a", b"b", b"aa", b"ab", b"ba", b"aab", b"aba", b"abab"]
    news = [b"", b"a", b"x", b"aa", b"aba", b"zzzzzzzz"]
    for n in range(0, ctx.n(6, 8)):
        for s in itertools.product(b"ab", repeat=n):
            for o in pats:
                rep(bytes(s), o, r.choice(news))
    for _ in range(ctx.n(250, 5000)):
        k = r.choice([2, 3, 200])
        def t(n): return bytes(r.choice([97, 98]) if k < 3 else r.randrange(1, 256) if k > 3 else r.choice(b"ab%") for _ in range(n))
        o = t(r.randint(0, 4))
        s = b"".join(r.choice([o, t(r.randint(0, 5))]) for _ in range(r.randint(0, 20)))
        rep(s, o, t(r.choice([0, 1, 3, 64, 65])))
    for x in range(256):
        prn([x]); prn([x, 34, x]); prn([48, x])
    prn([])
    for _ in range(ctx.n(150, 3000)):
        prn([r.choice([34, 92, 0, 31, 32, 126, 127, 128, 255, r.randrange(256)]) for _ in range(r.randint(1, 60))])
    go(ctx, exe, reqs)
    ctx.assumptions += ["C locale for printing"]
