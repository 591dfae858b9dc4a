"""C41: numbers and hexadecimal text, every buffer size around the needed one."""
from codec import *

def run(ctx):
    r = ctx.rng
    exe = build(ctx)
    reqs = []
    def add(line, **m): reqs.append((line, m))
    for n in list(range(0, 12)) + [40]:
        for rep in range(ctx.n(1, 10)):
            b = [r.choice([0, 9, 10, 15, 16, 159, 160, 255, r.randrange(256)]) for _ in range(n)]
            for s in (range(0, 2 * n + 4) if n < 12 else [0, 1, 79, 80, 81, 82, 200]):
                up = r.randrange(2)
                add("hex %d %d %s" % (up, s, hx(b)), op="hex", up=up, size=s, bs=b)
    for x in range(256):
        for up in (0, 1):
            add("hex %d 3 %02x" % (up, x), op="hex", up=up, size=3, bs=[x])
    for v in sorted({0, 1, 255, 256, 4096, 65535, 43981} | {r.randrange(65536) for _ in range(ctx.n(60, 2000))}):
        for s in (5, r.randrange(0, 8)):
            up = r.randrange(2)
            add("h16 %d %d %d" % (up, s, v), op="h16", up=up, size=s, v=v)
    for s in range(0, 8):
        add("h16 1 %d 43981" % s, op="h16", up=1, size=s, v=43981)
    vals = {0, 2**64 - 1, 2**63, 2**32, 2**31}
    for k in range(20):
        vals |= {10**k, 10**k - 1, 10**k + 1, r.randrange(10**k, min(10**(k + 1), 2**64))}
    for _ in range(ctx.n(100, 3000)): vals.add(r.getrandbits(r.randint(1, 64)))
    for v in sorted(x for x in vals if 0 <= x < 2**64):
        d = len(str(v))
        for s in {d + 1, 21, d, d + 5, r.randrange(0, 25)}:
            add("dec %d %x" % (s, v), op="dec", size=s, v=limbs(v))
    for s in range(0, 23):
        add("dec %d %x" % (s, 2**64 - 1), op="dec", size=s, v=limbs(2**64 - 1)); add("dec %d 0" % s, op="dec", size=s, v=limbs(0))
    H = b"0123456789abcdefABCDEF"
    texts = [[]] + [[x] for x in range(1, 256)] + [[48, x] for x in range(1, 256)] + [[x, 70] for x in range(1, 256)] + [[97, 66, x, 49] for x in (47, 58, 64, 71, 96, 103)]
    for _ in range(ctx.n(200, 4000)):
        t = [r.choice(H) for _ in range(r.choice([2, 4, 8, 20, r.randint(1, 60)]))]
        if r.random() < 0.25: t[r.randrange(len(t))] = r.choice([32, 71, 103, 120, 45, 200, r.randrange(1, 256)])
        texts.append(t)
    for t in texts:
        add("unhex " + hx(t), op="unhex", bs=t)
    envs = ["", " ", "+", "0", "00", "08", "07", "010", "0x", "0X1f", "0xg", "1 ", " 1", "\t\n 12", "12a", "x", "1.5", "+5", "++5", "1e3",
            "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0xffffffffffffffff", "0x10000000000000000",
            "01777777777777777777777", "02000000000000000000000", "4294967296", "  +0x7Fz", "\x0b\x0c\r9", "1_0", "0 ", "\xa05"]
    for _ in range(ctx.n(200, 4000)):
        v = r.getrandbits(r.randint(1, 68))
        s = r.choice(["%d", "0x%x", "0X%X", "0%o"]) % v
        if s[:2] in ("0b", "0B"): continue
        if r.random() < 0.3: s = r.choice([" ", "+", "  +", "\t", "0"]) + s
        if r.random() < 0.2: s += r.choice([" ", "x", "g", "8", "9", ",", "\n"])
        envs.append(s)
    for s in envs:
        b = list(s.encode("latin1"))
        add("env %s" % hx(b), op="env", set=1, bs=b)
    add("env", op="env", set=0, bs=[])
    def cor(c, r):
        if c["op"] == "dec" and c["size"] < 21 or (c["op"] in ("hex", "h16") and c["size"] == 0):
            c["out"]["ret"] += 1
            c["out"]["bs"] = [65] * 99
            c["size"] += (c["size"] == 0)
            return c
        if c["op"] == "env" and c["out"]["ok"] == 0:
            c["out"]["ok"] = 1; c["out"]["v"] = [1, 2, 3, 4]
            return c
        if c["op"] == "unhex" and c["out"]["ok"] == 0:
            c["out"] = dict(ok=1, bs=[0]); return c
        return corrupt(c, r)
    go(ctx, exe, reqs, corrupt=cor)
    ctx.assumptions += ["C locale", "negative and binary (0b) texts in environment variables are not judged", "a number that does not fit its buffer is only required to stay inside it, terminated"]
