"""C33: the rate limiter on a simulated clock, in each of its clock variants, over random runs with work, signals and late wake-ups."""
from vlib import *

SIM = ["-D%s=sim_%s" % (f, f) for f in ("gettimeofday", "clock_gettime", "nanosleep", "clock_nanosleep", "usleep")]
VARIANTS = [("tod", [], 1000), ("rt", ["-DHAVE_CLOCK_GETTIME=1"], 1), ("mono", ["-DHAVE_CLOCK_GETTIME=1", "-DHAVE_CLOCK_NANOSLEEP=1"], 1)]
CFG = "CONSTANT Second = 1000000000\nINIT Init\nNEXT Next\nINVARIANT CCInv\nCHECK_DEADLOCK FALSE\n"

def build(ctx, name, defs, grain):
    base = ["gcc"] + ctx.CFLAGS + ctx.ASAN + ["-I" + HARN, "-I" + REPO, "-I" + REPO + "/libmy"]
    o = "%s/rate-%s.o" % (ctx.dir, name)
    ctx._cc(base + ["-include", "sys/time.h", "-include", "time.h", "-include", "unistd.h"] + SIM + defs + ["-c", REPO + "/libmy/my_rate.c", "-o", o])
    exe = "%s/drv-%s" % (ctx.dir, name)
    ctx._cc(base + ["-DGRAIN=%d" % grain, HARN + "/drv_rate.c", o, "-o", exe, "-lm"])
    return exe

def corrupt(c, r):
    slept = [e for e in c["ev"] if e[1]]
    if not slept:
        return None
    e = r.choice(slept)
    k = r.randrange(3)
    s = e[1][-1]
    if k == 0:          # past the tick
        s[1] = (s[1] + 50) % 10**9
    elif k == 1:        # short of it
        e[2] = [e[0][0], e[0][1]]
        s[2], s[3] = e[0][0], e[0][1]
    else:
        e[1].append(list(s))
    return c

def mkcase(m, o):
    return dict(m, ev=o["ev"] if o else [])

def script(r, rate, n, grain):
    p = 10**9 // rate
    mode = r.choice(["fast", "slow", "mixed", "bursty", "signals"])
    calls = []
    for i in range(n):
        if mode == "fast":
            w = r.choice([0, 0, r.randint(0, p // 3)])
        elif mode == "slow":
            w = r.randint(p // 2, 2 * p + 1)
        elif mode == "bursty":
            w = r.choice([0] * 6 + [r.randint(p, 12 * p)])
        else:
            w = r.choice([0, r.randint(0, p), r.randint(0, 3 * p), p, p - 1, 1])
        t = "%d:%d" % (w // 10**9, w % 10**9)
        if r.random() < (.5 if mode == "signals" else .1):
            for _ in range(r.randint(1, 3)):
                t += ":i%d" % r.randint(0, max(1, p // r.choice([1, 2, 5])) % 10**9)
        if r.random() < .1:
            t += ":l%d" % r.randint(0, min(3 * p, 10**9 - 1))
        calls.append(t)
    return calls

def run(ctx):
    r = ctx.rng
    ctx.mc("RateMC", "RateMC2.cfg" if ctx.thorough else "RateMC.cfg")
    for name, defs, grain in VARIANTS:
        exe = build(ctx, name, defs, grain)
        reqs = []
        rates = [2, 3, 5, 7, 10, 16, 24, 30, 50, 60, 99, 100, 101, 128, 250, 333, 500, 777, 1000, 1024, 1500, 2000]
        for _ in range(ctx.n(160, 1600)):
            rate = r.choice(rates) if r.random() < .75 else int(10 ** r.uniform(0.31, 5 if grain > 1 else 8))
            freq = r.choice([0, 0, 1, 2, 3, 5, 10, rate if rate < 40 else 7])
            n = r.randint(5, 60)
            s0, n0 = r.choice([0, 1, 59, 1000, 1790000000]), r.choice([0, r.randrange(10**9), 999999999, 999999000, 1])
            line = "run %d %d %d %d %s" % (rate, freq, s0, n0, " ".join(script(r, rate, n, grain)))
            reqs.append((line, dict(rate=rate, freq=freq, req=line[:200], variant=name)))
        for rate in (1, 1, 2):
            line = "run %d 0 %d %d %s" % (rate, r.randrange(1000), r.randrange(10**9), " ".join(script(r, rate, 12, grain)))
            reqs.append((line, dict(rate=rate, freq=0, req=line[:200], variant=name)))
        # long regular runs: re-evaluation must hold the rate
        for rate in r.sample(rates, ctx.n(5, 16)):
            line = "run %d %d 5 %d %s" % (rate, r.choice([1, 2, 4, 9]), r.randrange(10**9), " ".join(["0:%d" % r.choice([0, 10**9 // rate // 4])] * ctx.n(150, 500)))
            reqs.append((line, dict(rate=rate, freq=int(line.split()[2]), req=line[:200], variant=name)))
        ctx.conform("RateTrace", exe, reqs, mkcase, corrupt=corrupt, nneg=30, cfg=CFG)
    ctx.assumptions += ["time passes only while sleeping and between calls; with gettimeofday() it is a whole number of microseconds when a sleep ends",
                        "rates above 2000/s: the direction of a correction is not judged, only its size"]
