"""C29: searches running at the same time do not disturb one another.
Lives of readers (as in C23, with texts of every entry) are led alone and then together, in a thread each or turn by turn, and checked as independent
behaviours of Follow whose observations equal those made alone; the threads run under ThreadSanitizer where it works."""
import importlib.util, subprocess
from qgen import *

CFG = "INIT ShInit\nNEXT ShNext\nINVARIANT CCInv\nCHECK_DEADLOCK FALSE\n"
_s = importlib.util.spec_from_file_location("c23", os.path.join(os.path.dirname(__file__), "C23.py"))
c23 = importlib.util.module_from_spec(_s); _s.loader.exec_module(c23)

def mkc(m, o):
    lives = []
    c = dict(lives=lives)
    for k, l in enumerate(m["lives"]):
        evs = [dict(e) for e in l["ev"]]
        lives.append(dict(store=l["store"], ev=evs))
        obs = [e for e in evs if e["e"] in ("set", "get")]
        if o is None:
            for e in obs: e["out"] = e["alone"] = {}
            continue
        g = o["lives"][k]
        if len(g["ev"]) != len(obs) or len(g["alone"]) != len(obs):
            c["crash"] = "driver answered %d and %d events for %d" % (len(g["alone"]), len(g["ev"]), len(obs))
        for e, x, y in zip(obs, g["ev"], g["alone"]):
            e["out"], e["alone"] = x, y
    return c

def corrupt_s(c, rng):
    """an entry of another life, a text that differs, or the same wrong answer alone and together"""
    gets = [(i, e) for i, l in enumerate(c["lives"]) for e in l["ev"] if e["e"] == "get" and e["out"]["res"]]
    if not gets:
        return None
    i, e = rng.choice(gets)
    k = rng.random()
    if k < .4:
        e["out"]["tx"][rng.randrange(len(e["out"]["tx"]))] ^= 1
    elif k < .7:
        j = rng.randrange(len(e["out"]["res"]))
        for x in (e["out"], e["alone"]):
            x["res"][j] = dict(x["res"][j], t=x["res"][j]["t"] ^ 1)
    else:
        e["out"]["res"] = e["out"]["res"][:-1] + [dict(e["out"]["res"][-1], n=e["out"]["res"][-1]["n"] + [0])]
    return c

def tsan(ctx):
    """does ThreadSanitizer run here?"""
    p = os.path.join(ctx.dir, "ts")
    with open(p + ".c", "w") as f:
        f.write("#include <pthread.h>\nstatic void *f(void *x) { return x; }\nint main(void) { pthread_t t; pthread_create(&t, 0, f, 0); pthread_join(t, 0); return 0; }\n")
    return subprocess.run(["gcc", "-fsanitize=thread", "-g", p + ".c", "-o", p, "-lpthread"], capture_output=True).returncode == 0 and \
        subprocess.run([p], capture_output=True).returncode == 0

def run(ctx):
    r = ctx.rng
    exe = ctx.build_dns("drv_share.c")
    ctx.mc("ShareMC", "ShareMC2.cfg" if ctx.thorough else "ShareMC.cfg")
    stores = [gen_store(ctx, "%d" % i, r.choice([1, 2, 3]), r.choice([5, 8, 12]), windows=r.random() < .7, spread=r.choice([.3, .6])) for i in range(ctx.n(6, 20))]
    stores += [few_store(ctx, "j%d" % i) for i in range(ctx.n(2, 8))]
    sf = os.path.join(ctx.dir, "stores.ndjson")
    with open(sf, "w") as fh:
        for s in stores:
            fh.write(json.dumps(s.json()) + "\n")
    def reqs(n, modes, tag):
        out = []
        for j in range(n):
            lives = []
            one = r.randrange(len(stores)) if r.random() < .5 else None
            for k in range(r.choice([2, 2, 3, 4])):
                i = one if one is not None else r.randrange(len(stores))
                lives.append(c23.history(r, i + 1, stores[i], os.path.join(stores[i].dir, "set-%s-%d-%d" % (tag, j, k)), r.random() < .5))
            out.append(("share %s %d %s" % (r.choice(modes), r.randrange(1 << 30), " | ".join(l[0].split(" ", 1)[1] for l in lives)), dict(lives=[l[1] for l in lives])))
        return out
    kw = dict(env=dict(STORES=sf), corrupt=corrupt_s, cfg=CFG)
    ctx.conform("ShareTrace", exe, reqs(ctx.n(350, 2500), "iiit", "a"), mkc, nneg=30, drive_kw=dict(shards=8), **kw)
    if tsan(ctx):
        lib = ctx.dns_objs(san=False, extra=("-fsanitize=thread",), tag="t")
        ext = ctx.build_dns("drv_share.c", san=False, extra=("-fsanitize=thread",), name="drv_share_t", lib=lib)
        ctx.conform("ShareTrace", ext, reqs(ctx.n(200, 1500), "t", "t"), mkc, nneg=10, drive_kw=dict(shards=4, env=dict(TSAN_OPTIONS="halt_on_error=1:exitcode=66")), **kw)
    else:
        ctx.assumptions.append("ThreadSanitizer does not run here: accesses by threads that only sometimes collide are seen when they do")
    ctx.assumptions.append("no reader, query, iterator or entry is used by two threads; reloading and closing happen in the thread that owns the reader")
