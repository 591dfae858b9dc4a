"""C18: a full scan by record kind yields exactly the records of that kind."""
from qgen import *

def run(ctx):
    r = ctx.rng
    exe = ctx.build_dns("drv_dns.c")
    ctx.mc("SplitMC", "SplitMC2.cfg" if ctx.thorough else "SplitMC.cfg")
    stores, odd = [], []
    for i in range(ctx.n(50, 300)):
        stores.append(gen_store(ctx, "%d" % i, r.choice([1, 1, 2, 3, 4]), r.choice([0, 1, 4, 10, 20]), windows=r.random() < .5))
    for i in range(ctx.n(60, 400)):      # one file, with records that cannot be decoded among them
        f = {}
        for _ in range(r.choice([1, 3, 8, 20])):
            k, v = stored(rnd_record(r))
            if len(k) > 300:
                continue
            if r.random() < .3:
                b = bytearray(k)
                c = r.random()
                if c < .3:
                    del b[-1:]
                elif c < .6 and len(b) > 1:
                    b[r.randrange(1, len(b))] = r.choice([0, 1, 63, 64, 128, 255])
                elif c < .8:
                    b.append(r.choice([0, 1, 128]))
                else:
                    v = v[:-1]
                k = bytes(b)
            if r.random() < .06:
                k = bytes([r.choice([4, 5, 100, 252])]) + k[1:]
            f[k] = v
        odd.append(Store(ctx, [f], [None], "o%d" % i))
    allst = stores + odd
    sf = os.path.join(ctx.dir, "stores.ndjson")
    with open(sf, "w") as fh:
        for s in allst:
            fh.write(json.dumps(s.json()) + "\n")
    bad = ctx.validate("StoreSane", [s.json() for s in stores], nneg=0, count=False)
    if bad:
        raise ToolError("generated store %d violates the assumptions made of stores" % bad[0])
    reqs = []
    for i, s in enumerate(allst):
        for w in (0, 1, 2, 3, 253, 254, 255, 9):
            for kind in (["f", "s"] if len(s.files) == 1 else ["s"]):
                if kind == "s" and s in odd:
                    continue
                reqs.append(("scan %s %d %d" % (s.src(kind), w, r.randrange(6)), dict(store=i + 1, which=w)))
    def mk(m, o):
        return dict(m, res=o["res"] if o else [], again=o["again"] if o else 0)
    def spoil(c, rng):
        if not c["res"]:
            return None
        i = rng.randrange(len(c["res"]))
        k = rng.random()
        if k < .3:
            del c["res"][i]
        elif k < .6:
            c["res"].insert(i, dict(c["res"][i]))
        elif k < .8:
            c["res"][i]["n"] = list(c["res"][i]["n"]) + [0]
        else:
            c["res"][i]["ty"] ^= 1
        return c
    ctx.conform("ScanTrace", exe, reqs, mk, env=dict(STORES=sf), corrupt=spoil, nneg=40, drive_kw=dict(shards=8))
