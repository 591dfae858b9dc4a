"""C22: filter, difference and left join behave as cursors over the exact list."""
from vlib import *

KEYS = [b"", b"a", b"aa", b"ab", b"aba", b"abc", b"ac", b"b", b"b\x00", b"ba", b"\xff", b"\xff\xff", b"\x00", b"a\xff", b"c", b"ca"]

def table(r, keys, tag, poison=0.0):
    return {"n": "T", "l": [{"k": list(k), "v": [78] if r.random() < poison else [tag] + [r.randrange(256) for _ in range(r.randint(0, 2))]} for k in sorted(keys)]}

def some(r, ks, p=None):
    p = r.choice([0, .2, .5, .5, .8, 1]) if p is None else p
    return [k for k in ks if r.random() < p]

def keys_of(t):
    if t["n"] == "T":
        return sorted(bytes(x["k"]) for x in t["l"])
    return keys_of(t["up"])

def mk(r, ks, depth, kind=None):
    kind = kind or r.choice("TFRJ" if depth else "T")
    if kind == "T":
        return table(r, some(r, ks), r.randrange(200))
    up = mk(r, ks, depth - 1)
    if kind == "F":
        uk = keys_of(up)
        rej = set(some(r, uk))
        f = []
        for k in sorted(rej):
            # jump only over what is rejected anyway, possibly past the end
            later = [x for x in uk if x > k]
            lim = next((x for x in later if x not in rej), None)
            cand = [x for x in later + ks if x > k and (lim is None or x <= lim)]
            if cand and r.random() < .5:
                f.append({"k": list(k), "d": 3, "to": list(r.choice(cand))})
            else:
                f.append({"k": list(k), "d": 1, "to": []})
        return {"n": "F", "f": f, "up": up}
    if kind == "R":
        return {"n": "R", "up": up, "rm": [mk(r, ks, r.choice([0, 0, depth - 1])) for _ in range(r.randint(0, 3))]}
    return {"n": "J", "up": up, "right": mk(r, ks, r.choice([0, 0, depth - 1]))}

def toks(t):
    if t["n"] == "T":
        return ["T", ",".join(hexs(x["k"]) + "=" + hexs(x["v"]) for x in t["l"]) or "-"]
    if t["n"] == "F":
        return ["F", ",".join("%s:%d:%s" % (hexs(x["k"]), x["d"], hexs(x["to"])) for x in t["f"]) or "-"] + toks(t["up"])
    if t["n"] == "R":
        return ["R", str(len(t["rm"]))] + toks(t["up"]) + [y for x in t["rm"] for y in toks(x)]
    return ["J"] + toks(t["up"]) + toks(t["right"])

def case(r, ks, tree):
    h = r.choice(["iter", "iter", "get", "prefix", "range", "range"])
    op = dict(h=h, a=[], b=[])
    lo = b""
    if h != "iter":
        a = r.choice(ks)
        if h == "prefix" and r.random() < .5:
            a = a[:r.randint(0, len(a))]
        b = r.choice(ks)
        if h == "range" and b < a:
            a, b = b, a
        op["a"] = list(a)
        lo = a
        if h == "range":
            op["b"] = list(b)
    mv = []
    style = r.random()
    for _ in range(r.randint(3, 22)):
        if r.random() < (.15 if style < .5 else .45):
            c = [k for k in ks if k >= lo] + [lo, lo + b"\x00"]
            mv.append("s:" + hexs(r.choice(c)))
        else:
            mv.append("n")
    if style < .3:
        mv += ["n"] * (len(ks) + 1)
    line = " ".join(["comb"] + toks(tree) + ["op", h] + ([hexs(op["a"])] if h != "iter" else []) + ([hexs(op["b"])] if h == "range" else []) + ["m"] + mv)
    return line, dict(tree=tree, op=op)

def corrupt(c, r):
    n = [e for e in c["ev"] if e["e"] == "n"]
    e = r.choice(c["ev"])
    w = r.random()
    if w < .3 or not n:
        k = r.choice(["filtered", "merged", "seek", "files"])
        e["c"][k] += 1
    elif w < .6:
        e = r.choice(n)
        e["out"] = [] if e["out"] else [{"k": [1, 2, 3, 4], "v": []}]
    else:
        o = [x for x in n if x["out"]]
        if not o:
            return None
        f = r.choice(["k", "v"])
        r.choice(o)["out"][0][f] += [9]
    return c

def run(ctx):
    r = ctx.rng
    ctx.mc("CombMC", "CombMC3.cfg" if ctx.thorough else "CombMC.cfg")
    ctx.mc("CombMC", "CombMCJ.cfg")
    exe = ctx.build_dns("drv_comb.c")
    reqs = []
    for i in range(ctx.n(6000, 60000)):
        ks = sorted(r.sample(KEYS, r.randint(1, 9)))
        kind = r.choice("FRRJJ")
        t = mk(r, ks, r.choice([1, 1, 1, 2, 3]), kind)
        if kind == "J" and r.random() < .15 and t["right"]["n"] == "T":
            for x in t["right"]["l"]:
                if r.random() < .3:
                    x["v"] = [78]
        if kind == "F" and t["f"] and r.random() < .15:
            # the filter gives up from some key on
            s = r.choice(t["f"])["k"]
            old = {bytes(x["k"]): x for x in t["f"]}
            t["f"] = [x for x in t["f"] if x["k"] < s] + [{"k": list(k), "d": 2, "to": []} for k in keys_of(t["up"]) if list(k) >= s]
        reqs.append(case(r, ks, t))
    def mkc(m, o):
        c = dict(m)
        c["ev"] = (o or {}).get("ev", [])
        return c
    ctx.conform("CombTrace", exe, reqs, mkc, corrupt=corrupt, cfg="INIT Init\nNEXT Next\nINVARIANT CCInv\nCHECK_DEADLOCK FALSE\n", drive_kw=dict(shards=4))
    ctx.assumptions += ["seeks stay at or above the lower bound the iterator was opened with, as every caller in the library does",
                        "tables hold each key once (libmtbl's writer refuses repeated keys)"]
