from dnsgen import *

def order(r, n):
    """a random way of merging n operands two at a time"""
    live, steps, nxt = list(range(n)), [], n
    while len(live) > 1:
        a, b = r.sample(live, 2)
        live.remove(a); live.remove(b)
        steps.append("%d.%d" % (a, b)); live.append(nxt); nxt += 1
    return ",".join(steps) or "-"

def merge_req(key, vals, steps):
    return ("merge %s %s %s" % (hexs(key), steps, " ".join(hexs(v) for v in vals)),
            dict(op="merge", key=list(key), vals=[list(v) for v in vals], steps=steps))

def mk(m, o):
    return dict(m, out=o or {})

def corrupt(c, rng):
    o = c["out"]
    v = o["val"]
    if v:
        i = rng.randrange(len(v))
        v[i] ^= 1 << rng.randrange(7)
    else:
        o["val"] = [1, 1]
    return c
