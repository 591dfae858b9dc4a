"""Shared by the text codec checks."""
from vlib import *

MODS = ["b32_encode", "b32_decode", "b64_encode", "b64_decode", "my_format"]
def hx(b):
    return bytes(b).hex() or "-"

def build(ctx):
    ctx.mc("CodecMC", "CodecMC2.cfg" if ctx.thorough else "CodecMC.cfg")
    return ctx.build_my("drv_codec.c", only=MODS, extra=["-include", "stdbool.h"])

def flip(v, r):
    if isinstance(v, list):
        if v and isinstance(v[-1], list) and r.random() < 0.9:
            flip(r.choice(v), r)
        elif v and not isinstance(v[0], list) and r.random() < 0.8:
            j = r.randrange(len(v)); v[j] ^= 1
        elif v and isinstance(v[0], list):
            v[r.randrange(len(v))][-1].append(3)
        else:
            v.append(65)
        return v
    return v + 1

def corrupt(c, r):
    k = r.choice(sorted(c["out"]))
    o = c["out"]
    if k == "chunks":
        x = r.choice(o[k])[1]
        x.append(65) if not x or r.random() < 0.5 else x.__setitem__(0, x[0] ^ 1)
    elif k in ("ok",):
        o[k] = 1 - o[k]
        o.setdefault("bs", [])
    else:
        o[k] = flip(o[k], r)
    return c

def go(ctx, exe, reqs, corrupt=corrupt, nneg=40):
    seen, u = set(), []
    for l, m in reqs:
        if l not in seen:
            seen.add(l); u.append((l, m))
    def mk(m, o):
        return dict(m, out=o or {})
    ctx.conform("CodecTrace", exe, u, mk, corrupt=corrupt, nneg=nneg, drive_kw=dict(shards=4))
