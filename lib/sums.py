"""Shared by the checksum and hash checks."""
from vlib import *
MODS = ["crc32c", "crc32c-slicing", "crc32c-sse42", "lookup3"]
def corrupt(c, r):
    k = r.choice([k for k in sorted(c["out"]) if c["out"][k]])
    x = r.choice(c["out"][k])
    while isinstance(x[0], list):
        x = r.choice(x)
    x[r.randrange(2)] ^= 1 << r.randrange(16)
    return c
def w2(v):
    return [v >> 16, v & 65535]
def mk(m, o):
    return dict(m, out=o or {})
