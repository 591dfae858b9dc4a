"""Generators of dnstable records and stores, and their stored form."""
from vlib import *

RRSET, RRSET_NAME, RDATA, RDATA_NAME, SOURCE, TIME_RANGE, VERSION = 0, 1, 2, 3, 253, 254, 255
A, NS, CNAME, SOA, PTR, MX, TXT, AAAA, SRV, DNAME, DS, NSEC, DNSKEY, SVCB, HTTPS = 1, 2, 5, 6, 12, 15, 16, 28, 33, 39, 43, 47, 48, 64, 65
NAME_TYPES = [NS, CNAME, DNAME, PTR]          # the rdata is exactly one name
M64 = 2**64 - 1

def varint(v):
    o = bytearray()
    while True:
        b = v & 127
        v >>= 7
        if v:
            o.append(b | 128)
        else:
            o.append(b)
            return bytes(o)

def wire(labels):
    o = b""
    for l in labels:
        o += bytes([len(l)]) + l
    return o + b"\0"

def labels(w):
    o, p = [], 0
    while w[p]:
        o.append(w[p + 1:p + 1 + w[p]])
        p += w[p] + 1
    return o

def rev(w):
    return wire(labels(w)[::-1])

def name(s):
    """simple presentation name (no escapes) to wire"""
    s = s.rstrip(".")
    return wire([x.encode("latin1") for x in s.split(".")]) if s else b"\0"

def pres(w):
    """wire to presentation, escaping everything unusual"""
    if w == b"\0":
        return "."
    o = ""
    for l in labels(w):
        for c in l:
            if c in b".\\":
                o += "\\" + chr(c)
            elif 33 <= c <= 126:
                o += chr(c)
            else:
                o += "\\%03d" % c
        o += "."
    return o

def lower(w):
    # length octets never fall in the upper-case range for labels of at most 63 bytes... they can (65..90 > 63 no)
    return wire([l.lower() for l in labels(w)])

def k_rrset(nm, t, bw, rds):
    return bytes([RRSET]) + rev(nm) + varint(t) + rev(bw) + b"".join(varint(len(r)) + r for r in rds)

# searchable part: where rdata is cut into (slice, data)
def slice_len(t, rd):
    if t == MX and len(rd) > 2:
        return 2
    if t == SRV and len(rd) > 6:
        return 6
    return 0

def k_rdata(nm, t, rd, sl=None):
    if sl is None:
        sl = slice_len(t, rd)
    d = rd[sl:]
    return bytes([RDATA]) + d + varint(t) + rev(nm) + rd[:sl] + bytes([len(d) & 255, len(d) >> 8])

def v_triplet(f, l, c):
    return varint(f) + varint(l) + varint(c)

def index_bytes(types, form="auto"):
    ts = sorted(set(types))
    if form == "none" or not ts:
        return b""
    if len(ts) == 1 and form in ("auto", "one"):
        return bytes([ts[0]]) if ts[0] < 256 else bytes([ts[0] & 255, ts[0] >> 8])
    if len(ts) == 1 and form == "two":
        return bytes([ts[0] & 255, ts[0] >> 8])
    o = b""
    for w in sorted({t >> 8 for t in ts}):
        bm = bytearray(32)
        for t in ts:
            if t >> 8 == w:
                bm[(t & 255) >> 3] |= 0x80 >> (t & 7)
        n = max(i for i in range(32) if bm[i]) + 1
        o += bytes([w, n]) + bytes(bm[:n])
    return o

LABELS = [b"a", b"b", b"ab", b"abc", b"A", b"aB", b"www", b"com", b"example", b"\x00", b"a.b", b"\xff\x80", b"*", b"+", b"-", b"_dmarc",
          b"x" * 63, b"\x01a", b"\x03com", b"\\", b"\"q\"", b"a b", b"\t\n", b"1"]

def rnd_label(r):
    k = r.random()
    if k < 0.8:
        return r.choice(LABELS)
    if k < 0.9:
        return bytes(r.randrange(256) for _ in range(r.randint(1, 6)))
    return bytes(r.randrange(256) for _ in range(r.choice([1, 2, 62, 63])))

def rnd_name(r, maxl=5):
    while True:
        n = r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, maxl])
        w = wire([rnd_label(r) for _ in range(n)])
        if r.random() < 0.03:      # a name of (nearly) maximal length
            ls = []
            tot = 1
            target = r.choice([253, 254, 255])
            while tot < target:
                k = min(63, target - tot - 1)
                if k < 1:
                    break
                if target - tot - 1 - k == 1:
                    k -= 1
                ls.append(bytes(r.choice(b"abz\0") for _ in range(k)))
                tot += k + 1
            w = wire(ls)
        if len(w) <= 255:
            return w

NUMS = [0, 1, 2, 127, 128, 129, 16383, 16384, 2**21, 2**28 - 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**35, 2**42, 2**49, 2**56, 2**63 - 1, 2**63, M64 - 1, M64,
        1380139330, 1671393599]

def rnd_num(r):
    return r.choice(NUMS) if r.random() < 0.6 else r.getrandbits(r.randint(1, 64))

TYPES = [1, 2, 5, 6, 12, 15, 16, 28, 33, 39, 43, 46, 47, 48, 64, 65, 99, 127, 128, 255, 256, 257, 16383, 16384, 32769, 65280, 65534, 65535, 0]

def rnd_type(r):
    return r.choice(TYPES) if r.random() < 0.9 else r.randrange(65536)

def rnd_rdata(r, t=None, big=False):
    if t == A and r.random() < .9:
        return bytes(r.randrange(256) for _ in range(4))
    if t == AAAA and r.random() < .9:
        return bytes(r.randrange(256) for _ in range(16))
    if t in NAME_TYPES and r.random() < .9:
        return rnd_name(r)
    if t == MX and r.random() < .9:
        return bytes([r.randrange(256), r.randrange(256)]) + rnd_name(r)
    if t == SRV and r.random() < .9:
        return bytes(r.randrange(256) for _ in range(6)) + rnd_name(r)
    if t == TXT and r.random() < .9:
        o = b""
        for _ in range(r.randint(1, 3)):
            s = bytes(r.choice([r.randrange(256), 34, 92, 10, 97, 0, 0x7f, 0xc3]) for _ in range(r.choice([0, 1, 5, 20])))
            o += bytes([len(s)]) + s
        return o
    if t == SOA and r.random() < .8:
        return rnd_name(r) + rnd_name(r) + bytes(r.randrange(256) for _ in range(20))
    n = r.choice([0, 0, 1, 2, 3, 4, 16, 20, 127, 128] + ([300, 16383, 16384, 65535] if big else []))
    return bytes(r.randrange(256) for _ in range(n))

def rnd_index(r):
    k = r.random()
    if k < .2:
        return b""
    if k < .4:
        return bytes([r.choice([0, 1, 2, 15, 28, 255])])
    if k < .55:
        t = rnd_type(r)
        return bytes([t & 255, t >> 8])
    return index_bytes([rnd_type(r) for _ in range(r.randint(2, 8))])

def rnd_record(r, kind=None, big=False):
    """a record in the form Record.tla understands"""
    if kind is None:
        kind = r.choice([RRSET] * 6 + [RDATA] * 6 + [RRSET_NAME, RDATA_NAME, SOURCE, TIME_RANGE, VERSION])
    d = dict(kind=kind)
    if kind == RRSET:
        t = rnd_type(r)
        n = r.choice([0, 1, 1, 1, 2, 3, 4, 5, 9] + ([40] if big else []))
        d.update(name=rnd_name(r), bailiwick=rnd_name(r), rrtype=t, rdatas=[rnd_rdata(r, t, big) for _ in range(n)])
    elif kind == RDATA:
        t = rnd_type(r)
        rd = rnd_rdata(r, t, big)
        sl = slice_len(t, rd) if r.random() < .8 else r.randint(0, min(len(rd), 9))
        d.update(name=rnd_name(r), rrtype=t, rdatas=[rd], slice=sl)
    elif kind in (RRSET_NAME, RDATA_NAME):
        d.update(name=rnd_name(r), index=rnd_index(r))
    elif kind == SOURCE:
        d.update(text=bytes(r.choice(b"abcXYZ \"\\\n\t/.\x7f\x80\xff") for _ in range(r.choice([0, 1, 5, 40]))))
    elif kind == VERSION:
        d.update(vkind=r.choice([0, 1, 2, 3, 7, 254]), version=rnd_num(r) & 0xffffffff)
    if kind in (RRSET, RDATA, TIME_RANGE):
        d.update(first=rnd_num(r), last=rnd_num(r))
    if kind in (RRSET, RDATA):
        d.update(count=rnd_num(r))
    return d

def stored(d):
    k = d["kind"]
    if k == RRSET:
        return k_rrset(d["name"], d["rrtype"], d["bailiwick"], d["rdatas"]), v_triplet(d["first"], d["last"], d["count"])
    if k == RDATA:
        return k_rdata(d["name"], d["rrtype"], d["rdatas"][0], d["slice"]), v_triplet(d["first"], d["last"], d["count"])
    if k == RRSET_NAME:
        return bytes([k]) + d["name"], d["index"]
    if k == RDATA_NAME:
        return bytes([k]) + rev(d["name"]), d["index"]
    if k == SOURCE:
        return bytes([k]) + d["text"], b""
    if k == TIME_RANGE:
        return bytes([k]), varint(d["first"]) + varint(d["last"])
    return bytes([k, d["vkind"]]), varint(d["version"])

def tla(d):
    """the record with byte strings and numbers as TLC reads them"""
    o = {}
    for k, v in d.items():
        if isinstance(v, bytes):
            o[k] = list(v)
        elif k in ("first", "last", "count"):
            o[k] = limbs(v)
        elif k == "version":
            o[k] = limbs(v, 2)
        elif k == "rdatas":
            o[k] = [list(x) for x in v]
        else:
            o[k] = v
    return o
