"""Stores of one or more files with consistent indexes, and queries on them."""
import ipaddress, socket
from dnsgen import *

NAME_SEARCH = {2, 5, 6, 12, 15, 17, 30, 33, 39, 47, 64, 65}
NAME_BEARING = {2, 5, 6, 12, 15, 33, 39, 64, 65}
Q_RRSET, Q_NAME, Q_IP, Q_RAW, Q_SOURCE, Q_TIME, Q_VERSION = 0, 1, 2, 3, 253, 254, 255
TYPE_NAME = {1: "A", 2: "NS", 5: "CNAME", 6: "SOA", 12: "PTR", 15: "MX", 16: "TXT", 17: "RP", 28: "AAAA", 30: "NXT", 33: "SRV", 39: "DNAME",
             43: "DS", 46: "RRSIG", 47: "NSEC", 48: "DNSKEY", 64: "SVCB", 65: "HTTPS", 257: "CAA"}
def mag(f):
    # ----- names: few, with many near misses
    return f

NAMES = [name(x) for x in ["com", "example.com", "www.example.com", "a.example.com", "a.b.example.com", "b.example.com", "example.org", "org", "xample.com",
         "example.com.evil.org", "www.example.org", "www.com", "test", "ample.com", "www.xexample.com", "wwwx.example.com", "w.example.com", "example",
         "www.example", "b.a", "c.b.a", "com.example", "example.co", "co", "ww.example.com"]] + \
        [b"\0", wire([b"*", b"example", b"com"]), wire([b"+", b"a"]), wire([b"Ex", b"com"]), wire([b"\x03com"]), wire([b"a.b", b"com"]), wire([b"\0", b"com"]),
         wire([b"\xff\xfe", b"com"]), wire([b"www", b"exam\x07ple", b"com"]), wire([b"x" * 63, b"com"]), wire([b"a", b"*"]), wire([b"example", b"com", b"+"]),
         wire([b"\xff", b"example", b"com"]), wire([b"\xff" * 63, b"example", b"com"]), wire([b"a" * 63, b"b" * 63, b"c" * 63, b"d" * 61]),
         wire([b"d" * 62, b"c" * 63, b"b" * 63, b"a" * 60])]

POOL = []        # names preferred while a store is made
def ff_names(r):
    """names several levels deep below few common ones, whose labels end in bytes of value 255 as often as not"""
    base = r.choice([[b"com"], [b"example", b"com"], [b"\xff"], [b"a", b"\xff\xff"], [b"\xff" * 63]])
    lab = [b"a", b"a\xff", b"\xff", b"\xff\xff", b"b", b"a\xff\xff", b"\xff\0", b"\xfe\xff", b"\xff" * 62, b"\xff" * 63, b"a" + b"\xff" * 62, b"b\xff", b"\0", b"ab"]
    o, few = [wire(base)], r.sample(lab, r.randint(2, 5))
    for _ in range(14):
        x = [r.choice(few) for _ in range(r.choice([1, 1, 2, 2, 3]))]
        n = wire(x + base if r.random() < .6 else base + x)
        if len(n) <= 255:
            o.append(n)
    return o

def pick_name(r):
    if POOL and r.random() < .9:
        return r.choice(POOL)
    k = r.random()
    if k < .8:
        return r.choice(NAMES)
    ls = [r.choice([b"a", b"b", b"www", b"example", b"com", b"org", b"x", b"\xff", b"*", b"%s%d", b"a b", b"\"\\", b"\0\x1f\x7f"]) for _ in range(r.randint(1, 4))]
    return wire(ls)

ADDR4 = [bytes(x) for x in [(0, 0, 0, 0), (0, 0, 0, 1), (1, 2, 3, 4), (1, 2, 3, 5), (1, 2, 3, 255), (1, 2, 4, 0), (1, 255, 255, 255), (2, 0, 0, 0), (127, 0, 0, 1), (192, 168, 1, 0),
         (192, 168, 1, 1), (192, 168, 1, 2), (192, 168, 1, 255), (192, 168, 2, 0), (255, 255, 255, 255), (255, 255, 255, 254), (128, 0, 0, 0), (3, 99, 111, 109), (1, 97, 0, 2)]]
def pick4(r):
    return r.choice(ADDR4) if r.random() < .85 else bytes([r.choice([1, 192, 0, 255]), r.choice([2, 168, 0, 255]), r.choice([1, 3, 255, r.randrange(256)]), r.randrange(256)])
def pick6(r):
    k = r.random()
    if k < .5:         # begins like an IPv4 address, then something that looks like the rest of an A record
        tail = r.choice([b"\x01", b"\x1c", b"\x01\x03com\x00", b"\x01\x01a\x00\x04\x00", b"\x01\x01a\x01b\x00", b"\x01\x40", b"\x01\xff\xff", b"\x01\x00", b"\x01\x00\x04\x00",
                        b"\x00", b"\x02", b"\x01\x3f", b"\x01\x0b" + b"x" * 11, b"\x01\x01b\x00\x05", b"\x01\x03com\x01\xff", b"\x01\x3f" + b"\xff" * 10, b"\x01\x01\xff\x00\xff\xff",
                        b"\x01\x0a" + b"\xff" * 10, b"\x01\x03com\xff", b"\x01\x03org\x00\x04\x00",
                        b"\x01" + bytes([r.randint(12, 44)]) + b"x" * 10, b"\x01" + bytes([r.randint(12, 44)]) + b"y" * 10, b"\x01\x03com" + bytes([r.randint(8, 40)]) + b"x" * 6,
                        bytes(r.randrange(256) for _ in range(12))])
        return (pick4(r) + tail + (b"\0" if r.random() < .5 else b"\xff") * 12)[:16]
    if k < .8:
        return bytes.fromhex(r.choice(["20010db8000000000000000000000001", "20010db8000000000000000000000002", "20010db80000000000000000000000ff", "20010db8000000000000000000000100",
                                       "00000000000000000000000000000000", "00000000000000000000000000000001", "ff" * 16, "20010db8ffffffffffffffffffffffff", "20010db9" + "00" * 12,
                                       "fe80" + "00" * 13 + "01", "00000000000000000000ffff01020304"]))
    return bytes([0x20, 1, 0xd, 0xb8]) + b"\0" * 10 + bytes([r.randrange(3), r.randrange(256)])

def pick_rdata(r, t):
    n = pick_name(r)
    if t == A:
        return pick4(r)
    if t == AAAA:
        return pick6(r)
    if t in (NS, CNAME, PTR, DNAME):
        return n
    if t == MX:
        return bytes([0, r.choice([0, 1, 5, 10, 20])]) + n
    if t == SRV:
        return bytes([0, r.choice([0, 1, 10]), 0, 5, r.choice([1, 0x13]), 0xc4]) + n
    if t == SOA:
        return n + pick_name(r) + bytes([0, 0, 0, r.randrange(4)]) + bytes(16)
    if t in (SVCB, HTTPS):
        return bytes([0, r.choice([0, 1, 2])]) + n + r.choice([b"", b"\0\1\0\3\2h2"])
    if t == NSEC:
        return n + b"\x00\x01\x62"
    if t == 17:
        return n + pick_name(r)
    if t == 30:
        return n + b"\x40"
    if t == TXT:
        s = r.choice([b"", b"v=spf1", b"com", b"example", b"50%s%5d%%", b"\"a\\\n\x7f\xc3"])
        x = bytes([len(s)]) + s
        return r.choice([x, x + b"\0", x + b"\3abc", n if len(n) < 60 else x, pick4(r), pick4(r) + b"\x01" + n, b"\3" + b"www\x07example\x03com\0"])
    return r.choice([b"", b"\0", b"\1", bytes(r.randrange(256) for _ in range(r.randint(1, 8))), pick4(r), pick6(r), n])

RR_TYPES = [A, A, NS, NS, CNAME, SOA, PTR, MX, MX, TXT, AAAA, SRV, DNAME, DS, NSEC, SVCB, HTTPS, 257, 65280, 17, 30, 46, 127, 128, 99, 256, 384, 250, 378]

def mimic_of(r, t, nm, rd):
    """a record of the other address type whose stored bytes begin as those of (t, nm, rd) do"""
    if t == A and len(rd) == 4:       # address, type A, owner name, and whatever makes it sort before or after
        x = rd + b"\x01" + nm
        c = r.random()
        if c < .35:
            x += r.choice([b"\0" * 16, b"\x03" + b"\xff" * 16, b"\x04" + b"\0" * 16, b"\x04\0\x01" + b"\0" * 16, b"\x05" + b"\0" * 16, b"\xff" * 16])
        elif c < .7:
            k = r.randint(5, len(x))
            x = x[:k] + r.choice([b"\0" * 16, b"\xff" * 16, b"\x01" * 16, b"\x3f" + b"\xff" * 16])
        else:
            i = r.randrange(4, len(x))
            x = x[:i] + bytes([(x[i] + r.choice([-1, 1, 2])) & 255]) + x[i + 1:] + b"\0" * 16
        return (AAAA, r.choice([nm, pick_name(r)]), x[:16])
    if t == AAAA and len(rd) == 16:   # the address's last bytes are an owner name's first label
        x = rd[6:16] if rd[5] == 10 and rd[4] == 1 else None
        if x is not None:
            y = (nm + r.choice([b"\0", b"\xff"]) * 28)[:28]
            return (A, wire([x, y]), rd[:4])
        return (AAAA, nm, pick4(r) + b"\x01\x0a" + r.choice([b"a" * 10, b"\0" * 10, b"\xff" * 10]))

def store_key(t, nm, rd, r):
    sl = 0
    if r.random() < .75:
        sl = {MX: 2, SRV: 6, SVCB: 2, HTTPS: 2}.get(t, 0)
    return k_rdata(nm, t, rd, min(sl, len(rd)))

def dec_rdata(k):
    n = k[-2] | k[-1] << 8
    d = k[1:1 + n]
    p, t, s = 1 + n, 0, 0
    while True:
        b = k[p]; p += 1
        t |= (b & 127) << s; s += 7
        if b < 128:
            break
    return d, t

def uname_len(b):
    p = 0
    while p < len(b):
        if b[p] == 0:
            return p + 1
        if b[p] > 63:
            return 0
        p += b[p] + 1
    return 0

class Store:
    """files: list of dict key -> value, ranges: per file None or (first, last)"""
    def __init__(self, ctx, files, ranges, tag, order=None):
        self.files, self.ranges = files, ranges
        self.dir = os.path.join(ctx.dir, "st-" + tag)
        os.makedirs(self.dir, exist_ok=True)
        self.paths = []
        for i, f in enumerate(files):
            p = os.path.join(self.dir, "f%d.mtbl" % i)
            with open(p, "wb") as fh:
                fh.write(b"SHIMTBL1")
                for k in sorted(f):
                    fh.write(len(k).to_bytes(4, "little") + len(f[k]).to_bytes(4, "little") + k + f[k])
            self.paths.append(p)
        idx = order if order is not None else list(range(len(files)))
        self.setfile = os.path.join(self.dir, "set")
        with open(self.setfile, "w") as fh:
            for i in idx:
                fh.write("f%d.mtbl\n" % i)
        self.keys = sorted(set(k for f in files for k in f))
    def recs(self):
        return [dict(key=list(k), vals=[[i + 1, list(f[k])] for i, f in enumerate(self.files) if k in f]) for k in getattr(self, "allkeys", self.keys)]
    def json(self):
        return dict(recs=self.recs(), ranges=[[] if x is None else [dict(first=limbs(x[0]), last=limbs(x[1]))] for x in self.ranges], files=list(range(1, len(self.files) + 1)), crash="")
    def src(self, kind):
        return ("f:" + self.paths[0]) if kind == "f" else ("s:" + self.setfile)

TM = [1000, 1001, 1005, 1010, 1011, 1020, 1030, 1040, 1041, 1050]
def rnd_triplet(r, lo=0, hi=9):
    a, b = sorted((TM[r.randint(lo, hi)], TM[r.randint(lo, hi)]))
    if r.random() < .04:
        a, b = sorted((r.choice([0, 1, 127, 128, 2**32, 2**40, M64 - 1]), r.choice([1, 300, 2**32 + 1, M64])))
    return a, b, r.choice([1, 1, 2, 3, 127, 128, 1000, 0])

def triplet_of(v):
    o, p = [], 0
    for _ in range(3):
        x = s = 0
        while True:
            if p >= len(v):        # a malformed value
                return [1000, 1000, 1]
            b = v[p]; p += 1
            x |= (b & 127) << s; s += 7
            if b < 128:
                break
        o.append(x)
    return o

def gen_files(r, nfiles, nrec, kinds=None, names=None, types=None, meta=True, spread=.5, ranges=None, times=rnd_triplet, windows=False, mimic=0):
    """random files holding nrec records, with name indexes consistent with them"""
    files = [dict() for _ in range(nfiles)]
    POOL[:] = names or []
    types = types or RR_TYPES
    recs = []
    nm_pool = names or [pick_name(r) for _ in range(max(4, nrec // 3))]
    for _ in range(nrec):
        t = r.choice(types)
        nm = r.choice(nm_pool)
        rd = pick_rdata(r, t)
        recs.append((t, nm, rd))
        if r.random() < .35:       # a near relative
            t2 = r.choice(types)
            recs.append((t2, nm, pick_rdata(r, t2)))
        if r.random() < .3:
            recs.append((t, r.choice(nm_pool), rd))
        if mimic and t in (A, AAAA) and r.random() < mimic:
            m = mimic_of(r, t, nm, rd)
            if m:
                recs.append(m)
    win = [(r.randint(0, 5), r.randint(5, 9)) if r.random() < .6 else (w, w + r.randint(0, 3)) for w in [r.randint(0, 6) for _ in range(nfiles)]]
    for t, nm, rd in recs:
        keys = []
        if kinds is None or "rrset" in kinds:
            rds = [rd]
            if r.random() < .2:
                rds = sorted(set(rds + [pick_rdata(r, t)]))
            bw = r.choice([nm, wire(labels(nm)[1:]), wire(labels(nm)[-1:]), b"\0", r.choice(nm_pool)]) if nm != b"\0" else b"\0"
            keys.append(k_rrset(nm, t, bw, rds))
            if r.random() < .25:
                keys.append(k_rrset(nm, t, wire(labels(nm)[-1:]), [rd]))
        if kinds is None or "rdata" in kinds:
            keys.append(store_key(t, nm, rd, r))
        for k in keys:
            hold = [i for i in range(nfiles) if r.random() < spread] or [r.randrange(nfiles)]
            for i in hold:
                files[i][k] = v_triplet(*(times(r, *win[i]) if windows else times(r)))
    POOL[:] = []
    # indexes
    odd = set()
    own, tgt = [dict() for _ in files], [dict() for _ in files]
    for i, f in enumerate(files):
        for k in list(f):
            if k[0] == RRSET:
                n = uname_len(k[1:])
                p, t, s = 1 + n, 0, 0
                while True:
                    b = k[p]; p += 1
                    t |= (b & 127) << s; s += 7
                    if b < 128:
                        break
                own[i].setdefault(rev(k[1:1 + n]), set()).add(t)
            elif k[0] == RDATA:
                d, t = dec_rdata(k)
                if t in NAME_SEARCH:
                    n = uname_len(d)
                    if n:
                        tgt[i].setdefault(d[:n], set()).add(t)
                        if t not in NAME_BEARING:
                            odd.add(d[:n])
    form = lambda: r.choice(["auto", "auto", "bitmap", "two"])
    for i, f in enumerate(files):
        for nm, ts in own[i].items():
            f[bytes([RRSET_NAME]) + nm] = b"" if r.random() < .08 else index_bytes(ts, form())
        for nm, ts in tgt[i].items():
            f[bytes([RDATA_NAME]) + rev(nm)] = b"" if r.random() < .08 and nm not in odd else index_bytes(ts, form())
    rngs = []
    for i, f in enumerate(files):
        tt = [triplet_of(v) for k, v in f.items() if k[0] in (RRSET, RDATA)]
        k = r.random()
        if not meta or (ranges is None and k < .2) or ranges == "none" or not tt:
            rngs.append(None)
            continue
        a, b = min(t[0] for t in tt), max(t[1] for t in tt)
        if k > .85:
            a, b = max(0, a - r.choice([1, 10])), min(M64, b + r.choice([1, 10]))
        rngs.append((a, b))
        f[bytes([TIME_RANGE])] = varint(a) + varint(b)
    if meta:
        for i, f in enumerate(files):
            for vk in (0, 1, 2, 3):
                if r.random() < .5:
                    f[bytes([VERSION, vk])] = varint(r.choice([0, 1, 2, 300]))
            for s in (b"src-a", b"src-b", b"", b"src", b"100%s%d \"x\\"):
                if r.random() < .3:
                    f[bytes([SOURCE]) + s] = b""
    return files, rngs

def gen_store(ctx, tag, nfiles, nrec, **kw):
    r = ctx.rng
    files, rngs = gen_files(r, nfiles, nrec, **kw)
    order = list(range(nfiles))
    r.shuffle(order)
    return Store(ctx, files, rngs, tag, order)

# ------------------------------------------------------------------ queries
def H(s):
    b = s.encode("latin1") if isinstance(s, str) else bytes(s)
    return b.hex() if b else "-"

BAD_NAMES = ["a..b", "x" * 64 + ".com", ".".join(["y" * 62] * 5), "..", ".com"]
BAD_RAW = ["", "0", "abc", "zz", "0x00", "12 34", "-1"]
BAD_IP = ["1.2.3", "", "x", "1.2.3.4/33", "::/129", "1.2.3.4-", "1.2.3.4-::1", "::1-1.2.3.4", "1.2.3.4/", "/8", "1.2.3.4/-1", "::/-1", "1.2.3.4/8x", "1.2.3.4-1.2.3.5-1.2.3.6",
          "1.2.3.256", "1.2.3.4/8/9", "a-b", "1.2.3.4-1.2.3.9/24", "::1::", "1.2.3.4 ", "1.2.3.4/99999999999999999999", "-", "/"]
BAD_RR = ["NOSUCHTYPE", "TYPE", "TYPE0", "A ", "", "TYPExx"]
BAD_VT = ["", "rrset ", "nosuch", "RRSET", "time_range", "source_info", "version", "all"]

def randcase(r, s):
    return "".join(c.upper() if r.random() < .5 else c.lower() for c in s)

class Q:
    def __init__(self, store_ix, store, kind, src="s"):
        self.ix, self.store, self.kind, self.srck = store_ix, store, kind, src
        self.toks, self.ev = [], []
    def _set(self, op, tok, m):
        self.toks.append("%s=%s" % (op, tok))
        self.ev.append(dict(e="set", op=op, m=m))
        return self
    def null(self, op):
        return self._set(op, "!", dict(k="null"))
    def bad(self, op, text):
        return self._set(op, H(text), dict(k="bad"))
    def name(self, w, r=None, op="data"):
        t = pres(w)
        if r is not None and r.random() < .5 and "\\" not in t:
            t = randcase(r, t)
            w = t_wire(t)
        return self._set(op, H(t if r is None or r.random() < .5 or t == "." else (t[:-1] if not t.endswith("\\.") else t)), dict(k="name", v=list(w)))
    def raw(self, b, r=None):
        return self._set("data", H(randcase(r, b.hex()) if r else b.hex()), dict(k="raw", v=list(b)))
    def addr(self, a):
        return self._set("data", H(ipt(a)), dict(k="addr", a=list(a)))
    def prefix(self, a, n):
        return self._set("data", H("%s/%d" % (ipt(a), n)), dict(k="prefix", a=list(a), n=n))
    def range(self, a, b):
        return self._set("data", H("%s-%s" % (ipt(a), ipt(b))), dict(k="range", a=list(a), b=list(b)))
    def vtype(self, text, v):
        return self._set("data", H(text), dict(k="vtype", v=v))
    def rr(self, t, r=None):
        s = TYPE_NAME.get(t, "TYPE%d" % t)
        if r is not None:
            if r.random() < .2:
                s = "TYPE%d" % t
            if r.random() < .3:
                s = randcase(r, s)
        return self._set("rr", H(s), dict(k="type", v=t))
    def any(self, s):
        return self._set("rr", H(s), dict(k="any"))
    def bw(self, w, r=None):
        return self.name(w, r, op="bw")
    def fence(self, which, v, ln=8):
        return self._set("fp", "%d.%d.%s" % (which, ln, "!" if v is None else v), dict(which=which, len=ln, v=[] if v is None else [limbs(v)]))
    def case(self, v):
        return self._set("case", str(v), dict(v=v))
    def agg(self, v):
        return self._set("agg", str(v), dict(v=v))
    def off(self, n):
        return self._set("off", str(n), dict(v=limbs(n)))
    def to(self, ms):
        return self._set("to", "!" if ms is None else str(ms), dict(v=[] if ms is None else [ms]))
    def dl(self, ms):
        return self._set("dl", "!" if ms is None else str(ms), dict(v=[] if ms is None else [ms]))
    def adv(self, ds):
        self.toks.append("adv=" + ",".join(map(str, ds)))
        return self
    def ord(self, n):
        self.toks.append("ord=%d" % n)
        return self
    def stats(self):
        self.toks.append("stats=1")
        return self
    def run(self, mx=-1):
        self.toks.append("run=%d" % mx)
        self.ev.append(dict(e="run"))
        return self
    def more(self, mx=-1):
        """go on with the latest execution"""
        self.toks.append("more=%d" % mx)
        self.ev.append(dict(e="more"))
        return self
    def filt(self, k, v):
        self.toks.append("filt=%s:%s" % (hexs(k), hexs(v)))
        self.ev.append(dict(e="filt", key=list(k), val=list(v)))
        return self
    def req(self):
        return ("q %s %d %s" % (self.store.src(self.srck), self.kind, " ".join(self.toks)),
                dict(store=self.ix, src=self.srck, kind=self.kind, ev=self.ev, line=" ".join(self.toks)))

def t_wire(t):
    """unescaped presentation text to wire"""
    t = t.rstrip(".")
    return wire([x.encode("latin1") for x in t.split(".")]) if t else b"\0"

def ipt(a):
    return socket.inet_ntop(socket.AF_INET if len(a) == 4 else socket.AF_INET6, bytes(a))

def mk(m, o):
    evs = [dict(e) for e in m["ev"]]
    c = dict(store=m["store"], src=m["src"], kind=m["kind"], ev=evs)
    if o is None:
        for e in evs:
            e["out"] = {}
        return c
    got = o["ev"]
    if len(got) != len(evs):
        c["crash"] = "driver answered %d events for %d" % (len(got), len(evs))
        return c
    for e, g in zip(evs, got):
        e["out"] = g
    return c

def corrupt(c, rng):
    """spoil one observation so that the specification must reject it"""
    runs = [e for e in c["ev"] if e["e"] == "run" and e["out"]["res"]]
    sets = [e for e in c["ev"] if e["e"] == "set"]
    filts = [e for e in c["ev"] if e["e"] == "filt"]
    ch = rng.random()
    if filts and ch < .7:
        e = rng.choice(filts)
        e["out"]["pass"] = 1 - e["out"]["pass"]
        return c
    if runs and ch < .85:
        e = rng.choice(runs)
        res = e["out"]["res"]
        i = rng.randrange(len(res))
        k = rng.random()
        if k < .3 and e["out"]["end"] == "F":
            del res[i]
        elif k < .5 and e["out"]["end"] == "F":
            res.insert(i, dict(res[i]))
        elif k < .7 and res[i]["c"]:
            res[i]["c"] = res[i]["c"][:3] + [res[i]["c"][3] ^ 1]
        elif k < .8 and res[i]["l"]:
            res[i]["l"] = res[i]["l"][:3] + [res[i]["l"][3] ^ 1]
        else:
            res[i]["t"] ^= 1
        return c
    if sets:
        e = rng.choice(sets)
        e["out"]["ok"] = 1 - e["out"]["ok"]
        return c
    return None

CFG = "INIT QTInit\nNEXT QTNext\nINVARIANT CCInv\nCHECK_DEADLOCK FALSE\n"

def run_queries(ctx, exe, stores, qs, nneg=40, corrupt=corrupt, sane=True, **kw):
    """validate the query histories qs against Query"""
    sf = os.path.join(ctx.dir, "stores.ndjson")
    with open(sf, "w") as fh:
        for s in stores:
            fh.write(json.dumps(s.json()) + "\n")
    bad = ctx.validate("StoreSane", [s.json() for s in stores], nneg=0, count=False) if sane else []
    if bad:
        raise ToolError("generated store %d violates the assumptions made of stores" % bad[0])
    return ctx.conform("QueryTrace", exe, [q.req() for q in qs], mk, env=dict(STORES=sf), corrupt=corrupt, nneg=nneg, cfg=CFG, drive_kw=dict(shards=8), **kw)

def corrupt_time(c, rng):
    runs = [e for e in c["ev"] if e["e"] == "run" and e["out"].get("calls")]
    if not runs or rng.random() < .4:
        return corrupt(c, rng)
    e = rng.choice(runs)
    o = e["out"]
    ts = [x for x in o["calls"] if x["o"] == "T"]
    if ts and rng.random() < .5:      # a time limit reported although none had passed
        x = rng.choice(ts)
        x["s"] = 0
        x["nx"] = []
        lims = [m["m"]["v"] for m in c["ev"] if m["e"] == "set" and m["op"] in ("to", "dl")]
        if any(v == [0] for v in lims):
            return None
        return c
    for x in o["calls"]:
        if x["o"] != "T" and x["nx"]:
            x["s"] += 3000000         # a call that began long after every limit and did not time out
            x["nx"] = [v + 3000000 for v in x["nx"]]
            if any(m["e"] == "set" and m["op"] == "dl" and m["m"]["v"] for m in c["ev"]) and not any(m["op"] == "dl" and not m["m"]["v"] for m in c["ev"] if m["e"] == "set"):
                return c
    return None

def corrupt_stats(c, rng):
    runs = [e for e in c["ev"] if e["e"] == "run" and e["out"].get("stats")]
    if not runs:
        return None
    o = rng.choice(runs)["out"]
    k = rng.random()
    live = [(i, j) for i in range(10) for j in range(4) if o["stats"][-1]["v"][i][j][0]]
    if k < .4 or not live:
        i, j = rng.randrange(10), rng.randrange(4)
        v = o["stats"][-1]["v"][i][j]
        v[0] = 1 - v[0]
        return c
    if k < .55:
        rng.choice(o["stats"])["ok"] = 0
        return c
    exact = [x for x in live if x in ((3, 0), (4, 0), (5, 0), (7, 1), (8, 0), (9, 0))]
    if exact and o["end"] == "F":
        i, j = rng.choice(exact)
        o["stats"][-1]["v"][i][j][1] += 1
        return c
    if o["res"] and o["end"] == "F":
        o["res"].pop()
        return c
    return None
