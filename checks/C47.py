"""C47: zone files rendered in many spellings, read to the end and beyond, against Zone (the records parsed by the installed ldns)."""
import gzip
from vlib import *

def lab(r):
    return bytes(r.choice(b"abcxyzABZ019-_") for _ in range(r.choice([1, 2, 3, 8])))
def text(l):
    return ".".join(x.decode() for x in l)
class Gen:
    def __init__(self, r):
        self.r = r
    def name(self, modes=("abs", "rel", "at")):
        r = self.r
        m = r.choice(modes)
        return dict(m=m, l=[list(lab(r)) for _ in range(r.randint(1, 3))] if m in ("abs", "rel") else [])
    def show(self, n):
        t = text([bytes(x) for x in n["l"]])
        return {"abs": t + ".", "rel": t, "at": "@", "same": ""}[n["m"]]
    def gap(self, paren=False):
        g = self.r.choice([" ", "\t", "  ", " \t "])
        return g + self.r.choice(["", "", "", "\n", " ; c) \"\n", "\n\n"]) + g if paren else g
    def record(self, typ=None, own=("abs", "rel", "at", "same"), cls="IN", rdm=("abs", "rel", "at")):
        r = self.r
        o = self.name(own)
        b = lambda v: dict(k="b", b=list(v))
        n = lambda x: dict(k="n", name=x)
        typ = typ or r.choice(["A", "AAAA", "NS", "CNAME", "PTR", "MX", "TXT", "SRV", "TYPE999"])
        if typ == "A":
            v = bytes(r.randrange(256) for _ in range(4)); rd = [b(v)]; t = [".".join(map(str, v))]; num = 1
        elif typ == "AAAA":
            v = bytes(r.randrange(256) for _ in range(16)); rd = [b(v)]; num = 28
            t = [":".join("%x" % int.from_bytes(v[i:i + 2], "big") for i in range(0, 16, 2))]
        elif typ in ("NS", "CNAME", "PTR"):
            x = self.name(); rd = [n(x)]; t = [self.show(x)]; num = dict(NS=2, CNAME=5, PTR=12)[typ]
        elif typ == "MX":
            x = self.name(); p = r.randrange(65536); rd = [b(p.to_bytes(2, "big")), n(x)]; t = [str(p), self.show(x)]; num = 15
        elif typ == "SRV":
            x = self.name(); p = [r.randrange(65536) for _ in range(3)]; num = 33
            rd = [b(q.to_bytes(2, "big")) for q in p] + [n(x)]; t = [str(q) for q in p] + [self.show(x)]
        elif typ == "TXT":
            ss = [bytes(r.choice(b"ab ;()@$z.") for _ in range(r.choice([0, 1, 5, 30]))) for _ in range(r.randint(1, 3))]
            rd = [dict(k="s", b=list(s)) for s in ss]; t = ['"%s"' % s.decode() for s in ss]; num = 16
        elif typ == "TYPE999":
            v = bytes(r.randrange(256) for _ in range(r.randint(1, 6))); rd = [b(v)]; num = 999
            t = ["\\#", str(len(v)), v.hex()]
        elif typ == "SOA":
            x, y = self.name(rdm), self.name(rdm); num = 6
            ser = r.choice([0, 1, 2**32 - 1, 2**31, r.getrandbits(32)])
            q = [ser] + [r.randrange(100000) for _ in range(4)]
            rd = [n(x), n(y)] + [b(i.to_bytes(4, "big")) for i in q]; t = [self.show(x), self.show(y)] + [str(i) for i in q]
        ttl = r.choice([-1, -1, 1, 60, 86400, 2147483647, r.randrange(1, 10**6)])
        mid = ([str(ttl)] if ttl >= 0 else []) + ([cls] if cls and r.random() < .7 else [])
        paren = typ not in ("TYPE999",) and r.random() < .3
        line = self.show(o) + self.gap()
        line += "".join(m + self.gap() for m in mid) + typ + self.gap()
        line += ("(" + self.gap(True)) if paren else ""
        line += "".join(x + (self.gap(True) if paren else self.gap()) for x in t) + (")" if paren else "")
        line += r.choice(["", "", "", "   ", " ; end ( \""])
        return dict(k="rr", own=o, ttl=ttl, type=num, rd=rd), line
    def skip(self):
        return dict(k="skip"), self.r.choice(["", "", "   ", ";", "; a comment ( \" SOA", "\t; x"])
    def ttl(self):
        v = self.r.choice([1, 5, 3600, 2147483647, self.r.randrange(1, 10**6)])
        return dict(k="ttl", n=v), "$TTL" + self.gap() + str(v) + self.r.choice(["", " ; c"])
    def origin(self, l=None):
        l = l if l is not None else [list(lab(self.r)) for _ in range(self.r.randint(1, 3))]
        return dict(k="origin", name=l), "$ORIGIN" + self.gap() + text([bytes(x) for x in l]) + "." 
    def bad(self):
        return dict(k="bad"), self.r.choice(["bad A 999.1.1.1", "bad A", "bad AAAA zz", "bad MX x y", "bad NOSUCHTYPE x", "bad IN", "bad SOA a b x"])

# a shell that sees these does nothing of note with them
ODD = [" ", "a b", "  x", "it's", 'q"', "*", "?", "[z]", "$HOME", "$(id)", "`id`", "a;b", "a&b", "-", "--", "~", "#", "\\", "a\\'b", "{a,b}", "(", "\n", "''", "%s", "\xff"]

def zone(r):
    g = Gen(r)
    its = []
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        its.append(g.skip() if r.random() < .6 else g.ttl())
    x = r.random()
    soa = ("abs",)
    if r.random() < .25:        # an $ORIGIN before the SOA, which is then at the origin
        its.append(g.origin()); soa = ("at",)
    its += [g.skip()] * (r.random() < .2)
    if x < .8: its.append(g.record("SOA", own=soa, rdm=("abs",) if soa == ("abs",) else ("abs", "rel", "at")))
    elif x < .9: its.append(g.record(own=("abs",)))
    elif x < .95: its.append(g.bad())
    n = r.choice([0, 1, 2, 5, 12, 30])
    after = False
    for _ in range(n):
        y = r.random()
        # what "the last owner" is after a malformed line or before any record is not claimed
        own = ("abs", "rel", "at", "same") if its and its[-1][0]["k"] == "rr" else ("abs", "rel", "at")
        if y < .62: its.append(g.record(own=own))
        elif y < .74: its.append(g.skip())
        elif y < .8: its.append(g.ttl())
        elif y < .87: its.append(g.origin())
        elif y < .93: its.append(g.bad())
        elif y < .96:
            # names are only relative to something after a first record or an $ORIGIN
            m = ("abs", "rel", "at") if any(i["k"] == "rr" for i, _ in its) else ("abs",)
            its.append(g.record("SOA", own=m, rdm=m))
        else: its.append(g.skip())
    its += [g.skip() for _ in range(r.choice([0, 0, 0, 1, 3]))]
    body = "\n".join(t for _, t in its) + ("\n" if r.random() < .7 else "")
    return [i for i, _ in its], body

def corrupt(c, r):
    o = c["out"]
    if not o["open"]:
        o["open"] = 1
        return c if c["f"] else None
    e = r.choice(o["ev"])
    k = r.choice(["st", "count", "owner", "type", "serial", "drop"])
    if k == "drop":
        i = [j for j, x in enumerate(o["ev"]) if x["st"] == "rr"]
        if not i: return None
        o["ev"].pop(r.choice(i))
    elif k == "st": e["st"] = {"rr": "end", "end": "err", "err": "end"}[e["st"]]
    elif k == "count": e["count"] += 1
    elif k == "serial": e["serial"][r.randrange(4)] ^= 1
    elif e["st"] != "rr": return None
    elif k == "owner": e["owner"][1 if len(e["owner"]) > 1 else 0] ^= 1
    else: e["type"] += 1
    return c

def run(ctx):
    r = ctx.rng
    ctx.mc("ZoneMC", "ZoneMC2.cfg" if ctx.thorough else "ZoneMC.cfg")
    exe = os.path.join(ctx.dir, "drv_zone")
    ctx._cc(["gcc"] + ctx.CFLAGS + ctx.ASAN + ["-I" + HARN, "-I" + REPO, "-I" + REPO + "/libmy", HARN + "/drv_zone.c", REPO + "/libmy/zonefile.c", "-o", exe, "-lldns"])
    d = os.path.join(ctx.dir, "zones"); os.makedirs(d, exist_ok=True)
    reqs = []
    def add(i, f, body, gz):
        p = os.path.join(d, "%sz%d%s" % (r.choice(ODD) if r.random() < .4 else "", i, ".gz" if gz else r.choice(["", ".zone", ".g", "gz"])))
        data = body.encode()
        open(p, "wb").write(gzip.compress(data) if gz else data)
        reqs.append(("zone %s %d" % (p.encode().hex(), sum(1 for x in f if x["k"] in ("rr", "bad")) + 3), dict(op="zone", f=f, text=body[:3000])))
    n = ctx.n(1500, 20000)
    for i in range(n):
        f, body = zone(r)
        add(i, f, body, i % 12 == 0)
    # files holding no record at all, and one that cannot be read
    for j, (f, body) in enumerate([([], ""), ([], "\n\n"), ([dict(k="skip")], "; only a comment"), ([dict(k="ttl", n=5)], "$TTL 5"), ([dict(k="ttl", n=5)], "$TTL 5\n\n")]):
        for gz in (0, 1):
            add(n + 10 + 2 * j + gz, f, body, gz)
    reqs.append(("zone %s 2" % d.encode().hex(), dict(op="zone", f=[], text="(a directory)")))
    reqs.append(("zone %s 2" % (d + "/none").encode().hex(), dict(op="zone", f=[], text="(missing)")))
    reqs.append(("zone %s 2" % (d + "/none.gz").encode().hex(), dict(op="zone", f=[], text="(missing)")))
    no = dict(open=0, count=0, domain=[], serial=[], ev=[])
    mk = lambda m, o: dict(m, out=dict(no, **(o or {})))
    ctx.conform("ZoneTrace", exe, reqs, mk, corrupt=corrupt, nneg=60, drive_kw=dict(shards=8))
    ctx.assumptions += ["the text of one record is parsed by the installed ldns, outside the repository", "the TTL of a record that neither it nor a $TTL line gives, relative $ORIGIN lines, an $ORIGIN before the SOA that is not its owner, and an omitted owner after a malformed line or directive are not judged"]
