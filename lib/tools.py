"""Running the command-line tools on generated stores (C25, C26)."""
from qgen import *
import calendar, time as _time

def build_tool(ctx, src):
    """the tool's own main(), renamed, linked into the driver"""
    lib = ctx.dns_objs()
    obj = os.path.join(ctx.dir, os.path.basename(src)[:-2] + ".main.o")
    ctx._cc(["gcc"] + ctx.CFLAGS + ctx.ASAN + ["-Dmain=tool_main", "-include", SHIM + "/config.h", "-I" + SHIM, "-I" + REPO, "-I" + REPO + "/dnstable",
             "-c", os.path.join(REPO, "src", src), "-o", obj])
    return ctx.build_dns("drv_tool.c", name="drv_" + os.path.basename(src)[:-2], lib=lib, libs=[obj, lib])

def presentations(ctx, exe, store):
    """what libwdns makes of every rdata in the store"""
    by = {}
    for k in store.keys:
        try:
            if k[0] == RRSET:
                p, t, sh = 1 + uname_len(k[1:]), 0, 0
                while True:
                    b = k[p]; p += 1
                    t |= (b & 127) << sh; sh += 7
                    if b < 128:
                        break
                p += uname_len(k[p:])
                while p < len(k):
                    n = sh = 0
                    while True:
                        b = k[p]; p += 1
                        n |= (b & 127) << sh; sh += 7
                        if b < 128:
                            break
                    by.setdefault(t, set()).add(k[p:p + n]); p += n
            elif k[0] == RDATA:
                d, t = dec_rdata(k)
                by.setdefault(t, set()).add(d)
        except (IndexError, ValueError):
            pass             # a key that is no record
    ts = sorted(by)
    ds = {t: sorted(by[t]) for t in ts}
    out = ctx.drive(exe, ["rp %d %s" % (t, " ".join(hexs(d) for d in ds[t])) for t in ts])
    tab = []
    for t, o in zip(ts, out):
        if o.get("crash"):
            raise ToolError("presentation of stored rdata: %s" % o["crash"])
        tab += [dict(t=t, d=list(d), s=s) for d, s in zip(ds[t], o["s"])]
    return tab

def store_file(ctx, exe, stores, sane=None):
    sf = os.path.join(ctx.dir, "stores.ndjson")
    with open(sf, "w") as fh:
        for s in stores:
            fh.write(json.dumps(dict(s.json(), rp=presentations(ctx, exe, s))) + "\n")
    bad = ctx.validate("StoreSane", [s.json() for s in stores[:sane]], nneg=0, count=False)
    if bad:
        raise ToolError("generated store %d violates the assumptions made of stores" % bad[0])
    return sf

def text_of(q, op):
    """the operand text and its meaning, as the query builder chose them"""
    for tok, e in zip(q.toks, [e for e in q.ev if e["e"] == "set"]):
        if e["op"] == op:
            h = tok.split("=", 1)[1]
            return None if h == "!" else (b"" if h == "-" else bytes.fromhex(h)), e["m"]
    return None, None

def ago(r, d):
    """d seconds in mixed units"""
    out = ""
    for u, n in (("w", 604800), ("d", 86400), ("h", 3600), ("m", 60)):
        if d >= n and r.random() < .6:
            k = d // n if r.random() < .7 else r.randint(1, d // n)
            out += "%d%s" % (k, r.choice([u, u.upper()])); d -= k * n
    if d or not out:
        out += "%d%s" % (d, r.choice(["s", "S", ""]))
    if r.random() < .2:     # any order
        import re as _re
        parts = _re.findall(r"\d+[a-zA-Z]", out)
        if "".join(parts) == out:
            r.shuffle(parts); out = "".join(parts)
    return out

def time_text(r, t, now):
    """one of the forms of the time t"""
    k = r.random()
    if k < .3 or t < 1 or t >= 253402300800:
        return str(t)
    tm = _time.gmtime(t)
    if k < .65:
        if t % 86400 == 0 and r.random() < .8:
            return _time.strftime("%Y-%m-%d", tm)
        return _time.strftime(r.choice(["%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S", "%Y-%m-%dT%H:%M:%SZ"]), tm)
    if t < now and k < .8:
        return str(t - now)
    return ago(r, now - t) if t < now else str(t)

BAD_TIMES = ["", "0", "x", "-", "1970-01-01", "1970-01-01T00:00:00Z", "1969-12-31", "1960-06-01 12:00:00", "0001-01-01", "5x", "w", "3w4", "10d0h", "2020-13-01", "2020-01-32",
             "2020-01-01T25:00:00", "2020-01-01T10:00", "2020-01-01T10:00:00ZZ", "2020-01-01 10:00:00Z", "2020/01/01", "99999w", "-99999999999", "1w-3d", "5 d", "12:00:00", "1.5h", "5ww", "now",
             "99999999999999999999w", "9999999999999999s", "9223372036854775807d", "9000000000000w9000000000000w"]

def mk(m, o):
    return dict(m, out=o if o is not None else dict(ret=-1, out=[], err=[], nx=[]))

def corrupt(c, r):
    o = c["out"]
    k = r.random()
    if k < .2:
        o["ret"] = 1 - (o["ret"] == 1)
        return c if o["ret"] in (0, 1) else None
    if o["ret"] != 0:
        o["out"] = [65, 10]
        return c
    if k < .4 and o["err"]:
        e = bytes(o["err"])
        if b"Dumped" in e:
            i = e.index(b"Dumped ") + 7
            o["err"][i] = 48 + (o["err"][i] - 47) % 10
            return c
    if not o["out"]:
        o["out"] = [10]
        return c
    if k < .7:
        i = r.randrange(len(o["out"]))
        if o["out"][i] in (32, 9): return None
        o["out"][i] ^= 1
        return c
    ls = bytes(o["out"]).split(b"\n")
    if ls[0][:1] == b"{" and ls[-1] == b"":
        o["out"] = list(b"\n".join(ls[1:] if r.random() < .5 else [ls[0]] + ls))
        return c
    return None

