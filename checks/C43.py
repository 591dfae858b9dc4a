"""C43: option tables and argument vectors over every type, role and spelling, against Argv (model-checked for the table's rules and for the spellings' equivalence)."""
from vlib import *
INTS = ["short", "ushort", "int", "uint", "long", "ulong", "float", "double", "bin", "oct", "hex", "size", "usize"]
FLAGS = ["bool", "boolneg", "boolint", "boolintneg", "incr"]
ARGD = ["boolarg", "char", "string", "string", "string", "boolintarg"] + INTS
LONGS = ["name", "names", "na", "num", "number", "x", "xy", "out", "output", "out-file", "verbose", "v-level", "q", "usage2", "help-me", "file"]

def limbs(n):
    n %= 1 << 64
    return [(n >> s) & 65535 for s in (48, 32, 16, 0)]
def text(r, ty):
    sg = r.choice(["", "", "-", "+"])
    if ty == "short": return sg + str(r.choice([0, 1, 9999, r.randrange(10**4)]))
    if ty == "ushort": return str(r.randrange(10**4))
    if ty in ("int", "incr"): return sg + str(r.choice([0, 7, 999999999, r.randrange(10**9)]))
    if ty == "uint": return str(r.choice([0, 2**32 - 1, 2**31, r.randrange(2**32)]))
    if ty == "long": return sg + str(r.choice([0, 2**31, 10**18 - 1, r.randrange(10**18)]))
    if ty == "ulong": return str(r.choice([0, 2**64 - 1, 2**63, r.randrange(2**64)]))
    if ty == "float": return sg + str(r.randrange(1000)) + r.choice(["", ".5", ".125", ".001"])
    if ty == "double": return sg + str(r.randrange(10**9)) + r.choice(["", ".5", ".12", ".999"])
    if ty == "bin": return "".join(r.choice("01") for _ in range(r.randint(1, 31)))
    if ty == "oct": return "".join(r.choice("01234567") for _ in range(r.randint(1, 10)))
    if ty == "hex": return r.choice(["", "0x", "0X"]) + "".join(r.choice("0123456789abcdefABCDEF") for _ in range(r.randint(1, 7)))
    if ty in ("size", "usize"): return ("" if ty == "usize" else sg) + str(r.choice([0, 1, r.randrange(10**9)])) + r.choice(["", *"bBkKmMgG"])
    if ty in ("boolarg", "boolintarg", "bool", "boolneg", "boolint", "boolintneg"): return r.choice(["yes", "no", "true", "FALSE", "T", "Y", "1", "0", "n", "oui"])
    if ty == "char": return r.choice(["a", "Z", "\u00ff".encode("latin1").decode("latin1"), "xyz", "-"])
    return r.choice(["", "v", "a b", "x=y", "-", "long value with things", "7", "\x01\xfe", "w" * 300])
def b(s):
    return list(s.encode("latin1"))

class Tab:
    def __init__(self, r, bad=False):
        self.r = r
        self.t, shs, los = [], list("abcdefgvxn5" if r.random() < .3 else "abcdefgvxn"), list(LONGS)
        r.shuffle(shs); r.shuffle(los)
        def opt():
            arr = int(r.random() < .2)
            ty = r.choice(ARGD) if arr or r.random() < .65 else r.choice(FLAGS)
            sh = ord(shs.pop()) if r.random() < .85 and shs else 0
            lo = b(los.pop()) if (sh == 0 or r.random() < .7) and los else []
            return dict(sh=sh, lo=lo, role="opt", ty=ty, arr=arr, must=int(r.random() < .08))
        def pos(role, arr):
            return dict(sh=0, lo=[], role=role, ty=r.choice(["string", "string", "int", "char", "hex"]), arr=arr, must=0)
        for _ in range(r.choice([0, 1, 1, 2])):
            if r.random() < .35:
                l = r.choice(["or", "xor"])
                for k in range(r.randint(2, 3)):
                    if k: self.t.append(dict(sh=0, lo=[], role=l, ty="none", arr=0, must=0))
                    o = opt(); o["must"] = 0; self.t.append(o)
            else:
                self.t += [opt() for _ in range(r.randint(1, 3))]
        for _ in range(r.choice([0, 0, 1, 2])): self.t.append(pos("mand", 0))
        x = r.random()
        if x < .2: self.t.append(pos("mand", 1))
        elif x < .4: self.t.append(pos("maybe", 1))
        elif x < .6: self.t += [pos("maybe", 0) for _ in range(r.randint(1, 2))]
        if r.random() < .3: self.t += [opt() for _ in range(r.randint(1, 2))]
        if bad:
            i = r.randint(0, len(self.t))
            self.t.insert(i, r.choice([pos("mand", r.randint(0, 1)), pos("maybe", 1), dict(sh=0, lo=[], role="or", ty="none", arr=0, must=0),
                                      dict(sh=0, lo=[], role="xor", ty="none", arr=0, must=0), dict(sh=ord("z"), lo=[], role="opt", ty=r.choice(FLAGS), arr=1, must=0)]))
        self.opts = [e for e in self.t if e["role"] == "opt"]
        self.pos = [e for e in self.t if e["role"] in ("mand", "maybe")]
    def defs(self):
        r = self.r
        out = []
        for e in self.t:
            if e["arr"] or e["ty"] == "none": out.append(limbs(0))
            elif e["ty"] == "string": out.append(b(r.choice(["", "default", "d"])))
            elif e["ty"] in ("bool", "boolneg", "boolarg", "boolint", "boolintneg", "boolintarg"): out.append(limbs(r.randint(0, 1)))
            elif e["ty"] == "char": out.append(limbs(r.randrange(256)))
            elif e["ty"] in ("float", "double"): out.append(limbs(r.randrange(-9999, 9999) * 125))
            elif e["ty"] in ("ushort", "short"): out.append(limbs(r.randrange(0, 30000)))
            elif e["ty"] in ("uint", "ulong", "usize"): out.append(limbs(r.randrange(2**31)))
            elif e["ty"] == "incr": out.append(limbs(r.randrange(-2, 5)))
            else: out.append(limbs(r.randrange(-2**31 + 1, 2**31)))
        return out
    def short(self, e):
        return "-" + chr(e["sh"]) if e["sh"] else "--" + self.ab(e)
    def ab(self, e):
        l = bytes(e["lo"]).decode()
        return l if self.r.random() < .6 else l[:self.r.randint(1, len(l))]
    def args(self, n, files=()):
        """an argument list: mostly options with fitting values, and plain values in the order they are consumed"""
        r, out, wait = self.r, [], []
        takes = lambda e: e["ty"] not in FLAGS
        used = set()
        def flush(k=99):
            while wait and k:
                e = wait.pop(0); k -= 1
                out.append(text(r, e["ty"]) if r.random() < .97 else r.choice(["zz", "-7", "--", "5"]))
        todo = [e for e in self.opts if e["must"] and r.random() < .95]
        for _ in range(n):
            x = r.random()
            if x < .72 and self.opts:
                e = todo.pop() if todo else r.choice(self.opts)
                if r.random() < .7 and any(f["role"] in ("or", "xor") for f in self.t) and id(e) not in used and len(used) > 1: continue
                used.add(id(e))
                nm = "--" + self.ab(e) if e["lo"] and (not e["sh"] or r.random() < .5) else self.short(e)
                if takes(e) or r.random() < .1:
                    if r.random() < .45: out.append(nm + "=" + text(r, e["ty"]))
                    else:
                        out.append(nm)
                        if takes(e): wait.append(e)
                        if r.random() < .8: flush()
                else: out.append(nm)
            elif x < .82:
                es = [e for e in self.opts if e["sh"]]
                if es:
                    g = [r.choice(es) for _ in range(r.choice([2, 2, 3, 6]))]
                    out.append("-" + "".join(chr(e["sh"]) for e in g)); wait += [e for e in g if takes(e)]
                    if r.random() < .8: flush()
            elif x < .84 and files: flush(); out += r.choice([["--argv-file=" + r.choice(files)], ["--argv-file", r.choice(files)]])
            elif x < .86: out.append(r.choice(["--", "-", "--zzz", "-Z", "-?", "--usage", "--version", "--help", "--argv-display", "--=x", "-=x", "-5", "--usage-short", "--argv-file"]))
            else:
                flush()
                out.append(text(r, self.pos[min(len(self.pos) - 1, r.randrange(3))]["ty"]) if self.pos else "stray")
            if r.random() < .01 and self.opts: out.append("-" + chr(self.opts[0]["sh"] or 97) * 40)
        if r.random() < .93: flush()
        # the positional arguments the table wants
        if r.random() < .85:
            for e in self.pos:
                if e["role"] == "mand" or r.random() < .5:
                    for _ in range(1 if not e["arr"] else r.choice([1, 2, 25])): out.append(text(r, e["ty"]) if e["ty"] != "string" else r.choice(["p", "arg", "x=1"]))
        return out

def corrupt(c, r):
    o = c["out"]
    if o["ret"] == -1:
        o["ret"] = 0
        return c
    k = r.choice(["ret", "val", "used"])
    es = [i for i, e in enumerate(c["t"]) if e["ty"] != "none"]
    if k == "ret": o["ret"] = -1; return c
    if not es: return None
    i = r.choice(es)
    if k == "used": o["used"][i][0] ^= 1; return c
    v = o["vals"][i]
    if not v: v.append([1]); return c
    x = v[-1]
    if not x: x.append(65); return c
    x[-1] ^= 1
    return c

def run(ctx):
    r = ctx.rng
    for w in "123":
        ctx.mc("ArgvMC", "ArgvMC_%s%s.cfg" % (w, "b" if ctx.thorough else ""))
    exe = ctx.build_my("drv_argv.c", only=["argv"])
    d = os.path.join(ctx.dir, "af"); os.makedirs(d, exist_ok=True)
    nf = [0]
    def gen(i, g=None):
        tab = Tab(r, bad=r.random() < .06)
        files, names = [], []
        if r.random() < .15:
            for _ in range(r.randint(1, 2)):
                nf[0] += 1
                p = os.path.join(d, "f%d" % nf[0])
                ls = [x.replace("\n", "") for x in tab.args(r.choice([0, 1, 3, 14]))]
                ls = [x for y in ls for x in ([y, ""] if r.random() < .1 else [y])]
                open(p, "wb").write("\n".join(ls).encode("latin1") + (b"\n" if r.random() < .7 else b""))
                files.append(dict(path=b(p), lines=[b(x) for x in ls])); names.append(p)
            names += [d + "/missing", "-"]
        # "-" names the standard input
        files.append(dict(path=b("-"), lines=[]))
        sin = "-"
        if len(names) > 2:
            sin = names[0].encode().hex(); files[-1]["lines"] = files[0]["lines"]
        cfg = dict(close=int(r.random() < .9), toggle=int(r.random() < .15), multi=int(r.random() < .85), env="none", envs=[], files=files)
        envtext = "-"
        if g: cfg.update(g)
        elif r.random() < .2:
            toks = [x for x in tab.args(r.randint(1, 4)) if x and " " not in x]
            cfg["env"] = r.choice(["before", "after", "none"])
            cfg["envs"] = [b(x) for x in toks]
            envtext = ("".join(r.choice([" ", "\t", "  "]) + x for x in toks)).encode("latin1").hex() or "-"
        as_ = tab.args(r.choice([0, 1, 2, 3, 5, 12]), names)
        if r.random() < (.6 if cfg["toggle"] else .05):
            for _ in range(r.choice([2, 2, 3])): as_.insert(r.randint(0, len(as_)), "--")
        # a stream is read once: no second mention may find it at its end
        if sum(bytes(x)[-1:] == b"-" for x in cfg["envs"] + [b(y) for y in as_] + [l for f in files for l in f["lines"]]) > 1:
            sin = "-"; files[-1]["lines"] = []
        defs = tab.defs()
        def dtok(e, v):
            if e["ty"] == "string": return bytes(v).hex() or "-"
            return "%x" % (v[0] << 48 | v[1] << 32 | v[2] << 16 | v[3])
        q = "argv %d %d %d %s %s %s %d %d" % (-1 if g else cfg["close"], cfg["toggle"], cfg["multi"], cfg["env"], envtext, sin, r.randint(0, 1), len(tab.t))
        for e, v in zip(tab.t, defs):
            q += " %d %s %s %s %d %d %s" % (e["sh"], bytes(e["lo"]).hex() or "-", e["role"], e["ty"], e["arr"], e["must"], dtok(e, v) if not e["arr"] and e["ty"] != "none" else "0")
        q += "".join(" " + (x.encode("latin1").hex() or "-") for x in as_)
        return q, dict(op="argv", t=tab.t, cfg=cfg, **{"as": [b(x) for x in as_]}, defs=defs)
    no = dict(ret=-2, vals=[], used=[])
    mk = lambda m, o: dict(m, out=dict(no, **(o or {})))
    ctx.conform("ArgvTrace", exe, [gen(i) for i in range(ctx.n(4000, 40000))], mk, corrupt=corrupt, nneg=60, drive_kw=dict(shards=8))
    # the settings taken from the process's environment
    cases = []
    for g, e in [(dict(close=0, toggle=1, multi=0), "close=disable,lasttog=on multi=reject"), (dict(close=1, toggle=0, multi=0), "multi=reject"),
                 (dict(close=0, toggle=0, multi=1), "close=0 usage=all:error=none"), (dict(close=1, toggle=1, multi=1), "lasttog=1,,close=yes\tmulti=accept env=none")]:
        qs = [gen(0, dict(g, envs=[], env="none")) for _ in range(ctx.n(200, 2000))]
        for (q, m), o in zip(qs, ctx.drive(exe, [x[0] for x in qs], env=dict(GLOBAL_ARGV=e))):
            c = dict(m, request=q, out=dict(no, **o), crash=o.get("crash", ""))
            cases.append(c)
    for i in ctx.validate("ArgvTrace", cases):
        ctx.violation("rejected by ArgvTrace", dict(request=cases[i]["request"], case=cases[i], module="ArgvTrace"))
    ctx.assumptions += ["malformed or out-of-range numbers, and a value attached with = to a group of several short options, are not judged", "non-interactive mode; the variables' contents are not judged after a refusal"]
