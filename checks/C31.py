"""C31: file sets track their list file over histories of edits, creations, removals and reloads."""
from vlib import *

NAMES = ["a", "b", "ab", "b.mtbl", "a b", "d1/x", "d1/d2/y", "d1", "B", "zz", "\xff\x80", "a.mtbl", "d1//x", "./a"]
EXIST_ALWAYS = ["d1"]            # directories the driver makes exist too

def hx(n):
    return n.encode("latin1").hex() or "-"

def norm(n):
    return n

def run(ctx):
    r = ctx.rng
    ctx.mc("FilesetMC", "FilesetMC2.cfg" if ctx.thorough else "FilesetMC.cfg")
    exe = ctx.build_my("drv_fileset.c")
    reqs = []
    for i in range(ctx.n(700, 6000)):
        d = os.path.join(ctx.dir, "fs%d" % i)
        pool = r.sample(NAMES, r.randint(2, 7))
        many = r.random() < .12
        if many:
            pool += ["n%02d" % k for k in range(r.randint(6, 20))]
        files = set()
        ops, toks = [], []
        mt = 1000000
        there = False
        def write():
            nonlocal mt
            if r.random() < .75:
                mt += r.choice([1, 1, 5, -3])
            style = r.choice("in") if there else "n"
            ls = [r.choice(pool) for _ in range(r.choice([8, 12, 20, 40] if many else [0, 1, 2, 3, 4, 6]))]
            if r.random() < .6:
                ls = list(dict.fromkeys(ls))
            nonl = r.random() < .2
            toks.append("W:%s:%d:%s%s" % (style, mt, ",".join(hx(l) for l in ls) or "_", "!" if nonl else ""))
            ops.append(dict(e="W", n=[], lines=[list(l.encode("latin1")) for l in ls]))
        def touch(p=.6):
            n = r.choice([x for x in pool if x not in EXIST_ALWAYS] or ["a"])
            c = r.random() < p
            toks.append("%s:%s" % ("C" if c else "D", hx(n)))
            ops.append(dict(e="C" if c else "D", n=list(n.encode("latin1")), lines=[]))
            # other spellings of the same file
            for al in {"a": ["./a"], "./a": ["a"], "d1/x": ["d1//x"], "d1//x": ["d1/x"]}.get(n, []):
                toks.append("%s:%s" % ("C" if c else "D", hx(al)))
                ops.append(dict(e="C" if c else "D", n=list(al.encode("latin1")), lines=[]))
        for x in EXIST_ALWAYS:
            toks.append("C:" + hx(x))
            ops.append(dict(e="C", n=list(x.encode()), lines=[]))
        for _ in range(r.randint(0, 30 if many else 4)):
            touch(.9)
        write()
        there = True
        for _ in range(r.randint(4, 25)):
            w = r.random()
            if w < .4:
                toks.append("R")
                ops.append(dict(e="R", n=[], lines=[]))
            elif w < .65:
                write(); there = True
            elif w < .93:
                touch()
            elif w < .96 and any(o["e"] == "R" for o in ops):
                toks.append("U"); ops.append(dict(e="U", n=[], lines=[])); there = False
            elif there:
                toks.append("X"); ops.append(dict(e="X", n=[], lines=[]))
        if not there:
            write()
        toks.append("X"); ops.append(dict(e="X", n=[], lines=[]))
        # a destroyed set is only made again while the list is there
        ok, alive = True, True
        for o in ops:
            if o["e"] == "U": alive = False
            if o["e"] == "W": alive = True
        seq, have, alive = [], False, False
        for t, o in zip(toks, ops):
            if o["e"] == "W": alive = True
            if o["e"] == "U": alive = False
            if o["e"] == "R":
                if not have and not alive:
                    continue
                have = True
            if o["e"] == "X": have = False
            seq.append((t, o))
        reqs.append(("fs %s %s" % (d, " ".join(t for t, _ in seq)), dict(ops=[o for _, o in seq], d=d)))
    def mk(m, o):
        shutil.rmtree(m["d"], ignore_errors=True)
        return dict(ops=m["ops"], ev=(o or {}).get("ev", []))
    def corrupt(c, r):
        rs = [e for e in c["ev"] if e["log"]]
        gs = [e for e in c["ev"] if e["get"]]
        w = r.random()
        if w < .5 and rs:
            e = r.choice(rs)
            if r.random() < .5:
                e["log"].append(copy.deepcopy(r.choice(e["log"])))
            else:
                e["log"].pop()
        elif gs:
            e = r.choice(gs)
            if r.random() < .5:
                e["get"].pop()
            else:
                r.choice(e["get"])["v"] += 1
        else:
            return None
        return c
    ctx.conform("FilesetTrace", exe, reqs, mk, corrupt=corrupt, cfg="INIT Init\nNEXT Next\nINVARIANT CCInv\nCHECK_DEADLOCK FALSE\n", drive_kw=dict(shards=4))
    ctx.assumptions += ["a change of the list within the same second and inode is not noticed (stat granularity used by the code)", "list lines contain no NUL byte"]
