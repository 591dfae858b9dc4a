"""C27: the merge command, by runs of the script itself in scratch directories, against MergeTool.

mtbl_merge is not installed here; a stand-in with its command line and environment loads libdnstable (built from the tree with its own
symbol list) as the script directs and merges the shim's tables.  Sequences of runs in one directory are recorded and judged."""
from dnsgen import *
from mergecases import *
from store import gen_files
import struct, concurrent.futures as cf

def build(ctx):
    od = os.path.join(ctx.dir, "mt"); os.makedirs(od)
    fl = ["-std=gnu11", "-g", "-O1", "-fPIC", "-w", "-D_GNU_SOURCE", "-include", SHIM + "/config.h", "-I" + SHIM, "-I" + REPO, "-I" + REPO + "/dnstable"]
    need = ("my_format", "argv", "varint", "b64_encode", "b64_decode", "heap", "my_fileset", "b32_encode")
    srcs = sorted(glob.glob(REPO + "/dnstable/*.c")) + [f for f in sorted(glob.glob(REPO + "/libmy/*.c")) if os.path.basename(f)[:-2] in need] + [SHIM + "/shim_wdns.c"]
    jobs = [["gcc"] + fl + ["-c", f, "-o", od + "/" + os.path.basename(f)[:-2] + ".o"] for f in srcs]
    ctx.cc_many(jobs)
    ctx._cc(["gcc", "-shared", "-Wl,-soname,libdnstable.so.0", "-Wl,--version-script=" + REPO + "/dnstable/libdnstable.sym"] + [j[-1] for j in jobs] + ["-o", od + "/libdnstable.so.0", "-lpthread", "-lm"])
    bd = od + "/bin"; os.makedirs(bd)
    ctx._cc(["gcc"] + fl + ["-rdynamic", HARN + "/mtbl_merge.c", SHIM + "/shim_mtbl.c", REPO + "/libmy/my_fileset.c", REPO + "/libmy/varint.c", "-o", bd + "/mtbl_merge", "-ldl", "-lpthread"])
    s = open(REPO + "/src/dnstable_merge.sh.in").read().replace("@LIBDNSTABLE_DLNAME@", "libdnstable.so.0")
    with open(bd + "/dnstable_merge", "w") as fh:
        fh.write(s)
    os.chmod(bd + "/dnstable_merge", 0o755)
    return od, bd

def write_tab(p, t):
    with open(p, "wb") as fh:
        fh.write(b"SHIMTBL1" + b"".join(struct.pack("<II", len(k), len(t[k])) + k + t[k] for k in sorted(t)))

def read_tab(p):
    b = open(p, "rb").read()
    if b[:8] != b"SHIMTBL1":
        return [dict(k=[], v=list(b[:50]))]
    o, out = 8, []
    while o + 8 <= len(b):
        lk, lv = struct.unpack("<II", b[o:o + 8]); o += 8
        out.append(dict(k=list(b[o:o + lk]), v=list(b[o + lk:o + lk + lv]))); o += lk + lv
    return out

NAMES_ = [b"a.mtbl", b"b.mtbl", b"c.mtbl", b"two words.mtbl", b" lead", b"trail ", b"*.mtbl", b"?.mtbl", b"[ab].mtbl", b"it's", b'q"q', b"$HOME", b"`id`", b"$(id)", b"a;b", b"a&b",
          b"back\\slash", b"new\nline", b"tab\there", b"~", b"#x", b"\xff\xfe", b"a=b", b"x,y", b"{a,b}.mtbl", b"two  blanks", b"a.mtbl b.mtbl", b"%s", b"|", b">o", b"!x", b"(x)"]

def plan(r):
    """tables to begin with and a sequence of argument lists"""
    files, _ = gen_files(r, r.choice([2, 2, 3, 3, 4, 5]), r.choice([1, 3, 6]))
    # the same keys with other values, so that something is merged
    for f in files:
        for k in list(f):
            if r.random() < .5 and k and k[0] in (RRSET, RDATA):
                r.choice(files).setdefault(k, v_triplet(rnd_num(r), rnd_num(r), r.randrange(1, 1 << 40)))
        if r.random() < .6:
            f[bytes([TIME_RANGE])] = varint(rnd_num(r)) + varint(rnd_num(r)) if r.random() < .85 else b""
        if r.random() < .4:
            f[bytes([VERSION, r.randrange(4)])] = varint(r.choice([0, 1, 2, 127, 128, 2**32 - 1]))
        if r.random() < .4:
            f[bytes([SOURCE]) + r.choice([b"", b"x"])] = b""
        if r.random() < .5:
            k = bytes([RRSET_NAME]) + name("a.b")
            for g in files:
                if r.random() < .6:
                    g[k] = index_bytes([r.choice(TYPES) for _ in range(r.randint(1, 4))])
    ns = r.sample(NAMES_[:6] if r.random() < .4 else NAMES_, len(files))
    have, outs, runs = list(ns), 0, []
    for _ in range(r.randint(1, 4)):
        k = r.random()
        opts = r.choice([[], [], [b"-c", b"zstd"], [b"-c", b"zstd", b"-l", b"3"], [b"-b", b"8192"], [b"-cnone"], [b"-t", b"4", b"-l3"], [b"--"]])
        if k < .12:
            a = r.choice([[], [have[0]], [b""], [b"", have[0]], [have[0], b""], [b"", b""], [b"", b"x", b"y"], [have[0], b"", b"o"], [b"-h"], [b"", have[0], b"o"]])
        elif k < .2:
            a = r.choice([opts + [have[0], b"nosuch", b"o%d" % outs], opts + [have[0], r.choice(have)], [have[0], b"/nonexistent/x"], [b"-c", b"x"], [b"-c", b"x", have[0]],
                          [b"-z", have[0], b"o9"], [have[0], have[0], b"", b""], [have[0], have[-1], b""]])
        else:
            src = r.sample(have, r.randint(1, len(have)))
            if r.random() < .1:
                src.append(src[0])
            o = r.choice([b"out%d" % outs, b"out %d.mtbl" % outs, b"o*%d" % outs, b"out'%d" % outs])
            outs += 1
            a = opts + src + [o]
            if r.random() < .7:
                have = [x for x in have if x not in src]
            have.append(o)
        runs.append((a, r.choice([0, 1, 2, 3, 77, 255, 130]) if r.random() < .1 else -1))
    return dict(zip(ns, files)), runs

def play(ctx, od, bd, i, tabs, runs):
    d = os.path.join(ctx.dir, "w%d" % i).encode(); os.makedirs(d)
    log = os.path.join(ctx.dir, "w%d.log" % i)
    for n, t in tabs.items():
        write_tab(os.path.join(d, n), t)
    ls = lambda: [dict(name=list(n), tab=read_tab(os.path.join(d, n))) for n in sorted(os.listdir(d))]
    c = dict(dir=ls(), h=[], log="")
    for a, told in runs:
        if os.path.exists(log):
            os.unlink(log)
        env = dict(PATH=bd + ":/usr/bin:/bin", LD_LIBRARY_PATH=od, MERGE_LOG=log, HOME="/nonexistent")
        if told >= 0:
            env["MERGE_RC"] = str(told)
        try:
            p = subprocess.run([(bd + "/dnstable_merge").encode()] + a, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            c["crash"] = "no end"; break
        t = open(log).read() if os.path.exists(log) else ""
        c["log"] += t
        st = [[list(bytes.fromhex(x.replace("-", ""))) for x in l.split()[1:]] for l in t.splitlines() if l.startswith("run")]
        c["h"].append(dict(args=[list(x) for x in a], told=told, exit=rc, starts=st, dir=ls()))
        if rc < 0:
            c["crash"] = "signal %d" % -rc; break
    shutil.rmtree(d)
    return c

def corrupt_(c, r):
    e = r.choice(c["h"]); k = r.random()
    if k < .3:
        e["exit"] = 1 if e["exit"] == 0 else 0
    elif k < .5 and e["starts"]:
        s = e["starts"][0]
        if r.random() < .5 and s: s.pop(r.randrange(len(s)))
        else: s.append([120])
    elif k < .6:
        e["starts"] = e["starts"] * 2 or [[]]
    else:
        t = r.choice(e["dir"])["tab"]
        if not t: return None
        x = r.choice(t)
        if r.random() < .4: t.remove(x)
        else: x["v"] = x["v"] + [1] if x["v"] else [1, 1, 1, 1]
    return c

def run(ctx):
    r = ctx.rng
    ctx.mc("MergeToolMC", "MergeToolMC.cfg")
    if ctx.thorough:
        ctx.mc("MergeToolMC", "MergeToolMC2.cfg"); ctx.mc("MergeToolMC", "MergeToolMC3.cfg")
    od, bd = build(ctx)
    plans = [plan(r) for _ in range(ctx.n(260, 4000))]
    with cf.ThreadPoolExecutor(8) as ex:
        cases = list(ex.map(lambda x: play(ctx, od, bd, x[0], *x[1]), enumerate(plans)))
    cfg = "INIT Init\nNEXT Next\nINVARIANT CCInv\nCHECK_DEADLOCK FALSE\n"
    bad = ctx.validate("MergeToolTrace", cases, corrupt=corrupt_, nneg=40, cfg=cfg)
    for i in bad[:8]:
        again = play(ctx, od, bd, 100000 + i, *plans[i])
        if ctx.validate("MergeToolTrace", [again], nneg=0, cfg=cfg, count=False):
            ctx.violation("rejected by MergeToolTrace", dict(case=again, module="MergeToolTrace"))
    ctx.samples += [shorten(c) for c in r.sample(cases, 2)]
    ctx.assumptions += ["mtbl_merge is represented by a stand-in with its command line and environment (libmtbl is not installed)"]
