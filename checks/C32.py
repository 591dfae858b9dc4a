"""C32: spool directories, under every small interleaving of callers, handles and other processes, on real files."""
from vlib import *

def build(ctx):
    red = ["-D%s=sp_%s" % (f, f) for f in ("readdir", "fstatat", "unlink", "rename", "renameat", "link", "usleep")] + \
          ["-Dstat(a,b)=sp_stat(a,b)", "-Dlstat(a,b)=sp_lstat(a,b)",
           "-Dpthread_mutex_lock(m)=sp_lock(m)", "-Dpthread_mutex_trylock(m)=sp_trylock(m)", "-Dpthread_mutex_unlock(m)=sp_unlock(m)"]
    pre = ["-include", "sys/stat.h", "-include", "dirent.h", "-include", "pthread.h", "-include", "unistd.h", "-include", "stdio.h"]
    o = ctx.dir + "/spooldir.o"
    base = ["gcc"] + ctx.CFLAGS + ctx.ASAN + ["-I" + HARN, "-I" + REPO, "-I" + REPO + "/libmy"]
    ctx._cc(base + pre + red + ["-c", REPO + "/libmy/spooldir.c", "-o", o])
    exe = ctx.dir + "/drv"
    ctx._cc(base + [HARN + "/drv_spool.c", o] + ["-o", exe, "-lpthread"])
    return exe

def corrupt(c, r):
    h = c["h"]
    k = r.randrange(3)
    mv = [i for i, e in enumerate(h) if e[0] == "mv"]
    if k == 0 and mv:
        del h[r.choice(mv)]
    elif k == 1 and mv:
        e = h[r.choice(mv)]
        e[3] += 50
    else:
        i = r.choice([i for i, e in enumerate(h) if e[0] == "ret"])
        h[i][2] = "zz"
    return c

def run(ctx):
    r = ctx.rng
    ctx.mc("SpooldirMC", "SpooldirMC.cfg")
    if ctx.thorough:
        ctx.mc("SpooldirMC", "SpooldirMC2.cfg")
    exe = build(ctx)
    names = ["a", "b", "c.d", "x-y", "long-name-with-many-letters", "7"]
    lines = []
    def req(callers, n, setup, env, mode):
        lines.append("run %s %s %d %s %s %s" % (ctx.dir, ",".join(map(str, callers)), n, ",".join(setup) or "-", ",".join(env) or "-", mode))
    bound = ctx.n(2, 3)
    # every schedule with a few switches
    req([0, 0], 1, ["ifa"], [], "dfs %d" % bound)
    req([0, 1], 1, ["ifa"], [], "dfs %d" % bound)
    req([0, 1], 1, ["ifa", "ifb", "afa"], [], "dfs %d" % ctx.n(1, 2))
    req([0, 0], 2, ["ifa", "ifb"], [], "dfs %d" % ctx.n(1, 2))
    req([0], 2, ["ifa"], ["+fb", "-a", "Afb"], "dfs %d" % bound)
    req([0, 1], 1, ["ifa"], ["+fb", "Ada", "Da"], "dfs %d" % ctx.n(1, 2))
    # random ones over random directories
    for _ in range(ctx.n(60, 600)):
        setup, env = [], []
        pool = r.sample(names, r.randint(1, 5))
        for n in pool:
            if r.random() < .8:
                setup.append("i" + r.choice("ffffffldLp") + n)
            if r.random() < .25:
                setup.append("a" + r.choice("fffdl") + n)
        if r.random() < .4:
            setup.append("i" + r.choice("ffd") + r.choice([".h", ".hidden", ".a"]))
        # a name is a regular file whenever it appears, or never: no caller could tell apart a directory that takes a file's place meanwhile
        other = {s[2:] for s in setup if s[0] == "i" and s[1] in "dLp"}
        if r.random() < .6:
            for _ in range(r.randint(1, 6)):
                k = r.random()
                n = r.choice(pool + [".h"])
                if k < .55:
                    env.append("+" + (r.choice("dLp") if n in other else r.choice("ffffl")) + n)
                elif k < .7:
                    env.append("-" + n)
                elif k < .8:
                    env.append("A" + r.choice("fd") + n)
                else:
                    env.append("D" + n)
        nc = r.randint(1, 4)
        callers = [0] + [r.randint(0, 1) for _ in range(nc - 1)] if r.random() < .7 else list(range(nc))
        callers = [min(c, max(callers[:i + 1])) if i else 0 for i, c in enumerate(callers)]
        req(callers, r.randint(1, 5), setup, env, "random %d %d %d" % (r.randrange(1 << 30), r.choice([2, 3, 6, 12]), ctx.n(60, 300)))
    outs = ctx.drive(exe, lines, shards=8)
    uniq, runs = {}, 0
    for l, o in zip(lines, outs):
        w = l.split()
        m = dict(callers=[int(x) for x in w[2].split(",")], hidden=[".h", ".hidden", ".a"], h=[], req=l)
        if "crash" in o:
            uniq[l] = dict(m, crash=o["crash"])
            continue
        runs += o["runs"]
        for h in o["hs"]:
            uniq.setdefault(json.dumps([m["callers"], h]), dict(m, h=h))
        if not o["gone"]:
            uniq[l] = dict(m, crash="destroy leaves the handle")
    cases = list(uniq.values())
    bad = ctx.validate("SpooldirTrace", cases, corrupt=corrupt, nneg=40, cfg="INIT Init\nNEXT Next\nINVARIANT CCInv\nCHECK_DEADLOCK FALSE\n")
    for i in bad:
        ctx.violation("not a behaviour of Spooldir", cases[i])
    ctx.samples += [shorten(c) for c in r.sample(cases, 2)]
    ctx.notes["schedules_run"] = runs
    ctx.assumptions += ["callers interleave at system calls and lock operations; a directory stream shows every entry present since it was opened or rewound (POSIX)"]
