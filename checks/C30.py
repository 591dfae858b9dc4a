"""C30: the queue, under every interleaving of memory accesses and over long histories."""
from vlib import *

def build(ctx, opt):
    d = os.path.join(ctx.dir, "q" + opt)
    os.makedirs(d)
    base = ["gcc", "-std=gnu11", "-g", opt, "-w", "-D_GNU_SOURCE", "-I" + HARN, "-I" + REPO, "-I" + REPO + "/libmy"]
    red = ["-fsanitize=thread", "-fno-builtin", "-Dmemcpy=q_memcpy", "-Dpthread_mutex_lock=q_mutex_lock", "-Dpthread_mutex_unlock=q_mutex_unlock",
           "-Dpthread_mutex_trylock=q_mutex_trylock", "-Dpthread_mutex_init=q_mutex_init", "-Dpthread_mutex_destroy=q_mutex_destroy", "-Dsched_yield=q_yield", "-Dpthread_yield=q_yield",
           "-Dusleep=q_usleep", "-Dnanosleep=q_nanosleep"] + ["-Dpthread_spin_%s=q_spin_%s" % (x, x) for x in ("init", "destroy", "lock", "trylock", "unlock")]
    objs = []
    for s, x in (("my_queue_mb", []), ("my_queue_mutex", []), ("my_queue", ["-Dmy_queue_mb_ops=my_queue_default_ops", "-Dmy_queue_mutex_ops=my_queue_default_ops"])):
        o = "%s/%s.o" % (d, s)
        ctx._cc(base + red + x + ["-c", "%s/libmy/%s.c" % (REPO, s), "-o", o])
        objs.append(o)
    exe = d + "/drv"
    ctx._cc(base + [HARN + "/drv_queue.c"] + objs + ["-o", exe])
    return exe

def corrupt(c, r):
    if c["op"] == "init":
        c["made"] ^= 1
        return c
    rets = [e for e in c["h"] if e[0] in ("pr", "cr")]
    e = r.choice(rets)
    if r.random() < .5 and e[2] != 99999:
        e[2] += r.choice([50, 1000])
    elif e[0] == "pr":
        e[1] = 1 - e[1]
    else:
        e[1] = 251 if e[1] == -1 else r.choice([-1, 251])
    return c

def run(ctx):
    r = ctx.rng
    ctx.mc("QueueMC", "QueueMC2.cfg" if ctx.thorough else "QueueMC.cfg")
    exe = build(ctx, "-O1")
    exes = [exe, build(ctx, "-O2")]
    cfg = "INIT Init\nNEXT Next\nINVARIANT CCInv\nCHECK_DEADLOCK FALSE\n"
    impls = ["mb", "mutex", "default"]
    lines = []
    # creation
    for im in impls:
        for n in list(range(0, 70)) + [96, 127, 128, 129, 255, 256, 1000, 1023, 1024, 1025, 4096, 6144, 65536, 65537]:
            lines.append("init %s %d %d" % (im, n, r.choice([1, 4, 8])))
    # long single-threaded histories
    for _ in range(ctx.n(150, 1500)):
        im, n = r.choice(impls), 2 ** r.randint(1, 7)
        p = r.choice([.3, .5, .5, .7])
        ops = []
        for i in range(r.randint(10, min(6 * n, 200) + 20)):
            if r.random() < .05:
                p = r.choice([.1, .3, .5, .7, .9])
            ops.append(("i" if r.random() < p else "r") + ("0" if r.random() < .1 else ""))
        lines.append("seq %s %d %d %s" % (im, n, r.choice([1, 2, 3, 4, 7, 8, 16, 100]), " ".join(ops)))
    # schedules
    sched = []
    for im in ("mb", "mutex"):
        for n, pre, p, c in ((2, 0, 2, 2), (2, 1, 2, 2), (4, 3, 3, 2), (2, 2, 3, 3), (4, 2, 2, 3)):
            sched.append("explore %s %d %d %d %d %d %d" % (im, n, r.choice([3, 4]), pre, p, c, ctx.n(3, 4)))
        for _ in range(ctx.n(6, 40)):
            sched.append("random %s %d %d %d %d %d %d %d" % (im, r.choice([2, 2, 4, 4, 8]), r.choice([1, 5, 8, 12]), r.randint(0, 9), r.randint(1, 8), r.randint(1, 8),
                                                          r.randrange(1 << 30), ctx.n(1500, 6000)))
    sched.append("explore default 2 4 1 2 2 2")
    lines += sched
    cases, runs = [], 0
    for e in exes:
        outs = ctx.drive(e, lines, shards=8 if ctx.thorough else 6)
        for l, o in zip(lines, outs):
            w = l.split()
            m = dict(op="init" if w[0] == "init" else "h", n=int(w[2]), made=0, gone=1, h=[], req=l)
            if "crash" in o:
                cases.append(dict(m, crash=o["crash"]))
            elif w[0] == "init":
                cases.append(dict(m, made=o["made"], gone=o["gone"]))
            else:
                runs += o["runs"]
                seen = set()
                for h in o["hs"]:
                    cases.append(dict(m, h=h))
    # equal histories need judging once
    uniq, idx = {}, []
    for c in cases:
        k = json.dumps([c["op"], c["n"], c["made"], c["gone"], c["h"], c.get("crash")])
        uniq.setdefault(k, c)
    cases = list(uniq.values())
    bad = ctx.validate("QueueTrace", cases, corrupt=corrupt, nneg=40, cfg=cfg)
    for i in bad:
        ctx.violation("not a behaviour of Queue", cases[i])
    ctx.samples += [c for c in r.sample(cases, 2)]
    ctx.notes["schedules_run"] = runs
    ctx.assumptions += ["one producer and one consumer; stores become visible in program order between the barriers the code places (x86), weaker orders only in the model QueueMC"]
