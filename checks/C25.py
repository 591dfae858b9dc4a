"""C25: the lookup command from its arguments to the bytes it prints, against Tool (which reads the arguments, answers with Query and renders with Format)."""
from tools import *

def lookup_args(r, stores, tm=False):
    """an argument list with what its operands mean"""
    kind = r.choice([Q_RRSET] * 5 + [Q_NAME] * 4 + [Q_IP] * 2 + [Q_RAW] * 2 + [Q_VERSION, Q_TIME])
    sweep = tm and r.random() < .6      # long searches, to meet the deadline half-way
    if sweep: kind = r.choice([Q_RRSET, Q_RRSET, Q_NAME])
    q = mkq(r, stores, kind)
    s = q.store
    now = r.choice([1051, 1100, 5000, 10**6, 10**9, 1700000000])
    opts, mean, ops = [], [], []
    def operand(op, role, bad=()):
        if bad and r.random() < .06:
            t = r.choice(bad).encode("latin1"); ops.append(t)
            return
        t, m = text_of(q, op)
        if t is None:
            return
        ops.append(t); mean.append(dict(tok=list(t), role=role, m=m))
    if r.random() < .1:
        opts.append(("C", None)); 
    if sweep: q.name(b"\1*\0", r)
    else: put_data(r, q, pwild=.4)
    if kind == Q_RRSET:
        ops.append(b"rrset"); operand("data", "data", BAD_NAMES + ["a/b", "/", "1.2.3.4/24"])
        if r.random() < (0 if sweep else .4):
            put_rr(r, q, .85); operand("rr", "rr", BAD_RR)
            if len(ops) == 3 and r.random() < .4:
                put_bw(r, q, 1); operand("bw", "bw", BAD_NAMES)
    elif kind == Q_IP:
        ops += [b"rdata", b"ip"]; operand("data", "data", BAD_IP)
    elif kind in (Q_RAW, Q_NAME):
        ops += [b"rdata", b"raw" if kind == Q_RAW else b"name"]; operand("data", "data", BAD_RAW if kind == Q_RAW else BAD_NAMES)
        if r.random() < (0 if sweep else .35):
            put_rr(r, q, .85); operand("rr", "rr", BAD_RR)
    elif kind == Q_VERSION:
        ops.append(b"version"); operand("data", "data", BAD_VT)
    else:
        ops.append(b"time_range")
    def t_of():
        if r.random() < .04:
            return r.choice(BAD_TIMES)
        v = fence_val(r, s)
        return time_text(r, max(0, min(v, 2**62)), now)
    pf = 0 if sweep else r.choice([0, 0, .3, .5, .9])
    for o in "aAbB":
        if r.random() < pf:
            opts.append((o, t_of()))
            if r.random() < .03:
                opts.append((o, t_of()))
    if r.random() < (.5 if pf else .05): opts.append(("c", None))
    k = r.random()
    meta = kind in (Q_VERSION, Q_TIME)
    if k < .3: opts.append(("j", None))
    elif k < .55: opts.append(("J", None))
    elif k < .6: opts.append(("n", None))
    elif k < .62: opts += [("j", None), ("J", None)]
    if r.random() < (.3 if .0 < k < .55 and not meta else .03): opts.append(("R", None))
    if r.random() < .03: opts.append(("n", None))
    single = len(s.files) == 1 and r.random() < .6
    if r.random() < (.03 if single else .25): opts.append(("u", None))
    if r.random() < (.02 if meta else .25):
        opts.append(("O", str(r.choice([1, 1, 2, 3, 5, 100])) if r.random() < .93 else r.choice(["0", "-1", "x", ""])))
    if r.random() < .2: opts += [("s", None)] * r.choice([1, 1, 2])
    adv = "-"
    if sweep and r.random() < .6:
        t, i = r.choice([(0, 1), (0, 2), (3, 2), (3, 2), (5, 3), (5, 2), (2, 1)])
        opts += [("t", str(t))] * (t > 0) + [("i", str(i))]
        adv = "%d" % r.choice([100000, 150000, 250000])
    elif tm:
        if r.random() < .8: opts.append(("t", str(r.choice([1, 1, 2, 3])) if r.random() < .96 else r.choice(["0", "-5", "z", ""])))
        if r.random() < .4: opts.append(("i", str(r.choice([1, 1, 2])) if r.random() < .96 else r.choice(["0", "-1", "x"])))
        if sweep: adv = "%d" % r.choice([50000, 150000, 300000])
        else: adv = ",".join(str(r.choice([0, 1000, 100000, 300000, 1000000, 2500000])) for _ in range(r.randint(1, 6)))
    # spelling
    r.shuffle(opts)
    toks = []
    for o, a in opts:
        if a is None:
            if toks and toks[-1][0] and r.random() < .4:
                toks[-1] = (True, toks[-1][1] + o.encode())
            else:
                toks.append((True, b"-" + o.encode()))
        elif r.random() < .3 and a:
            if toks and toks[-1][0] and r.random() < .3:
                toks[-1] = (False, toks[-1][1] + (o + a).encode())
            else:
                toks.append((False, ("-" + o + a).encode()))
        else:
            toks += [(False, ("-" + o).encode()), (False, a.encode())]
    toks = [t for _, t in toks]
    if r.random() < .03:
        toks.insert(0, r.choice([b"-x", b"-jz", b"--json", b"-h", b"-?"]))
    x = r.random()
    if x < .03: ops = r.choice([[], ops[:1], ops[:2], ops + [b"extra"] * (1 if len(ops) == 4 else 3), [b"rset"] + ops[1:], [b"rdata", b"ips"] + ops[2:], [b"RRSET"] + ops[1:], ops + [b"a", b"b", b"c"], [b"rdata"], [b""]])
    y = r.random()
    if y < .75: args = toks + ops
    elif y < .85: args = toks + [b"--"] + ops
    elif y < .95: args = ops + toks
    else: args = ops[:1] + toks + ops[1:]
    if r.random() < .01 and toks: args = ops + toks[:-1]
    # where the data is
    fn = sn = None
    if single: fn = "ok"
    else: sn = "ok"
    if r.random() < .03:
        fn, sn = r.choice([(None, None), ("ok", "ok"), ("missing", None)])
    if fn == "ok" and len(s.files) != 1 and sn is None:
        fn, sn = None, "ok"
    line = "tool %s %s %d %s %s" % ({"ok": s.paths[0], "missing": s.dir + "/none.mtbl", None: "-"}[fn], s.setfile if sn else "-", now, adv,
                                    " ".join(a.hex() or "-" for a in args))
    return line, dict(op="lookup", store=q.ix, args=[list(a) for a in args], mean=mean, fname=fn or "no", setf=sn or "no", now=limbs(now))

def root_mx(m):
    a = [bytes(x) for x in m["args"]]
    return b"name" in a and b"." in a

def run(ctx):
    r = ctx.rng
    exe = build_tool(ctx, "dnstable_lookup.c")
    ctx.mc("ToolMC", "ToolMC2.cfg" if ctx.thorough else "ToolMC.cfg")
    stores = [gen_store(ctx, "%d" % i, r.choice([1, 1, 1, 2, 3]), r.choice([5, 9, 14]), spread=r.choice([.5, .8])) for i in range(ctx.n(14, 40))]
    sf = store_file(ctx, exe, stores)
    reqs = [lookup_args(r, stores, tm=i % 8 == 0) for i in range(ctx.n(1800, 16000))]
    reqs = [q for q in reqs if not root_mx(q[1])]
    ctx.conform("ToolTrace", exe, reqs, mk, env=dict(STORES=sf), corrupt=corrupt, nneg=50, drive_kw=dict(shards=8))
    ctx.assumptions += ["names, types and addresses mean what the query checks say", "dates are given with all their digits; numbers in time expressions within 63 bits",
                        "of the statistics of searches cut short, only the number of entries is judged"]
