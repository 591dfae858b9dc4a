"""C26: the dump command from its arguments to the bytes it prints, against Tool."""
from tools import *
KINDS_ = [("-r", "--rrset_full"), ("-d", "--rdata_full"), (None, "--rrset_names"), (None, "--rdata_names"), ("-t", "--time_range"), ("-v", "--version_entries"), ("-s", "--source_info_entries")]

def dump_args(r, stores):
    i = r.randrange(len(stores)); s = stores[i]; p = s.paths[0]
    sp = lambda a, b: a if a and r.random() < .5 else b if r.random() < .7 else b[:r.randint(min(len(b), 9 if b.startswith("--rrset") or b.startswith("--rdata") else 5), len(b))]
    k = KINDS_[r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6])]
    o = [sp(*k)]
    j = r.random() < .6
    if j: o.append(sp("-j", "--json"))
    if r.random() < (.6 if j and k in KINDS_[:2] else .06): o.append(sp("-R", "--raw"))
    if r.random() < .05: o.append(sp(*r.choice(KINDS_)))
    if r.random() < .03: o = o[1:]
    if r.random() < .03: o.append(r.choice(["-x", "--nope", "--rrset", "-jj", "--r", "-q", "--json=yes"]))
    r.shuffle(o)
    if r.random() < .3:      # combined
        sh = [x for x in o if len(x) == 2 and x[0] == "-"]
        if len(sh) > 1:
            o = ["-" + "".join(x[1] for x in sh)] + [x for x in o if x not in sh]
    f = [p] if r.random() < .96 else r.choice([[], [p, p], [s.dir + "/none.mtbl"]])
    a = o + f if r.random() < .7 else f + o
    line = "tool - - 1000 - %s" % " ".join(x.encode().hex() or "-" for x in a)
    return line, dict(op="dump", store=i + 1, args=[list(x.encode()) for x in a], path=list(p.encode()))

def run(ctx):
    r = ctx.rng
    exe = build_tool(ctx, "dnstable_dump.c")
    stores = [gen_store(ctx, "%d" % i, 1, r.choice([3, 6, 12, 25])) for i in range(ctx.n(24, 90))] + [Store(ctx, [{}], [None], "e")]
    sane = len(stores)
    # undecodable records are passed over
    for i in range(3):
        files, rngs = gen_files(r, 1, 8)
        f = files[0]
        for _ in range(6):
            k = bytes([r.choice([0, 1, 2, 3, 255])]) + r.choice([b"", b"\x05ab", b"\xff\xff", b"\0", b"\3com"])
            f.setdefault(k, r.choice([b"", b"\x80", b"\1\2", b"\1\2\3"]))
        stores.append(Store(ctx, files, rngs, "b%d" % i))
    sf = store_file(ctx, exe, stores, sane)
    reqs = [dump_args(r, stores) for _ in range(ctx.n(900, 8000))]
    ctx.conform("ToolTrace", exe, reqs, mk, env=dict(STORES=sf), corrupt=corrupt, nneg=50, drive_kw=dict(shards=8))
