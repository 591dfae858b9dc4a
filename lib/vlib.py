"""Shared machinery of the checks: build /repo, run drivers, run TLC, report."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, glob, copy
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SHIM = os.path.join(VERIF, "harness", "shim")
HARN = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)

class ToolError(Exception):
    pass

def limbs(v, n=4):
    """v as n 16-bit limbs, most significant first (TLC integers are 32-bit)."""
    v &= (1 << (16 * n)) - 1
    return [(v >> (16 * (n - 1 - i))) & 0xffff for i in range(n)]

def unlimbs(l):
    v = 0
    for x in l:
        v = v << 16 | x
    return v

def hexs(b):
    b = bytes(b)
    return b.hex() if b else "-"

class Ctx:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.neg_total = 0
        self.neg_rejected = 0
        self.samples = []
        self.mc_runs = []
        self.violations = []          # list of (reason, case)
        self.known_hits = {}
        self.assumptions = []
        self.notes = {}
        self.env = dict(os.environ)
        self.env.update(ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
                        UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1", LC_ALL="C", TZ="UTC")
        self.findings = [f for f in load_findings() if f["property"] == pid and f.get("status", "known") == "known"]

    thorough = property(lambda s: s.tier == "thorough")

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 8) if self.thorough else quick

    # ---------------------------------------------------------------- build
    CFLAGS = ["-std=gnu11", "-g", "-O1", "-w", "-D_GNU_SOURCE", "-fno-omit-frame-pointer"]
    ASAN = ["-fsanitize=address"]

    def _cc(self, args):
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=self.dir)
        if p.returncode != 0:
            raise ToolError("compile failed: %s\n%s" % (" ".join(args), p.stdout[-3000:]))

    def cc_many(self, jobs):
        with ThreadPoolExecutor(NCPU) as ex:
            for _ in ex.map(self._cc, jobs):
                pass

    def libmy_objs(self, san=True, extra=(), only=None, skip=("crc32c_test", "zonefile", "my_queue_mb", "my_queue_mutex"), tag=""):
        od = os.path.join(self.dir, "my%s" % tag)
        os.makedirs(od, exist_ok=True)
        jobs, objs = [], []
        for f in sorted(glob.glob(REPO + "/libmy/*.c")):
            b = os.path.basename(f)[:-2]
            if b in skip or (only is not None and b not in only):
                continue
            o = os.path.join(od, b + ".o")
            pre = ["-include", "stdbool.h"] if b == "b32_decode" else []
            jobs.append(["gcc"] + self.CFLAGS + (self.ASAN if san else []) + list(extra) + pre +
                        ["-I" + REPO, "-I" + REPO + "/libmy", "-c", f, "-o", o])
            objs.append(o)
        self.cc_many(jobs)
        a = os.path.join(od, "libmy.a")
        self._cc(["ar", "rcs", a] + objs)
        return a

    def build_my(self, driver, san=True, extra=(), libs=(), only=None, name=None, more=()):
        """driver + libmy archive (driver: file under harness/)."""
        lib = self.libmy_objs(san=san, extra=extra, only=only, tag=name or "")
        exe = os.path.join(self.dir, name or os.path.basename(driver).replace(".c", ""))
        self._cc(["gcc"] + self.CFLAGS + (self.ASAN if san else []) + list(extra) +
                 ["-I" + HARN, "-I" + REPO, "-I" + REPO + "/libmy", os.path.join(HARN, driver)] +
                 list(more) + [lib, "-o", exe, "-lpthread", "-lm"] + list(libs))
        return exe

    def dns_objs(self, san=True, extra=(), tag=""):
        od = os.path.join(self.dir, "dns" + tag)
        os.makedirs(od, exist_ok=True)
        if not os.path.exists(os.path.join(od, "dnstable.h")):
            pass
        srcs = sorted(glob.glob(REPO + "/dnstable/*.c")) + \
            [f for f in sorted(glob.glob(REPO + "/libmy/*.c")) if os.path.basename(f)[:-2] in
             ("my_format", "argv", "varint", "b64_encode", "b64_decode", "heap", "my_fileset", "b32_encode")] + \
            sorted(glob.glob(SHIM + "/*.c"))
        jobs, objs = [], []
        for f in srcs:
            o = os.path.join(od, os.path.basename(f)[:-2] + ".o")
            jobs.append(["gcc"] + self.CFLAGS + (self.ASAN if san else []) + list(extra) +
                        ["-include", SHIM + "/config.h", "-I" + SHIM, "-I" + REPO, "-I" + REPO + "/dnstable", "-c", f, "-o", o])
            objs.append(o)
        self.cc_many(jobs)
        a = os.path.join(od, "libdns.a")
        self._cc(["ar", "rcs", a] + objs)
        return a

    def build_dns(self, driver, san=True, extra=(), name=None, lib=None, libs=()):
        lib = lib or self.dns_objs(san=san, extra=extra)
        src = driver if driver.startswith("/") else os.path.join(HARN, driver)
        exe = os.path.join(self.dir, name or os.path.basename(driver).replace(".c", ""))
        self._cc(["gcc"] + self.CFLAGS + (self.ASAN if san else []) + list(extra) +
                 ["-include", SHIM + "/config.h", "-I" + HARN, "-I" + SHIM, "-I" + REPO, "-I" + REPO + "/dnstable", src, lib,
                  "-o", exe, "-lpthread", "-lm"] + list(libs))
        return exe

    # ---------------------------------------------------------------- drive
    @staticmethod
    def _watch(p, data, stall):
        """Feed data to p; collect its output; kill it when stdout is silent for `stall` seconds."""
        so, se, last = [], [], [time.monotonic()]

        def feed():
            try:
                p.stdin.write(data)
                p.stdin.close()
            except OSError:
                pass

        def rd(f, acc, mark):
            while True:
                b = os.read(f.fileno(), 1 << 16)
                if not b:
                    return
                acc.append(b)
                if mark:
                    last[0] = time.monotonic()
        ts = [threading.Thread(target=t, args=a, daemon=True) for t, a in ((feed, ()), (rd, (p.stdout, so, 1)), (rd, (p.stderr, se, 0)))]
        for t in ts:
            t.start()
        hung = False
        while True:
            ts[1].join(0.5)
            if not ts[1].is_alive():
                break
            if time.monotonic() - last[0] > stall:
                hung = True
                p.kill()
                break
        for t in ts[1:]:
            t.join(10)
        p.wait()
        for f in (p.stdout, p.stderr):
            f.close()
        return b"".join(so), b"".join(se), hung

    def drive(self, exe, lines, timeout=600, max_crash=25, args=(), env=None, shards=1):
        """Feed one request per line, expect one JSON line per request.
        A crash is reported as {"crash": "..."} for that request."""
        if shards > 1 and len(lines) > shards * 4:
            k = (len(lines) + shards - 1) // shards
            parts = [lines[i:i + k] for i in range(0, len(lines), k)]
            with ThreadPoolExecutor(len(parts)) as ex:
                rs = list(ex.map(lambda ls: self.drive(exe, ls, timeout, max_crash, args, env), parts))
            return [x for r in rs for x in r]
        out, pos, crashes, hangs = [], 0, 0, 0
        e = dict(self.env)
        if env:
            e.update(env)
        while pos < len(lines):
            if crashes > max_crash:
                out += [{"crash": "not run: too many earlier crashes", "skipped": 1}] * (len(lines) - pos)
                break
            p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 env=e, cwd=self.dir)
            data = ("\n".join(lines[pos:]) + "\n").encode()
            # a driver that answers nothing for this long is taken to hang
            so, se, hung = self._watch(p, data, 90 if hangs == 0 else 15)
            if hung:
                hangs += 1
                se += b"\nHANG"
            elif p.returncode == -14:           # the driver's own limit for one request
                hangs += 1
            if hangs >= 2:
                crashes = max_crash + 1
            got = so.split(b"\n")
            complete = got[:-1]
            for g in complete:
                try:
                    out.append(json.loads(g))
                except Exception:
                    out.append({"crash": "garbled output: %r" % g[:200]})
            pos += len(complete)
            if pos < len(lines):
                if p.returncode == 0:
                    why = "no answer"
                else:
                    why = crash_reason(p.returncode, se.decode("latin1"))
                out.append({"crash": why})
                pos += 1
                crashes += 1
        return out

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=NCPU, args=(), timeout=850, heap="6g", cont=False):
        work = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        for f in glob.glob(SPEC + "/*.tla"):
            os.symlink(f, os.path.join(work, os.path.basename(f)))
        cfgp = os.path.join(work, "run.cfg")
        if cfg.endswith(".cfg"):
            shutil.copy(os.path.join(SPEC, cfg), cfgp)
        else:
            open(cfgp, "w").write(cfg)
        e = dict(self.env)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss128m", "-Djava.io.tmpdir=" + work, "-cp", TLA_CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(work, "md"), "-nowarning", "-noGenerateSpecTE"]
        if cont:
            cmd.append("-continue")
        cmd += list(args) + ["-config", cfgp, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % module)
        o = p.stdout.decode("utf-8", "replace")
        shutil.rmtree(work, ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", o)
        gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        return dict(rc=p.returncode, out=o, states=dist, transitions=gen)

    def mc(self, module, cfg, env=None, **kw):
        """Exhaustive model checking of a specification; any violation is an error
        of the specification, not of the code under test."""
        if os.environ.get("VERIF_NOMC"):      # developer option: mutation runs
            return None
        r = self.tlc(module, cfg, env, **kw)
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            raise ToolError("model checking %s/%s failed:\n%s" % (module, cfg if cfg.endswith(".cfg") else "", r["out"][-4000:]))
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.mc_runs.append(dict(module=module, cfg=cfg if cfg.endswith(".cfg") else "inline", states=r["states"], transitions=r["transitions"]))
        return r

    def validate(self, module, cases, env=None, corrupt=None, nneg=24, cfg=None, count=True, chunk=None, **kw):
        """Let TLC judge every case with the specification `module`
        (which extends CaseCheck).  Returns indices of rejected cases.
        `corrupt(case, rng)` makes a copy that the specification must reject."""
        if not cases:
            return []
        negs = []
        if corrupt is None:
            corrupt = generic_corrupt
        ok = [i for i, c in enumerate(cases) if not c.get("crash")]
        for _ in range(min(nneg, len(ok))):
            i = self.rng.choice(ok)
            c = corrupt(copy.deepcopy(cases[i]), self.rng)
            if c is not None and c != cases[i]:
                negs.append(c)
        allc = list(cases) + negs
        f = os.path.join(self.dir, "cases-%d.ndjson" % random.randrange(1 << 60))
        with open(f, "w") as fh:
            for c in allc:
                c2 = dict(c)
                c2.setdefault("crash", "")
                fh.write(json.dumps(c2) + "\n")
        e = dict(env or {})
        e["CASES"] = f
        r = self.tlc(module, cfg or "INIT CCInit\nNEXT CCNext\nINVARIANT CCInv\nCHECK_DEADLOCK FALSE\n", e, cont=True, **kw)
        os.unlink(f)
        o = r["out"]
        if r["rc"] not in (0, 12) or "states generated" not in o or re.search(r"^Error: (?!Invariant CCInv is violated|The behavior up to)", o, re.M):
            raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, r["rc"], o[-5000:]))
        bad = set()
        for blk in re.split(r"\nState \d+:|\nError: ", o):
            if re.search(r'^/\\ st = "bad"', blk, re.M):
                m = re.search(r"^/\\ ci = (\d+)", blk, re.M)
                if m:
                    bad.add(int(m.group(1)) - 1)
        if r["rc"] == 12 and not bad:
            raise ToolError("could not read TLC's verdict:\n" + o[-3000:])
        rej = sorted(i for i in bad if i < len(cases))
        self.neg_total += len(negs)
        self.neg_rejected += len([i for i in bad if i >= len(cases)])
        self.last_neg_accepted = [allc[i] for i in range(len(cases), len(allc)) if i not in bad]
        if count:
            self.traces += len(cases)
            self.states += r["states"]
            self.transitions += r["transitions"]
        return rej

    def conform(self, module, exe, reqs, mkcase, env=None, corrupt=None, nneg=24, drive_kw=None, **kw):
        """reqs: list of (line, meta).  Runs the driver, builds cases with
        mkcase(meta, output) and lets TLC validate them; rejected ones are
        re-run from scratch before they count."""
        drive_kw = drive_kw or {}
        outs = self.drive(exe, [r[0] for r in reqs], **drive_kw)
        cases = []
        for (line, meta), o in zip(reqs, outs):
            if "crash" in o:
                c = mkcase(meta, None)
                c["crash"] = o["crash"]
            else:
                c = mkcase(meta, o)
            cases.append(c)
        skipped = [i for i, o in enumerate(outs) if o.get("skipped")]
        if skipped:
            ks = set(skipped)
            keep = [i for i in range(len(cases)) if i not in ks]
            cases = [cases[i] for i in keep]
            reqs = [reqs[i] for i in keep]
        bad = self.validate(module, cases, env=env, corrupt=corrupt, nneg=nneg, **kw)
        if bad:
            again = bad[:12]
            o2 = []
            for i in again:
                o2 += self.drive(exe, [reqs[i][0]], **dict(drive_kw, shards=1))
            c2 = []
            for i, o in zip(again, o2):
                if "crash" in o:
                    c = mkcase(reqs[i][1], None)
                    c["crash"] = o["crash"]
                else:
                    c = mkcase(reqs[i][1], o)
                c2.append(c)
            bad2 = self.validate(module, c2, env=env, nneg=0, count=False, **kw)
            for j in bad2:
                self.violation("rejected by %s" % module, dict(request=reqs[again[j]][0], case=c2[j], module=module))
            if not bad2:
                # state carried from an earlier request of the batch: confirm by repeating the whole batch
                outs2 = self.drive(exe, [r[0] for r in reqs], **drive_kw)
                for i in again:
                    o = outs2[i] if i < len(outs2) else {"crash": "?"}
                    if o == outs[i] or ("crash" in o and "crash" in outs[i]):
                        self.violation("rejected by %s (only after earlier requests)" % module,
                                       dict(request=reqs[i][0], case=cases[i], module=module))
        if cases and len(self.samples) < 6:
            for c in self.rng.sample(cases, min(2, len(cases))):
                self.samples.append(shorten(c))
        return cases, bad

    # ------------------------------------------------------------- verdicts
    def violation(self, reason, case):
        fid = None
        if isinstance(case, dict):
            fid = (case.get("case") or {}).get("finding") if isinstance(case.get("case"), dict) else case.get("finding")
        if fid and any(f["id"] == fid for f in self.findings):
            self.known_hits[fid] = case
            return
        self.violations.append((reason, case))

    def finish(self):
        if self.neg_total >= 8 and self.neg_rejected * 2 < self.neg_total:
            raise ToolError("specification accepts corrupted observations: %d of %d rejected; e.g. %s" %
                            (self.neg_rejected, self.neg_total, json.dumps(self.last_neg_accepted[:2])[:2000]))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, samples=self.samples[:6],
                                model_runs=self.mc_runs,
                                corrupted_observations_rejected="%d of %d" % (self.neg_rejected, self.neg_total), **self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        evd = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        json.dump(ev, open(os.path.join(evd, self.pid + ".json"), "w"), indent=1)
        for f in self.findings:
            if f["id"] in self.known_hits:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        rc = 0
        if self.violations:
            rc = 1
            rp = os.path.join(evd, "replay")
            os.makedirs(rp, exist_ok=True)
            for k, (reason, case) in enumerate(self.violations[:5]):
                path = os.path.join(rp, "%s-%d.json" % (self.pid, k))
                json.dump(dict(property=self.pid, reason=reason, case=case), open(path, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  %s: %s" % (reason, json.dumps(case)[:600]))
        print("%s: states=%d transitions=%d conformance cases=%d corrupted rejected=%d/%d violations=%d wall=%.1fs" % (
            self.pid, self.states, self.transitions, self.traces, self.neg_rejected, self.neg_total, len(self.violations), time.time() - self.t0))
        return rc

def crash_reason(rc, err):
    if "HANG" in err[-10:]:
        return "hang"
    m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", err)
    fr = [f for f in fr if "/repo/" in f[1]][:1]
    if m:
        s = "asan: " + re.sub(r"0x[0-9a-f]+", "..", m.group(1))[:90]
    else:
        a = re.search(r"[^\n]*Assertion[^\n]*", err)
        s = ("assert: " + a.group(0)[-160:]) if a else "exit status %s" % rc
        if rc == -signal.SIGALRM:
            s = "hang"
    if fr:
        s += " in " + fr[0][0]
    return s

def shorten(c):
    s = json.dumps(c)
    return c if len(s) < 1500 else s[:1500] + "..."

def generic_corrupt(c, rng):
    """change one leaf under c["out"]"""
    leaves = []
    def walk(o, path):
        if isinstance(o, dict):
            for k in o:
                walk(o[k], path + [k])
        elif isinstance(o, list):
            for k in range(len(o)):
                walk(o[k], path + [k])
        elif isinstance(o, (int, str, bool)):
            leaves.append(path)
    if "out" not in c:
        return None
    walk(c["out"], ["out"])
    if not leaves:
        return None
    path = rng.choice(leaves)
    o = c
    for k in path[:-1]:
        o = o[k]
    v = o[path[-1]]
    if isinstance(v, bool):
        o[path[-1]] = not v
    elif isinstance(v, int):
        o[path[-1]] = v + 1 if v < 65535 else v - 1
    else:
        o[path[-1]] = v + "x"
    return c

def load_findings():
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return json.load(open(f))["findings"]
