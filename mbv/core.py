"""Infrastructure: builds the code under test from /repo, runs cases in it, lets TLC decide.

A check is
  1. TLC, exhaustively, on the bounded model of the specification (ctx.mc),
  2. cases (enumerated by TLC from the specification and/or random) executed by the real
     code in worker processes (ctx.execute), which records what the code did,
  3. TLC again, on the trace specification, deciding for every recording whether the
     specification admits it (ctx.validate).
"""
import argparse, concurrent.futures as cf, hashlib, importlib, json, os, random, re, shutil, signal
import subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
REPO = os.environ.get("MBV_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PKG = "beam_telescope_analysis"
MAX_TIMEOUTS = 2


class MachineryError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


class Ctx(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s-%d" % (pid, seed))
        self.tmp = tempfile.mkdtemp(prefix="mbv_%s_" % pid)
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.mc_runs, self.samples, self.bad = [], [], []
        self.assumptions, self.coverage_extra = [], {}
        self.dropped = 0
        self._build = None
        self._lock = threading.Lock()

    # ---- scaling -----------------------------------------------------
    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- code under test ----------------------------------------------
    def start_build(self):
        self._build_box = {}

        def go():
            try:
                self._build_box["path"] = self._do_build()
            except Exception as e:  # reported by build()
                self._build_box["error"] = e
        self._build = threading.Thread(target=go)
        self._build.start()

    def _do_build(self):
        src = os.path.join(self.tmp, "src")
        os.mkdir(src)
        for f in os.listdir(REPO):
            p = os.path.join(REPO, f)
            if os.path.isfile(p):
                shutil.copy(p, src)
        shutil.copytree(os.path.join(REPO, PKG), os.path.join(src, PKG),
                        ignore=shutil.ignore_patterns("testing", "examples", "*.so", "__pycache__", "*.pyc",
                                                      "analysis_functions.c", "analysis_functions.cpp"))
        env = self.env()
        env["CFLAGS"] = "-O1 -w"
        r = subprocess.run([PY, "setup.py", "build_ext", "--inplace"], cwd=src, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise MachineryError("build of /repo failed:\n" + r.stdout.decode(errors="replace")[-3000:])
        shutil.rmtree(os.path.join(src, "build"), ignore_errors=True)
        return src

    def build(self):
        if self._build is None:
            self.start_build()
        self._build.join()
        if "error" in self._build_box:
            raise MachineryError(str(self._build_box["error"]))
        return self._build_box["path"]

    def env(self):
        nb = os.path.join(self.tmp, "numba")
        os.makedirs(nb, exist_ok=True)
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
                 OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_CACHE_DIR=nb, TMPDIR=self.tmp,
                 NUMBA_NUM_THREADS="1", TQDM_DISABLE="1", PYTHONWARNINGS="ignore", LANG="C.UTF-8")
        e.pop("PYTHONHOME", None)
        return e

    # ---- running cases in the real code ---------------------------------
    def execute(self, cases, func="run_case", timeout=240, procs=8, warm=True, module=None, batch=None, jit=True):
        """Runs module.func(case) of this property for every case in forked children that import
        the code built from /repo. Returns [(case, record)] ; a record has key "exc" if the code
        raised, crashed or hung."""
        src = self.build()
        k = "%d" % (time.time_ns())
        cin, cout = os.path.join(self.tmp, "in" + k), os.path.join(self.tmp, "out" + k)
        with open(cin, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        env = self.env()
        env["PYTHONPATH"] = src + ":" + HERE
        env["MBV_SRC"] = src
        if not jit:  # the numba functions as plain Python (compiling the Kalman filter takes a minute)
            env["NUMBA_DISABLE_JIT"] = "1"
        t = time.time()
        r = subprocess.run([PY, os.path.join(HERE, "mbv", "worker.py"), module or ("mbv.props." + self.pid.lower()), func, cin, cout,
                            str(timeout), str(procs), str(batch or 0), os.path.join(self.tmp, "w")],
                           env=env, cwd=self.tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0 or not os.path.exists(cout):
            raise MachineryError("worker failed rc=%s\n%s" % (r.returncode, r.stdout.decode(errors="replace")[-4000:]))
        recs = {}
        with open(cout) as f:
            for line in f:
                d = json.loads(line)
                recs[d["i"]] = d["rec"]
        res = [(c, recs[i]) for i, c in enumerate(cases) if i in recs]
        self.dropped += len(cases) - len(res)
        log("  executed %d/%d cases in %.1fs" % (len(res), len(cases), time.time() - t))
        if os.environ.get("MBV_DEBUG"):
            log(r.stdout.decode(errors="replace")[-3000:])
        return res

    # ---- TLC -----------------------------------------------------------
    def _tlc(self, module, cfg, env=None, workers="1", heap="1g", timeout=600, extra=()):
        meta = tempfile.mkdtemp(prefix="tlc", dir=self.tmp)
        e = dict(os.environ, OUT="none")
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", JARS, "tlc2.TLC",
               "-metadir", meta, "-workers", workers, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            out, rc = r.stdout.decode(errors="replace"), r.returncode
        except subprocess.TimeoutExpired as ex:
            out, rc = (ex.stdout or b"").decode(errors="replace") + "\nTIMEOUT", -9
        shutil.rmtree(meta, ignore_errors=True)
        out = re.sub(r"(?m)^(Parsing file|Semantic processing|TLC2 Version|Running breadth).*\n", "", out)
        if "Parsing or semantic analysis failed" in out or "Fatal errors while parsing" in out:
            raise MachineryError("specification %s:\n%s" % (module, out[-1500:]))
        return rc, out

    @staticmethod
    def _counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def mc(self, module, cfg=None, env=None, timeout=600, heap="4g", workers="4", extra=(), must_cover=()):
        """Exhaustive model check of a bounded configuration; must pass (else the spec is wrong)."""
        t = time.time()
        rc, out = self._tlc(module, cfg or module + ".cfg", env, workers, heap, timeout,
                            list(extra) + (["-coverage", "1"] if must_cover else []))
        if rc != 0:
            raise MachineryError("model check of %s failed (rc %d):\n%s" % (module, rc, out[-4000:]))
        gen, dist = self._counts(out)
        for a in must_cover:  # vacuity guard: these actions must have been taken
            m = re.search(r"<%s line .*>: (\d+):(\d+)" % a, out)
            if not m or int(m.group(2)) == 0:
                raise MachineryError("vacuous model check of %s: action %s never taken\n%s" % (module, a, out[-3000:]))
        with self._lock:
            self.states += dist
            self.transitions += gen
            self.mc_runs.append({"module": module, "cfg": cfg or module + ".cfg", "states": dist, "generated": gen,
                                 "wall_s": round(time.time() - t, 1)})
        log("  model check %s/%s: %d distinct states, %d generated, %.1fs" % (module, cfg, dist, gen, time.time() - t))
        return out

    def mc_bg(self, *a, **kw):
        """As mc, in the background; joined by join_bg (called before the report)."""
        if not hasattr(self, "_bg"):
            self._bg, self._bgex = [], cf.ThreadPoolExecutor(2)
        self._bg.append(self._bgex.submit(self.mc, *a, **kw))

    def join_bg(self):
        for f in getattr(self, "_bg", []):
            f.result()

    def enumerate(self, module, cfg=None, env=None, timeout=600, heap="4g"):
        """Cases enumerated by TLC: the module serialises them to IOEnv.OUT."""
        path = os.path.join(self.tmp, "enum%d.ndjson" % time.time_ns())
        e = {"OUT": path}
        e.update(env or {})
        self.mc(module, cfg, e, timeout, heap)
        with open(path) as f:
            cases = [json.loads(l) for l in f if l.strip()]
        log("  enumerated %d cases from %s" % (len(cases), module))
        return cases

    def behaviours(self, module, cfg=None, num=100, depth=20, env=None, timeout=300):
        """Random behaviours of the specification: the module prints JSON lines <<"BEH", "...">>."""
        extra = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)]
        rc, out = self._tlc(module, cfg or module + ".cfg", env, "1", "2g", timeout, extra)
        if rc != 0:
            raise MachineryError("simulation of %s failed:\n%s" % (module, out[-3000:]))
        res = []
        for m in re.finditer(r'^<<"BEH", "(.*)">>$', out, re.M):
            res.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
        return res

    def _validate_shard(self, module, cfg, lines, depth=0, timeout=600):
        path = os.path.join(self.tmp, "tr%s_%d.ndjson" % (threading.get_ident(), time.time_ns()))
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        rc, out = self._tlc(module, cfg, {"TRACES": path}, "1", "2g", timeout)
        m = re.search(r'<<\s*"DONE",\s*(\d+)\s*>>', out)
        os.unlink(path)
        if m and rc == 0:
            if int(m.group(1)) != len(lines):
                raise MachineryError("TLC saw %s of %d recordings" % (m.group(1), len(lines)))
            gen, dist = self._counts(out)
            with self._lock:
                self.states += dist
                self.transitions += gen
                self.validated += len(lines)
            found = [(int(a), b) for a, b in re.findall(r'<<\s*"BAD",\s*(\d+),\s*"([^"]*)"\s*>>', out)]
            if len(found) != out.count('"BAD"'):
                raise MachineryError("unreadable verdicts of %s:\n%s" % (module, out[-2000:]))
            return found
        # TLC could not evaluate some recording: find it
        if len(lines) == 1:
            if os.environ.get("MBV_DEBUG"):
                log(out[-1500:])
            i = json.loads(lines[0])["id"]
            with self._lock:
                self.validated += 1
            self.uneval.append((i, out[-2500:]))
            return [(i, "the recording is outside of what the specification can describe")]
        if depth == 0 and len(self.uneval) >= 1:
            return []
        h = len(lines) // 2
        a = self._validate_shard(module, cfg, lines[:h], depth + 1, timeout)
        if a and self.uneval:
            return a
        return a + self._validate_shard(module, cfg, lines[h:], depth + 1, timeout)

    def validate(self, module, recs, encode=None, cfg=None, shards=8, kind="", timeout=700):
        """recs: [(case, record)]. TLC decides each; violations go to self.bad."""
        if not recs:
            raise MachineryError("nothing to validate for " + module)
        t = time.time()
        self.uneval = []
        objs = []
        for i, (c, r) in enumerate(recs):
            o = encode(c, r) if encode else dict(c, rec=r)
            o["id"] = i
            objs.append(o)
        lines = [json.dumps(o) for o in objs]
        ns = max(1, min(shards, len(lines) // 4 or 1))
        parts = [lines[i::ns] for i in range(ns)]
        bad = []
        with cf.ThreadPoolExecutor(ns) as ex:
            for b in ex.map(lambda p: self._validate_shard(module, cfg or module + ".cfg", p, 0, timeout), parts):
                bad += b
        for i, clause in sorted(bad):
            self.bad.append({"spec": module, "kind": kind, "clause": clause, "case": recs[i][0], "record": recs[i][1],
                             "trace": objs[i]})
        # samples, non-trivial ones first
        pick = sorted(range(len(recs)), key=lambda i: -len(lines[i]))
        for i in pick[len(pick) // 2:len(pick) // 2 + 1] + pick[-1:]:
            if len(self.samples) < 8:
                self.samples.append({"spec": module, "kind": kind, "trace": json.loads(lines[i][:2000]) if len(lines[i]) <= 2000 else lines[i][:2000]})
        log("  validated %d recordings against %s: %d rejected, %.1fs" % (len(recs), module, len(bad), time.time() - t))
        for i, o in self.uneval[:1]:
            log("  (TLC on recording %d) %s" % (i, o[-700:]))
        return bad

    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


# ---- known findings ----------------------------------------------------------
def known_findings():
    """known_findings.txt: "known: property=<id> finding=<name> <what fails>" and
    "fixed: property=<id> <commit> <what failed>" lines; only the former suppress, and only the recordings
    that the property's match_finding() identifies as exactly that input/call site."""
    p, res = os.path.join(HERE, "known_findings.txt"), []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) finding=(\S+) (.*)", l)
            if m:
                res.append({"property": m.group(1), "finding": m.group(2), "what": m.group(3), "status": "known"})
    return res


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pid = a.property.upper()
    ctx = Ctx(pid, a.tier, seed)

    def stop(sig, frame):
        raise SystemExit(3)
    signal.signal(signal.SIGTERM, stop)
    try:
        mod = importlib.import_module("mbv.props." + pid.lower())
        ctx.start_build()
        log("%s (%s, seed %d)" % (pid, a.tier, seed))
        mod.check(ctx)
        ctx.join_bg()
        return report(ctx, mod)
    except MachineryError as e:
        log("CHECK-ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if ctx._build is not None:
            ctx._build.join()
        if os.environ.get("MBV_KEEP"):
            log("kept " + ctx.tmp)
        else:
            ctx.finish()


def report(ctx, mod):
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    known = [k for k in known_findings() if k["property"] == ctx.pid and k["status"] == "known"]
    matcher = getattr(mod, "match_finding", None)
    new, seen = [], {}
    for b in ctx.bad:
        name = matcher(b) if matcher else None
        if name is not None and any(k["finding"] == name for k in known):
            seen[name] = seen.get(name, 0) + 1
        else:
            new.append(b)
    for k in known:
        log("KNOWN-FINDING: property=%s %s (%s; reproduced on %d recordings of this run)" % (
            ctx.pid, k["finding"], k["what"], seen.get(k["finding"], 0)))
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.validated,
           "samples": ctx.samples or ["none"], "model_checks": ctx.mc_runs, "cases_not_run": ctx.dropped,
           "known_finding_recordings": seen}
    cov.update(ctx.coverage_extra)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": getattr(mod, "LEVEL", "model_checking"),
          "coverage": cov, "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + ctx.assumptions,
          "violations": len(new), "wall_s": round(time.time() - ctx.t0, 1)}
    with open(os.path.join(HERE, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not new:
        log("%s: held on %d recordings (%d states) in %.1fs" % (ctx.pid, ctx.validated, ctx.states, ev["wall_s"]))
        return 0
    clauses = {}
    for b in new:
        clauses.setdefault((b["spec"], b["kind"], b["clause"]), []).append(b)
    if os.environ.get("MBV_DEBUG"):
        excs = {}
        for b in new:
            e = str(b["record"].get("exc", "")) + " " + str(b["record"].get("tb", ""))
            excs[e] = excs.get(e, 0) + 1
        for e in excs:
            log("   %d x %s" % (excs[e], e[:700]))
    for i, (k, bs) in enumerate(sorted(clauses.items(), key=lambda x: str(x[0]))):
        b = min(bs, key=lambda x: len(json.dumps(x)))
        path = os.path.join(rdir, "%s-%d.json" % (ctx.pid, i))
        with open(path, "w") as f:
            json.dump(dict(b, property=ctx.pid, rejected_recordings=len(bs)), f, indent=1)
        log("  rejected: %s %s: %s (%d recordings) %s" % (k[0], k[1], k[2], len(bs), str(b["record"].get("exc", ""))[:300] if isinstance(b["record"], dict) else ""))
        log("VIOLATION property=%s replay=%s" % (ctx.pid, path))
    return 1
