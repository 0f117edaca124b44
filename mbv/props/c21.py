"""C21: split-map-combine. The completion order of the workers is replayed from behaviours of the specification."""
ASSUMPTIONS = ["the applied function is deterministic and treats events independently",
               "workers are released by a stand-in for multiprocessing.Pool in an order taken from the specification; "
               "some cases use the real Pool"]
import threading, time
from mbv.util import *


class Boom(Exception):
    pass


def make_func(kind):
    # self contained, is serialised by the code under test
    def func(data, scale=2, delay=0):
        import numpy as np, time
        if delay:
            time.sleep(delay * (1 + int(data["v"][0] if len(data) else 0) % 3))
        if np.any(data["v"] == 99):
            raise ArithmeticError("Boom")

        def map_(d):
            r = np.empty(len(d), dtype=[("event_number", "i8"), ("v", "i4"), ("w", "i4")])
            r["event_number"], r["v"], r["w"] = d["event_number"], d["v"], scale * d["v"] + d["a"]
            return r

        def hist2(d):
            if len(d) == 0:
                return np.zeros((1, 1), dtype=np.int64)
            h = np.zeros((d["a"].max() + 1, d["v"].max() + 1), dtype=np.int64)
            np.add.at(h, (d["a"], d["v"]), 1)
            return h
        if kind == "map":
            return map_(data)
        if kind == "filter":
            r = map_(data)
            return r[r["v"] % 2 == 0]
        if kind == "agg":
            ev = np.unique(data["event_number"])
            r = np.zeros(len(ev), dtype=[("event_number", "i8"), ("n", "i4"), ("s", "i4")])
            for i, e in enumerate(ev):
                s = data["event_number"] == e
                r[i] = (e, s.sum(), data["v"][s].sum())
            return r
        if kind == "hist":
            return np.bincount(data["v"], minlength=1)
        if kind == "hist2":
            return hist2(data)
        r = map_(data)
        return [r, hist2(data), r[r["v"] % 2 == 0]]
    return func


class Result(object):
    def __init__(self, timeout_error):
        self.ev, self.err, self.val, self.te = threading.Event(), None, None, timeout_error

    def get(self, timeout=None):
        if not self.ev.wait(timeout):
            raise self.te()
        if self.err is not None:
            raise self.err
        return self.val

    def ready(self):
        return self.ev.is_set()

    def wait(self, timeout=None):
        self.ev.wait(timeout)


class FakePool(object):
    order = []
    log = []

    def __init__(self, smc, n):
        self.te, self.jobs, self.lock, self.stop = smc.TimeoutError, [], threading.Lock(), False
        self.t = threading.Thread(target=self.run, daemon=True, name="FakePool")
        self.t.start()

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        r = Result(self.te)
        with self.lock:
            self.jobs.append([func, args, kwds or {}, r, False])
        return r

    def work(self, k):
        j = self.jobs[k]
        try:
            j[3].val = j[0](*j[1], **j[2])
        except Exception as e:
            j[3].err = e
        j[4] = True
        FakePool.log.append(k + 1)
        j[3].ev.set()

    def run(self):
        order = list(FakePool.order)
        t = time.time()
        while not self.stop:
            todo = [k for k in range(len(self.jobs)) if not self.jobs[k][4]]
            while order and order[0] - 1 < len(self.jobs) and self.jobs[order[0] - 1][4]:
                order.pop(0)
            if order and order[0] - 1 in todo:
                self.work(order.pop(0) - 1)
                t = time.time()
            elif todo and (not order or time.time() - t > 0.6):  # schedule not possible: oldest first
                self.work(todo[0])
                t = time.time()
            else:
                time.sleep(0.002)

    def close(self):
        pass

    def terminate(self):
        self.stop = True

    def join(self):
        self.stop = True


def warmup(d):
    import beam_telescope_analysis.tools.smc


def run_case(case, d):
    import tables as tb
    from beam_telescope_analysis.tools import smc
    rows = np.zeros(len(case["rows"]), dtype=[("event_number", "i8"), ("a", "u2"), ("v", "i4")])
    for i, r in enumerate(case["rows"]):
        rows[i] = tuple(r)
    h5table("in.h5", "Data", rows)
    same = case["mode"] != "w"
    outfile = "in.h5" if same else "out.h5"
    kinds = 3 if case["func"] == "multi" else 1
    names = ["OutA", "OutB", "OutC"][:kinds]
    if case["mode"] == "replace":
        names[0] = "Data"
    if case["pool"] == "fake":
        FakePool.order, FakePool.log = case["fins"], []
        real, smc.Pool = smc.Pool, (lambda n: FakePool(smc, n))
    try:
        exc = ""
        desc = [{"name": n} for n in names]
        kw = {"func_kwargs": {"scale": 2, "delay": case.get("delay", 0)}}
        try:
            smc.SMC("in.h5", outfile, make_func(case["func"]), node_desc=desc[0] if kinds == 1 else desc, table=case.get("table", "Data"), n_cores=case["cores"],
                    mode="r+" if same else "w", chunk_size=case["chunk"], align_at="event_number", **kw)
        except ArithmeticError as e:
            exc = "Boom"
        except ValueError as e:  # reading failed: an event is larger than the chunk size
            if not case.get("huge") or "Chunk size too small" not in str(e):
                raise
            exc = "Boom"
    finally:
        if case["pool"] == "fake":
            smc.Pool = real
    left = ["thread " + t.name for t in threading.enumerate() if t.name in ("ReaderThread", "WriterThread", "AsyncWorkerThread")]
    left += ["open file " + os.path.basename(f.filename) for f in list(tb.file._open_files.handlers)]
    if exc:
        return {"exc": exc, "ownexc": True, "left": left, "done": FakePool.log}
    out = []
    with tb.open_file(outfile) as f:
        for n in names:
            a = f.get_node("/" + n)[:]
            out.append([[int(x) for x in r] for r in a] if a.dtype.names else a.tolist())
        expected = set(names) | ({"Data"} if same else set())
        left += ["node " + n._v_name for n in f.root if n._v_name not in expected]
    kept = case["rows"]
    if case["mode"] != "replace":
        kept = [[int(x) for x in r] for r in h5read("in.h5", "Data")]
    return {"out": out, "exc": "", "left": left, "kept": kept, "done": FakePool.log}


import os


def encode(c, r):
    return {"rows": c["rows"], "func": c["func"], "n": c["n"], "cores": c["cores"], "bad": c["bad"], "fins": c["fins"], "out": r.get("out", []),
            "exc": r["exc"], "ownexc": r.get("ownexc", False), "left": r.get("left", []), "kept": r.get("kept", c["rows"])}


FUNCS = ["map", "filter", "agg", "hist", "hist2", "multi"]


def table(r, n, bad):
    """one event per chunk for a chunk size of 4"""
    rows = []
    e = r.randrange(3)
    for k in range(1, n + 1):
        m = 3 if k == n else r.choice([2, 3])
        x = [[e, r.randrange(4), r.randrange(r.choice([2, 9]))] for _ in range(m)]
        if k in bad:
            x[r.randrange(m)][2] = 99
        rows += x
        e += r.choice([1, 1, 3])
    return rows


def check(ctx):
    r = ctx.rng
    ctx.mc_bg("SplitMapCombineMC", "SplitMapCombineMC.cfg" if ctx.quick else "SplitMapCombineMCBig.cfg",
              must_cover=["Read", "Submit", "Finish", "Take", "Write", "WriterFails", "WriterEnd"])
    beh = ctx.behaviours("SplitMapCombineSim", num=ctx.n(120, 1500), depth=80)
    beh += ctx.behaviours("SplitMapCombineSim", "SplitMapCombineLazy.cfg", num=ctx.n(400, 4000), depth=80)
    seen, cases = set(), []
    for b in beh:
        k = str(b)
        if b["bad"] and r.random() < .7:
            continue
        if k in seen:
            continue
        seen.add(k)
        for _ in range(ctx.n(1, 3)):
            cases.append({"rows": table(r, b["n"], b["bad"]), "chunk": 4, "n": b["n"], "cores": b["cores"], "bad": b["bad"], "fins": b["fins"],
                          "func": r.choice(FUNCS), "mode": r.choice(["w", "w", "r+", "replace"]), "pool": "fake"})
    ctx.coverage_extra["schedules_replayed"] = len(seen)
    # arbitrary tables, also with the real pool, one core, no or one chunk, all functions
    for k in range(ctx.n(120, 1200)):
        n = r.choice([0, 1, 3, 10, 40])
        ev = rnd_events(r, n)
        rows = [[e, r.randrange(4), r.randrange(12)] for e in ev]
        bad = []
        if rows and r.random() < .15:
            r.choice(rows)[2] = 99
            bad = [1]
        chunk = r.choice([4, 5, 9, 100])
        huge = bool(rows) and r.random() < .08
        if huge:
            k2 = r.randrange(len(rows))
            rows[k2:k2] = [list(rows[k2]) for _ in range(10)]
            chunk, bad = r.choice([4, 5, 9]), [1]
        pool = r.choice(["fake", "fake", "fake", "real"])
        cores = r.choice([1, 1, 2, 3, 4])
        func = FUNCS[k % len(FUNCS)]
        cases.append({"rows": rows, "chunk": chunk, "n": n, "cores": cores, "bad": bad, "huge": huge,
                      "fins": [], "func": func, "mode": r.choice(["w", "r+", "replace"]), "pool": pool, "delay": r.choice([0, 0.01]) if pool == "real" else 0,
                      "table": r.choice(["Data", ["Nothing", "Data"], None])})
    r.shuffle(cases)
    recs = ctx.execute(cases, timeout=40)
    ctx.coverage_extra["schedules_realised"] = sum(1 for c, x in recs if c["fins"] and x.get("done", [])[:len(c["fins"])] == c["fins"])
    ctx.validate("SplitMapCombineTrace", recs, encode)
