"""C06: correlation histograms."""
ASSUMPTIONS = ["positions inside of the pixel matrix; orientations along the global axes (any flips and exchanges of x and y)",
               "no event of a DUT has more hits than the chunk size (else reading refuses, see C01)",
               "the pool is replaced by a stand-in that runs the jobs on copies of their arguments in a given order; some cases use the real one"]
import itertools
from mbv.util import *

PI = 3.141592653589793
# rotation angles and orientation of local x, y in global coordinates <<m11, m12, m21, m22>>
ORI = [((0, 0, 0), [1, 0, 0, 1]), ((0, 0, PI), [-1, 0, 0, -1]), ((0, 0, PI / 2), [0, -1, 1, 0]), ((0, 0, -PI / 2), [0, 1, -1, 0]),
       ((PI, 0, 0), [1, 0, 0, -1]), ((0, PI, 0), [-1, 0, 0, 1])]


class FakeResult(object):
    def __init__(self, pool, job):
        self.pool, self.job, self.val = pool, job, None

    def get(self, timeout=None):
        if self.val is None:
            self.pool.run()
        if isinstance(self.val[1], Exception):
            raise self.val[1]
        return self.val[1]


class FakePool(object):
    orders = []

    def __init__(self, *a, **k):
        self.todo = []

    def apply_async(self, f, args=(), kwds=None):
        import pickle
        r = FakeResult(self, pickle.dumps((args, kwds or {})))
        r.f = f
        self.todo.append(r)
        return r

    def run(self):
        import pickle
        order = FakePool.orders.pop(0) if FakePool.orders else []
        todo, self.todo = self.todo, []
        for k in [k for k in order if k < len(todo)] + [k for k in range(len(todo)) if k not in order]:
            a, kw = pickle.loads(todo[k].job)
            try:
                todo[k].val = (0, pickle.loads(pickle.dumps(todo[k].f(*a, **kw))))
            except Exception as e:
                todo[k].val = (0, e)

    def close(self):
        pass

    join = terminate = close


def pos8(g, h):
    """local position in 1/8 um"""
    if g["index"]:
        return [g["cs"] * (2 * h[1] - 4 - 4 * g["nc"]), g["rs"] * (2 * h[2] - 4 - 4 * g["nr"])]
    return [h[1], h[2]]


def warmup(d):
    import random
    run_case(case(random.Random(1), [[0], [0]]), d)


def run_case(case, d):
    import tables as tb
    from beam_telescope_analysis import hit_analysis
    geo, files, duts = case["geo"], [], []
    for i in range(len(geo)):
        g = geo[i]
        hits = case["hits"][i]
        if g["clusters"]:
            loc = ("mean_column", "mean_row") if g["index"] else ("mean_x", "mean_y")
            name, sc, ty = "Clusters", (0.25 if g["index"] else 0.125), "f8"
        else:
            loc = ("column", "row") if g["index"] else ("x", "y")
            name, sc, ty = "Hits", (0.25 if g["index"] else 0.125), ("u2" if g["index"] else "f8")
        cols = [("event_number", "i8"), (loc[0], ty), (loc[1], ty), ("charge", "f4")]
        if g["clusters"] and not g["index"]:
            cols += [("mean_column", "f8"), ("mean_row", "f8")]
        arr = np.zeros(len(hits), dtype=cols)
        h = np.array(hits, dtype=float).reshape(len(hits), 3)
        arr["event_number"], arr[loc[0]], arr[loc[1]] = h[:, 0], h[:, 1] * sc, h[:, 2] * sc
        files.append(h5table("h%d.h5" % i, name, arr))
        a = ORI[g["ori"]][0]
        duts.append(dict(column_size=g["cs"], row_size=g["rs"], n_columns=g["nc"], n_rows=g["nr"], translation_x=g["tx"], translation_y=g["ty"], translation_z=1000.0 * i,
                         rotation_alpha=a[0], rotation_beta=a[1], rotation_gamma=a[2]))
    conf = telescope("tel.yaml", duts)
    if case["pool"] == "fake":
        FakePool.orders = [list(o) for o in case["orders"]]
        hit_analysis.Pool = FakePool
    sel = case["select"]
    out = hit_analysis.correlate(conf, [files[i] for i in sel], "corr.h5", resolution=tuple(case["res"]), select_duts=sel if case["given"] else None,
                                 select_reference_duts=case["refs"], plot=False, chunk_size=case["chunk"])
    res = {"exc": "", "pairs": []}
    with tb.open_file(out) as f:
        for n in f.root:
            if not n._v_name.startswith("Correlation_x_") or n._v_name.endswith("background"):
                continue
            ref, dut = [int(v) for v in n._v_name.split("_")[2:]]
            p = {"ref": ref, "dut": dut}
            for ax in "xy":
                node = f.get_node("/Correlation_%s_%d_%d" % (ax, ref, dut))
                a = node[:]
                p["h" + ax] = [[int(i), int(j), int(a[i, j])] for i, j in np.argwhere(a)]
                p["s" + ax] = list(a.shape)
                rd = 1 if ORI[geo[ref]["ori"]][0] == (0, 0, 0) and ORI[geo[dut]["ori"]][0] == (0, 0, 0) else 0
                p["e" + ax] = [[enc(v, 8) for v in e] for e in (node.attrs.ref_hist_extent, node.attrs.dut_hist_extent)]
                red = f.get_node("/Correlation_%s_%d_%d_reduced_background" % (ax, ref, dut))[:]
                p["red" + ax] = [int(red.min()), int(red.max())] if red.shape == a.shape else [-1, -1]
                p["rank" + ax] = bool(np.all(a * a.sum() == np.outer(a.sum(axis=1), a.sum(axis=0))))
                if float(node.attrs.resolution) != case["res"]["xy".index(ax)]:
                    p["s" + ax] = [-1, -1]
            res["pairs"].append(p)
    return res


def split(recs):
    """one recording per pair of reference and other DUT; the pairs that are expected are derived from the selection"""
    out = []
    for c, r in recs:
        refs = c["select"] if c["refs"] is None else c["refs"] if isinstance(c["refs"], list) else [c["refs"]]
        for ref in refs:
            for dut in c["select"]:
                if dut == ref:
                    continue
                p = [q for q in r.get("pairs", []) if q["ref"] == ref and q["dut"] == dut]
                exc = r["exc"] if r["exc"] else "" if len(p) == 1 else "no histogram of DUT%d and DUT%d" % (ref, dut)
                out.append((dict(c, pair=[ref, dut]), dict(p[0], exc=exc) if p else {"exc": exc}))
    return out


def encode(c, r):
    ref, dut = c["pair"]
    o = {"exc": r["exc"], "rx": c["res"][0], "ry": c["res"][1]}
    for k, i in (("a", ref), ("b", dut)):
        g = c["geo"][i]
        o[k] = [dict(zip(("e", "x", "y"), [h[0]] + pos8(g, h))) for h in c["hits"][i]]
        o["g" + k] = {"w": g["cs"] * g["nc"], "h": g["rs"] * g["nr"], "m": ORI[g["ori"]][1], "tx": g["tx"], "ty": g["ty"]}
    o["rankone"] = [bool(r.get("rankx")), bool(r.get("ranky"))]
    for k in ("hx", "hy", "sx", "sy", "ex", "ey", "redx", "redy"):
        o[k] = r.get(k, [])
    return o


def case(r, evs, chunk=None):
    n = len(evs)
    res = [r.choice([30, 70, 100, 110]), r.choice([30, 70, 100, 110])]
    geo, hits = [], []
    for i in range(n):
        while True:
            g = {"cs": r.choice([50, 25, 40]), "rs": r.choice([50, 25, 18]), "nc": r.choice([8, 9, 16]), "nr": r.choice([8, 12, 13]), "tx": r.choice([0, 0, 137, -2000]), "ty": r.choice([0, 0, -55, 1000]),
                 "ori": r.choice([0, 0, 0, 1, 2, 3, 4, 5]), "index": r.randrange(2), "clusters": r.randrange(2)}
            w, h = g["cs"] * g["nc"], g["rs"] * g["nr"]
            if g["ori"] == 0 or all(s % q for s in (w, h) for q in res):
                break
        m = ORI[g["ori"]][1]
        size = [abs(m[0]) * w + abs(m[1]) * h, abs(m[2]) * w + abs(m[3]) * h]
        hs = []
        spot = [r.randrange(4, 4 * g["nc"] + 1), r.randrange(4, 4 * g["nr"] + 1)]
        for e in evs[i]:
            while True:
                if g["index"]:
                    hh = [e, r.randrange(4, 4 * g["nc"] + 1), r.randrange(4, 4 * g["nr"] + 1)]
                    if not g["clusters"]:
                        hh = [e, hh[1] // 4 * 4, hh[2] // 4 * 4]
                    if r.random() < .3:
                        hh = [e, spot[0] // 4 * 4, spot[1] // 4 * 4]
                else:
                    hh = [e, r.randrange(-4 * w + 1, 4 * w), r.randrange(-4 * h + 1, 4 * h)]
                p = pos8(g, hh)
                if g["ori"] == 0:
                    break
                rel = [m[0] * p[0] + m[1] * p[1], m[2] * p[0] + m[3] * p[1]]
                if all((rel[k] + 4 * -(-size[k] // res[k]) * res[k]) % (8 * res[k]) for k in (0, 1)):
                    break
                spot = [0, 0] if g["index"] and False else [r.randrange(4, 4 * g["nc"] + 1), r.randrange(4, 4 * g["nr"] + 1)]
            hs.append(hh)
        geo.append(g)
        hits.append(hs)
    mx = max([1] + [s.count(v) for s in evs for v in s])
    select = list(range(n))
    given = 1
    k = r.random()
    if k < .3:
        given = 0
    elif n > 2 and k < .5:
        select.remove(r.randrange(n))
    if given and r.random() < .4:
        r.shuffle(select)
    refs = r.choice([select[0], select[-1], None, [select[0]], select[:2]])
    orders = [list(r.choice(list(itertools.permutations(range(n - 1))))) if n < 6 else [] for _ in range(12)]
    return {"geo": geo, "hits": hits, "res": res, "select": select, "given": given, "refs": refs, "orders": orders, "pool": "fake", "chunk": chunk or r.choice([mx + 1, mx + 1, mx + 2, mx + 5, 1000])}


def check(ctx):
    r = ctx.rng
    ctx.mc_bg("CorrelateMC", "CorrelateMCBig.cfg", env={"OUT": "none"}, must_cover=["ReadRef", "Job"])
    enum = ctx.enumerate("CorrelateMC", "CorrelateMC.cfg" if ctx.quick else "CorrelateMCBig.cfg")
    r.shuffle(enum)
    cases = [case(r, e["ev"]) for e in enum[:ctx.n(150, 4000)]]
    for k in range(ctx.n(150, 2500)):
        n = r.choice([2, 2, 3, 4, 6])
        evs = []
        for _ in range(n):
            evs.append(rnd_events(r, r.choice([0, 3, 9, 25]) if r.random() < .4 else 20, gaps=r.choice([(1,), (1, 1, 2, 3), (1, 7)]), start=(0, r.choice([1, 4, 15]))))
        c = case(r, evs)
        if k % 25 == 0:
            c["pool"] = "real"
        cases.append(c)
    recs = ctx.execute(cases)
    ctx.validate("CorrelateTrace", split(recs), encode)
