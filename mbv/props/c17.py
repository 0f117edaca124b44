"""C17: residual histograms."""
ASSUMPTIONS = ["the binning is chosen by the code from the first usable chunk; the specification only asks for its width and, if everything is read at once, that the positions are covered",
               "the maps of the pixels are observed where they are handed to the plotting function (not judged if that is not called)",
               "the fits to the histograms are not judged"]
from fractions import Fraction
import math
from mbv.util import *
from mbv.props import c13

K = 1000


def warmup(d):
    run_case({"duts": [{"d": 0, "rows": [{"ev": 0, "hit": [1000, 1000], "off": [0, 0], "ok": True, "d": 0}], "lim": [[[], []], [[], []]], "size": [50000, 50000], "n": [4, 4]}],
              "select": [0], "nd": 1, "nbins": 0, "npix": 0, "limits": 1, "chunk": 9}, d)


def ceil(v):
    return int(math.ceil(Fraction(float(v)) * K))


def floor(v):
    return int(math.floor(Fraction(float(v)) * K))


def run_case(case, d):
    import inspect
    import tables as tb
    from beam_telescope_analysis import result_analysis as ra
    conf = telescope("tel.yaml", [dict(column_size=q["size"][0] / K, row_size=q["size"][1] / K, n_columns=q["n"][0], n_rows=q["n"][1],
                                       **{("x_limit", "y_limit")[a]: tuple((-np.inf, np.inf)[i] if not v else v[0] / K for i, v in enumerate(q["lim"][a])) for a in (0, 1) if q["lim"][a] != [[], []]}) for q in case["duts"]])
    nd = case["nd"]
    with tb.open_file("in.h5", "w") as f:
        for q in case["duts"]:
            a = np.zeros(len(q["rows"]), dtype=c13.dtype(nd))
            for n in a.dtype.names:
                a[n] = 7
            a["event_number"] = [r["ev"] for r in q["rows"]]
            for k, r in enumerate(q["rows"]):
                for i, x in enumerate("xy"):
                    a["%s_dut_%d" % (x, q["d"])][k] = r["hit"][i] / K if r["hit"] else np.nan
                    a["offset_" + x][k] = r["off"][i] / K if r["ok"] else np.nan
                a["track_chi2"][k] = 1.5 if r["ok"] else np.nan
            f.create_table(f.root, "Tracks_DUT%d" % q["d"], obj=a)
    maps = []
    pu = ra.plot_utils
    orig = pu.plot_2d_map
    sig = inspect.signature(orig)

    def recorder(*k, **kw):
        b = sig.bind(*k, **kw).arguments
        maps.append((b.get("title", ""), np.ma.array(b["hist2d"]).T.copy()))
    pu.plot_2d_map = recorder
    res = []
    try:
        try:
            ra.calculate_residuals(conf, "in.h5", case["select"], output_residuals_file="out.h5", nbins_per_pixel=case["nbins"] or None, npixels_per_bin=case["npix"] or None,
                                   use_limits=bool(case["limits"]), plot=False, chunk_size=case["chunk"])
            exc = ""
        except RuntimeError:
            exc = "RuntimeError"
    finally:
        pu.plot_2d_map = orig
    names = {"x": "local_x_residuals_DUT%d", "y": "local_y_residuals_DUT%d", "xx": "local_x_residuals_x_pos_DUT%d", "yx": "local_y_residuals_x_pos_DUT%d", "yy": "local_y_residuals_y_pos_DUT%d", "xy": "local_x_residuals_y_pos_DUT%d"}
    for s in case["select"]:
        o = {"exc": exc, "hists": [], "maps": [], "grid": []}
        res.append(o)
        q = case["duts"][s]
        if exc:
            continue
        with tb.open_file("out.h5", "r") as f:
            for h, n in names.items():
                if n % s not in f.root:
                    continue
                node = f.get_node("/" + n % s)
                a = node[:]
                at = node.attrs
                if len(h) == 1:
                    e, p = (at.xedges if h == "x" else at.yedges), None
                    a = a[None, :]
                else:
                    p, e = at.xedges, at.yedges
                r = {"name": h, "res": [ceil(v) for v in e], "last": floor(e[-1]), "pos": [ceil(v) for v in p] if p is not None else [], "plast": floor(p[-1]) if p is not None else 0,
                     "nbad": int(np.sum((a < 0) | (a != np.round(a)))) + int(a.shape != (1 if p is None else len(p) - 1, len(e) - 1)),
                     "ent": [[int(i) + 1, int(j) + 1, int(a[i, j])] for i, j in zip(*np.nonzero(np.nan_to_num(a)))]}
                o["hists"].append(r)
        k = case["select"].index(s)
        n, size = q["n"], q["size"]
        g = [np.linspace(-.5 * n[i] * size[i] / K, .5 * n[i] * size[i] / K, n[i] + 1) for i in (0, 1)]
        o["grid"] = [{"e": [ceil(v) for v in e], "last": floor(e[-1])} for e in g]
        for kind, t in (("mean", "2D average residuals"), ("count", "2D occupancy")):
            m = [a for tt, a in maps if tt.startswith(t)]
            if len(m) == len(case["select"]):
                m = m[k]
                if m.shape != tuple(n):
                    o["maps"].append({"kind": kind, "ent": [[-1, -1, 0]]})
                    continue
                mask = np.ma.getmaskarray(m)
                o["maps"].append({"kind": kind, "ent": [[int(i) + 1, int(j) + 1, int(round(float(m[i, j]) * (K if kind == "mean" else 1)))] for i in range(n[0]) for j in range(n[1]) if not mask[i, j] and m[i, j] == m[i, j]]})
    return {"exc": "", "res": res}


def split(recs):
    out = []
    for c, r in recs:
        for k, s in enumerate(c["select"]):
            out.append((dict(c, only=s), r["res"][k] if not r["exc"] else {"exc": r["exc"], "hists": [], "maps": [], "grid": []}))
    return out


def encode(c, r):
    q = c["duts"][c["only"]]
    nol = [[[], []], [[], []]]
    return {"rows": q["rows"], "lim": q["lim"] if c["limits"] else nol, "exc": r["exc"], "hists": r["hists"], "maps": r["maps"], "grid": r["grid"],
            "one": c["chunk"] > len(q["rows"]), "step": [v // c["nbins"] for v in q["size"]] if c["nbins"] else [-1, -1], "size": [v * c["npix"] for v in q["size"]] if c["npix"] else [-1, -1]}


def rnd_dut(r, d):
    size = [r.choice([25000, 50000, 100000, 250000]), r.choice([50000, 100000])]
    n = [r.choice([4, 10, 21]), r.choice([3, 8])]
    half = [n[i] * size[i] // 2 for i in (0, 1)]
    q = lambda v: v // 250 * 250
    lim = [[[], []], [[], []]]
    for i in (0, 1):
        if r.random() < .4:
            lo, hi = sorted([q(r.randrange(-half[i], half[i])), q(r.randrange(-half[i], half[i]))])
            lim[i] = [[lo] if r.random() < .8 else [], [hi] if r.random() < .8 else []]
    rows = []
    m = r.choice([0, 1, 2, 8, 30, 60])
    pf, ph = r.choice([.1, .1, .9]), r.choice([.1, .1, .9])
    w = r.choice([1, 20, 200])
    for e in rnd_events(r, m):
        ok, hashit = r.random() > pf, r.random() > ph
        off = []
        for i in (0, 1):
            v = q(r.randrange(-half[i], half[i] + 1))
            if r.random() < .2:
                v = r.randrange(-n[i], n[i] + 1) * size[i] // 2 // 250 * 250
            off.append(v)
        k = 250 * r.randrange(-w, w + 1)
        dx, dy, dist = r.choice([(0, 0, 0), (k, 0, abs(k)), (0, k, abs(k)), (3 * k, 4 * k, 5 * abs(k)), (-4 * k, 3 * k, 5 * abs(k))])
        hit = [off[0] + dx, off[1] + dy]
        if lim != [[[], []], [[], []]] and r.random() < .3:  # on a limit
            for i in (0, 1):
                for v in lim[i]:
                    if v and r.random() < .5:
                        off[i] += v[0] - hit[i]
                        hit[i] = v[0]
        rows.append({"ev": e, "hit": hit if hashit else [], "off": off if ok else [0, 0], "ok": ok, "d": dist})
    return {"d": d, "rows": rows, "lim": lim, "size": size, "n": n}


def usable(q):
    return any(r["hit"] and r["ok"] for r in q["rows"])


def case(r):
    nd = r.choice([1, 1, 2, 3])
    duts = [rnd_dut(r, d) for d in range(nd)]
    good = [d for d in range(nd) if usable(duts[d])]
    sel = [r.randrange(nd)] if r.random() < .1 or not good else r.sample(good, r.randrange(1, len(good) + 1))
    return {"duts": duts, "nd": nd, "select": sel, "nbins": r.choice([0, 1, 2, 5]), "npix": r.choice([0, 0, 1, 3]), "limits": int(r.random() < .8), "chunk": r.choice([4, 7, 20, 1000, 1000])}


def check(ctx):
    ctx.mc("ResidualsMC", must_cover=["Skip", "First", "More"])
    if not ctx.quick:
        ctx.mc("ResidualsMC", "ResidualsMCBig.cfg", timeout=900)
    cases = [case(ctx.rng) for _ in range(ctx.n(300, 5000))]
    ctx.validate("ResidualsTrace", split(ctx.execute(cases)), encode, kind="random tracks")
