"""C26: prealignment."""
ASSUMPTIONS = ["beam along z; the DUTs are displaced by less than 15 % of their size and flipped; at least 10 tracks per bin, less than 20 % of the hits are noise or missing",
               "at least 15 bins; the beam covers at least 60 % of the matrices; the reference DUT may be placed anywhere, its axes have the same directions as nominal ones",
               "positions are accepted within two bins of the correlation (one bin is the resolution of the line search)"]
import random
from mbv.util import *
from mbv.props import c06

PI = c06.PI


def rot(m):
    """rotation angles of the orientation <<m11, m12, m21, m22>> (with the sign of the normal that makes it a rotation)"""
    from beam_telescope_analysis.tools import geometry_utils as g
    R = np.array([[m[0], m[1], 0], [m[2], m[3], 0], [0, 0, m[0] * m[3] - m[1] * m[2]]], dtype=float)
    import itertools
    for a, b, c in itertools.product([0, PI], [0, PI], [0, PI / 2, PI, -PI / 2]):
        if np.allclose(g.rotation_matrix(a, b, c), R):
            return a, b, c
    raise AssertionError("no rotation")


def warmup(d):
    run_case(case(random.Random(2), refuse=False), d)


def params(d):
    p = {k: getattr(d, k) for k in ("name", "n_columns", "n_rows", "column_size", "row_size", "material_budget")}
    p["type"] = type(d).__name__
    return p


def place(d):
    from beam_telescope_analysis.tools import geometry_utils as g
    R = g.rotation_matrix(d.rotation_alpha, d.rotation_beta, d.rotation_gamma)
    q = [int(round(v * 1000)) for v in (R[0, 0], R[0, 1], R[1, 0], R[1, 1], R[2, 2])]
    q = [v // 1000 if v in (-1000, 0, 1000) else v for v in q]
    return {"m": q[:4], "s": q[4], "t": [int(round(2 * v)) for v in (d.translation_x, d.translation_y, d.translation_z)]}


def lim(v):
    return [] if v is None else [int(round(2 * min(max(q, -1e6), 1e6))) for q in v]


def run_case(case, d):
    import tables as tb
    from beam_telescope_analysis import hit_analysis, dut_alignment
    from beam_telescope_analysis.telescope.telescope import Telescope
    hit_analysis.Pool = c06.FakePool
    c06.FakePool.orders = []
    D = case["duts"]
    tel = []
    for g in D:
        a = rot(g["nom"])
        tel.append(dict(column_size=g["cs"], row_size=g["rs"], n_columns=g["nc"], n_rows=g["nr"], translation_x=g["nt"][0] / 2., translation_y=g["nt"][1] / 2., translation_z=g["z"] / 2.,
                        rotation_alpha=a[0], rotation_beta=a[1], rotation_gamma=a[2]))
        for ax in "xy":
            if g["l" + ax]:
                tel[-1][ax + "_limit"] = g["l" + ax]
    conf = telescope("tel.yaml", tel, **case["tel"])
    before = open(conf).read()
    r = random.Random(case["seed"])
    hits = [[] for _ in D]
    rt = D[case["ref"]]["tt"]
    bw = case["beam"]
    for e in range(case["n"]):
        for q in range(r.choice([1, 1, 1, 2])):
            gx, gy = rt[0] / 2. + r.uniform(-bw[0], bw[0]), rt[1] / 2. + r.uniform(-bw[1], bw[1])
            for i, g in enumerate(D):
                if r.random() < .05:
                    continue
                m, x, y = g["true"], gx - g["tt"][0] / 2., gy - g["tt"][1] / 2.
                lx, ly = m[0] * x + m[2] * y, m[1] * x + m[3] * y
                c, w = int(np.floor(lx / g["cs"] + g["nc"] / 2.)) + 1, int(np.floor(ly / g["rs"] + g["nr"] / 2.)) + 1
                if 1 <= c <= g["nc"] and 1 <= w <= g["nr"]:
                    hits[i].append((e, c, w))
                if r.random() < .05:
                    hits[i].append((e, r.randrange(1, g["nc"] + 1), r.randrange(1, g["nr"] + 1)))
    files = []
    for i, h in enumerate(hits):
        a = np.zeros(len(h), dtype=[("event_number", "i8"), ("column", "u2"), ("row", "u2"), ("charge", "f4")])
        a["event_number"], a["column"], a["row"] = np.array(h).T
        files.append(h5table("h%d.h5" % i, "Hits", a))
    corr = hit_analysis.correlate(conf, files, "corr.h5", resolution=tuple(case["res"]), select_reference_duts=case["ref"], plot=False)
    kw = dict(select_reference_dut=case["ref"], reduce_background=case["reduce"], plot=False)
    if case["select"] is not None:
        kw["select_duts"] = case["select"]
    if case["refuse"]:
        try:
            dut_alignment.prealign(conf, corr, conf, **kw)
            exc = ""
        except ValueError:
            exc = "ValueError"
        return {"exc": "", "e": exc, "input": int(open(conf).read() == before), "duts": []}
    out = dut_alignment.prealign(conf, corr, "out.yaml" if case["out"] else None, **kw)
    A, B = Telescope(conf), Telescope("out.yaml" if case["out"] else "tel_prealigned.yaml")
    tp = all(getattr(A, k) == getattr(B, k) for k in ("translation_x", "translation_y", "translation_z", "rotation_alpha", "rotation_beta", "rotation_gamma"))
    res = []
    for i in range(len(D)):
        b = B[i]
        res.append({"new": place(b), "nomp": place(A[i]), "lx": lim(b.x_limit), "ly": lim(b.y_limit), "rest": int(tp and len(A) == len(B) and params(A[i]) == params(b))})
    return {"exc": "", "e": "", "input": int(open(conf).read() == before), "duts": res}


def split(recs):
    out = []
    for c, r in recs:
        for i in range(len(c["duts"]) if not c["refuse"] and not r["exc"] else 1):
            out.append((dict(c, i=i), r))
    return out


def pl(g, k, t):
    m = g[k]
    return {"m": m, "s": m[0] * m[3] - m[1] * m[2], "t": [t[0], t[1], g["z"]]}


def encode(c, r):
    i = c["i"]
    g = c["duts"][i]
    o = r["duts"][i] if r.get("duts") else {}
    sel = (c["select"] is None or i in c["select"]) and i != c["ref"]
    old = [[] if not g[k] else [int(2 * v) for v in g[k]] for k in ("lx", "ly")]
    nom = pl(g, "nom", g["nt"])
    return {"refuse": int(c["refuse"]), "exc": r["exc"] or r.get("e", ""), "input": r.get("input", 1), "rest": o.get("rest", 1), "nom": nom, "tru": pl(g, "true", g["tt"]),
            "new": o.get("new", nom), "half": [g["nc"] * g["cs"], g["nr"] * g["rs"]], "bin": int(2 * max(c["res"])), "sel": int(sel),
            "lx": o.get("lx", []), "ly": o.get("ly", []), "ox": old[0], "oy": old[1], "full": int(not g["lx"] and not g["ly"])}


def case(r, refuse=None):
    while True:
        c = case0(r, refuse)
        if min(int(2 * g[a] * g[b]) // int(2 * max(c["res"])) for g in c["duts"] for a, b in (("nc", "cs"), ("nr", "rs"))) >= 15:
            return c


def case0(r, refuse):
    nd = r.choice([2, 2, 3])
    W, H = r.choice([(4000, 2000), (2000, 4000), (3000, 3000), (5000, 4000)])  # extent along global x, y
    duts, ref = [], r.choice([0, 0, 0, nd - 1])
    px = r.choice([100, 50, 200])
    rt = r.choice([[0, 0], [0, 0], [1400, -900]])
    for i in range(nd):
        cs, rs = r.choice([(100, 50), (50, 100), (50, 50), (100, 100), (200, 50)])
        nom = r.choice([[1, 0, 0, 1], [1, 0, 0, 1], [1, 0, 0, 1], [-1, 0, 0, -1], [1, 0, 0, -1], [0, -1, 1, 0], [0, 1, -1, 0]])
        fx, fy = (1, 1) if i == ref else r.choice([(1, 1), (-1, 1), (1, -1), (-1, -1)])
        true = [fx * nom[0], fx * nom[1], fy * nom[2], fy * nom[3]]
        lw, lh = (W, H) if nom[0] else (H, W)
        nt = rt if i == ref else r.choice([[0, 0], [0, 0], [1000, 333]])
        tt = rt if i == ref else [rt[k] + 2 * r.randrange(-int(.15 * s), int(.15 * s) + 1) // 1 for k, s in enumerate((W, H))]
        lx = r.choice([None, None, None, [-lw / 2. * .9, lw / 2. * .8]])
        ly = r.choice([None, None, None, [-lh / 2. * .7, lh / 2.]])
        duts.append({"cs": cs, "rs": rs, "nc": lw // cs, "nr": lh // rs, "nom": nom, "true": true, "nt": nt, "tt": tt, "z": 20000 * i + r.randrange(5), "lx": lx, "ly": ly})
    res = [max(max(g["cs"], g["rs"]) for g in duts)] * 2
    if r.random() < .3 and min(W, H) / res[0] >= 30:
        res = [res[0], 2 * res[0]] if r.random() < .5 else [2 * res[0], res[0]]
    n = 12 * int(max(W / res[0], H / res[1]))
    select = r.choice([None, None, None, "one", "all"])
    if select == "one":
        select = [r.choice([i for i in range(nd) if i != ref])]
    elif select == "all":
        select = list(range(nd))
        r.shuffle(select)
    return {"duts": duts, "ref": ref, "res": res, "n": n, "seed": r.randrange(10 ** 6), "beam": [W / 2. * r.choice([.65, 1, 1.2]), H / 2. * r.choice([.65, 1, 1.2])], "select": select,
            "reduce": r.random() < .7, "out": r.random() < .5, "refuse": r.random() < .04 if refuse is None else refuse, "tel": r.choice([{}, {"rotation_alpha": .125}])}


def check(ctx):
    r = ctx.rng
    ctx.mc_bg("PrealignMC", "PrealignMC.cfg" if ctx.quick else "PrealignMCBig.cfg", timeout=2000, must_cover=["PNext"])
    ctx.validate("PrealignTrace", split(ctx.execute([case(r) for _ in range(ctx.n(110, 1500))])), encode)
