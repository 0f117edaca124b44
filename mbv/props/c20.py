"""C20: applying an alignment to tables."""
ASSUMPTIONS = ["rotations are exact (Pythagorean) angles, positions are compared within 40 nm, slopes within 4e-6",
               "errors are rotated and made positive (as implemented), and only in tracks tables"]
from mbv.util import *
from mbv.props.c18 import angle, toint, NaN, AXES, ROTS, ANG
from mbv.props import c13

U = 100.


def place(r, lim, flat=.2):
    if r.random() < flat:
        rot = [[1, 0, 1]] * 3
    else:
        while True:
            rot = [r.choice(ANG) for _ in range(3)]
            if rot[0][2] * rot[1][2] * rot[2][2] <= lim:
                break
    return {"rot": rot, "tr": [r.choice([0, r.randrange(-200000, 200000)]), r.randrange(-200000, 200000), r.randrange(-900000, 900000)]}


def kw(p):
    d = dict(zip(ROTS, [angle(a) for a in p["rot"]]))
    d.update({"translation_" + a: v / U for a, v in zip(AXES, p["tr"])})
    return d


def table_dtype(nd, kind):
    d = list(merged_dtype(nd).descr)
    if kind.startswith("Tracks"):
        d = list(c13.dtype(nd).descr)
        if "full" in kind:
            d += [("%s_%s_dut_%d" % (q, a, i), "f8") for q in ("offset", "slope") for a in AXES for i in range(nd)]
    return np.dtype(d)


def f3(v, s):
    return [np.nan if q == NaN else q / s for q in v]


def build(case, t):
    nd = case["nd"]
    a = np.zeros(len(t["rows"]), dtype=table_dtype(nd, t["kind"]))
    for n in a.dtype.names:
        a[n] = (np.arange(len(a)) * 7 + len(n)) % 100
    a["event_number"] = t["ev"]
    for k, row in enumerate(t["rows"]):
        for x in row:
            suf = "_dut_%d" % x["d"]
            for v, fmt, s in ((x["p"], "%s" + suf, U), (x["o"], "offset_%s" + (suf if not x["own"] else ""), U), (x["s"], "slope_%s" + (suf if not x["own"] else ""), 1e6), (x["e"], "%s_err" + suf, U)):
                if v:
                    for q, val in zip(AXES, f3(v, s)):
                        a[fmt % q][k] = val
    return a


def cells(case, t, a):
    out = []
    cols = []
    for d in range(case["nd"]):
        cols.append((d, 0))
    if t["kind"].startswith("Tracks"):
        cols.append((t["dut"], 1))
    for k in range(len(a)):
        row = []
        for d, own in cols:
            suf = "_dut_%d" % d
            g = lambda fmt, s: toint([[a[fmt % q][k] for q in AXES]], s)[0] if fmt % "x" in a.dtype.names else []
            if own:
                row.append({"d": d, "own": 1, "p": [], "o": g("offset_%s", U), "s": g("slope_%s", 1e6), "e": []})
            else:
                row.append({"d": d, "own": 0, "p": g("%s" + suf, U), "o": g("offset_%s" + suf, U), "s": g("slope_%s" + suf, 1e6), "e": g("%s_err" + suf, U) if t["kind"].startswith("Tracks") else []})
        out.append(row)
    return out


def near(a, b):
    """equal up to rounding (the matrix product rounds differently for different numbers of rows)"""
    return a.dtype == b.dtype and a.shape == b.shape and all(np.allclose(a[n], b[n], rtol=1e-6, atol=1e-6, equal_nan=True) if a[n].dtype.kind == "f" else np.array_equal(a[n], b[n]) for n in a.dtype.names)


def warmup(d):
    from beam_telescope_analysis import dut_alignment


def run_case(case, d):
    import tables as tb
    import re
    from beam_telescope_analysis.dut_alignment import apply_alignment
    nd = case["nd"]
    conf = telescope("tel.yaml", [dict(kw(p), column_size=50, row_size=50, n_columns=10, n_rows=10) for p in case["place"]], **kw(case["tele"]))
    names = ["Tracks_DUT%d" % t["dut"] if t["kind"].startswith("Tracks") else t["kind"] for t in case["tables"]]
    with tb.open_file("s0.h5", "w") as f:
        for t, n in zip(case["tables"], names):
            f.create_table(f.root, n, obj=build(case, t))
        if case["group"]:
            g = f.create_group(f.root, "arguments")
            f.create_table(g, "fit_tracks", obj=np.zeros(2, dtype=[("name", "S8"), ("value", "S8")]))

    def readall(fn):
        with tb.open_file(fn, "r") as f:
            return {n.name: n[:] for n in f.list_nodes("/", classname="Table")}
    stages, same, other, exc = [readall("s0.h5")], [], [], []
    for i, cv in enumerate(case["convs"]):
        outs, e = [], ""
        for j, ch in enumerate(case["chunks"]):
            fn = "s%d.h5" % (i + 1) if j == 0 else "tmp.h5"
            try:
                o = apply_alignment(conf, "s%d.h5" % i, output_file=fn, local_to_global=bool(cv["fwd"]), align_to_beam=bool(cv["beam"]), chunk_size=ch)
            except RuntimeError as x:
                e = "RuntimeError"
                break
            outs.append(readall(o))
        exc.append(e)
        if e:
            same.append(1)
            other.append(1)
            break
        a, b = stages[-1], outs[0]
        same.append(int(all(set(q) == set(b) and all(near(q[n], b[n]) for n in b) for q in outs[1:])))
        ok = set(a) == set(b)
        for n in a:
            ok = ok and a[n].dtype == b[n].dtype and a[n].shape == b[n].shape
            if ok:
                track = n.startswith("Tracks")
                own = re.compile(r"^([xyz]_dut_\d+|[xyz]_err_dut_\d+|(offset|slope)_[xyz](_dut_\d+)?)$" if track else r"^[xyz]_dut_\d+$")
                ok = all(a[n][q].tobytes() == b[n][q].tobytes() for q in a[n].dtype.names if not own.match(q))
        other.append(int(ok))
        stages.append(b)
    return {"exc": "", "excs": exc, "same": same, "other": other,
            "stages": [[cells(case, t, s[n]) if n in s else [] for s in stages] for t, n in zip(case["tables"], names)]}


def split(recs):
    """one recording per table; an error of the call belongs to the tables that are refused or, if there is none, to all"""
    out = []
    for c, r in recs:
        if r["exc"]:
            out.append((dict(c, tables=[c["tables"][0]]), {"exc": r["exc"]}))
            continue
        for t, s in zip(c["tables"], r["stages"]):
            out.append((dict(c, tables=[t]), dict(r, stages=s)))
    return out


def encode(c, r):
    p1 = lambda x: {"d": x["d"] + 1, "p": x["p"], "o": x["o"], "s": x["s"], "e": x["e"]}
    o = {"tele": c["tele"], "place": c["place"], "convs": [{"fwd": bool(v["fwd"]), "beam": bool(v["beam"])} for v in c["convs"]]}
    if r["exc"]:
        return dict(o, exc=[r["exc"]], same=[1], other=[1], stages=[[]])
    return dict(o, exc=r["excs"], same=r["same"], other=r["other"], stages=[[[p1(x) for x in row] for row in s] for s in r["stages"]])


def rnd_table(r, nd, kind, dut, n, slant):
    ev = rnd_events(r, n)
    rows = []
    track = kind.startswith("Tracks")
    p3 = lambda: [r.randrange(-500000, 500000) for _ in range(3)]
    s3 = lambda: [r.randrange(-20000, 20000), r.randrange(-20000, 20000), r.randrange(990000, 1000000)]
    nn = lambda f: [NaN] * 3 if r.random() < .1 else f()
    for _ in range(n):
        row = []
        for d in range(nd):
            hit = r.random() < .8
            p = [r.randrange(-500000, 500000), r.randrange(-500000, 500000), 0] if hit else [NaN] * 3
            if slant and hit and r.random() < .02:
                p[2] = 700
            full = "full" in kind
            row.append({"d": d, "own": 0, "p": p, "o": nn(p3) if full else [], "s": nn(s3) if full else [], "e": ([r.randrange(0, 30000), r.randrange(0, 30000), 0] if hit else [NaN] * 3) if track else []})
        if track:
            row.append({"d": dut, "own": 1, "p": [], "o": nn(p3), "s": nn(s3), "e": []})
        rows.append(row)
    return {"kind": kind, "dut": dut, "ev": ev, "rows": rows}


def case(r):
    nd = r.choice([1, 2, 3, 3, 12])
    n = r.choice([0, 1, 5, 12]) if nd < 12 else 4
    kinds = r.choice([["MergedClusters"], ["TrackCandidates"], ["Tracks"], ["Tracksfull"]])
    slant = r.random() < .15
    if kinds[0].startswith("Tracks"):
        ds = r.sample(range(nd), min(nd, r.choice([1, 1, 2])))
        if nd == 12 and r.random() < .6:
            ds = [11]
        tabs = [rnd_table(r, nd, kinds[0], d, n, slant and len(ds) == 1) for d in ds]
    else:
        tabs = [rnd_table(r, nd, kinds[0], 0, n, slant)]
    b = int(r.random() < .5)
    convs = [{"fwd": 1, "beam": b}, {"fwd": 0, "beam": b}]
    if r.random() < .2:
        b2 = 1 - b
        convs += [{"fwd": 1, "beam": b2}, {"fwd": 0, "beam": b2}]
    if r.random() < .1 and len(tabs) == 1:
        convs[1] = {"fwd": 0, "beam": 1 - b}
    return {"nd": nd, "tele": place(r, 13, .3), "place": [place(r, 65) for _ in range(nd)], "tables": tabs, "convs": convs, "chunks": [1000000, r.choice([4, 5, 7])], "group": int(r.random() < .5)}


def check(ctx):
    ctx.mc("ApplyAlignmentMC", must_cover=["Read", "ConvertDut", "Write", "NextConversion"])
    if not ctx.quick:
        ctx.mc("ApplyAlignmentMC", "ApplyAlignmentMCBig.cfg", timeout=1500)
    cases = [case(ctx.rng) for _ in range(ctx.n(260, 4000))]
    ctx.validate("ApplyAlignmentTrace", split(ctx.execute(cases)), encode, kind="random tables")
