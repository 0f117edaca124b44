"""Runs fit_tracks (shared by C09-C12)."""
from mbv.util import *

NAMES = ("translation_x", "translation_y", "translation_z", "rotation_alpha", "rotation_beta", "rotation_gamma")


def setup(case):
    nd = case["nd"]
    duts = []
    for d in range(nd):
        q = dict(zip(NAMES, case["geo"][d]))
        q.update(column_size=case.get("pitch", 50), row_size=case.get("pitch", 50), n_columns=1000, n_rows=1000)
        if case.get("material"):
            q["material_budget"] = case["material"][d]
        if case.get("resolution"):
            q["intrinsic_resolution"] = case["resolution"][d]
        if case.get("limits") and case["limits"][d]:
            q["x_limit"], q["y_limit"] = case["limits"][d]
        duts.append(q)
    conf = telescope("tel.yaml", duts)
    sc = case.get("scale", 8.)
    a = merged_table(nd, case["rows"], lambda h, d: [v / sc for v in case["pos"][d][h - 1]])
    if case.get("err"):
        for d in range(nd):
            for q in "xy":
                c = a["%s_err_dut_%d" % (q, d)]
                c[~np.isnan(c)] = case["err"]
    return conf, a


def fit(case, conf, a, chunk, opts=None, name="tracks.h5"):
    from beam_telescope_analysis import track_analysis as ta
    from mbv.pool import Pool
    if not case.get("real_pool"):
        ta.Pool = Pool
        ta.cpu_count = lambda: case.get("cpus", 1)
    f = h5table("cand.h5", "TrackCandidates", a)
    o = dict(case["opts"])
    o.update(opts or {})
    o = json_args(o)
    out = ta.fit_tracks(conf, f, name, chunk_size=chunk, plot=False, **o)
    import tables as tb
    res = {}
    with tb.open_file(out, "r") as h:
        for n in h.root:
            if isinstance(n, tb.Table) and n.name.startswith("Tracks"):
                res[n.name] = n[:]
    return res


def json_args(o):
    """2-tuples as the documentation of the parameters wants them"""
    o = dict(o)
    for k in ("quality_distances", "isolation_distances"):
        v = o.get(k)
        if isinstance(v, dict):   # one value for all DUTs
            o[k] = None if v["all"] is None else tuple(v["all"])
        elif v is not None:
            o[k] = [None if x is None else tuple(x) for x in v]
    return o


def same_table(a, b, tol=1e-7):
    """same rows; floats up to rounding of sums"""
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    for n in a.dtype.names:
        if a[n].dtype.kind == "f":
            if not np.allclose(a[n], b[n], rtol=tol, atol=tol, equal_nan=True):
                return False
        elif not np.array_equal(a[n], b[n]):
            return False
    return True


def bits(v, n):
    return [(int(v) >> i) & 1 for i in range(n)]
