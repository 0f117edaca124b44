"""Helpers running inside of the worker (imports of the code under test are local)."""
import numpy as np


def telescope(path, duts, **kw):
    """duts: list of dicts with dut_type and attributes; returns path of the configuration file."""
    from beam_telescope_analysis.telescope.telescope import Telescope
    t = Telescope(**kw)
    for i, d in enumerate(duts):
        d = dict(d)
        d.setdefault("dut_type", "RectangularPixelDut")
        for k in ("translation_x", "translation_y", "translation_z", "rotation_alpha", "rotation_beta", "rotation_gamma"):
            d.setdefault(k, 0.0)
        t.add_dut(dut_id=i, **d)
    t.save_configuration(path)
    return path


def h5table(path, name, arr, mode="w"):
    import tables as tb
    with tb.open_file(path, mode) as f:
        f.create_table(f.root, name, obj=arr)
    return path


def h5read(path, name):
    import tables as tb
    with tb.open_file(path, "r") as f:
        return f.get_node("/" + name)[:]


NAN = -999999


def enc(v, scale=1, tol=1e-3):
    """float -> scaled integer for the specification; NAN for nan; raises if not on the grid."""
    v = float(v)
    if v != v:
        return NAN
    s = v * scale
    r = int(round(s))
    if abs(s - r) > tol:
        raise ValueError("value %r is not on the grid 1/%d" % (v, scale))
    if abs(r) > 2 ** 31 - 1:
        raise ValueError("value %r is too large" % v)
    return r


def rnd_events(r, n, gaps=(1, 1, 2), mult=(1, 1, 1, 2, 3), start=(0, 3)):
    out, e = [], r.randrange(*start)
    while len(out) < n:
        out += [e] * r.choice(mult)
        e += r.choice(gaps)
    return out[:n]


def merged_dtype(n, tracks=None):
    """columns of the merged / candidates table; tracks: list of additional (name, type) of the tracks tables"""
    d = [("event_number", "i8")]
    for q in "xyz":
        d += [("%s_dut_%d" % (q, i), "f8") for i in range(n)]
    for q, t in (("charge", "f4"), ("frame", "u2"), ("n_hits", "u4"), ("cluster_ID", "i2"), ("cluster_shape", "i8"), ("n_cluster", "u4")):
        d += [("%s_dut_%d" % (q, i), t) for i in range(n)]
    d += [("hit_flag", "u4")]
    for q in "xyz":
        d += [("%s_err_dut_%d" % (q, i), "f4") for i in range(n)]
    return np.dtype(d)


def attrs_of(h, d):
    """attributes of hit number h (> 0) of DUT d: err_x, err_y (1/8), charge, frame, n_hits, cluster_ID, cluster_shape, n_cluster"""
    k = h * 7 + d * 13
    return [1 + k % 40, 1 + k % 31, 1 + k % 60, k % 1000, 1 + k % 9, k % 100, d * 100000 + h, 1 + k % 5]


MISSING_CELL = [NAN] * 7 + [0] * 5


def merged_table(nd, rows, pos):
    """rows: [[event, [hit number or 0] * nd]]; pos(h, d) -> local x, y (float)"""
    a = np.zeros(len(rows), dtype=merged_dtype(nd))
    a["event_number"] = [r[0] for r in rows]
    for d in range(nd):
        for q in ("x", "y", "z", "x_err", "y_err", "z_err", "charge"):
            a["%s_dut_%d" % (q, d)] = np.nan
        for k, r in enumerate(rows):
            h = r[1][d]
            if not h:
                continue
            t = attrs_of(h, d)
            a["x_dut_%d" % d][k], a["y_dut_%d" % d][k] = pos(h, d)
            a["z_dut_%d" % d][k], a["z_err_dut_%d" % d][k] = 0, 0
            a["x_err_dut_%d" % d][k], a["y_err_dut_%d" % d][k] = t[0] / 8., t[1] / 8.
            for q, v in zip(("charge", "frame", "n_hits", "cluster_ID", "cluster_shape", "n_cluster"), t[2:]):
                a["%s_dut_%d" % (q, d)][k] = v
            a["hit_flag"][k] |= 1 << d
    return a


def cell(a, k, d, scale=8, inexact=False):
    """cell of DUT d in row k as integers"""
    f = lambda q: a["%s_dut_%d" % (q, d)][k]
    e = (lambda v, s: NAN if v != v else int(round(float(v) * s))) if inexact else enc
    return [e(f("x"), scale), e(f("y"), scale), e(f("z"), scale), enc(f("x_err"), 8), enc(f("y_err"), 8), enc(f("z_err"), 8), enc(f("charge"))] + \
        [int(f(q)) for q in ("frame", "n_hits", "cluster_ID", "cluster_shape", "n_cluster")]
