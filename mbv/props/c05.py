"""C05: merging of DUT cluster files."""
ASSUMPTIONS = ["cluster tables are sorted by event number, at least one DUT has clusters",
               "no event has more clusters per DUT than the chunk size (else reading refuses, see C01)"]
from mbv.util import *

GEO = [{"cs": 50, "rs": 25, "nc": 16, "nr": 40}, {"cs": 250, "rs": 50, "nc": 80, "nr": 336}, {"cs": 18, "rs": 20, "nc": 7, "nr": 9}]


def warmup(d):
    run_case({"in": [[0], [0]], "index": [0, 1], "chunk": 10, "salt": 1}, d)


def clusters(case, di):
    """attribute values of the clusters of DUT di: unique, exactly representable"""
    n, idx, g = len(case["in"][di]), case["index"][di], GEO[di % len(GEO)]
    out = []
    for k in range(n):
        h = (k * 7 + di * 13 + case["salt"] * 5)
        if idx:
            x, y = 4 + h % (4 * g["nc"] - 3), 4 + (3 * h) % (4 * g["nr"] - 3)
            ex, ey = 1 + h % 4, 1 + (h + 1) % 3
        else:
            x, y = (h * 37) % 9001 - 4500, (h * 91) % 7001 - 3500
            ex, ey = 8 + h % 40, 5 + h % 30
        # x, y, ex, ey, charge, frame, n_hits, cluster_ID, cluster_shape, n_cluster
        out.append([x, y, ex, ey, 1 + h % 60, h % 1000, 1 + h % 9, k % 100, 1 + di * 100000 + k, 1 + (h % 5)])
    return out


def run_case(case, d):
    import tables as tb
    from beam_telescope_analysis.hit_analysis import merge_cluster_data
    nd = len(case["in"])
    files, geo, att = [], [], []
    for di in range(nd):
        g = dict(GEO[di % len(GEO)], index=case["index"][di])
        geo.append(g)
        a = clusters(case, di)
        att.append(a)
        loc = ("mean_column", "mean_row", "err_column", "err_row") if g["index"] else ("mean_x", "mean_y", "err_x", "err_y")
        arr = np.zeros(len(a), dtype=[("event_number", "i8"), ("cluster_ID", "u2"), ("n_hits", "u4"), ("charge", "f4"), ("frame", "u2"),
                                      (loc[0], "f8"), (loc[1], "f8"), (loc[2], "f4"), (loc[3], "f4"), ("n_cluster", "u4"), ("cluster_shape", "i8")])
        arr["event_number"] = case["in"][di]
        m = np.array(a, dtype=float).reshape(len(a), 10)
        sc = (0.25, 0.25, 0.125, 0.125) if g["index"] else (0.125,) * 4
        for k in range(4):
            arr[loc[k]] = m[:, k] * sc[k]
        for k, n in enumerate(("charge", "frame", "n_hits", "cluster_ID", "cluster_shape", "n_cluster")):
            arr[n] = m[:, 4 + k]
        files.append(h5table("cl%d.h5" % di, "Clusters", arr))
    conf = telescope("tel.yaml", [dict(column_size=g["cs"], row_size=g["rs"], n_columns=g["nc"], n_rows=g["nr"], translation_z=1000.0 * i, translation_x=17.0 * i) for i, g in enumerate(geo)])
    ret = merge_cluster_data(conf, files, "merged.h5", chunk_size=case["chunk"])
    t = h5read(ret, "MergedClusters")
    out = []
    for r in t:
        cells = []
        for i in range(nd):
            f = lambda n: r["%s_dut_%d" % (n, i)]
            cell = [enc(f("x"), 8), enc(f("y"), 8), enc(f("x_err"), 8), enc(f("y_err"), 8), enc(f("charge")), int(f("frame")), int(f("n_hits")),
                    int(f("cluster_ID")), int(f("cluster_shape")), int(f("n_cluster"))]
            z, ze = enc(f("z"), 8), enc(f("z_err"), 8)
            if (z, ze) != ((NAN, NAN) if cell[0] == NAN else (0, 0)):
                cell[9] = -1
            cells.append(cell)
        out.append({"ev": int(r["event_number"]), "flag": int(r["hit_flag"]), "cells": cells})
    return {"out": out, "att": att, "geo": geo}


def encode(c, r):
    o = {"in": c["in"], "exc": r.get("exc", ""), "missing": [NAN] * 5 + [0] * 5, "out": r.get("out", []), "att": r.get("att", []), "geo": r.get("geo", [])}
    return o


def check(ctx):
    r = ctx.rng
    ctx.mc_bg("EventMergeMC", "EventMergeMCBig.cfg", env={"OUT": "none"}, must_cover=["MergeEvent"])
    enum = ctx.enumerate("EventMergeMC", "EventMergeMC.cfg" if ctx.quick else "EventMergeMCBig.cfg")
    enum = [e for e in enum if any(e["in"])]
    cases = []
    for k, e in enumerate(enum):
        mx = max([1] + [s.count(v) for s in e["in"] for v in s])
        for ch in ([mx + 1, 100] if not ctx.quick else [r.choice([mx + 1, mx + 2, 100])]):
            cases.append({"in": e["in"], "index": [r.randrange(2) for _ in e["in"]], "chunk": ch, "salt": r.randrange(1000)})
    if not ctx.quick:
        r.shuffle(cases)
        cases = cases[:6000]
    for _ in range(ctx.n(150, 2500)):
        nd = r.choice([2, 3, 3, 4, 6, 12])
        ins = []
        for d in range(nd):
            ins.append(rnd_events(r, r.choice([0, 1, 4, 12, 30]) if r.random() < .4 else 20, gaps=r.choice([(1,), (1, 1, 2, 3), (1, 6)]), start=(0, r.choice([1, 5, 20]))))
        if not any(ins):
            continue
        mx = max(s.count(v) for s in ins for v in s)
        cases.append({"in": ins, "index": [r.randrange(2) for _ in ins], "chunk": r.choice([mx + 1, mx + 2, mx + 5, 12, 1000]) if mx < 11 else 1000, "salt": r.randrange(1000)})
    recs = ctx.execute(cases)
    ctx.validate("EventMergeTrace", recs, encode)
