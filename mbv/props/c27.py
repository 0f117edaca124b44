"""C27: the whole chain from hits to selected tracks, residuals and efficiency."""
ASSUMPTIONS = ["straight tracks through pixel centres, separated by at least 8 pixels in every plane, with hits in the first two planes along the beam; events without tracks have hits in one DUT only",
               "planes perpendicular to the beam in any of 6 orientations; pixels of all DUTs have the same size along the global axes",
               "the mean efficiency is computed by a stand-in that records the numbers (its confidence interval is slow); the pool is replaced by a stand-in"]
from mbv.util import *
from mbv.props import c09, c13
from mbv.props.c06 import ORI, PI
from mbv import fit as F
DZ = 20000.


def warmup(d):
    run_case(case(__import__("random").Random(5)), d)


def local(q, g):
    m = q["m"]
    v = [g[0] - q["t"][0], g[1] - q["t"][1]]
    return [m[0] * v[0] + m[2] * v[1], m[1] * v[0] + m[3] * v[1]]


def swapped(q):
    return q["m"][0] == 0


def run_case(case, d):
    import os
    import tables as tb
    from beam_telescope_analysis import hit_analysis as ha, track_analysis as ta, result_analysis as ra
    from beam_telescope_analysis.tools import smc
    from beam_telescope_analysis.tools.data_selection import select_tracks
    from beam_telescope_analysis.telescope.telescope import Telescope
    from mbv.pool import Pool
    smc.cpu_count = lambda: 1
    ta.Pool = Pool
    ta.cpu_count = lambda: case["cpus"]
    G = case["pitch"]
    nd = len(case["duts"])
    duts = []
    for q in case["duts"]:
        o = ORI[q["ori"]][0]
        p = G[::-1] if swapped(q) else G
        duts.append(dict(column_size=p[0], row_size=p[1], n_columns=q["n"][0], n_rows=q["n"][1], rotation_alpha=o[0], rotation_beta=o[1], rotation_gamma=o[2],
                         translation_x=q["t"][0] * G[0] / 2., translation_y=q["t"][1] * G[1] / 2., translation_z=q["z"] * DZ))
    conf = telescope("tel.yaml", duts)
    tel = Telescope(conf)
    ch = case["chunks"]
    res = {"exc": "", "cand": [], "res": []}
    stage = "clustering"
    try:
        files = []
        for k, q in enumerate(case["duts"]):
            H = q["hits"]
            a = np.zeros(len(H), dtype=[("event_number", "i8"), ("frame", "u1"), ("column", "u2"), ("row", "u2"), ("charge", "u2")])
            for i, n in enumerate(("event_number", "column", "row", "charge")):
                a[n] = [h[i] for h in H]
            h5table("h%d.h5" % k, "Hits", a)
            files.append(ha.cluster_hits(tel[k], "h%d.h5" % k, "c%d.h5" % k, use_positions=q["pos"], **(dict(column_cluster_distance=duts[k]["column_size"], row_cluster_distance=duts[k]["row_size"]) if q["pos"] else {}), charge_weighted_clustering=q["weighted"], plot=False, chunk_size=ch[1]))
        stage = "merging"
        merged = ha.merge_cluster_data(conf, files, "merged.h5", chunk_size=ch[2])
        stage = "track finding"
        cand = ta.find_tracks(conf, merged, "cand.h5", align_to_beam=case["align"], select_extrapolation_duts=case["ext"], chunk_size=ch[3])
        stage = "fitting"
        fit = ta.fit_tracks(conf, cand, "tracks.h5", plot=False, chunk_size=ch[4], quality_distances=(20., 20.), isolation_distances=(30., 30.), **case["opts"])
        with tb.open_file(fit, "r") as f:
            have = [c for c in case["conf"] if "Tracks_DUT%d" % c["dut"] in f.root]   # no table, if there are no tracks
        stage = "selection"
        sa = {k: [v[i] for i, c in enumerate(case["conf"]) if c in have] if isinstance(v, list) else v for k, v in case["selargs"].items()}
        sel = select_tracks(conf, fit, output_tracks_file="sel.h5", chunk_size=ch[5], **sa) if have else fit
        stage = "efficiency"
        au = ra.analysis_utils
        orig = au.get_mean_efficiency
        total = []

        def recorder(array_pass, array_total, *k, **w):
            n, m = array_pass.sum(), array_total.sum()
            total.append([int(n), int(m)])
            return float(n) / m, 0., 0.
        eff, rs, skip = {}, {}, []
        for c in have:
            s = c["dut"]
            au.get_mean_efficiency = recorder
            del total[:]
            try:
                none = ""
                ra.calculate_efficiency(conf, sel, [s], output_efficiency_file="eff%d.h5" % s, resolutions=[tuple(duts[s][k] for k in ("column_size", "row_size"))], cut_distances=[(20., 20.)], n_bins_track_angle=1, plot=False, chunk_size=ch[6])
            except RuntimeError as e:   # refusals
                none = "tracks" if "No tracks" in str(e) else "hits" if "are zero" in str(e) else "?"
                if none == "?":
                    raise
                tb.file._open_files.close_all()
            finally:
                au.get_mean_efficiency = orig
            if none:
                eff[s] = none
                continue
            with tb.open_file("eff%d.h5" % s, "r") as f:
                if "DUT%d" % s in f.root:
                    g = f.get_node("/DUT%d" % s)
                    t, w = g.count_tracks_2d_hist[:], g.count_tracks_with_hit_2d_hist[:]
                    eff[s] = [[int(i) + 1, int(j) + 1, int(t[i, j]), int(w[i, j])] for i, j in zip(*np.nonzero(t + w))], total[-1]
        stage = "residuals"
        for c in have:
            s = c["dut"]
            if case["residuals"]:
                try:
                    ra.calculate_residuals(conf, sel, [s], output_residuals_file="res%d.h5" % s, nbins_per_pixel=case["nbins"], plot=False, chunk_size=ch[7])
                except RuntimeError as e:
                    if "No tracks" not in str(e):
                        raise
                    tb.file._open_files.close_all()
                    continue
                except ValueError as e:   # the binning of residuals that are zero up to rounding
                    if "Too many bins" not in str(e):
                        raise
                    tb.file._open_files.close_all()
                    skip.append(s)
                    continue
                with tb.open_file("res%d.h5" % s, "r") as f:
                    o = []
                    for x in "xy":
                        n = "local_%s_residuals_DUT%d" % (x, s)
                        if n in f.root:
                            node = f.get_node("/" + n)
                            e, a = getattr(node.attrs, x + "edges"), node[:]
                            o += [int(a.sum()), int(a[(e[:-1] < 1e-3) & (e[1:] > -1e-3)].sum())]
                    rs[s] = o
    except Exception as e:
        if os.environ.get("MBV_DEBUG"):
            raise
        tb.file._open_files.close_all()
        return {"exc": "%s: %s" % (stage, type(e).__name__)}
    half = lambda s: [v / 2. for v in (G[::-1] if swapped(case["duts"][s]) else G)]

    def rows(a, s=None):
        out = []
        for k in range(len(a)):
            cells = []
            for i in range(nd):
                v = [a["%s_dut_%d" % (n, i)][k] for n in ("x", "y", "charge", "n_hits")]
                h = half(i)
                cells.append([] if np.isnan(v[0]) else [num(v[0] / h[0]), num(v[1] / h[1]), num(v[2]), int(v[3])])
            o = {"ev": int(a["event_number"][k]), "cells": cells, "flag": F.bits(a["hit_flag"][k], nd)}
            if s is not None:
                h = half(s)
                o["qual"] = F.bits(a["quality_flag"][k], nd)[s]
                o["off"] = [num(a["offset_" + x][k] / h[i]) for i, x in enumerate("xy")]
                o["slope"] = [num(a["slope_" + x][k] / a["slope_z"][k] * DZ / h[i]) for i, x in enumerate("xy")]
            out.append(o)
        return out
    res["cand"] = rows(h5read(cand, "TrackCandidates"))
    for c in case["conf"]:
        s = c["dut"]
        e = eff.get(s, "tracks")
        o = {"eff": "" if isinstance(e, tuple) else e, "pix": e[0] if isinstance(e, tuple) else [], "sum": e[1] if isinstance(e, tuple) else [], "res": rs.get(s, []), "want": int(case["residuals"] and s not in skip)}
        for n, f in (("tabs", fit), ("sel", sel)):
            with tb.open_file(f, "r") as h:
                o[n] = rows(h.get_node("/Tracks_DUT%d" % s)[:], s) if "Tracks_DUT%d" % s in h.root else []
        res["res"].append(o)
    return res


def num(v):
    """to the grid; far off the grid: an impossible number"""
    v = float(v)
    if not abs(v) < 1e8:
        return 88888888
    r = int(round(v))
    return r if abs(v - r) < 2e-3 else 77777777


def split(recs):
    out = []
    for c, r in recs:
        for k in range(len(c["conf"])):
            o = {"exc": r["exc"]} if r["exc"] else dict(r["res"][k], exc="", cand=r["cand"])
            out.append((dict(c, own=k), o))
            if r["exc"]:
                break
    return out


def encode(c, r):
    q = c["conf"][c["own"]]
    p = lambda s: [d + 1 for d in s]
    return {"duts": [{"m": w["m"], "flip": int(w["ori"] >= 4), "t": w["t"], "n": w["n"], "z": w["z"]} for w in c["duts"]],
            "truth": [{"ev": t["ev"], "a": t["a"], "s": t["s"], "hits": p(t["hits"]), "cell": t["cell"]} for t in c["truth"]], "sep": c["sep"], "wantres": r.get("want", 0),
            "noise": [{"ev": e, "cells": x, "flag": [int(bool(v)) for v in x]} for e, x in c["noise"]],
            "conf": {"dut": q["dut"] + 1, "fit": p(q["fit"]), "hits": p(q["hits"]), "min": q["min"], "excl": bool(q["excl"]), "shit": p(q["shit"]), "snohit": p(q["snohit"])},
            "exc": r["exc"], "cand": r.get("cand", []), "tabs": r.get("tabs", []), "sel": r.get("sel", []), "eff": r.get("eff", ""), "pix": r.get("pix", []), "sum": r.get("sum", []), "res": r.get("res", [])}


SHAPES = {1: [(0, 0)], 2: [(-1, 0), (0, 0), (1, 0)], 3: [(0, -1), (0, 0), (0, 1)], 4: [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)]}


def case(r):
    nd = r.choice([3, 4, 4, 5])
    order = list(range(nd))
    if r.random() < .5:
        r.shuffle(order)   # DUT order[k] is the k-th plane along the beam
    G = r.choice([[50, 50], [50, 100], [100, 25], [40, 60]])
    sep = r.choice([8, 10])
    hx = 5 * sep
    z, k = [0] * nd, 0
    for d in order:
        z[d] = k
        k += r.choice([1, 1, 2])
    duts = []
    for d in range(nd):
        o = r.randrange(6) if r.random() < .6 else 0
        m = ORI[o][1]
        n = [2 * hx + 20 + 2 * r.randrange(8), 2 * hx + 30 + 2 * r.randrange(8)]
        if r.random() < .25 and d not in order[:2]:   # smaller than the beam
            n[r.randrange(2)] = 2 * sep + 12 + 2 * r.randrange(sep)
        t = [2 * r.randrange(-6, 7), 2 * r.randrange(-6, 7)] if r.random() < .7 else [0, 0]
        duts.append({"ori": o, "m": m, "n": n, "t": t, "z": z[d], "hits": [], "pos": r.choice([None, None, True]), "weighted": r.random() < .5})
    low = r.choice([None] + order)    # a DUT with low efficiency
    truth, noise, ev = [], [], r.randrange(3)
    per = [dict() for _ in range(nd)]
    last = max(z)
    for _ in range(r.choice([4, 8, 15])):
        u = r.random()
        if u < .15:
            d = r.randrange(nd)
            g = [2 * r.randrange(-10, 10) + 1, 2 * r.randrange(-10, 10) + 1]
            l = local(duts[d], g)
            if all(abs(l[i]) < duts[d]["n"][i] - 4 for i in (0, 1)):
                per[d].setdefault(ev, []).append((l, 1, 7))
                noise.append([ev, [l + [7, 1] if i == d else [] for i in range(nd)]])
        elif u < .25:
            pass
        else:
            grid = [(i, j) for i in range(-2, 3) for j in range(-2, 3)]
            for i, j in r.sample(grid, r.choice([1, 1, 2, 3, 6])):
                a = [2 * (i * (2 * sep) + r.randrange(-2, 3)) + 1, 2 * (j * 2 * sep + r.randrange(-2, 3)) + 1]
                s = [2 * r.choice([-1, 0, 0, 1]), 2 * r.choice([-1, 0, 0, 1])]
                if any(u["ev"] == ev and any(max(abs(u["a"][i] - a[i] + (u["s"][i] - s[i]) * w) for i in (0, 1)) < 2 * sep for w in z) for u in truth):
                    continue   # too close somewhere
                t = {"ev": ev, "a": a, "s": s, "hits": [], "cell": [[] for _ in range(nd)]}
                for d in range(nd):
                    q = duts[d]
                    l = local(q, [a[0] + s[0] * z[d], a[1] + s[1] * z[d]])
                    inside = all(abs(l[v]) < q["n"][v] - 4 for v in (0, 1))
                    if inside and (d in order[:2] or r.random() < (.5 if d == low else .9)):
                        sh, w = r.choice([1, 1, 2, 3, 4]), r.randrange(1, 40)
                        per[d].setdefault(ev, []).append((l, sh, w))
                        t["hits"].append(d)
                        t["cell"][d] = [w * len(SHAPES[sh]), len(SHAPES[sh])]
                truth.append(t)
        ev += r.choice([1, 1, 3])
    for d, q in enumerate(duts):
        for e in range(ev):
            px = []
            for l, sh, w in per[d].get(e, []):
                c0 = [(l[v] + q["n"][v] + 1) // 2 for v in (0, 1)]
                px += [[e, c0[0] + i, c0[1] + j, w] for i, j in SHAPES[sh]]
            r.shuffle(px)
            q["hits"] += px
    conf = []
    for s in r.sample(range(nd), r.choice([1, 2, min(3, nd)])):
        fit = sorted(set(order[:2]) | {d for d in range(nd) if r.random() < .8})
        excl = r.random() < .6
        e = [d for d in fit if not (excl and d == s)]
        if len(e) < 2:
            fit, e = list(range(nd)), [d for d in range(nd) if not (excl and d == s)]
        conf.append({"dut": s, "fit": fit, "hits": sorted(r.sample(range(nd), r.choice([0, 0, 1, 2]))), "min": r.choice([0, 2, 2, min(3, len(e))]), "excl": excl,
                     "shit": [], "snohit": []})
    for c in conf:
        if r.random() < .5:
            c["shit"] = sorted(r.sample(range(nd), r.choice([0, 1, 2])))
            if r.random() < .5:
                c["snohit"] = [d for d in r.sample(range(nd), 1) if d not in c["shit"]]
    sa = {"select_duts": [c["dut"] for c in conf], "select_hit_duts": [c["shit"] for c in conf], "select_no_hit_duts": [c["snohit"] for c in conf]}
    if all(not c["snohit"] for c in conf):
        del sa["select_no_hit_duts"]
    if r.random() < .4:
        sa["query"] = "(track_chi2 < 0.5)"
    mx = max([1] + [sum(len(SHAPES[sh]) for l, sh, w in p[e]) for p in per for e in p])
    mr = max([1] + [len(p[e]) for p in per for e in p]) + 1
    ch = [r.choice([mx + 1, mx + 7, 1000]) for _ in range(2)] + [r.choice([mr + 1, mr + 4, 1000]) for _ in range(6)]
    opts = c09.options(r, nd, conf)
    opts["full_track_info"] = bool(r.randrange(2))
    need = order[:2]
    ext = None if r.random() < .6 else sorted(set(need) | {d for d in range(nd) if r.random() < .6})
    return {"pitch": G, "duts": duts, "truth": truth, "noise": noise, "sep": sep, "conf": conf, "opts": opts, "selargs": sa, "chunks": ch, "cpus": r.choice([1, 2, 8]), "align": bool(r.randrange(2)), "ext": ext,
            "residuals": r.random() < .5, "nbins": r.choice([1, 2, 4])}


def check(ctx):
    r = ctx.rng
    ctx.mc_bg("PipelineMC", "PipelineMC.cfg" if ctx.quick else "PipelineMCBig.cfg", timeout=2000, must_cover=["MMerge", "MFind", "MFit", "MSelect", "MCount"])
    recs = ctx.execute([case(r) for _ in range(ctx.n(60, 1500))])
    ctx.validate("PipelineTrace", split(recs), encode)
