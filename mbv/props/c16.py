"""C16: efficiency."""
ASSUMPTIONS = ["pixel matrices have more than 2 x 2 pixels", "positions are half-integers (um) between the bins' edges, pixels' edges and region boundaries; the elliptical cut is not tested exactly on the ellipse off the axes",
               "histograms of the track angles, the number of in-pixel hits and the confidence interval of the mean efficiency are not judged (the interval is slow and mostly not computed)",
               "two tracks never share a cluster"]
from mbv.util import *
from mbv.props import c13

H = .5


def warmup(d):
    r = __import__("random").Random(3)
    run_case(case(r), d)


def ent(a, m=1):
    a = np.nan_to_num(np.asarray(a, dtype=float))
    return [[int(i) + 1 for i in k] + [int(round(a[k] * m))] for k in zip(*np.nonzero(a))]


def vals(a, m):
    a = np.asarray(a, dtype=float)
    return [[int(i) + 1 for i in k] + [int(round(a[k] * m))] for k in zip(*np.nonzero(np.isfinite(a)))]


def line(a):
    a = list(np.asarray(a))
    while a and a[-1] == 0:
        a.pop()
    return [int(v) for v in a]


def means(g, name, w):
    o = {}
    for q, n, s in (("x", "x_residuals", 2), ("y", "y_residuals", 2), ("d", "residuals", 2), ("q", "charge", 1), ("f", "frame", 1), ("n", "cluster_size", 1)):
        a = g[name % n][:] * s
        o[q] = [[int(i) + 1, int(j) + 1, int(round(a[i, j] * w[i, j])) if abs(a[i, j]) < 1e6 else 77777777] for i, j in zip(*np.nonzero(w))]
    return o


def run_case(case, d):
    r = run(case, case["select"])
    if any(q["exc"] for q in r) and len(r) > 1:  # which one is it?
        one = [run(case, [s])[0] for s in case["select"]]
        if any(q["exc"] for q in one):
            r = one
    return {"exc": "", "res": r}


def run(case, sel):
    import inspect
    import tables as tb
    from beam_telescope_analysis import result_analysis as ra
    nd = len(case["duts"])
    conf = telescope("tel.yaml", [dict(column_size=q["size"][0] * H, row_size=q["size"][1] * H, n_columns=q["n"][0], n_rows=q["n"][1], **case["place"]) for q in case["duts"]])
    with tb.open_file("in.h5", "w") as f:
        for k, q in enumerate(case["duts"]):
            R = q["rows"]
            a = np.zeros(len(R), dtype=c13.dtype(nd))
            a["event_number"] = [r["ev"] for r in R]
            p = "_dut_%d" % k
            for i, r in enumerate(R):
                for j, x in enumerate("xy"):
                    a[x + p][i] = r["hit"][j] * H if r["hit"] else np.nan
                    a["offset_" + x][i] = r["off"][j] * H
                    a["slope_" + x][i] = r["slope"][j] / 1000.
                a["slope_z"][i] = 1
                if r["hit"]:
                    a["charge" + p][i], a["frame" + p][i], a["n_hits" + p][i], a["cluster_shape" + p][i], a["cluster_ID" + p][i] = r["q"], r["f"], r["n"], r["sh"], r["cid"]
                elif "cluster_ID" + p in a.dtype.names:
                    a["charge" + p][i], a["cluster_ID" + p][i] = np.nan, -1
            f.create_table(f.root, "Tracks_DUT%d" % k, obj=a)
    files = None
    if case["clusters"]:
        files = []
        for s in sel:
            rr = case["duts"][s]["rows"]
            rec = sorted([(r["ev"], r["cid"], k, c, w) for r in rr if r["hit"] for k, (c, w) in enumerate(r["pixels"])], key=lambda v: v[0])
            a = np.zeros(len(rec), dtype=[("event_number", "i8"), ("frame", "u1"), ("column", "u2"), ("row", "u2"), ("charge", "u2"), ("cluster_ID", "i4"), ("is_seed", "u1"), ("cluster_size", "u4"), ("n_cluster", "u4")])
            a["event_number"], a["cluster_ID"] = [v[0] for v in rec], [v[1] for v in rec]
            a["column"], a["row"] = [v[3] for v in rec], [v[4] for v in rec]
            with tb.open_file("cl%d.h5" % s, "w") as f:
                f.create_table(f.root, "ClusterHits", obj=a)
            files.append("cl%d.h5" % s)
    none = lambda v: None if v == [] else v[0] * H

    def pair(v):
        return None if v == [[], []] else tuple(none(x) for x in v)

    def mask(q):
        if not q["masked"]:
            return None
        m = np.zeros(q["n"], dtype=bool)
        for c, w in q["mask"]:
            m[c - 1, w - 1] = True
        return m
    D = [case["duts"][s] for s in sel]
    ms = [mask(q) for q in D]
    kw = dict(resolutions=[pair(q["res"]) for q in D], in_pixel_resolutions=[pair(q["cell"]) for q in D], extend_areas=[pair(q["ext"]) for q in D], cut_distances=[pair(q["cut"]) for q in D],
              efficiency_regions=[[tuple((a * H, b * H) for a, b in g) for g in q["regions"]] or None for q in D], disabled_pixel_masks=ms if any(m is not None for m in ms) else None,
              minimum_track_density=case["dens"], local_offset_x=case["shift"][0] * H or None, local_offset_y=case["shift"][1] * H or None)
    if len(D) == 1 and case["form"]:
        for k in ("resolutions", "in_pixel_resolutions", "extend_areas", "cut_distances"):
            kw[k] = kw[k][0]
    au = ra.analysis_utils
    orig = au.get_mean_efficiency
    total = []
    sig = inspect.signature(orig)

    def recorder(*k, **w):
        b = sig.bind(*k, **w).arguments
        n, m = b["array_pass"].sum(), b["array_total"].sum()
        total.append([int(n), int(m)])
        if case["full"] or m == 0:
            return orig(*k, **w)
        return float(n) / m, 0., 0.
    au.get_mean_efficiency = recorder
    try:
        ra.calculate_efficiency(conf, "in.h5", sel, input_cluster_files=files, output_efficiency_file="out.h5", plot=False, n_bins_track_angle=case["nbins"], chunk_size=case["chunk"], **kw)
        exc = ""
    except RuntimeError as e:
        exc = "RuntimeError"
    except Exception as e:
        import os
        if os.environ.get("MBV_DEBUG"):
            raise
        exc = type(e).__name__
    finally:
        au.get_mean_efficiency = orig
        tb.file._open_files.close_all()
    res = []
    for s in sel:
        o = {"exc": exc, "skip": False, "out": {}}
        res.append(o)
        if exc:
            continue
        with tb.open_file("out.h5", "r") as f:
            if "DUT%d" % s not in f.root:
                o["skip"] = True
                continue
            g = f.get_node("/DUT%d" % s)
            q = case["duts"][s]
            w = g.count_tracks_with_hit_2d_hist[:]
            x = {"edges": [[int(round(v * 2)) if abs(v * 2 - round(v * 2)) < 1e-6 else 77777777 for v in g["hist_2d_%s_edges" % t][:]] for t in "xy"],
                 "trk": ent(g.count_tracks_2d_hist[:]), "with": ent(w), "hits": ent(g.count_hits_2d_hist[:]), "eff": vals(g.stat_2d_efficiency_hist[:], 1000),
                 "low": [[int(i) + 1, int(j) + 1] for i, j in zip(*np.nonzero(g.stat_2d_efficiency_hist_mask[:]))], "mean": means(g, "stat_2d_%s_hist", w),
                 "cq": line(g.count_1d_charge_hist[:]), "cf": line(g.count_1d_frame_hist[:]), "pix": vals(g.stat_pixel_efficiency_hist[:].reshape(q["n"]), 1000), "pairs": [], "reg": []}
            if case["clusters"]:
                h = g.count_pixel_hits_2d_hist[:]
                x["pairs"] = [[a, b, c - 1 - h.shape[2] // 2, e - 1 - h.shape[3] // 2, n] for a, b, c, e, n in ent(h)]
            k = 0
            while "Region_%d" % k in g:
                z = g["Region_%d" % k]
                w = z.count_in_pixel_tracks_with_hit_2d_hists[:]
                sh = z.efficiency_regions_count_1d_cluster_shape_hist[:]
                cs = z.count_in_pixel_cluster_shape_2d_hists[:]
                shapes = [1, 3, 5, 13, 14, 7, 11, 15]
                x["reg"].append({"eff": int(round(float(z._v_attrs.efficiency_regions_efficiencies) * 1e6)), "cq": line(z.efficiency_regions_count_1d_charge_hist[:]), "cf": line(z.efficiency_regions_count_1d_frame_hist[:]),
                                 "cs": line(z.efficiency_regions_count_1d_cluster_size_hist[:]), "sh": [[int(v), int(sh[v])] for v in np.nonzero(sh)[0]], "pix": vals(z.efficiency_regions_stat_pixel_efficiency_hist[:].reshape(q["n"]), 1000),
                                 "trk": ent(z.count_in_pixel_tracks_2d_hists[:]), "with": ent(w), "eff2": vals(z.efficiency_regions_stat_in_pixel_efficiency_2d_hist[:], 1000),
                                 "mean": means(z, "stat_in_pixel_%s_2d_hists", w), "shapes": [[a, b, shapes[v - 1], n] for a, b, v, n in ent(cs)]})
                k += 1
            x["total"] = total[-1:] if len(sel) == 1 else []   # of the last call
            o["out"] = x
    return res


def split(recs):
    out = []
    for c, r in recs:
        for k, s in enumerate(c["select"]):
            out.append((dict(c, only=s), r["res"][k] if not r["exc"] else {"exc": r["exc"], "skip": False, "out": {}}))
    return out


def encode(c, r):
    q = c["duts"][c["only"]]
    d = lambda v, default: [default[i] if v[i] == [] else v[i][0] for i in (0, 1)]
    res = d(q["res"], q["size"])
    cfg = {"size": q["size"], "n": q["n"], "res": res, "ext": q["ext"], "cut": q["cut"], "regions": q["regions"], "mask": q["mask"], "masked": bool(q["masked"]), "shift": c["shift"], "dens": c["dens"],
           "cell": d(q["cell"], [min(res[i], q["size"][i] // 10) for i in (0, 1)]), "clusters": bool(c["clusters"])}
    return {"rows": [{k: v for k, v in w.items() if k != "slope"} for w in q["rows"]], "cfg": cfg, "exc": r["exc"], "skip": r["skip"], "out": r["out"]}


def odd(r, lo, hi):
    return 2 * r.randrange(lo // 2, hi // 2) + 1


def rnd_dut(r, clusters, shift):
    size = [r.choice([40, 80, 100, 200]), r.choice([40, 100])]   # 20, 40, 50, 100 um
    n = r.choice([[2, 6], [4, 2], [4, 6], [8, 2], [8, 6], [4, 4]])
    half = [n[i] * size[i] // 2 for i in (0, 1)]
    opt = lambda p, v: [[v[i]] if r.random() < p else [] for i in (0, 1)]
    res = opt(.5, [r.choice([size[i] // 2 // 4 * 4 or 4, size[i], 60, 2 * size[i]]) for i in (0, 1)]) if not clusters else opt(.5, [r.choice([size[i], size[i] // 5 * 3 // 4 * 4]) for i in (0, 1)])
    if clusters:  # the bins' centres are never halfway between two pixels
        res = [[], []]
    ext = opt(.4, [r.choice([20, 100, 250]) for i in (0, 1)])
    cut = r.choice([[[500], [500]], [[], []], [[r.choice([20, 60, 100])], [r.choice([10, 60, 200])]], [[120], [120]], [[200], [160]], [[], [80]], [[60], []]])
    cell = opt(.5, [size[i] // r.choice([v for v in (1, 2, 4, 5, 10) if size[i] // v % 2 == 0]) for i in (0, 1)])
    regions = []
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        g = []
        for i in (0, 1):
            a, b = sorted(2 * r.randrange(-half[i] // 2 - 20, half[i] // 2 + 20) for _ in "xx")
            g.append([a, b if b > a else a + 2] if r.random() < .8 else [-half[i] - 10, half[i] + 10])
        regions.append(g)
    masked = int(r.random() < .25)
    mask = [[c + 1, w + 1] for c in range(n[0]) for w in range(n[1]) if r.random() < .2] if masked else []
    rows = []
    m = r.choice([0, 1, 3, 15, 40, 40, 80])
    pe = r.choice([.95, .95, .5, .1])
    w = r.choice([3, 30])
    shapes = [(1, 1), (2, 3), (2, 5), (2, 6), (2, 9), (3, 13), (3, 14), (3, 7), (3, 11), (4, 15), (3, 273), (5, 4369), (2, 33)]
    out = r.choice([0, 0, 20])
    ev = rnd_events(r, m)
    late = r.random() < .3
    for k, e in enumerate(ev):
        off = [odd(r, -half[i] - out, half[i] + out) for i in (0, 1)]
        t = 2 * r.randrange(-w, w + 1)
        dx, dy, dist = r.choice([(0, 0, 0), (t, 0, abs(t)), (0, t, abs(t)), (3 * t, 4 * t, 5 * abs(t)), (-4 * t, 3 * t, 5 * abs(t))])
        if r.random() < .3 and cut[0] and cut[1] and 2 * cut[0][0] >= 5 * size[0]:
            pass
        elif r.random() < .4:
            i = r.randrange(2)
            if cut[i]:
                v = cut[i][0] + r.choice([-2, 0, 0, 2])
                dx, dy, dist = (v, 0, abs(v)) if i == 0 else (0, -v, abs(v))
        if cut[0] and cut[1] and cut[0] != cut[1] and dx and dy and (dx * cut[1][0]) ** 2 + (dy * cut[0][0]) ** 2 == (cut[0][0] * cut[1][0]) ** 2:
            dx, dy, dist = 0, 0, 0
        if cut[0] == cut[1] and cut[0] and dx and dy and dist == cut[0][0]:
            dx, dy, dist = 0, 0, 0
        hashit = r.random() < (0 if late and k < m // 2 else pe)
        nh, sh = r.choice(shapes)
        pc = [min(max((off[i] + half[i]) // size[i] + 1, 1), n[i]) for i in (0, 1)]
        pixels = [[min(max(pc[i] + r.randrange(-1, 2), 1), n[i]) for i in (0, 1)] for _ in range(nh)] if clusters else []
        rows.append({"ev": e, "off": [off[i] - shift[i] for i in (0, 1)], "hit": [off[0] + dx, off[1] + dy] if hashit else [], "d": dist, "q": r.choice([0, 1, 3, 12]), "f": r.randrange(4), "n": nh, "sh": sh,
                     "cid": sum(1 for x in rows if x["ev"] == e), "pixels": pixels if hashit else [], "slope": [r.randrange(-20, 21), r.randrange(-20, 21)]})
    return {"size": size, "n": n, "res": res, "ext": ext, "cut": cut, "cell": cell, "regions": regions, "masked": masked, "mask": mask, "rows": rows}


def case(r):
    clusters = int(r.random() < .3)
    shift = [r.choice([0, 0, 0, 6, -20]), r.choice([0, 0, 0, 4])]
    duts = [rnd_dut(r, clusters, shift) for _ in range(r.choice([1, 1, 2, 3]))]
    m = max(len(q["rows"]) for q in duts)
    sel = r.sample(range(len(duts)), r.randrange(1, len(duts) + 1))
    return {"duts": duts, "select": sel, "clusters": clusters, "shift": shift, "form": int(r.random() < .5), "full": int(r.random() < .05), "dens": r.choice([1, 1, 2, 3]), "nbins": r.choice([1, 2, 5]), "chunk": r.choice([16, 25, 40, 1000000]) if clusters else r.choice([max(4, m // 4), max(4, m // 2), 1000000]),
            "place": {} if r.random() < .6 else {"translation_x": 100., "translation_z": 5000., "rotation_alpha": .1, "rotation_gamma": 1.5}}


def check(ctx):
    ctx.mc("EfficiencyMC", must_cover=["ReadChunk"])
    if not ctx.quick:
        ctx.mc("EfficiencyMC", "EfficiencyMCBig.cfg", timeout=1500)
    cases = [case(ctx.rng) for _ in range(ctx.n(160, 2500))]
    ctx.validate("EfficiencyTrace", split(ctx.execute(cases)), encode, kind="random files")
