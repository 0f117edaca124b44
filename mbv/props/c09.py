"""C09: which candidates are fitted, with which hits, and stored."""
ASSUMPTIONS = ["the fitted lines are checked on untilted planes (tilted ones: C10)", "the pool is replaced by a stand-in that runs the jobs on copies of their arguments",
               "position errors are a few um for the Kalman filter (far smaller ones are beyond its numerics); it needs three hits (its number of degrees of freedom is else zero); it is checked here for the selection only"]
from mbv.util import *
from mbv import fit as F

PITCH = 100000.   # distance of the planes, um


def warmup(d):
    run_case({"nd": 2, "rows": [[0, [1, 1]]], "geo": [[0] * 6, [0, 0, 1000, 0, 0, 0]], "pos": [[[0, 0]], [[8, 8]]], "chunks": [9, 5], "opts": {"exclude_dut_hit": False, "full_track_info": True}, "sel": [0, 1], "alone": None}, d)


def run_case(case, d):
    nd = case["nd"]
    conf, a = F.setup(case)
    res = F.fit(case, conf, a, case["chunks"][0])
    same = 1
    for ch in case["chunks"][1:]:
        o = F.fit(case, conf, a, ch)
        same = int(same and set(o) == set(res) and all(F.same_table(o[k], res[k]) for k in o))
    alone = 1
    if case["alone"] is not None:
        o = F.fit(case, conf, a, case["chunks"][0], opts=case["alone"])
        k = "Tracks_DUT%d" % case["alone"]["select_duts"][0]
        alone = int((k in o) == (k in res) and (k not in o or F.same_table(o[k], res[k])))
    names = ["Tracks_DUT%d" % s for s in case["sel"]]
    tabs = []
    kal = case["opts"].get("method") == "kalman"
    for s, n in zip(case["sel"], names):
        if n not in res:
            tabs.append({"present": 0, "rows": []})
            continue
        t = res[n]
        rows = []
        for k in range(len(t)):
            fitted = not np.isnan(t["offset_x"][k])
            r = {"ev": int(t["event_number"][k]), "flag": F.bits(t["hit_flag"][k], nd), "cells": [cell(t, k, i, 10) for i in range(nd)], "fitted": int(fitted)}
            if fitted:
                e = lambda v, sc: int(round(float(v) * sc)) if abs(float(v) * sc) < 1e9 else 1000000000
                r["off"] = [[e(t["offset_%s_dut_%d" % (q, i)][k], 10) for q in "xy"] for i in range(nd)]
                r["own"] = [e(t["offset_x"][k], 10), e(t["offset_y"][k], 10), e(t["offset_z"][k], 10)]
                sz = t["slope_z"][k]
                r["szpos"] = int(sz > 0)
                r["slope"] = [e(t["slope_%s" % q][k] / sz, 10 * PITCH) for q in "xy"]
            rows.append(r)
        tabs.append({"present": 1, "rows": rows})
    return {"exc": "", "same": same, "alone": alone, "extra": len(set(res) - set(names)), "tables": tabs, "cells": [[cell(a, k, i, 10) for i in range(nd)] for k in range(len(a))]}


def encode(c, r):
    nd = c["nd"]
    return {"conf": [dict(q, dut=q["dut"] + 1, fit=[d + 1 for d in q["fit"]], hits=[d + 1 for d in q["hits"]], excl=int(q["excl"])) for q in c["conf"]], "need": 3 if c["opts"].get("method") == "kalman" else 2,
            "rows": [[x[0], [d + 1 for d in range(nd) if x[1][d]]] for x in c["rows"]], "z": c["z"], "tr": [[int(10 * g[0]), int(10 * g[1])] for g in c["geo"]], "keep": int(bool(c["opts"].get("keep_data"))),
            "kal": int(c["opts"].get("method") == "kalman"), "exc": r["exc"], "same": r.get("same", 1), "alone": r.get("alone", 1), "extra": r.get("extra", 0), "tables": r.get("tables", []), "cells": r.get("cells", [])}


def options(r, nd, conf):
    """conf -> arguments, in one of the ways the same can be said"""
    o = {"select_duts": [c["dut"] for c in conf], "select_fit_duts": [list(c["fit"]) for c in conf], "select_hit_duts": [list(c["hits"]) for c in conf],
         "min_track_hits": [c["min"] or None for c in conf], "exclude_dut_hit": [c["excl"] for c in conf], "full_track_info": True}
    same = lambda k: all(c[k] == conf[0][k] for c in conf)
    short = r.random() < .6
    if short and o["select_duts"] == list(range(nd)) and r.random() < .7:
        o["select_duts"] = None
    if short and same("fit") and r.random() < .7:
        o["select_fit_duts"] = None if len(conf[0]["fit"]) == nd else list(conf[0]["fit"])
    else:
        o["select_fit_duts"] = [None if len(x) == nd and r.random() < .5 else x for x in o["select_fit_duts"]]
        if all(x is None for x in o["select_fit_duts"]):
            o["select_fit_duts"] = None
    if short and same("hits") and r.random() < .7:
        o["select_hit_duts"] = None if not conf[0]["hits"] else list(conf[0]["hits"])
    else:
        o["select_hit_duts"] = [None if not x and r.random() < .5 else x for x in o["select_hit_duts"]]
    if short and same("min") and r.random() < .7:
        o["min_track_hits"] = conf[0]["min"] or None
    if short and same("excl") and r.random() < .7:
        o["exclude_dut_hit"] = conf[0]["excl"]
    return o


def case(r, nd, conf, method="fit", keep=False):
    if r.random() < .4:
        conf = conf[::-1]
    z = list(range(nd))
    if r.random() < .3:
        r.shuffle(z)
    if r.random() < .3:
        z = [q * 2 if q else 0 for q in z]
    geo = [[float(r.choice([0, 30, -200])), float(r.choice([0, 45, -120])), PITCH * z[d], 0., 0., 0.] for d in range(nd)]
    rows, pos, e = [], [[] for _ in range(nd)], r.randrange(3)
    pats = [[(m >> d) & 1 for d in range(nd)] for m in range(1, 1 << nd)] if nd <= 3 else \
           [[int(r.random() < .8) for _ in range(nd)] for _ in range(r.choice([5, 12]))]
    pats = [p for p in pats if any(p)] * (2 if nd == 3 else 1)
    r.shuffle(pats)
    if r.random() < .3:
        pats = pats[:r.choice([1, 2, 5])]
    run = 0
    top = 200 if method == "kalman" else 3000
    for p in pats:
        row = []
        for d in range(nd):
            if p[d]:
                pos[d].append([r.randrange(-top, top) / 10., r.randrange(-top, top) / 10.])
                row.append(len(pos[d]))
            else:
                row.append(0)
        rows.append([e, row])
        run += 1
        if run == 3 or r.random() < .5:
            e += r.choice([1, 1, 2])
            run = 0
    opts = options(r, nd, conf)
    if method == "kalman":
        opts.update(method="kalman", beam_energy=5000., particle_mass=0.511)
    if keep:
        opts["keep_data"] = True
    alone = None
    if len(conf) > 1:
        q = r.choice(conf)
        alone = {"select_duts": [q["dut"]], "select_fit_duts": [list(q["fit"])], "select_hit_duts": [list(q["hits"])], "min_track_hits": [q["min"] or None], "exclude_dut_hit": [q["excl"]]}
    return {"nd": nd, "rows": rows, "pos": pos, "scale": 1., "geo": geo, "z": z, "conf": conf, "sel": [q["dut"] for q in conf], "opts": opts, "alone": alone, "material": [.001 + .0001 * d for d in range(nd)],
            "err": 8. if method == "kalman" else None, "chunks": [r.choice([1000, 4]), r.choice([4, 4, 5, 7, 1000])], "cpus": r.choice([1, 2, 3, 8])}


def check(ctx):
    r = ctx.rng
    ctx.mc_bg("FitSelectMC", "FitSelectMC.cfg" if ctx.quick else "FitSelectMCBig.cfg", timeout=2000, must_cover=["Start", "Chunk", "Finish"])
    confs = ctx.enumerate("FitSelectMC", "FitSelectEnum.cfg")
    def valid(q):
        e = len([d for d in q["fit"] if not (q["excl"] and d == q["dut"])])
        return e >= 2 and q["min"] <= e
    good = [q for q in confs if valid(q)]
    cases = []
    for n in range(ctx.n(170, 6000)):
        pick = confs if n % 5 == 4 else good
        a = r.choice(pick)
        b = r.choice([q for q in pick if q["dut"] != a["dut"] and (q["fit"] == a["fit"] and q["hits"] == a["hits"] and q["min"] == a["min"] or len(cases) % 3 == 0)])
        cf = [a, b]
        conf = [{"dut": q["dut"] - 1, "fit": sorted(d - 1 for d in q["fit"]), "hits": sorted(d - 1 for d in q["hits"]), "min": q["min"], "excl": q["excl"]} for q in cf]
        k = len(cases) % 10
        cases.append(case(r, 3, conf, keep=k in (1, 2)))
    for k in range(ctx.n(130, 2500)):
        nd = r.choice([3, 4, 5, 6])
        kal = k % 12 == 0
        share = r.random() < .5
        base = {"fit": sorted(r.sample(range(nd), r.randrange(2, nd + 1))), "hits": sorted(r.sample(range(nd), r.choice([0, 0, 1, 2]))), "min": r.choice([0, 0, 2, 3]), "excl": r.random() < .5}
        conf = []
        for d in r.sample(range(nd), r.choice([1, 2, 3, nd])):
            q = dict(base, dut=d)
            if not share or r.random() < .3:
                q.update(fit=sorted(r.sample(range(nd), r.randrange(2, nd + 1))), hits=sorted(r.sample(range(nd), r.choice([0, 1, 2]))), min=r.choice([0, 2, 3]), excl=r.random() < .5)
            e = [d for d in q["fit"] if not (q["excl"] and d == q["dut"])]
            if len(e) < 2 or q["min"] > len(e):
                q.update(fit=list(range(nd)), min=0)
            conf.append(q)
        cases.append(case(r, nd, conf, "kalman" if kal else "fit", keep=k % 7 == 3))
    recs = ctx.execute(cases, jit=False)
    ctx.validate("FitSelectTrace", recs, encode)
