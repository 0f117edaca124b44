"""C11: quality and isolation flags."""
ASSUMPTIONS = ["hits of the fit DUTs lie exactly on lines (positions are integers, so that the fitted intersections are known exactly), those of other DUTs anywhere; untilted planes; distances are half-integers, so that no comparison is on the edge, "
               "except for the ellipse, where points exactly on the edge are avoided", "the pool is replaced by a stand-in that runs the jobs on copies of their arguments"]
from mbv.util import *
from mbv import fit as F

STEP = 100000


def warmup(d):
    run_case({"nd": 2, "rows": [{"ev": 0, "line": [0, 0, 0, 0], "hits": [[0, 0], [0, 0]]}], "geo": [[0] * 6, [0, 0, 1000, 0, 0, 0]], "z": [0, 1], "chunks": [9, 5], "sel": [0, 1], "opts": {"exclude_dut_hit": False}}, d)


def run_case(case, d):
    nd = case["nd"]
    pos, rows = [[] for _ in range(nd)], []
    for r in case["rows"]:
        row = []
        for p in range(nd):
            if r["hits"][p]:
                pos[p].append(r["hits"][p])
                row.append(len(pos[p]))
            else:
                row.append(0)
        rows.append([r["ev"], row])
    sub = dict(case, rows=rows, pos=pos, scale=1.)
    conf, a = F.setup(sub)
    if case.get("pitches"):
        from beam_telescope_analysis.telescope.telescope import Telescope
        t = Telescope(conf)
        for p in range(nd):
            t[p].column_size, t[p].row_size = case["pitches"][p]
        t.save_configuration(conf)
    res = F.fit(sub, conf, a, case["chunks"][0])
    same = 1
    for ch in case["chunks"][1:]:
        o = F.fit(sub, conf, a, ch)
        same = int(same and set(o) == set(res) and all(F.same_table(o[k], res[k]) for k in o))
    tabs = []
    for s in case["sel"]:
        t = res.get("Tracks_DUT%d" % s)
        tabs.append([] if t is None else [{"ev": int(t["event_number"][k]), "quality": F.bits(t["quality_flag"][k], nd), "track": F.bits(t["isolated_track_flag"][k], nd), "hit": F.bits(t["isolated_hit_flag"][k], nd)} for k in range(len(t))])
    return {"exc": "", "same": same, "tables": tabs}


def encode(c, r):
    two = lambda v: [int(2 * q) for q in v]
    lim = []
    for p in range(c["nd"]):
        l = c["limits"][p] if c["opts"]["use_limits"] else None
        big = 10 ** 6
        lim.append([] if not l or (l[0] is None and l[1] is None) else [v for q in l for v in ([-big, big] if q is None else [max(-big, min(big, 2 * x)) for x in q])])
    lim = [[int(v) for v in l] for l in lim]
    return {"rows": c["rows"], "z": c["z"], "tr": [[int(g[0]), int(g[1])] for g in c["geo"]], "pitch": [two(q) for q in c["pitches"]], "qual": [[] if q is None else two(q) for q in c["qual"]],
            "iso": [[0, 0] if q is None else two(q) for q in c["iso"]], "lim": lim, "conf": [dict(eff=[p + 1 for p in k["eff"]], hits=[p + 1 for p in k["hits"]], min=k["min"]) for k in c["conf"]],
            "exc": r["exc"], "same": r.get("same", 1), "tables": r.get("tables", [])}


def inf(v):
    return float("inf") if v == 10 ** 9 else float("-inf") if v == -10 ** 9 else v


def on_edge(dx, dy, d):
    return d and d[0] and d[1] and dx * dx * d[1] ** 2 + dy * dy * d[0] ** 2 == d[0] ** 2 * d[1] ** 2


def case(r):
    nd = r.choice([3, 4, 4, 5])
    z = list(range(nd))
    if r.random() < .4:
        r.shuffle(z)
    geo = [[float(r.choice([0, 3, -20])), float(r.choice([0, 4, -12])), float(STEP * z[p]), 0., 0., 0.] for p in range(nd)]
    core = sorted(r.sample(range(nd), r.randrange(2, nd + 1)))
    half = lambda a, b: r.randrange(a, b) + .5
    pitches = [[r.choice([2, 4, 6]), r.choice([2, 4, 6])] for _ in range(nd)]
    qual = [r.choice([None, [half(0, 4), half(0, 4)], [half(10, 18), half(10, 18)], [half(4, 22), half(4, 22)], [half(12, 14), half(2, 14)]]) for _ in range(nd)]
    iso = [r.choice([None, [half(0, 6), half(0, 6)], [half(6, 30), half(6, 30)], [half(3, 12), half(3, 40)], [half(8, 20), 0]]) for _ in range(nd)]
    if r.random() < .25:
        qual = [qual[0]] * nd
    if r.random() < .25:
        iso = [iso[0]] * nd
    lim = [None if r.random() < .5 else [r.choice([None, [-half(0, 20), half(0, 20)], [half(-20, -5), half(-5, 30)], [-10 ** 9, half(0, 20)], [half(-15, 5), 10 ** 9]]) for _ in range(2)] for _ in range(nd)]
    sel = r.sample(range(nd), r.choice([1, 2, nd]))
    conf = []
    for s in sel:
        while True:
            fit = sorted(r.sample(core, r.randrange(2, len(core) + 1)))
            excl = r.random() < .5
            eff = [p for p in fit if not (excl and p == s)]
            if len(eff) >= 2:
                break
            if len(core) == 2:
                excl, eff = False, fit
                break
        conf.append({"dut": s, "fit": fit, "excl": excl, "eff": eff, "min": r.choice([2, 2, len(eff)]), "hits": sorted(r.sample(range(nd), r.choice([0, 0, 1])))})
    if r.random() < .4:
        same = [c for c in conf]
        for c in same:
            c.update(fit=list(core), excl=False, eff=list(core), min=2, hits=[])
    rows, e, span = [], r.randrange(3), r.choice([8, 20, 40])
    for _ in range(r.choice([4, 8, 14])):
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            while True:
                l = [r.randrange(-span, span), r.randrange(-span, span), r.randrange(-2, 3), r.randrange(-2, 3)]
                hits = []
                for p in range(nd):
                    x = [l[0] + l[2] * z[p] - int(geo[p][0]), l[1] + l[3] * z[p] - int(geo[p][1])]
                    if p not in core:
                        x = [x[0] + r.randrange(-20, 21), x[1] + r.randrange(-20, 21)]
                    hits.append(x if r.random() < .8 else [])
                ok = True
                row = {"ev": e, "line": l, "hits": hits}
                loc = lambda q, p: [q["line"][a] + q["line"][a + 2] * z[p] - int(geo[p][a]) for a in (0, 1)]
                for p in range(nd):
                    a = loc(row, p)
                    if hits[p] and on_edge(hits[p][0] - a[0], hits[p][1] - a[1], qual[p]):
                        ok = False
                    for q in rows:
                        if q["ev"] == e:
                            b = loc(q, p)
                            if on_edge(a[0] - b[0], a[1] - b[1], iso[p]) or (a[0] == b[0] and a[1] == b[1]) or (iso[p] and iso[p][1] == 0 and a[1] == b[1]) or \
                                    (hits[p] and q["hits"][p] and on_edge(hits[p][0] - q["hits"][p][0], hits[p][1] - q["hits"][p][1], iso[p])):
                                ok = False
                if ok:
                    break
            rows.append(row)
        e += r.choice([1, 1, 3])
    tup = lambda v: [None if x is None else x for x in v]
    o = {"select_duts": sel, "select_fit_duts": [c["fit"] for c in conf], "select_hit_duts": [c["hits"] for c in conf], "min_track_hits": [c["min"] for c in conf], "exclude_dut_hit": [c["excl"] for c in conf],
         "quality_distances": {"all": qual[0]} if all(q == qual[0] for q in qual) and r.random() < .7 else tup(qual), "isolation_distances": {"all": iso[0]} if all(q == iso[0] for q in iso) and r.random() < .7 else tup(iso),
         "use_limits": r.random() < .7}
    limits = [None if l is None else [None if q is None else [inf(v) for v in q] for q in l] for l in lim]
    return {"nd": nd, "rows": rows, "geo": geo, "z": z, "pitches": pitches, "qual": qual, "iso": iso, "limits": limits, "sel": sel, "conf": conf, "opts": o, "chunks": [1000, r.choice([6, 7, 9, 17])], "cpus": r.choice([1, 3])}


def check(ctx):
    r = ctx.rng
    ctx.mc_bg("TrackFlagsMC", "TrackFlagsMC.cfg" if ctx.quick else "TrackFlagsMCBig.cfg", timeout=2000, must_cover=["Compare", "Advance"])
    recs = ctx.execute([case(r) for _ in range(ctx.n(320, 6000))])
    ctx.validate("TrackFlagsTrace", recs, encode)
