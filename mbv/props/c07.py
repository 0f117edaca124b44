"""C07: track finding only regroups the hits of each DUT within an event."""
ASSUMPTIONS = ["no event has more rows than the chunk size (else reading refuses, see C01)"]
from mbv.util import *


def warmup(d):
    run_case({"nd": 2, "rows": [[0, [1, 1]], [0, [2, 2]]], "geo": [[0] * 6, [0, 0, 1000, 0, 0, 0]], "tele": [0] * 6, "align": True, "ext": None, "pos": [[[0, 0], [800, 0]], [[800, 8], [0, 0]]], "chunks": [9]}, d)


def run_case(case, d):
    from beam_telescope_analysis.track_analysis import find_tracks
    nd, rows = case["nd"], case["rows"]
    names = ("translation_x", "translation_y", "translation_z", "rotation_alpha", "rotation_beta", "rotation_gamma")
    conf = telescope("tel.yaml", [dict(zip(names, g), column_size=50, row_size=50, n_columns=1000, n_rows=1000) for g in case["geo"]], **dict(zip(names, case["tele"])))
    sc = case.get("scale", 8.)
    a = merged_table(nd, rows, lambda h, dd: [v / sc for v in case["pos"][dd][h - 1]])
    f = h5table("merged.h5", "MergedClusters", a)
    outs = []
    for ch in case["chunks"]:
        out = find_tracks(conf, f, "cand.h5", select_extrapolation_duts=case["ext"], align_to_beam=case["align"], chunk_size=ch)
        outs.append(h5read(out, "TrackCandidates"))
    o = outs[0]
    same = all(np.array_equal(o[n], q[n], equal_nan=o[n].dtype.kind == "f") for q in outs[1:] for n in o.dtype.names) if all(q.shape == o.shape and q.dtype == o.dtype for q in outs) else False
    same = same and o.dtype == a.dtype
    if case.get("ids"):  # numbers of the hits only
        return {"exc": "", "same": same, "ev": [int(v) for v in o["event_number"]], "out": [[int(o["cluster_shape_dut_%d" % i][k]) % 100000 for i in range(nd)] for k in range(len(o))]}
    return {"exc": "", "same": same, "ev": [int(v) for v in o["event_number"]], "flags": [int(v) for v in o["hit_flag"]],
            "out": [[cell(o, k, i) for i in range(nd)] for k in range(len(o))], "in": [[cell(a, k, i) for i in range(nd)] for k in range(len(a))]}


def split(recs):
    """one recording per event; rows are attributed to events by their place in the table"""
    out = []
    for c, r in recs:
        k = 0
        ev = [x[0] for x in c["rows"]]
        while k < len(ev):
            e = k
            while e < len(ev) and ev[e] == ev[k]:
                e += 1
            cc = {"nd": c["nd"], "ev": ev[k], "rows": [x[1] for x in c["rows"][k:e]], "geo": c["geo"], "chunks": c["chunks"], "ext": c["ext"], "align": c["align"], "tele": c["tele"]}
            if r["exc"]:
                out.append((cc, {"exc": r["exc"]}))
                break
            last = e == len(ev)
            e2 = len(r["out"]) if last else e  # surplus rows go to the last event
            rr = {"exc": "", "same": r["same"], "ev": r["ev"][k:e2], "out": r["out"][k:e2]}
            if "flags" in r:
                rr.update(flags=r["flags"][k:e2])
                rr["in"] = r["in"][k:e]
            out.append((cc, rr))
            k = e
    return out


def encode(c, r):
    return {"nd": c["nd"], "ev": c["ev"], "exc": r["exc"], "same": r.get("same", True), "oev": r.get("ev", []), "flags": [[(f >> i) & 1 for i in range(c["nd"])] for f in r.get("flags", [])], "in": r.get("in", []), "out": r.get("out", [])}


def geo(r, nd):
    z = list(range(nd))
    r.shuffle(z) if r.random() < .3 else None
    return [[r.choice([0, 250, -100]), r.choice([0, -300]), 10000. * k + r.choice([0, 700]), r.choice([0, 0, .02, -.3]), r.choice([0, 0, .2]), r.choice([0, 0, .01, 3.14])] for k in z]


def case(r, nd, events):
    """events: list of rows [hit or not] * nd; hits are numbered here"""
    rows, pos, e = [], [[] for _ in range(nd)], r.randrange(3)
    kind = r.randrange(3)
    for ev in events:
        for x in ev:
            row = []
            for d in range(nd):
                if x[d]:
                    pos[d].append([8 * r.randrange(-3, 4), 0] if kind == 0 else [r.randrange(-80000, 80000), r.randrange(-80000, 80000)] if kind == 1 else [800 * (len(pos[d]) % 5) + r.randrange(30), r.randrange(50)])
                    row.append(len(pos[d]))
                else:
                    row.append(0)
            rows.append([e, row])
        e += r.choice([1, 1, 2])
    mx = max([len(x) for x in events])
    ext = r.choice([None, None, [], [r.randrange(nd)], sorted(r.sample(range(nd), r.randrange(2, nd + 1)))])
    return {"nd": nd, "rows": rows, "pos": pos, "geo": geo(r, nd), "tele": r.choice([[0.] * 6, [10., -20., 0., .002, -.003, 0.]]), "align": bool(r.randrange(2)), "ext": ext,
            "chunks": [r.choice([1000, len(rows) + 1]), r.choice([mx + 1, mx + 1, mx + 3, 2 * mx + 1])]}


def check(ctx):
    r = ctx.rng
    ctx.mc_bg("FindTracksMC", "FindTracksAny.cfg" if ctx.quick else "FindTracksAnyBig.cfg", timeout=1500, must_cover=["Keep", "Take"])
    ctx.mc_bg("FindTracksMC", "FindTracksLive.cfg")
    cases = []
    # all hit patterns of events with few rows and DUTs
    pats = [[[(m >> (2 * q + d)) & 1 for d in range(2)] for q in range(2)] for m in range(1, 16)] + \
           [[[(m >> (3 * q + d)) & 1 for d in range(3)] for q in range(2)] for m in range(1, 64)]
    for nd in (2, 3):
        p = [x for x in pats if len(x[0]) == nd and all(any(y) for y in x)]
        for _ in range(ctx.n(4, 40)):
            r.shuffle(p)
            cases.append(case(r, nd, list(p)))
    for _ in range(ctx.n(110, 1500)):
        nd = r.choice([2, 3, 4, 4, 6, 7, 12])
        events, style = [], r.randrange(3)
        for _ in range(r.choice([1, 4, 10])):
            n = r.choice([1, 1, 2, 3, 5, 8])
            if style == 0:  # as merged: the hits of a DUT fill the first rows
                m = [r.randrange(n + 1) for _ in range(nd)]
                m[r.randrange(nd)] = n
                ev = [[int(q < m[d]) for d in range(nd)] for q in range(n)]
            else:
                ev = [[int(r.random() < (.8 if style == 1 else .5)) for _ in range(nd)] for _ in range(n)]
            events.append(ev)
        cases.append(case(r, nd, events))
    recs = ctx.execute(cases)
    ctx.validate("FindTracksRegroupTrace", split(recs), encode)
