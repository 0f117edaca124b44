"""C13: selection of tracks."""
ASSUMPTIONS = ["the isolated-track flag is required whether or not the DUT has a hit (as implemented; the documentation restricts it to DUTs with hit); quality and isolated-hit flags where the DUT has a hit, as documented",
               "columns of the query hold integers; query values are half-integers, so that no rounding matters"]
from mbv.util import *

COLS = ["track_chi2", "n_hits_dut_0", "event_number", "x_dut_0", "charge_dut_0", "slope_x", "offset_y"]
OPS = ["<", "<=", ">", ">=", "==", "!="]
FLAGS = (("hit", "hit_flag"), ("qual", "quality_flag"), ("itrk", "isolated_track_flag"), ("ihit", "isolated_hit_flag"))


def dtype(nd):
    return np.dtype(merged_dtype(nd).descr + [(n, "f8") for n in ("offset_x", "offset_y", "offset_z", "slope_x", "slope_y", "slope_z")] +
                    [("track_chi2", "f4"), ("quality_flag", "u4"), ("isolated_track_flag", "u4"), ("isolated_hit_flag", "u4"), ("number", "i8")])


def tracks(nd, rows):
    a = np.zeros(len(rows), dtype=dtype(nd))
    for n in a.dtype.names:
        a[n] = (np.arange(len(rows)) * 7 + len(n)) % 100
    for k, f in FLAGS:
        a[f] = [sum(1 << d for d in r[k]) for r in rows]
    a["event_number"] = [r["ev"] for r in rows]
    a["number"] = np.arange(len(rows)) + 1
    for i, c in enumerate(COLS):
        a[c] = [np.nan if r["v"][i] == NAN else r["v"][i] for r in rows]
    return a


def qstr(q):
    num = lambda v: "%d" % (v // 2) if v % 2 == 0 else "%.1f" % (v / 2.)
    if len(q) == 1 and len(q[0]) == 1:
        return "%s %s %s" % (COLS[q[0][0][0] - 1], OPS[q[0][0][1] - 1], num(q[0][0][2]))
    return " | ".join("(" + " & ".join("(%s %s %s)" % (COLS[a[0] - 1], OPS[a[1] - 1], num(a[2])) for a in k) + ")" for k in q)


def warmup(d):
    from beam_telescope_analysis.tools import data_selection


def run_case(case, d):
    import os
    import tables as tb
    from beam_telescope_analysis.tools.data_selection import select_tracks
    nd = case["nd"]
    conf = telescope("tel.yaml", [dict(translation_z=1000. * i, column_size=50, row_size=50, n_columns=10, n_rows=10) for i in range(nd)])
    tabs = {t["dut"]: tracks(nd, t["rows"]) for t in case["tables"]}
    with tb.open_file("tracks.h5", "w") as f:
        for k in tabs:
            f.create_table(f.root, "Tracks_DUT%d" % k, obj=tabs[k])
    outs, exc = [], ""
    for ch in case["chunks"]:
        try:
            out = select_tracks(conf, "tracks.h5", output_tracks_file="sel.h5", chunk_size=ch, **case["args"])
        except ValueError as e:
            msg = str(e)
            if exc == "":
                exc = "ValueError"
            break
        res = {}
        with tb.open_file(out, "r") as f:
            for n in f.list_nodes("/", classname="Table"):
                res[n.name] = n[:]
        outs.append(res)
    if exc:
        return {"exc": exc, "tb": msg}
    o = outs[0]
    same = all(set(q) == set(o) and all(q[k].dtype == o[k].dtype and q[k].tobytes() == o[k].tobytes() for k in o) for q in outs[1:])
    res = {}
    for t in case["tables"]:
        a = tabs[t["dut"]]
        n = "Tracks_DUT%d" % t["dut"]
        if n in o:
            b = o[n]
            num = lambda k: int(b["number"][k]) if b.dtype == a.dtype and 0 < b["number"][k] <= len(a) and a[b["number"][k] - 1].tobytes() == b[k].tobytes() else 0
            res[str(t["dut"])] = [num(k) for k in range(len(b))]
    return {"exc": "", "same": int(same), "out": res, "extra": len(set(o) - set("Tracks_DUT%d" % c["dut"] for c in case["conf"]))}


def split(recs):
    out = []
    for c, r in recs:
        for k in c["conf"]:
            out.append(({"rows": [t["rows"] for t in c["tables"] if t["dut"] == k["dut"]][0], "conf": k, "bad": c["bad"], "args": c["args"]}, dict(r, out=r.get("out", {}).get(str(k["dut"])))))
    return out


def encode(c, r):
    p = lambda s: [d + 1 for d in s]
    rows = [dict({k: p(x[k]) for k, _ in FLAGS}, v=x["v"]) for x in c["rows"]]
    k = c["conf"]
    return {"rows": rows, "conf": {"hit": p(k["hit"]), "nohit": p(k["nohit"]), "qual": p(k["qual"]), "itrk": p(k["itrk"]), "ihit": p(k["ihit"]), "q": k["q"]}, "bad": c["bad"], "exc": r["exc"], "same": r.get("same", 1),
            "extra": r.get("extra", 0), "present": int(r["out"] is not None), "out": r["out"] or []}


def subset(r, nd, p):
    return [d for d in range(nd) if r.random() < p]


def rows(r, nd, n, p):
    evs = rnd_events(r, n)
    out = []
    for e in evs:
        hit = subset(r, nd, p)
        v = [r.randrange(6), r.randrange(4), e, r.choice([NAN, -3, 0, 2, 50]), r.choice([NAN, 0, 5, 20]), r.randrange(-2, 3), r.randrange(-100, 100)]
        out.append({"ev": e, "hit": hit, "qual": subset(r, nd, p), "itrk": subset(r, nd, p), "ihit": subset(r, nd, p), "v": v})
    return out


def query(r):
    if r.random() < .4:
        return []
    return [[[r.randrange(1, len(COLS) + 1), r.randrange(1, 7), r.choice([-5, -4, 0, 1, 4, 5, 6, 9, 10])] for _ in range(r.choice([1, 1, 2]))] for _ in range(r.choice([1, 1, 1, 2]))]


ARGS = (("hit", "select_hit_duts"), ("nohit", "select_no_hit_duts"), ("qual", "select_quality_duts"), ("itrk", "select_isolated_track_duts"), ("ihit", "select_isolated_hit_duts"))


def arguments(r, conf, perm=None):
    a = {"select_duts": [c["dut"] for c in conf]}
    for k, n in ARGS:
        v = [list(c[k]) for c in conf]
        for q in v:
            r.shuffle(q)
        if all(not q for q in v) and r.random() < .5:
            continue
        if all(sorted(q) == sorted(v[0]) for q in v) and v[0] and r.random() < .6:
            a[n] = v[0]
        else:
            a[n] = [None if not q and r.random() < .3 else q for q in v]
    q = [qstr(c["q"]) if c["q"] else "" for c in conf]
    if any(q) or r.random() < .3:
        a["query"] = q[0] if all(x == q[0] for x in q) and r.random() < .5 else q
    return a


def case(r):
    nd = r.choice([1, 2, 3, 5, 12])
    p = r.choice([.5, .7, .9])
    sel = r.sample(range(nd), r.randrange(1, min(nd, 4) + 1))
    tables = [{"dut": d, "rows": rows(r, nd, r.choice([0, 3, 20, 60]), p)} for d in range(nd) if d in sel or r.random() < .3]
    conf = []
    for s in sel:
        u = r.choice([.1, .1, .3])
        hit, noh = subset(r, nd, u), subset(r, nd, u)
        if r.random() < .95:
            noh = [d for d in noh if d not in hit]
        conf.append({"dut": s, "hit": hit, "nohit": noh, "qual": subset(r, nd, u), "itrk": subset(r, nd, u), "ihit": subset(r, nd, u), "q": query(r)})
    if r.random() < .2:
        conf = [dict(conf[0], dut=c["dut"]) for c in conf]
    bad = int(any(set(c["hit"]) & set(c["nohit"]) for c in conf))
    a = arguments(r, conf)
    if not bad and r.random() < .04:  # wrong number of entries
        k = r.choice([n for _, n in ARGS])
        a[k] = [[] for _ in range(len(sel) + r.choice([1, 2]))]
        bad = 1
    return {"nd": nd, "tables": tables, "conf": conf, "args": a, "bad": bad, "chunks": [1000, r.choice([6, 7, 11, 25])]}


def check(ctx):
    r = ctx.rng
    ctx.mc_bg("SelectTracksMC", "SelectTracksMC.cfg" if ctx.quick else "SelectTracksMCBig.cfg", must_cover=["ReadChunk"])
    # every configuration of two DUTs against tracks with all kinds of flags
    enum = ctx.enumerate("SelectTracksMC", "SelectTracksEnum.cfg")
    cases = []
    good = [e for e in enum if not set(e["hit"]) & set(e["nohit"])]
    r.shuffle(good)
    conflict = [e for e in enum if set(e["hit"]) & set(e["nohit"])]
    m1 = lambda e: {k: [d - 1 for d in e[k]] for k, _ in ARGS}
    sets = [[], [0], [1], [0, 1]]
    full = [{"hit": a, "qual": b, "itrk": c, "ihit": d} for a in sets for b in sets for c in sets for d in sets]
    for k in range(0, len(good), 2):
        conf = [dict(m1(e), dut=i, q=[]) for i, e in enumerate(good[k:k + 2])]
        tabs = []
        for i in range(2):
            f = r.sample(full, 48)
            tabs.append({"dut": i, "rows": [dict(x, ev=j // 3, v=[0, 0, j // 3, 0, 0, 0, 0]) for j, x in enumerate(f)]})
        cases.append({"nd": 2, "tables": tabs, "conf": conf, "args": arguments(r, conf), "bad": 0, "chunks": [1000, 7]})
    for e in r.sample(conflict, ctx.n(60, len(conflict))):
        conf = [dict(m1(e), dut=0, q=[])]
        cases.append({"nd": 2, "tables": [{"dut": 0, "rows": []}], "conf": conf, "args": arguments(r, conf), "bad": 1, "chunks": [1000]})
    recs = ctx.execute(cases + [case(r) for _ in range(ctx.n(600, 10000))])
    ctx.validate("SelectTracksTrace", split(recs), encode)
