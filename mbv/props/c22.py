"""C22: conversion of hit files, event ranges."""
ASSUMPTIONS = ["positions are multiples of 10 nm; exactly between two pixels both of them are accepted",
               "sensors without inverse of index to local position (Diamond types) are left out"]
from mbv.util import *
from mbv.props.c18 import SENSORS

U = 100.


def warmup(d):
    from beam_telescope_analysis import hit_analysis


def write(fn, rows, local, z):
    import tables as tb
    d = [("event_number", "i8"), ("frame", "u2"), ("x", "f8") if local else ("column", "u2"), ("y", "f8") if local else ("row", "u2")]
    if z:
        d += [("z", "f8")]
    d += [("charge", "f4"), ("extra", "i4")]
    a = np.zeros(len(rows), dtype=d)
    for k, h in enumerate(rows):
        a["event_number"][k] = h["ev"]
        a["frame"][k], a["charge"][k], a["extra"][k] = h["a"][0], h["a"][1] / 4., h["a"][2]
        for n, v in zip(("x", "y") if local else ("column", "row"), h["q"]):
            a[n][k] = v / (U if local else 4)
    with tb.open_file(fn, "w") as f:
        f.create_table(f.root, "Hits", obj=a, title="hits")
    return a.dtype


def readback(fn, local):
    import tables as tb
    with tb.open_file(fn, "r") as f:
        t = f.root.Hits
        a = t[:]
    n, s = (("x", "y"), U) if local else (("column", "row"), 4)
    return a, [{"ev": int(r["event_number"]), "a": [int(r["frame"]), int(round(float(r["charge"]) * 4)), int(r["extra"])], "q": [int(round(float(r[q]) * s)) for q in n]} for r in a]


def run_range(case):
    from beam_telescope_analysis.tools.analysis_utils import get_data_in_event_range
    res = []
    for q in case["ranges"]:
        a = np.zeros(len(q["ev"]), dtype=[("event_number", "i8"), ("k", "i4")])
        a["event_number"], a["k"] = q["ev"], np.arange(1, len(a) + 1)
        o, exc = [], ""
        lo, hi = [v[0] if v else None for v in (q["lo"], q["hi"])]
        try:
            for srt in (True, False):
                r = get_data_in_event_range(a, lo, hi, assume_sorted=srt)
                assert r.dtype == a.dtype
                o.append([int(v) for v in r["k"]])
            if not q.get("sorted", 1):
                o = o[1:]
        except Exception as e:
            exc = type(e).__name__
        res.append({"outs": o, "exc": exc})
    return {"exc": "", "res": res}


def run_case(case, d):
    if case["kind"] == "range":
        return run_range(case)
    import os
    from beam_telescope_analysis.hit_analysis import convert
    conf = telescope("tel.yaml", [dict({"dut_type": q["type"]}) if q["type"] else dict(column_size=q["px"] / U, row_size=q["py"] / U, n_columns=q["nc"], n_rows=q["nr"]) for q in case["all"]])
    names = ["in%d.h5" % k for k in range(case["nin"])]
    dts = [write(n, (case["files"] + case["files"] * 2)[k], case["local"], case["z"]) for k, n in enumerate(names)]
    stages = []
    for i in range(2 if case["back"] else 1):
        loc = bool(case["local"]) != bool(i)   # True: from local to index
        rows_in = [readback(n, loc)[1] for n in names[:len(case["select"])]]
        st = {"toLocal": not loc, "in": rows_in, "out": [], "exc": "", "same": 1, "form": 1}
        stages.append(st)
        ref = None
        for ch in case["chunks"]:
            outs = None if case["nout"] < 0 else ["o%d_%d.h5" % (i, k) for k in range(case["nout"])]
            try:
                o = convert(conf, names, output_hit_files=outs, select_duts=None if case["all_duts"] else list(case["select"]), index_to_local=not loc, chunk_size=ch)
            except ValueError:
                st["exc"] = "ValueError"
                break
            expect = outs if outs else [os.path.splitext(n)[0] + ("_index.h5" if loc else "_local_coordinates.h5") for n in names]
            st["form"] = int(bool(st["form"]) and list(o) == expect)
            got = [readback(n, not loc) for n in expect]
            if ref is None:
                ref = got
                st["out"] = [g[1] for g in got]
                for k, g in enumerate(got):
                    b, dt = g[0].dtype, dts[k]
                    ren = {"x": "column", "y": "row"} if loc else {"column": "x", "row": "y"}
                    want = [ren.get(n, n) for n in dt.names if not (loc and n == "z")]
                    st["form"] = int(bool(st["form"]) and list(b.names) == want and all(b[n] == (dt[n] if n in dt.names else np.dtype("u2" if loc else "f8")) for n in want))
            else:
                st["same"] = int(bool(st["same"]) and all(x[0].tobytes() == y[0].tobytes() for x, y in zip(ref, got)) and len(got) == len(ref))
        if st["exc"]:
            break
        names = expect
        dts = [g[0].dtype for g in ref]
    return {"exc": "", "stages": stages}


def encode(c, r):
    if c["kind"] == "range":
        q = c["ranges"][0]
        return {"kind": "range", "ev": q["ev"], "lo": q["lo"], "hi": q["hi"], "outs": r.get("outs", []), "exc": r["exc"]}
    return {"kind": "convert", "all": [{k: q[k] for k in ("px", "py", "nc", "nr")} for q in c["all"]], "select": list(range(len(c["all"]))) if c["all_duts"] else c["select"],
            "nin": c["nin"], "nout": c["nout"], "whole": c["whole"], "stages": r.get("stages", []), "exc": r["exc"]}


def geometry(r):
    if r.random() < .3:
        t = r.choice(sorted(SENSORS))
        s = SENSORS[t]
        return {"type": t, "px": s[0], "py": s[1], "nc": s[2], "nr": s[3]}
    return {"type": "", "px": r.choice([1840, 5000, 25000, 3333, r.randrange(100, 40000)]), "py": r.choice([1840, 5000, 10000, r.randrange(100, 40000)]), "nc": r.choice([1, 2, 7, 80, 1152]), "nr": r.choice([1, 3, 16, 336])}


def case(r):
    nd = r.choice([1, 2, 3, 4])
    al = [geometry(r) for _ in range(nd)]
    sel = list(range(nd))
    if r.random() < .6:
        sel = r.sample(sel, r.randrange(1, nd + 1))
    local = int(r.random() < .4)
    whole = not local
    files = []
    for s in sel:
        q = al[s]
        n = r.choice([0, 1, 6, 25])
        rows = []
        for k, e in enumerate(rnd_events(r, n)):
            if local:
                h = []
                for size, m in ((q["px"], q["nc"]), (q["py"], q["nr"])):
                    j = r.choice([1, m, r.randrange(1, m + 1)])
                    lo, hi = (2 * (j - 1) - m) * size, (2 * j - m) * size  # twice the edges
                    x = (lo + 1) // 2 + r.choice([0, 0, size // 2, size // 3, size - 3, r.randrange(size)])
                    lim = m * size // 2 - (1 if size % 100 else 0)  # rounding decides on the edge itself
                    h.append(max(-lim, min(x, lim)))
            else:
                h = [4 * r.choice([1, q["nc"], r.randrange(1, q["nc"] + 1)]), 4 * r.choice([1, q["nr"], r.randrange(1, q["nr"] + 1)])]
            rows.append({"ev": e, "a": [r.randrange(60000), r.randrange(500), k], "q": h})
        files.append(rows)
    x = r.random()
    if x < .12 and any(files):  # a hit outside of the matrix
        k = r.choice([i for i, f in enumerate(files) if f])
        h = r.choice(files[k])
        w = r.randrange(2)
        size, m = (al[sel[k]]["px"], al[sel[k]]["nc"]) if w == 0 else (al[sel[k]]["py"], al[sel[k]]["nr"])
        h["q"][w] = r.choice([-1, 1]) * (m * size // 2 + r.choice([60, size])) if local else 4 * r.choice([0, m + 1, m + 1, 60000])
    c = {"kind": "convert", "all": al, "select": sel, "all_duts": 0, "files": files, "local": local, "z": int(local and r.random() < .5), "back": 1, "whole": bool(whole),
         "nin": len(sel), "nout": r.choice([-1, len(sel)]), "chunks": [1000000, r.choice([4, 5, 8])]}
    if .12 < x < .18:
        c["nin" if r.random() < .5 else "nout"] = len(sel) + r.choice([-1, 1])
    elif .18 < x < .22:
        c["select"] = sel + [r.choice([-1, nd])]
        c["nin"] += 1
        c["files"] = files + [[]]
        c["nout"] = -1
    if sel == list(range(nd)) and r.random() < .5 and len(c["select"]) == nd:
        c["all_duts"] = 1
    return c


def rnd_range(r):
    n = r.choice([0, 1, 5, 30])
    ev = rnd_events(r, n, gaps=(1, 1, 2, 9), start=(0, 40))
    srt = int(r.random() < .7)
    if not srt:
        r.shuffle(ev)
    v = lambda: [] if r.random() < .2 else [r.choice([0, max(ev or [0]), max(ev or [0]) + 1, min(ev or [5]), r.randrange(60)])]
    return {"ev": ev, "lo": v(), "hi": v(), "sorted": srt}


def check(ctx):
    ctx.mc("ConvertHitsMC", must_cover=["MChunk", "MNextFile", "MBack"])
    if not ctx.quick:
        ctx.mc("ConvertHitsMC", "ConvertHitsMCBig.cfg", timeout=900)
    rng = ctx.enumerate("ConvertHitsMC", "ConvertHitsEnum.cfg" if ctx.quick else "ConvertHitsEnumBig.cfg")
    rng += [rnd_range(ctx.rng) for _ in range(ctx.n(2000, 30000))]
    cases = [{"kind": "range", "ranges": rng[k:k + 400]} for k in range(0, len(rng), 400)]
    recs = []
    for c, r in ctx.execute(cases):
        if r["exc"]:
            recs.append((dict(c, ranges=c["ranges"][:1]), r))
        else:
            recs += [(dict(c, ranges=[q]), o) for q, o in zip(c["ranges"], r["res"])]
    ctx.validate("ConvertHitsTrace", recs, encode, kind="event ranges")
    cases = [case(ctx.rng) for _ in range(ctx.n(250, 4000))]
    ctx.validate("ConvertHitsTrace", ctx.execute(cases), encode, kind="random files")
