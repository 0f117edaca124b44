"""C23: check of hit files."""
ASSUMPTIONS = ["bin widths and positions are multiples of 10 nm (exactly on a bin edge: only where the edge is exact in floating point)",
               "pitches whose number of pixels survives the rounding of width / pitch (5 % of random pitches do not, no known sensor is among them)"]
import math
from mbv.util import *
from mbv.props.c22 import geometry

U = 100.


def warmup(d):
    run_case({"duts": [{"px": 5000, "py": 5000, "nc": 4, "nr": 4, "type": ""}], "files": [[{"ev": 0, "q": [4, 4]}, {"ev": 1, "q": [4, 4]}]], "select": [0], "clusters": 0, "local": 0, "range": [1], "res": [[]],
              "form": 0, "chunks": [10]}, d)


def write(fn, rows, clusters, local):
    import tables as tb
    names = ("mean_" if clusters else "") + ("x" if local else "column"), ("mean_" if clusters else "") + ("y" if local else "row")
    d = [("event_number", "i8"), ("frame", "u2")] + ([("ID", "u2"), ("n_hits", "u2"), ("seed_column", "u2")] if clusters else []) + [(n, "f8" if local or clusters else "u2") for n in names] + [("charge", "f4")]
    a = np.zeros(len(rows), dtype=d)
    a["event_number"] = [h["ev"] for h in rows]
    for i, n in enumerate(names):
        a[n] = [h["q"][i] / (U if local else 4) for h in rows]
    a["charge"] = 3
    with tb.open_file(fn, "w") as f:
        f.create_table(f.root, "Clusters" if clusters else "Hits", obj=a)


def run_case(case, d):
    import os
    import tables as tb
    from beam_telescope_analysis.hit_analysis import check as check_hits
    conf = telescope("tel.yaml", [dict({"dut_type": q["type"]}) if q["type"] else dict(column_size=q["px"] / U, row_size=q["py"] / U, n_columns=q["nc"], n_rows=q["nr"]) for q in case["duts"]])
    names = ["in%d.h5" % k for k in range(len(case["select"]))]
    for n, rows in zip(names, case["files"]):
        write(n, rows, case["clusters"], case["local"])
    out = [{"exc": "", "evs": [], "deltas": [], "corr": [], "same": 1} for _ in case["select"]]
    for j, ch in enumerate(case["chunks"]):
        rng = case["range"] if len(case["range"]) > 1 or case["form"] else case["range"][0]
        res = [tuple(v / U for v in q) if q else None for q in case["res"]]
        if not any(case["res"]):
            res = None
        outs = None if j % 2 else ["c%d.h5" % k for k in range(len(names))]
        exc = ""
        try:
            o = check_hits(conf, names, output_check_files=outs, select_duts=case["select"], event_ranges=rng, resolutions=res, plot=False, chunk_size=ch)
        except (RuntimeError, ValueError) as e:
            exc = type(e).__name__
        for k, n in enumerate(names):
            r = out[k]
            if exc:
                if j == 0:
                    r["exc"] = exc
                r["same"] = int(r["same"] and r["exc"] != "")
                continue
            fn = outs[k] if outs else os.path.splitext(n)[0] + "_check.h5"
            assert o[k] == fn
            with tb.open_file(fn, "r") as f:
                q = [[int(v) for v in f.root.EventNumber[:]], [int(v) for v in f.root.EventDelta[:]], []]
                for m in (f.root.CorrelationColumns[:], f.root.CorrelationRows[:]):
                    assert m.shape[0] == m.shape[1]
                    q[2].append({"n": int(m.shape[0]), "ent": [[int(x), int(y), int(m[x, y])] for x, y in zip(*np.nonzero(m))]})
            if j == 0:
                r["evs"], r["deltas"], r["corr"] = q
            elif q != [r["evs"], r["deltas"], r["corr"]]:
                r["same"] = 0
    return {"exc": "", "res": out}


def split(recs):
    out = []
    for c, r in recs:
        for k in range(len(c["select"])):
            out.append((dict(c, only=k), r["res"][k] if not r["exc"] else {"exc": r["exc"], "evs": [], "deltas": [], "corr": [], "same": 1}))
    return out


def encode(c, r):
    k = c["only"]
    q = c["duts"][c["select"][k]]
    return dict(r, rows=c["files"][k], range=c["range"][k], local=bool(c["local"]), size=[q["px"], q["py"]], n=[q["nc"], q["nr"]], res=c["res"][k] or [q["px"], q["py"]])


def exact(size, m):
    """width of the matrix over pitch is not changed by rounding"""
    s = size / U
    return math.ceil((s * (.5 * m) + s * (.5 * m)) / s) == m and math.ceil((s * (m + .5 - .5 - .5 * m) - s * (-.5 * m)) / s) == m


def hit(r, q, local, clusters):
    o = []
    for size, m in ((q["px"], q["nc"]), (q["py"], q["nr"])):
        if local:
            half = m * size // 2 - (1 if size % 100 else 0)
            v = r.choice([-half, half, r.randrange(-half, half + 1)])
            if size % 100 and abs(v) != half and (2 * v + m * size) % (2 * size) == 0:
                v += 1
            o.append(v)
        elif clusters:
            v = r.randrange(4, 4 * m + 1)
            o.append(v - 1 if size % 100 and v % 4 == 2 else v)
        else:
            o.append(4 * r.choice([1, m, r.randrange(1, m + 1)]))
    return o


def case(r):
    nd = r.choice([1, 1, 2, 3])
    local, clusters = int(r.random() < .4), int(r.random() < .4)
    duts = []
    for _ in range(nd):
        while True:
            q = geometry(r)
            if q["nc"] > 1000 or not all(exact(size, m) for size, m in ((q["px"], q["nc"]), (q["py"], q["nr"]))) or (not local and (q["px"] % 4 or q["py"] % 4)):
                continue
            break
        duts.append(q)
    sel = r.sample(range(nd), r.randrange(1, nd + 1))
    files, res, rngs = [], [], []
    form = int(r.random() < .6)
    one = r.choice([0, 1, 1, 2, 5])
    for s in sel:
        q = duts[s]
        n = r.choice([0, 1, 3, 12, 40])
        rows = [{"ev": e, "q": hit(r, q, local, clusters)} for e in rnd_events(r, n, gaps=r.choice([(1, 1, 1), (1, 1, 2), (1, 2, 6)]))]
        w = []
        if r.random() < .5 and not q["px"] % 100 and not q["py"] % 100:  # exact in floating point: multiples of 1 um
            w = [r.choice([300, 2500, 10000, 5500]) for _ in "xy"]
            if q["nc"] * q["px"] // min(w) > 300 or q["nr"] * q["py"] // min(w) > 300:
                w = [50000, 70000]
        files.append(rows)
        res.append(w)
        rngs.append(r.choice([0, 1, 2, 5]) if form else one)
    return {"duts": duts, "select": sel, "files": files, "res": res, "range": rngs, "form": form, "local": local, "clusters": clusters, "chunks": [1000000, r.choice([4, 5, 9]), r.choice([4, 6])]}


def spoil(r, c):
    ks = [k for k, f in enumerate(c["files"]) if f]
    if not ks:
        return c
    k = r.choice(ks)
    rows = c["files"][k]
    x = r.random()
    if x < .5 and len(rows) > 1:  # event numbers out of order
        e = [h["ev"] for h in rows]
        if r.random() < .5:
            e[r.randrange(1, len(e))] = 0
        else:
            i, j = r.sample(range(len(e)), 2)
            e[i], e[j] = e[j], e[i]
        for h, v in zip(rows, e):
            h["ev"] = v
    elif x < .6:
        rows[0]["ev"] = -1
    else:
        q = c["duts"][c["select"][k]]
        h, i = r.choice(rows), r.randrange(2)
        size, m = (q["px"], q["nc"]) if i == 0 else (q["py"], q["nr"])
        h["q"][i] = r.choice([-1, 1]) * (m * size // 2 + 60) if c["local"] else r.choice([0, 4 * m + 4])
    for j in ks:   # one file at a time
        if j != k:
            c["files"][j] = []
    return dict(c, select=[c["select"][k]], files=[rows], res=[c["res"][k]], range=[c["range"][k]])


def check(ctx):
    ctx.mc("HitCheckMC", must_cover=["ReadOk", "Reject"])
    if not ctx.quick:
        ctx.mc("HitCheckMC", "HitCheckMCBig.cfg", timeout=1500)
    cases = [case(ctx.rng) for _ in range(ctx.n(300, 5000))]
    cases += [spoil(ctx.rng, case(ctx.rng)) for _ in range(ctx.n(120, 1500))]
    ctx.validate("HitCheckTrace", split(ctx.execute(cases)), encode, kind="random files")
