"""C14: limit on the number of events (reduce_events, select_tracks, find_tracks, fit_tracks)."""
ASSUMPTIONS = ["the output with limit is compared with the output of the same stage without limit (decided by C07, C09, C13)",
               "several chunks with events of different size, or after a selection: the limit is a maximum only (the quota of a chunk is an estimate)",
               "chunk ends are observed by recording what data_aligned_at_events hands out; if that is not called, the clauses per chunk are not judged"]
from mbv.util import *
from mbv import fit as F
from mbv.props import c13


def warmup(d):
    for s in ("reduce", "select", "find", "fit"):
        run_case({"stage": s, "rows": [[0, [1, 1, 1]], [1, [2, 2, 2]]], "chunk": 9, "n": 1}, d)


def tabs(path):
    import tables as tb
    with tb.open_file(path, "r") as f:
        return {n.name: n[:] for n in f.list_nodes("/", classname="Table")}


def run_case(case, d):
    from beam_telescope_analysis.tools import data_selection as ds, analysis_utils as au
    from beam_telescope_analysis import track_analysis as ta
    rows, nd = case["rows"], 3
    pos = [[[100 * (h % 37) + p * (h % 5), 70 * (h % 23) - p * (h % 3)] for h in range(1, len(rows) + 1)] for p in range(nd)]
    sub = {"nd": nd, "rows": rows, "pos": pos, "geo": [[0., 0., 100000. * p, 0., 0., 0.] for p in range(nd)], "scale": 1., "opts": {}, "err": 10.}
    conf, a = F.setup(sub)
    orig, log = au.data_aligned_at_events, []

    def recorder(*k, **kw):
        log.append([])
        for x in orig(*k, **kw):
            log[-1].append(sorted(set(int(v) for v in x[0]["event_number"])))
            yield x
    stage = case["stage"]

    def run(n):
        ch = case["chunk"]
        if stage == "reduce":
            if case.get("two"):
                import tables as tb
                with tb.open_file("in.h5", "w") as f:
                    f.create_table(f.root, "Tracks_A", obj=a)
                    f.create_table(f.root, "Tracks_B", obj=a[::2].copy())
            else:
                h5table("in.h5", "Merged", a)
            return tabs(ds.reduce_events("in.h5", n, output_file="out.h5", chunk_size=ch))
        if stage == "select":
            t = np.zeros(len(a), dtype=c13.dtype(nd))
            for q in a.dtype.names:
                t[q] = a[q]
            h5table("in.h5", "Tracks_DUT1", t)
            return tabs(ds.select_tracks(conf, "in.h5", [1], output_tracks_file="out.h5", max_events=n, select_hit_duts=case.get("hits"), chunk_size=ch))
        if stage == "find":
            h5table("in.h5", "MergedClusters", a)
            return tabs(ta.find_tracks(conf, "in.h5", "out.h5", max_events=n, chunk_size=ch))
        o = {"select_duts": [0, 2], "select_fit_duts": [[0, 1], [0, 1, 2]] if case.get("groups") else [[0, 1, 2], [0, 1, 2]], "select_hit_duts": case.get("fhits", []), "min_track_hits": 2, "exclude_dut_hit": False}
        return F.fit(dict(sub, opts=o), conf, a, ch, opts={"max_events": n}, name="out.h5")

    if stage == "reduce":  # has no "no limit"
        n0 = len(a)
        ref = {"Tracks_A": a, "Tracks_B": a[::2]} if case.get("two") else {"Merged": a}
    else:
        ref = run(None)
    n = case["n"] or None
    if stage == "reduce" and not n:
        n = 10 ** 6
    ds.analysis_utils.data_aligned_at_events = recorder
    ta.analysis_utils.data_aligned_at_events = recorder
    try:
        out = run(n)
    finally:
        ds.analysis_utils.data_aligned_at_events = orig
        ta.analysis_utils.data_aligned_at_events = orig
    two = run(n)
    again = int(set(two) == set(out) and all(F.same_table(two[k], out[k]) for k in out))
    res = []
    for i, k in enumerate(sorted(ref)):
        r, o = ref[k], out.get(k)
        key = lambda t: (int(t["event_number"]),) + tuple(int(t["cluster_shape_dut_%d" % q]) for q in range(nd))
        ids = {}
        for j in range(len(r)):
            ids.setdefault(key(r[j]), []).append(j)  # rows without hit (of find_tracks) are alike
        num = []
        if o is not None:
            for j in range(len(o)):
                q = ids.get(key(o[j]), [])
                m = q.pop(0) if q else -1
                num.append(m + 1 if o.dtype == r.dtype and m >= 0 and F.same_table(o[j:j + 1], r[m:m + 1]) else 0)
        res.append({"ev": [int(v) for v in r["event_number"]], "out": num, "blocks": log[i] if len(log) == len(ref) else []})
    return {"exc": "", "again": again, "tables": res, "n": n or 0}


def split(recs):
    out = []
    for c, r in recs:
        for i, t in enumerate(r.get("tables", [None])):
            out.append(({"stage": c["stage"], "n": c["n"], "chunk": c["chunk"], "table": i, "nrows": len(c["rows"]), "uni": c["uni"] and not (c.get("two") and i)}, {"exc": r["exc"], "again": r.get("again", 1), "t": t, "n": r.get("n", 0)}))
    return out


def encode(c, r):
    t = r["t"] or {"ev": [], "out": [], "blocks": []}
    return {"exc": r["exc"], "again": r["again"], "n": r["n"], "one": int(c["chunk"] > c["nrows"] + 1), "uni": int(c["uni"]), "ev": t["ev"], "out": t["out"], "blocks": t["blocks"]}


def case(r):
    stage = r.choice(["reduce", "select", "find", "fit"])
    uni = r.random() < .6
    ne = r.choice([1, 2, 5, 12, 20, 41, 60])
    c = {"stage": stage}
    rows, e, h = [], r.randrange(3), 0
    m = r.choice([1, 1, 2, 3])
    for _ in range(ne):
        for _ in range(m if uni else r.choice([1, 1, 2, 4])):
            h += 1
            hit = [1] * 3 if uni or r.random() < .6 else [int(r.random() < .6) for _ in range(3)]
            if not any(hit):
                hit[r.randrange(3)] = 1
            rows.append([e, [h * q for q in hit]])
        e += r.choice([1, 1, 4])
    if stage == "find" and uni:
        pass
    if stage == "select" and not uni:
        c["hits"] = r.choice([None, [0], [0, 2]])
    if stage == "fit":
        c["groups"] = r.random() < .3
        if not uni:
            c["fhits"] = r.choice([[], [2], [0, 1, 2]])
    if stage == "reduce":
        c["two"] = r.random() < .3
    c.update(rows=rows, uni=uni, n=r.choice([0, 1, max(1, ne // 3), max(1, ne // 2), max(1, ne - 1), ne, ne + 3, r.randrange(1, ne + 1)]), chunk=r.choice([1000, m * r.choice([2, 3, 5, 10]) + 1 if uni else r.choice([6, 9, 20, 40])]))
    if not uni and c["chunk"] < 6:
        c["chunk"] = 6
    return c


def check(ctx):
    r = ctx.rng
    ctx.mc_bg("EventLimitMC", "EventLimitMC.cfg" if ctx.quick else "EventLimitMCBig.cfg", must_cover=["Take"])
    ctx.mc_bg("EventLimitMC", "EventLimitEqual.cfg", must_cover=["Take"])
    ctx.mc_bg("EventLimitMC", "EventLimitFilter.cfg", must_cover=["Take"])
    recs = ctx.execute([case(r) for _ in range(ctx.n(560, 12000))], jit=False)
    ctx.validate("EventLimitTrace", split(recs), encode)
