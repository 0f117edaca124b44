"""C02: event matching and counting primitives."""
ASSUMPTIONS = ["event numbers are sorted and non-negative (documented precondition)"]
SENT = 77


def _rec(evs):
    import numpy as np
    r = np.zeros(len(evs), dtype=[("event_number", "i8"), ("row", "i4"), ("v", "f8")])
    r["event_number"] = evs
    r["row"] = np.arange(1, len(evs) + 1)
    r["v"] = np.arange(len(evs)) * 0.5
    return r


def warmup(d):
    import logging
    run_match({"a": [1, 2], "b": [1, 3], "ax": [0, 1], "ay": [0, 1], "bx": [0, 1], "by": [0, 1]}, d)
    run_count({"inp": {"op": "range", "xs": [1, 2], "range": 1}, "x": [0, 1], "y": [1, 0]}, d)


def run_match(c, d):
    import numpy as np
    from beam_telescope_analysis.tools import analysis_utils as au
    a, b = np.array(c["a"], dtype=np.int64), np.array(c["b"], dtype=np.int64)
    r = {}
    r["union"] = au.get_max_events_in_both_arrays(a, b).tolist()
    r["common"] = au.get_events_in_both_arrays(a, b).tolist()
    r["member"] = [int(x) for x in au.in1d_events(a, b)]
    ra, rb = _rec(c["a"]), _rec(c["b"])
    m1, m2 = au.merge_on_event_number(ra, rb)
    for m, src in ((m1, ra), (m2, rb)):  # whole rows must have been copied
        if not np.array_equal(src[m["row"] - 1], m):
            raise ValueError("rows changed by merge")
    r["merge1"], r["merge2"] = m1["row"].tolist(), m2["row"].tolist()
    mapped = np.zeros(len(a), dtype=rb.dtype)
    mapped["row"], mapped["v"] = SENT, -5.5
    au.map_cluster(a, rb, mapped)
    slots = []
    for k, m in enumerate(mapped):
        if m["row"] == SENT:
            slots.append(0 if (m["v"] == -5.5 and m["event_number"] == 0) else -1)
        else:
            slots.append(int(m["row"]) if m == rb[m["row"] - 1] else -1)
    r["map"] = slots
    nb = max(c["ax"] + c["ay"] + c["bx"] + c["by"] + [0]) + 1
    hx, hy = np.zeros((nb, nb), dtype=np.int32), np.zeros((nb, nb), dtype=np.int32)
    i = lambda k: np.array(c[k], dtype=np.int64)
    au.correlate_position_on_event_number(ref_event_numbers=a, dut_event_numbers=b, ref_x_indices=i("ax"), ref_y_indices=i("ay"),
                                          dut_x_indices=i("bx"), dut_y_indices=i("by"), x_corr_hist=hx, y_corr_hist=hy)
    for n, h in (("hx", hx), ("hy", hy)):
        r[n] = [[int(p), int(q), int(h[p, q])] for p, q in zip(*np.nonzero(h))]
    return r


def run_count(c, d):
    import numpy as np
    from beam_telescope_analysis.tools import analysis_utils as au
    inp = c["inp"]
    if inp["op"] == "hist":
        s = tuple(inp["shape"])
        x = np.array(inp["xs"], dtype=np.int64).reshape(-1, len(s))
        f = {1: au.hist_1d_index, 2: au.hist_2d_index, 3: au.hist_3d_index}[len(s)]
        try:
            h = f(*[x[:, k] for k in range(len(s))], shape=s)
        except IndexError:
            return {"exc": "IndexError"}
        if h.shape != s:
            return {"exc": "shape"}
        return {"exc": "", "h": [[[int(q) for q in p], int(h[tuple(p)])] for p in np.argwhere(h)]}
    if inp["op"] == "range":
        nb = max(c["x"] + c["y"] + [0]) + 1
        hx, hy = np.zeros((nb, nb), dtype=np.int32), np.zeros((nb, nb), dtype=np.int32)
        au.correlate_hits_on_event_range(np.array(inp["xs"], dtype=np.int64), np.array(c["x"], dtype=np.int64), np.array(c["y"], dtype=np.int64), hx, hy, inp["range"])
        return {"exc": "", "hx": [[[int(q) for q in p], int(hx[tuple(p)])] for p in np.argwhere(hx)],
                "hy": [[[int(q) for q in p], int(hy[tuple(p)])] for p in np.argwhere(hy)]}
    x, y = np.array(inp["xs"], dtype=np.int64), np.array(inp["ys"], dtype=np.int64)
    i1, i2 = au.in1d_index(x, y, assume_sorted=inp["sorted"])
    j1, f = au.in1d_index(x, y, fill_invalid=-77, assume_sorted=inp["sorted"])
    if i1.tolist() != j1.tolist():
        return {"exc": "different results with fill_invalid"}
    return {"exc": "", "idx1": (i1 + 1).tolist(), "idx2": (i2 + 1).tolist(), "fill": [int(v) + 1 for v in f]}


def rnd_sorted(r, n, gap):
    out, e = [], r.randrange(0, 4)
    while len(out) < n:
        out += [e] * r.choice([1, 1, 1, 2, 3, 4])
        e += r.choice(gap)
    return out[:n]


def check(ctx):
    r = ctx.rng
    ctx.mc_bg("EventMatchMC", "EventMatchMC.cfg", env={"OUT": "none"}, must_cover=["Sweep"])
    enum = ctx.enumerate("EventMatchMC", "EventMatchMC.cfg" if ctx.quick else "EventMatchMCBig.cfg")
    cases = []
    for e in enum:  # every row its own bin: the histograms identify the pairs
        na, nb = len(e["a"]), len(e["b"])
        cases.append(dict(e, ax=list(range(na)), ay=list(range(na))[::-1], bx=list(range(nb)), by=[(k + 1) % max(nb, 1) for k in range(nb)]))
    for _ in range(ctx.n(600, 6000)):
        a = rnd_sorted(r, r.choice([0, 1, 3, 10, 25]), r.choice([[1], [1, 1, 2], [1, 3, 7], [1000003]]))
        b = rnd_sorted(r, r.choice([0, 1, 3, 10, 25]), r.choice([[1], [1, 1, 2], [1, 3, 7], [1000003]]))
        bn = lambda s: [r.randrange(r.choice([2, 5, 9])) for _ in s]
        cases.append({"a": a, "b": b, "ax": bn(a), "ay": bn(a), "bx": bn(b), "by": bn(b)})
    recs = ctx.execute(cases, func="run_match", batch=200)
    empty = {k: [] for k in ("union", "common", "member", "merge1", "merge2", "map", "hx", "hy")}
    ctx.validate("EventMatchTrace", recs, lambda c, x: dict(c, exc=x.get("exc", ""), r=empty if "exc" in x else x))

    enum = ctx.enumerate("IndexCountMC", "IndexCountMC.cfg")
    cases = []
    for e in enum:
        n = len(e["xs"])
        cases.append({"inp": e, "x": list(range(n)), "y": list(range(n))[::-1]})
    for _ in range(ctx.n(300, 3000)):
        xs = rnd_sorted(r, r.choice([1, 5, 20]), r.choice([[1], [1, 1, 2], [1, 3, 7]]))
        cases.append({"inp": {"op": "range", "xs": xs, "range": r.randrange(0, 9)}, "x": [r.randrange(4) for _ in xs], "y": [r.randrange(3) for _ in xs]})
        dim = r.randrange(1, 4)
        shape = [r.randrange(1, 6) for _ in range(dim)]
        hi = 0 if r.random() < .8 else 1
        cases.append({"inp": {"op": "hist", "shape": shape, "xs": [[r.randrange(-hi if r.random() < .1 else 0, s + (hi if r.random() < .1 else 0)) for s in shape] for _ in range(r.randrange(0, 40))]}, "x": [0], "y": [0]})
        ys = [r.randrange(12) for _ in range(r.randrange(1, 15))]
        so = r.random() < .5
        cases.append({"inp": {"op": "lookup", "xs": [r.randrange(14) for _ in range(r.randrange(0, 15))], "ys": sorted(ys) if so else ys, "sorted": so}, "x": [0], "y": [0]})
    recs = ctx.execute(cases, func="run_count", batch=200)
    ctx.validate("IndexCountTrace", recs, lambda c, x: dict(c, r=x))
    ctx.mc_bg("IndexCountMC", "IndexCountMC.cfg", env={"OUT": "none"}, must_cover=["CountHist", "CountRange", "Lookup"])
