"""C03: clustering. Every call clusters a table of many events; each event is one recording."""
ASSUMPTIONS = ["a pixel fires at most once per event and frame window",
               "no event is larger than the chunk size; charges are non-negative, with charge weighting the sum of (corrected) charges of a cluster is positive",
               "most calls run the map step in one process (number of cores reported as 1), some with two worker processes"]
from mbv.util import *
import os

BIG = 100000


def warmup(d):
    for pos in ("index", "position"):
        run_case({"input": pos, "use_positions": None, "hits": [[0, 1, 1, 0, 3], [0, 2, 2, 0, 3]], "cfg": {"dc": 1, "dr": 1, "df": 0, "qmin": None, "qmax": None},
                  "dis": [], "noi": [], "mask": False, "weighted": True, "corr": None, "chunk": 10, "cores": 1, "geo": [50, 25, 20, 20]}, d)


def run_case(case, d):
    import tables as tb
    from beam_telescope_analysis import hit_analysis as ha
    from beam_telescope_analysis.tools import smc
    from beam_telescope_analysis.telescope.telescope import Telescope
    cs, rs, nc, nr = case["geo"]
    dut = Telescope(telescope("t.yaml", [dict(column_size=cs, row_size=rs, n_columns=nc, n_rows=nr)]))[0]
    H = case["hits"]  # ev, c, r, f, q
    dt = [("event_number", "i8"), ("frame", "u2")]
    both = case["input"] == "both"
    if case["input"] in ("position", "both"):
        dt += [("x", "f8"), ("y", "f8")]
    if case["input"] in ("index", "both"):
        dt += [("column", "u2"), ("row", "u2")]
    dt += [("charge", "f4")] + ([("extra", "i4")] if case.get("extra") else [])
    a = np.zeros(len(H), dtype=dt)
    h = np.array(H, dtype=float).reshape(len(H), 5)
    a["event_number"], a["frame"], a["charge"] = h[:, 0], h[:, 3], h[:, 4]
    if case["input"] == "index":
        a["column"], a["row"] = h[:, 1], h[:, 2]
    else:
        a["x"], a["y"] = h[:, 1] / 2, h[:, 2] / 2
    if both:
        a["column"], a["row"] = np.arange(len(H)) % nc + 1, (np.arange(len(H)) * 3) % nr + 1
    h5table("h.h5", "Hits", a)
    pos = bool(case["use_positions"]) or case["input"] != "index"
    u = 2 if pos else 1
    mask = None
    if case["mask"]:
        mask = "mask.h5"
        with tb.open_file(mask, "w") as f:
            for name, px in (("DisabledPixelMask", case["dis"]), ("NoisyPixelMask", case["noi"])):
                if px is not None:
                    m = np.zeros((nc, nr), dtype=bool)
                    for p in px:
                        m[p[0] - 1, p[1] - 1] = True
                    f.create_carray("/", name, obj=m)
    g = case["cfg"]
    smc.cpu_count = lambda: case["cores"]
    o = ha.cluster_hits(dut, "h.h5", "o.h5", input_mask_file=mask, use_positions=case["use_positions"], min_hit_charge=g["qmin"], max_hit_charge=g["qmax"],
                        charge_correction=case["corr"], column_cluster_distance=g["dc"] / u if pos else g["dc"], row_cluster_distance=g["dr"] / u if pos else g["dr"],
                        frame_cluster_distance=g["df"], charge_weighted_clustering=case["weighted"], plot=False, chunk_size=case["chunk"])
    with tb.open_file(o) as f:
        ch, cl = f.root.ClusterHits[:], f.root.Clusters[:]
        sh = [int(x) for x in f.root.HistClusterSize[:]]
        sp = f.root.HistClusterShape[:]
        om = {}
        for k, n in (("odis", "DisabledPixelMask"), ("onoi", "NoisyPixelMask")):
            om[k] = [[int(x) + 1, int(y) + 1] for x, y in np.argwhere(f.get_node("/" + n)[:])] if "/" + n in f else []
    names = ("x", "y") if pos else ("column", "row")
    if pos:
        # positions of the input
        if case["input"] == "index":
            inpos = [[int(round(2 * cs * (c - .5 - nc / 2.))), int(round(2 * rs * (r - .5 - nr / 2.)))] for _, c, r, _, _ in H]
        else:
            inpos = [[c, r] for _, c, r, _, _ in H]
    else:
        inpos = [[c, r] for _, c, r, _, _ in H]
    inrows = [[e, p[0], p[1], f, q] for (e, _, _, f, q), p in zip(H, inpos)]
    outrows = [[int(x["event_number"]), enc(x[names[0]], u), enc(x[names[1]], u), int(x["frame"]), enc(x["charge"])] for x in ch]
    if both:  # hit indices are kept
        inrows = [x + [int(y["column"]), int(y["row"])] for x, y in zip(inrows, a)]
        outrows = [x + [int(y["column"]), int(y["row"])] for x, y in zip(outrows, ch)]
    es = 100 if pos else 10000
    events = {}
    for i, x in enumerate(ch):
        e = events.setdefault(int(x["event_number"]), {"hits": [], "ids": [], "seeds": [], "sizes": [], "ncl": [], "cl": []})
        r = inrows[i] if i < len(inrows) else outrows[i]
        e["hits"].append({"c": r[1], "r": r[2], "f": r[3], "q": r[4]})
        e["ids"].append(int(x["cluster_ID"]))
        e["seeds"].append(int(x["is_seed"]))
        e["sizes"].append(int(x["cluster_size"]))
        e["ncl"].append(int(x["n_cluster"]))

    def num(v, s):
        v = float(v) * s
        return int(round(v)) if abs(v) < 2e9 else -77777777
    for x in cl:
        s = int(x["cluster_shape"])
        e = events.get(int(x["event_number"]))
        if e is None:
            continue
        e["cl"].append({"id": int(x["cluster_ID"]), "n": int(x["n_hits"]), "q": num(x["charge"], 1), "f": int(x["frame"]),
                        "sc": num(x["seed_" + names[0]], u), "sr": num(x["seed_" + names[1]], u), "mc": num(x["mean_" + names[0]], 1000 * u), "mr": num(x["mean_" + names[1]], 1000 * u),
                        "ec": num(x["err_" + names[0]], es), "er": num(x["err_" + names[1]], es), "ncl": int(x["n_cluster"]),
                        "shape": [-1] if s == -1 else [b for b in range(64) if s >> b & 1]})
    tab = {"inrows": inrows, "outrows": outrows, "clev": [int(x) for x in cl["event_number"]], "sizehist": sh, "ns": [int(x) for x in cl["n_hits"]],
           "shapehist": [[int(i), int(sp[i])] for i in np.flatnonzero(sp)], "shapes": [int(x) if 0 <= x < 65536 else -1 for x in cl["cluster_shape"]],
           "mdis": (case["dis"] or []) if case["mask"] else [], "mnoi": (case["noi"] or []) if case["mask"] else []}
    tab.update(om)
    return {"pos": pos, "escale": es, "events": list(events.values()), "table": tab}


def split(recs):
    """one recording per event, and one for the tables"""
    out = []
    for c, r in recs:
        ctxt = {k: c[k] for k in c if k != "hits"}
        if "exc" in r:
            out.append((c, {"exc": r["exc"], "tb": r.get("tb")}))
            continue
        out.append((ctxt, {"table": r["table"]}))
        for e in r["events"]:
            out.append((ctxt, dict(e, pos=r["pos"], escale=r["escale"])))
    return out


def encode(c, r):
    if "exc" in r or "table" in r:
        return dict(r.get("table", {}), kind="table", exc=r.get("exc", ""), hits=[], cfg=dict(dc=0, dr=0, df=0, qmin=0, qmax=0, dis=[], noi=[]))
    g = c["cfg"]
    m = c["mask"]
    return dict(r, kind="event", weighted=c["weighted"], corr=c["corr"] or 0, cs=c["geo"][0] if r["pos"] else 1, rs=c["geo"][1] if r["pos"] else 1,
                cfg={"dc": g["dc"], "dr": g["dr"], "df": g["df"], "qmin": 0 if g["qmin"] is None else g["qmin"], "qmax": BIG if g["qmax"] is None else g["qmax"],
                     "dis": (c["dis"] or []) if m else [], "noi": (c["noi"] or []) if m else []})


def config(r, geo, inp):
    cs, rs, nc, nr = geo
    pos = inp != "index"
    use = None
    if inp == "index":
        use = r.choice([None, None, False, True])
        pos = use is True
    mask = not pos and r.random() < .6
    W = min(nc, 6)
    px = lambda k: [list(x) for x in {(r.randrange(1, W + 1), r.randrange(1, min(nr, 6) + 1)) for _ in range(k)}]
    d = r.choice([(1, 1), (1, 1), (2, 1), (0, 1), (1, 0), (3, 2), (0, 0)])
    if pos:
        d = (int(2 * cs * d[0]), int(2 * rs * d[1]))
    weighted = r.random() < .6
    corr = r.choice([None, 0, 1, 2]) if weighted else None
    return {"input": inp, "use_positions": use, "cfg": {"dc": d[0], "dr": d[1], "df": r.choice([0, 0, 1, 2]), "qmin": r.choice([None, None, 2, 3]), "qmax": r.choice([None, None, 7, 5])},
            "dis": r.choice([[], None, px(2), px(4)]) if mask else [], "noi": r.choice([[], None, px(2), px(6)]) if mask else [], "mask": mask,
            "weighted": weighted, "corr": corr, "geo": geo, "cores": 1}


def finish(case, events, r):
    """events: lists of (c, r, f, q); unique event numbers with gaps"""
    e, H, mx = r.randrange(3), [], 1
    for ev in events:
        if ev:
            H += [[e] + list(x) for x in ev]
            mx = max(mx, len(ev))
        e += r.choice([1, 1, 2, 5])
    case["hits"] = H
    case["chunk"] = r.choice([mx + 1, mx + 2, 2 * mx + 1, 5 * mx, 40 + mx, 100000])
    if len(H) > 250 and case["chunk"] < 40:
        case["chunk"] = 40 + mx
    return case


def charges(r, case):
    lo = 0 if (not case["weighted"] or case["corr"]) else 1
    return lambda: r.randrange(lo, r.choice([4, 9]))


def cluster_event(r, nc, nr, big):
    """random event: some blobs and loose hits on different pixels"""
    pix = []
    for _ in range(r.randrange(1, 4)):
        x, y = r.randrange(1, nc + 1), r.randrange(1, nr + 1)
        n = r.randrange(1, 22 if big else 7)
        for _ in range(n):
            pix.append((x, y))
            s = r.choice([1, 1, 1, 2])
            x, y = x + r.randrange(-s, s + 1), y + r.randrange(-s, s + 1)
    if r.random() < .4:  # long cluster, up to and beyond the 8 x 8 box of the shape code
        x, y, w, h = r.randrange(1, nc + 1), r.randrange(1, nr + 1), r.choice([5, 7, 8, 8, 9]), r.choice([0, 5, 7, 8, 8, 9])
        sx, sy = r.choice([1, -1]), r.choice([1, -1])
        a = [(x + sx * k, y) for k in range(w)] + [(x + sx * (w - 1), y + sy * k) for k in range(h)]
        if r.random() < .5:
            a = [(x + (q - y), y + (p - x)) for p, q in a]
        pix = a + (pix if r.random() < .3 else [])
    pix = [p for p in dict.fromkeys(pix) if 1 <= p[0] <= nc and 1 <= p[1] <= nr]
    r.shuffle(pix)
    return pix


def check(ctx):
    r = ctx.rng
    ctx.mc_bg("HitClusterMC", "HitClusterMC.cfg", env={"OUT": "none"}, must_cover=["Seed", "Grow", "Close"])
    enum = [[tuple(p) for p in x["h"]] for x in ctx.enumerate("HitClusterMC", "HitClusterEnum.cfg" if ctx.quick else "HitClusterEnumBig.cfg")]
    cases = []
    per = 150
    for rep in range(ctx.n(2, 6)):  # all small events, in random configurations
        r.shuffle(enum)
        for k in range(0, len(enum), per):
            c = config(r, [50, 25, 6, 5], "index")
            q = charges(r, c)
            fr = r.choice([[0], [0, 1], [0, 3]])
            cases.append(finish(c, [[(p[0], p[1], r.choice(fr), q()) for p in e] for e in enum[k:k + per]], r))
    for _ in range(ctx.n(60, 500)):
        inp = r.choice(["index", "index", "position", "both"])
        geo = r.choice([[50, 25, 80, 336], [250, 50, 30, 12], [18, 20, 12, 12]])
        c = config(r, geo, inp)
        q = charges(r, c)
        fr = r.choice([[0], [0, 1], [2, 3, 5]])
        nc, nr = min(geo[2], 24), min(geo[3], 20)
        evs = []
        for _ in range(r.choice([1, 5, 60, 100])):
            ev = [(p[0], p[1], r.choice(fr), q()) for p in cluster_event(r, nc, nr, r.random() < .4)]
            if inp != "index":
                ev = [(int(2 * geo[0] * (p[0] - geo[2] // 2)) + r.choice([0, 0, 1, -1]), int(2 * geo[1] * (p[1] - geo[3] // 2)) + r.choice([0, 0, 1, -1]), p[2], p[3]) for p in ev]
            evs.append(ev)
        c["extra"] = r.random() < .3
        c = finish(c, evs, r)
        if r.random() < .1:
            c["cores"] = 2
        cases.append(c)
    # nothing at all, everything masked
    for hits, qmin in ([], None), ([[3, 1, 1, 0, 2], [5, 2, 2, 0, 1]], 5):
        c = config(r, [50, 25, 6, 5], "index")
        c.update(hits=hits, chunk=10, use_positions=None, mask=False, dis=[], noi=[])
        c["cfg"].update(qmin=qmin, qmax=None)
        cases.append(c)
    recs = split(ctx.execute(cases, timeout=100))
    ctx.validate("HitClusterTrace", recs, encode)
