"""C15: combine_files."""
ASSUMPTIONS = ["events of each input table are sorted; a table has the same columns in all files"]
from mbv.util import *

NAMES = ["Hits", "Clusters", "Plain"]


def warmup(d):
    from beam_telescope_analysis.tools import data_selection


def arr(t, rows):
    dt = [("row", "i4"), ("x", "f8")] + ([("event_number", "i8")] if t != 2 else [("w", "f4", (2,))])
    a = np.zeros(len(rows), dtype=dt)
    if len(rows):
        a["row"] = [v[1] for v in rows]
        a["x"] = [v[1] * .5 for v in rows]
        if t != 2:
            a["event_number"] = [v[0] for v in rows]
        else:
            a["w"] = [[v[1], -v[1]] for v in rows]
    return a


def run_case(case, d):
    import tables as tb
    from beam_telescope_analysis.tools.data_selection import combine_files
    ins = []
    for i, fl in enumerate(case["files"]):
        n = "run_%d.h5" % i
        ins.append(n)
        with tb.open_file(n, "w") as f:
            for t in case["order"][i]:
                if case["has"][i][t]:
                    f.create_table(f.root, NAMES[t], obj=arr(t, fl[t]))
            f.create_group(f.root, "arguments")
            f.create_array(f.root, "Array", obj=[1, 2])
    outs = []
    kw = {}
    if case["offs"] is not None:
        kw["event_number_offsets"] = case["offs"]
    if case["names"] is not None:
        kw["names"] = case["names"]
    for ch in case["chunks"]:
        out, app = combine_files(ins, output_file="all.h5", chunk_size=ch, **kw)
        res = {}
        with tb.open_file(out, "r") as f:
            for n in f.list_nodes("/", classname="Table"):
                res[n.name] = n[:]
        outs.append((res, app))
    o, app = outs[0]
    same = all(set(q) == set(o) and b == app and all(q[k].dtype == o[k].dtype and q[k].tobytes() == o[k].tobytes() for k in o) for q, b in outs[1:])
    tabs, present, ap = [], [], []
    for t, n in enumerate(NAMES):
        present.append(int(n in o))
        rows = []
        if n in o:
            b = o[n]
            want = arr(t, [])
            for k in range(len(b)):
                i = int(b["row"][k])
                ok = b.dtype == want.dtype and b["x"][k] == i * .5 and (t != 2 or list(b["w"][k]) == [i, -i])
                rows.append([int(b["event_number"][k]) if t != 2 and ok else -1, i if ok else -1])
        tabs.append(rows)
        ap.append([int(v) for v in app.get(n) or []] if n in app else [])
    return {"exc": "", "same": int(same), "tabs": tabs, "present": present, "app": ap}


def encode(c, r):
    n = c["names"]
    req = [] if n is None else [NAMES.index(q) + 1 for q in ([n] if isinstance(n, str) else n)]
    nf = len(c["files"])
    return {"files": c["files"], "has": c["has"], "offs": [-1 if c["offs"] is None or c["offs"][i] is None else c["offs"][i] for i in range(nf)], "req": req, "evt": [1, 1, 0],
            "exc": r["exc"], "same": r.get("same", 1), "tabs": r.get("tabs", []), "present": r.get("present", []), "app": r.get("app", [])}


def case(r):
    nf = r.choice([1, 2, 2, 3, 4])
    files, has, order, n = [], [], [], 0
    for i in range(nf):
        h = [1, int(r.random() < .7), int(r.random() < .5)]
        tb = []
        for t in range(3):
            L = r.choice([0, 1, 2, 5, 12]) if r.random() < .8 else r.choice([30, 45])
            ev = rnd_events(r, L, start=r.choice([(0, 1), (0, 3), (5, 1000)]))
            rows = [[e if t != 2 else -1, n + k + 1] for k, e in enumerate(ev)]
            n += L
            tb.append(rows if h[t] else [])
        p = [0, 1, 2]
        r.shuffle(p)
        files.append(tb)
        has.append(h)
        order.append(p)
    offs = None
    if r.random() < .45:
        offs = [r.choice([None, 0, 1, 1000, 3]) for _ in range(nf)]
    names = r.choice([None, None, "Hits", ["Hits"], ["Clusters", "Hits"], "Plain", ["Plain", "Hits"]])
    return {"files": files, "has": has, "order": order, "offs": offs, "names": names, "chunks": [1000, r.choice([1, 2, 3, 7])]}


def check(ctx):
    r = ctx.rng
    ctx.mc_bg("CombineFilesMC", "CombineFilesMC.cfg" if ctx.quick else "CombineFilesMCBig.cfg", timeout=2000, must_cover=["BeginTable", "AppendChunk", "EndTable", "NextFile"])
    recs = ctx.execute([case(r) for _ in range(ctx.n(700, 12000))])
    ctx.validate("CombineFilesTrace", recs, encode)
