"""C04: masking of noisy pixels."""
ASSUMPTIONS = ["hit counts of the pixels are square numbers, so that the specification is exact; pixels exactly at the threshold are left undecided"]
from mbv.util import *


def warmup(d):
    run_case({"cfg": {"w": 2, "h": 2, "fc": 1, "fr": 1, "tn": 1, "td": 1, "it": 0, "chunk": 9}, "hits": [1, 2, 2, 2, 2], "dis": [], "kind": "NoisyPixelMask", "ev": 1, "scalar": 0}, d)


def run_case(case, d):
    import tables as tb
    from beam_telescope_analysis import hit_analysis
    from beam_telescope_analysis.tools import smc
    from beam_telescope_analysis.telescope.telescope import Telescope
    smc.cpu_count = lambda: case.get("cores", 1)
    c = case["cfg"]
    p = np.array(case["hits"], dtype="i8") - 1
    arr = np.zeros(len(p), dtype=[("event_number", "i8"), ("frame", "u1"), ("column", "u2"), ("row", "u2"), ("charge", "u2")])
    arr["event_number"] = np.arange(len(p)) // max(1, case["ev"])
    arr["column"], arr["row"] = p // c["h"] + 1, p % c["h"] + 1
    geo = [dict(column_size=50, row_size=25, n_columns=c["w"], n_rows=c["h"], translation_z=1000.0)]
    dis = None
    if case["dis"]:
        dis = np.array(case["dis"], dtype=bool).reshape(c["w"], c["h"])
    size = c["fc"] if case["scalar"] and c["fc"] == c["fr"] else (c["fc"], c["fr"])
    th = c["tn"] / c["td"]
    f = h5table("hits.h5", "Hits", arr)
    if case.get("wrap"):
        # several DUTs with different geometry in one call, any order of the selection
        sel, k = case["wrap"]["select"], case["wrap"]["select"].index(0)
        geo += [dict(column_size=50, row_size=25, n_columns=c["w"] + i + 1, n_rows=c["h"] + 2 * i + 1, translation_z=2000.0 + i) for i in range(2)]
        conf = telescope("tel.yaml", geo)
        files, sizes, ths, its, kinds, dm = [], [], [], [], [], []
        for i in sel:
            if i == 0:
                files.append(f), sizes.append(size), ths.append(th), its.append(c["it"]), kinds.append(case["kind"]), dm.append(dis)
            else:
                o = arr[:3].copy()
                o["column"], o["row"] = 1, 1
                files.append(h5table("o%d.h5" % i, "Hits", o))
                sizes.append(1), ths.append(1000.0), its.append(1), kinds.append("NoisyPixelMask"), dm.append(None)
        out = hit_analysis.mask(conf, files, select_duts=sel, pixel_mask_names=kinds, iterations=its, thresholds=ths, filter_sizes=sizes, disable_masks=dm, plot=False, chunk_size=c["chunk"])[k]
    else:
        dut = list(Telescope(telescope("tel.yaml", geo)))[0]
        out = hit_analysis.mask_pixels(dut, f, pixel_mask_name=case["kind"], output_mask_file="m.h5", iterations=c["it"] or None, threshold=th, filter_size=size, disable_mask=dis, plot=False, chunk_size=c["chunk"])
    with tb.open_file(out) as h:
        occ, mask = h.root.HistOcc[:], h.get_node("/" + case["kind"])[:]
        disout = []
        if "DisabledPixelMask" in h.root and case["kind"] != "DisabledPixelMask":
            disout = [int(bool(v)) for v in h.root.DisabledPixelMask[:].ravel()]
    if occ.shape != (c["w"], c["h"]) or mask.shape != (c["w"], c["h"]):
        return {"exc": "shape of the stored arrays %s %s" % (occ.shape, mask.shape)}
    return {"exc": "", "occ": [int(v) for v in occ.ravel()], "mask": [int(bool(v)) for v in mask.ravel()], "disout": disout}


def encode(c, r):
    return {"cfg": c["cfg"], "hits": c["hits"], "dis": c["dis"], "exc": r["exc"], "occ": r.get("occ", []), "mask": r.get("mask", []), "disout": r.get("disout", [])}


def case(r, w, h, occ, th=None):
    hits = [p + 1 for p, n in enumerate(occ) for _ in range(n)]
    r.shuffle(hits)
    f = r.choice([1, 2, 3, 3, 3, 4, 5]), r.choice([1, 2, 3, 3, 3, 4, 5])
    if r.random() < .5:
        f = (f[0], f[0])
    tn, td = th or r.choice([(1, 4), (1, 2), (1, 1), (1, 1), (3, 2), (2, 1), (3, 1)])
    n = len(hits)
    c = {"cfg": {"w": w, "h": h, "fc": f[0], "fr": f[1], "tn": tn, "td": td, "it": r.choice([0, 0, 0, 1, 2, 3]), "chunk": r.choice([n + 1, n + 1, max(1, n), max(1, n // 2), max(1, n // 3 + 1), 7])},
         "hits": hits, "ev": r.choice([1, 3]), "scalar": r.randrange(2), "kind": r.choice(["NoisyPixelMask", "NoisyPixelMask", "DisabledPixelMask"]), "dis": [],
         "cores": 1 if r.random() < .9 else 2}
    c["cfg"]["chunk"] = max(c["cfg"]["chunk"], n // 8 + 1, c["ev"] + 1)  # an event has to fit
    if r.random() < .2 and c["kind"] == "NoisyPixelMask":
        c["dis"] = [r.randrange(2) for _ in range(w * h)]
        if not any(c["dis"]):
            c["dis"][0] = 1
    if r.random() < .15:
        s = r.choice([[0], [0, 1], [0, 2], [1, 0], [2, 0], [2, 1, 0], [1, 0, 2], [0, 1, 2]])
        c["wrap"] = {"select": s}
    return c


def check(ctx):
    r = ctx.rng
    ctx.mc_bg("PixelMaskMC", "PixelMaskMC.cfg" if ctx.quick else "PixelMaskMCBig.cfg", env={"OUT": "none"}, timeout=1500, must_cover=["CountChunk", "StartMask", "Iterate"])
    enum = ctx.enumerate("PixelMaskMC", "PixelMaskEnum.cfg")
    r.shuffle(enum)
    cases = [case(r, 2, 3, e["o"]) for e in enum[:ctx.n(120, 2500)]]
    for _ in range(ctx.n(330, 5000)):
        w, h = r.choice([(1, 1), (2, 5), (4, 4), (5, 3), (3, 7), (5, 5), (1, 9)])
        kind = r.randrange(4)
        base = r.choice([0, 1, 2, 3])
        occ = [(0 if r.random() < .1 else base) ** 2 if kind < 3 else r.choice([0, 1, 2, 3, 4]) ** 2 for _ in range(w * h)]
        for _ in range(r.choice([0, 1, 2, 4])):
            occ[r.randrange(w * h)] = r.choice([1, 2, 3, 4, 6, 6]) ** 2
        if kind == 2:  # noisy cluster
            q = r.randrange(w * h)
            for p in (q, q + 1, q + h):
                if p < w * h:
                    occ[p] = r.choice([16, 36])
        cases.append(case(r, w, h, occ))
    cases.append(case(r, 3, 4, [0] * 12))
    recs = ctx.execute(cases)
    ctx.validate("PixelMaskTrace", recs, encode)
