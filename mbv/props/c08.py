"""C08: track finding reconstructs well separated straight tracks."""
ASSUMPTIONS = ["each track has a hit in the first two planes along the beam that are used for the extrapolation; where less than two of its hits "
               "can be used for extrapolating, the track moves by less than a quarter of the separation (checked by the specification)",
               "planes are tilted by at most 0.3 rad"]
from mbv.util import *
from mbv.props.c07 import run_case, warmup


def rot(a, b, g):
    ca, sa, cb, sb, cg, sg = np.cos(a), np.sin(a), np.cos(b), np.sin(b), np.cos(g), np.sin(g)
    return np.array([[cg, -sg, 0], [sg, cg, 0], [0, 0, 1]]) @ np.array([[cb, 0, sb], [0, 1, 0], [-sb, 0, cb]]) @ np.array([[1, 0, 0], [0, ca, -sa], [0, sa, ca]])


def case(r, nev, kind, nd=None):
    """tracks: [ax, ay, sx, sy]: position at the first plane (um), slope in um per 1000 um"""
    nd = nd or r.choice([3, 4, 5, 6, 7])
    dz = r.choice([10000, 20000, 1000] if kind == 0 else [30000, 50000])  # tilted planes must not cross
    zs = [dz * k + (r.choice([0, 0, dz // 5]) if k else 0) for k in range(nd)]
    order = list(range(nd))
    if r.random() < .4:
        r.shuffle(order)      # DUT order[k] is the k-th along the beam
    z = [0] * nd
    for k, d in enumerate(order):
        z[d] = zs[k] + (0 if kind != 2 else r.choice([0, 5000]))
    sep = 4000
    if kind == 3:
        ext = r.choice([[], [order[r.randrange(nd)]]])
    else:
        ext = None if r.random() < .5 or nd < 4 else sorted(set(order[:2] + [d for d in order[2:] if r.random() < .7])) if r.random() < .7 else sorted(order[1:])
    sel = [d for d in order if ext is None or d in ext]
    need = sel[:2] if len(sel) >= 2 else order[:1]
    # largest displacement over the planes that cannot be extrapolated to
    span = (zs[-1] if len(sel) < 2 else zs[order.index(need[1])]) + (12000 if kind else 0)
    sc = r.choice([0, 0, 10])   # scatter of the hits (um)
    top = min(60, int((sep / 4 - 4 * sc) * 1000 / max(1, span)) - 1)
    if sc:
        top = min(top, 40)
    geo = []
    for d in range(nd):
        a = [0., 0., 0.] if kind == 0 else [r.choice([0, .1, -.3]), r.choice([0, .2, -.25]), r.choice([0, .3, 3.1, -1.57])]
        geo.append([float(r.choice([0, 150, -800])), float(r.choice([0, 90, -400])), float(z[d])] + a)
    align = bool(r.randrange(2))
    tele = [0.] * 6 if not align or r.random() < .4 else [float(r.choice([0, 500])), float(r.choice([0, -300])), 0., .002, -.003, 0.]
    beam = [0, 0]   # direction of the beam, um per 1000 um; corrected by align_to_beam
    if kind == 1 and r.random() < .6:
        align, beam = True, [r.choice([40, -60, 90]), r.choice([0, 50, -80])]
        alpha = np.arctan(beam[1] / 1000.)
        tele = [float(r.choice([0, 500])), 0., 0., float(alpha), float(-np.arctan(beam[0] / 1000. * np.cos(alpha))), 0.]
    if align and r.random() < .2:
        tele[2] = float(r.choice([50000, -200000]))
    rows, pos, events, e = [], [[] for _ in range(nd)], [], 0
    for _ in range(nev):
        n = r.choice([1, 2, 2, 3, 3, 4, 6])
        cells = [(i, j) for i in range(-3, 4) for j in range(-3, 4)]
        tracks = [[sep * i, sep * j, r.randrange(-top, top + 1), r.randrange(-top, top + 1)] for i, j in r.sample(cells, n)]
        # tracks must not come close to each other anywhere
        def close(t, u):
            return any(max(abs(t[0] - u[0] + (t[2] - u[2]) * q / 1000.), abs(t[1] - u[1] + (t[3] - u[3]) * q / 1000.)) < sep / 2 + (1500 if kind else 0) for q in zs + [zs[-1] + 10000])
        keep = []
        for t in tracks:
            if not any(close(t, u) for u in keep):
                keep.append(t)
        tracks, n = keep, len(keep)
        hit = [[d in need or d == order[0] or r.random() < .85 for d in range(nd)] for _ in range(n)]
        perm = [r.sample(range(n), n) for _ in range(nd)]
        ids = {}
        for d in range(nd):
            R, T = rot(*geo[d][3:]), np.array(geo[d][:3])
            for k in range(n):
                if hit[k][d]:
                    o = np.array([tracks[k][0], tracks[k][1], zs[0] + 0.])
                    s = np.array([(tracks[k][2] + beam[0]) / 1000., (tracks[k][3] + beam[1]) / 1000., 1.])
                    q = (T - o) @ R[:, 2] / (s @ R[:, 2])
                    loc = R.T @ (o + q * s - T)
                    pos[d].append([round(float(loc[0] + r.uniform(-sc, sc)), 6), round(float(loc[1] + r.uniform(-sc, sc)), 6)])
                    ids[k, d] = len(pos[d])
        merged = r.random() < .5   # hits of a DUT fill the first rows
        for d in range(nd):
            if merged:
                perm[d].sort(key=lambda k: not hit[k][d])
        for q in range(n):
            rows.append([e, [ids.get((perm[d][q], d), 0) for d in range(nd)]])
        events.append({"ev": e, "tracks": tracks, "truth": [[ids.get((k, d), 0) for d in range(nd)] for k in range(n)]})
        e += r.choice([1, 2])
    mx = max(len(x["tracks"]) for x in events)
    return {"nd": nd, "rows": rows, "pos": pos, "scale": 1., "geo": geo, "tele": tele, "align": align, "ext": ext, "chunks": [r.choice([1000, mx + 1, mx + 4])], "ids": 1,
            "events": events, "order": order, "z": zs, "sel": sel, "sep": sep, "scatter": sc}


def split(recs):
    out = []
    for c, r in recs:
        for x in c["events"]:
            cc = dict(((k, c[k]) for k in ("order", "z", "sel", "sep", "scatter", "geo", "tele", "align", "ext", "nd")), **x)
            if r["exc"]:
                out.append((cc, {"exc": r["exc"]}))
                break
            out.append((cc, {"exc": "", "out": [o for o, e in zip(r["out"], r["ev"]) if e == x["ev"]]}))
    return out


def encode(c, r):
    """columns in the order of the planes along the beam"""
    o = c["order"]
    return {"z": c["z"], "sel": [o.index(d) + 1 for d in c["sel"]], "sep": c["sep"], "scatter": c["scatter"], "tracks": c["tracks"],
            "truth": [[t[d] for d in o] for t in c["truth"]], "exc": r["exc"], "out": [[t[d] for d in o] for t in r.get("out", [])]}


def check(ctx):
    r = ctx.rng
    ctx.mc_bg("FindTracksMC", "FindTracksMC.cfg" if ctx.quick else "FindTracksMCBig.cfg", timeout=3000, must_cover=["Keep", "Take"])
    cases = []
    for k in range(ctx.n(160, 2500)):
        cases.append(case(r, r.choice([5, 10, 20]), k % 4, nd=12 if k % 16 == 3 else None))
    recs = ctx.execute(cases)
    ctx.validate("FindTracksTruthTrace", split(recs), encode)
