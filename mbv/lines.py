"""Straight tracks through planes with rational rotations (C10, C12); geometry as in spec/Geometry.tla."""
from math import atan2
from mbv.util import *
from mbv import fit as F

TILT = [[1, 0, 1]] * 3 + [[4, 3, 5], [4, -3, 5], [3, 4, 5], [12, 5, 13], [12, -5, 13], [24, 7, 25], [-4, 3, 5], [-1, 0, 1]]
GAMMA = [[1, 0, 1], [0, 1, 1], [-1, 0, 1], [0, -1, 1], [3, 4, 5], [-4, 3, 5], [12, -5, 13]]


def matrix(rot):
    (ca, sa), (cb, sb), (cg, sg) = [(q[0] / q[2], q[1] / q[2]) for q in rot]
    rx = np.array([[1, 0, 0], [0, ca, -sa], [0, sa, ca]])
    ry = np.array([[cb, 0, sb], [0, 1, 0], [-sb, 0, cb]])
    rz = np.array([[cg, -sg, 0], [sg, cg, 0], [0, 0, 1]])
    return rz.dot(ry).dot(rx)


def crossing(rot, tr, line):
    """local crossing of the line x = ax + sx z, y = ay + sy z (sx in um/mm) with the plane"""
    R = matrix(rot)
    o, v = np.array([line[0], line[1], 0.]), np.array([line[2] / 1000., line[3] / 1000., 1.])
    n = R[:, 2]
    g = o + v * (n.dot(np.array(tr) - o) / n.dot(v))
    return R.T.dot(g - np.array(tr))


def geo(rot, tr):
    return [float(t) for t in tr] + [atan2(q[1], q[0]) for q in rot]


def random_rot(r, flat):
    while True:
        rot = [[1, 0, 1], [1, 0, 1], r.choice(GAMMA)] if flat else [r.choice(TILT), r.choice(TILT), r.choice(GAMMA)]
        if rot[0][2] * rot[1][2] * rot[2][2] <= 325:
            return rot


def case(r, method, kind):
    """kind: "line" (exact lines, tilted planes), "scatter" (scattered hits, tilted planes),
    "lsq" (scattered hits, planes perpendicular to the beam)"""
    kal = method == "kalman"
    nd = r.choice([3, 4, 5, 6] if not kal else [4, 5, 6])
    order = list(range(nd))
    if r.random() < .5:
        r.shuffle(order)
    step = r.choice([2, 3, 5])
    z, k = [0] * nd, r.choice([0, -3])
    for d in order:
        z[d] = k
        k += r.choice([1, 1, 2]) if kind != "line" else r.choice([1, 1, 2, 3])
    flat = kind == "lsq"
    rot = [random_rot(r, flat or r.random() < .25) for _ in range(nd)]
    tr = [[r.randrange(-800, 800), r.randrange(-800, 800), z[d] * step * 20000] for d in range(nd)]
    need = 3 if kal else 2
    own = r.randrange(nd)
    excl = r.random() < .5
    while True:
        fit = sorted(r.sample(range(nd), r.randrange(need, nd + 1)))
        eff = [d for d in fit if not (excl and d == own)]
        if len(eff) >= need:
            break
    lines, hits = [], []
    top = 3000 if kind != "line" or r.random() < .7 else 9000
    for _ in range(r.choice([3, 6, 12])):
        while True:
            has = [r.random() < .8 for _ in range(nd)]
            if sum(has[d] for d in eff) >= need:
                break
        smax = 10 if kal else 20
        l = [r.randrange(-top, top), r.randrange(-top, top), r.randrange(-smax, smax + 1), r.randrange(-smax, smax + 1)]
        lines.append(l)
        h = []
        sc = 0 if kind == "line" else (60 if kal else 200)
        for d in range(nd):
            if not has[d]:
                h.append(None)
                continue
            q = crossing(rot[d], tr[d], l)
            # scattered hits are given in 1/10 um, exact ones as they are
            h.append([float(q[0]), float(q[1])] if not sc else [round(q[0] * 10 + r.randrange(-sc, sc + 1)) / 10., round(q[1] * 10 + r.randrange(-sc, sc + 1)) / 10.])
        hits.append(h)
    return {"kind": kind, "nd": nd, "rot": rot, "tr": tr, "step": step * 20000, "z": z, "own": own, "fit": fit, "eff": eff, "excl": excl, "lines": lines, "hits": hits, "method": method,
            "err": r.choice([8.]) if flat else r.choice([6., 8., 11.]), "cpus": r.choice([1, 2, 8]), "mult": r.choice([1, 2, 4]), "vseed": r.randrange(10 ** 6),
            "material": [1e-6] * nd if flat and kal else [r.choice([.0005, .001, .004]) for _ in range(nd)],
            "resolution": r.choice([None, [[r.choice([4., 8.]), r.choice([5., 10.])] for _ in range(nd)]]) if kal and not flat else None,
            "scat": [[r.choice([.001, .01]), rotp, [0, 0, zz * 20000 + 7000]] for rotp, zz in [(random_rot(r, r.random() < .5), r.randrange(-2, 40)) for _ in range(r.choice([0, 0, 1, 2]))]] if kal and kind != "lsq" else []}


def run(c, order=None, hits=None, shift=(0, 0, 0), only=None, fit=None, cpus=None, scat=None):
    """order: position in the configuration -> plane; returns list of result dicts per track, indexed by plane"""
    nd = c["nd"]
    order = order or list(range(nd))
    at = {p: i for i, p in enumerate(order)}
    hits = hits or c["hits"]
    tracks = only if only is not None else list(range(len(hits)))
    pos = [[] for _ in range(nd)]
    rows = []
    for n, k in enumerate(tracks):
        row = []
        for p in order:
            if hits[k][p] is None:
                row.append(0)
            else:
                pos[at[p]].append(hits[k][p])
                row.append(len(pos[at[p]]))
        rows.append([n // c["mult"], row])
    sub = {"nd": nd, "rows": rows, "pos": pos, "scale": 1., "geo": [geo(c["rot"][p], [a + b for a, b in zip(c["tr"][p], shift)]) for p in order], "err": c["err"], "cpus": cpus or c["cpus"],
           "material": [c["material"][p] for p in order], "resolution": [c["resolution"][p] for p in order] if c["resolution"] else None,
           "opts": {"select_duts": [at[c["own"]]], "select_fit_duts": sorted(at[p] for p in (fit or c["fit"])), "min_track_hits": 3 if c["method"] == "kalman" else 2, "exclude_dut_hit": c["excl"], "full_track_info": True}}
    if c["method"] == "kalman":
        sub["opts"].update(method="kalman", beam_energy=5000., particle_mass=0.511)
        s = c["scat"] if scat is None else scat
        if s:
            from beam_telescope_analysis.telescope.dut import ScatteringPlane
            sub["opts"]["scattering_planes"] = [ScatteringPlane(name="s%d" % i, material_budget=m, **dict(zip(F.NAMES, geo(ro, [a + b for a, b in zip(tr, shift)])))) for i, (m, ro, tr) in enumerate(s)]
    conf, a = F.setup(sub)
    res = F.fit(sub, conf, a, 1000)
    t = res.get("Tracks_DUT%d" % at[c["own"]])
    if t is None or len(t) != len(tracks):
        return None
    out = {}
    for n, k in enumerate(tracks):
        g = lambda q, p: [float(t["%s_%s_dut_%d" % (q, x, at[p])][n]) for x in "xyz"]
        out[k] = {"off": [g("offset", p) for p in range(nd)], "dir": [g("slope", p) for p in range(nd)], "own": [float(t["offset_%s" % x][n]) for x in "xyz"],
                  "owndir": [float(t["slope_%s" % x][n]) for x in "xyz"], "chi": float(t["track_chi2"][n]), "red": float(t["track_chi_red"][n])}
    return out


def close(a, b, tracks, tol=2e-4, chi=True):
    if a is None or b is None:
        return 0
    for k in tracks:
        for q in ("off", "dir", "own", "owndir") + (("chi",) if chi else ()):
            if not np.allclose(a[k][q], b[k][q], rtol=1e-6, atol=tol if q in ("off", "own") else 1e-6 if q != "chi" else 1e-5, equal_nan=False):
                return 0
    return 1


def run_case(c, d):
    import random
    r = random.Random(c["vseed"])
    nd, every = c["nd"], list(range(len(c["hits"])))
    base = run(c)
    # hits which are not used: moved, removed, added
    other = [p for p in range(nd) if p not in c["eff"]]
    h2 = [[h[p] if p in c["eff"] else r.choice([None, [r.randrange(-9000, 9000) / 8., r.randrange(-9000, 9000) / 8.]]) for p in range(nd)] for h in c["hits"]]
    ins = close(base, run(c, hits=h2), every) if other else 1
    # placement of the whole telescope, order of the planes
    order = list(range(nd))
    r.shuffle(order)
    same = close(base, run(c, order=order, shift=[r.randrange(-500, 500), r.randrange(-500, 500), r.randrange(-5, 5) * 1000]), every)
    # a part of the tracks, slices
    part = sorted(r.sample(every, r.randrange(1, len(every) + 1)))
    cov = close(base, run(c, only=part, cpus=r.choice([1, 2, 3, 8])), part)
    e = lambda v, s: int(round(float(v) * s)) if abs(float(v) * s) < 1e9 else 1000000000
    tracks = []
    for k in every:
        if base is None or not np.all(np.isfinite(base[k]["off"])) or not np.all(np.isfinite(base[k]["dir"])) or not np.isfinite(base[k]["chi"]):
            tracks.append({"ok": 0, "off": [], "dir": [], "own": [], "owndir": [], "chi": 0, "red": 0, "slope": []})
            continue
        t = base[k]
        tracks.append({"ok": 1, "off": [[e(v, 10) for v in o] for o in t["off"]], "dir": [[e(v, 1e4) for v in o] for o in t["dir"]], "own": [e(v, 10) for v in t["own"]], "owndir": [e(v, 1e4) for v in t["owndir"]],
                       "slope": [[e(v / o[2], 10 * c["step"]) for v in o[:2]] for o in t["dir"]], "chi": e(t["chi"], 6400 if c["kind"] == "lsq" else 1000), "red": e(t["red"] if np.isfinite(t["red"]) else 0, 6400)})
    return {"exc": "", "ins": ins, "same": same, "cov": cov, "tracks": tracks}


def encode_line(c, r):
    return {"rot": c["rot"], "tr": [[10 * q for q in t] for t in c["tr"]], "lines": c["lines"], "tracks": r.get("tracks", []), "own": c["own"] + 1, "tol": 3, "unit": int(c["method"] == "fit"), "exact": int(c["kind"] == "line"),
            "ins": r.get("ins", 1), "same": r.get("same", 1), "cov": r.get("cov", 1), "exc": r["exc"]}


def encode_lsq(c, r):
    return {"hits": [[[] if p is None else [int(round(10 * q)) for q in p] for p in h] for h in c["hits"]], "z": c["z"], "fit": [p + 1 for p in c["eff"]], "gamma": [q[2] for q in c["rot"]], "tr": [[10 * t[0], 10 * t[1]] for t in c["tr"]],
            "chi": int(c["method"] == "fit"), "tol": 4 if c["method"] == "fit" else 6, "tracks": r.get("tracks", []), "ins": r.get("ins", 1), "same": r.get("same", 1), "cov": r.get("cov", 1), "exc": r["exc"]}
