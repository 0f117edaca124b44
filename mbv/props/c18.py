"""C18: coordinate transformations."""
ASSUMPTIONS = ["rotations are exact (Pythagorean) angles, positions are compared within 60 nm",
               "points on the edge of the pixel matrix are only converted without rotation and translation of the DUT (rounding decides otherwise)",
               "the sensors with displaced bonds (Diamond3DpCVD, DiamondPseudo3DpCVD) have no inverse of index to local position; only their placement is covered"]
from mbv.util import *

U = 100.  # units per um
NaN = -99999999
ANG = [[1, 0, 1]] * 3 + [[0, 1, 1], [-1, 0, 1], [0, -1, 1], [4, 3, 5], [3, -4, 5], [-4, 3, 5], [12, -5, 13], [-5, -12, 13], [24, 7, 25], [24, -7, 25]]
SENSORS = {"FEI4": (25000, 5000, 80, 336, 2, 1), "PSI46": (15000, 10000, 52, 80, 2, 1), "RD53A": (5000, 5000, 400, 192, 1, 1), "RD53A_8x8": (5000, 5000, 400, 192, 8, 8),
           "ITkPix": (5000, 5000, 400, 384, 1, 1), "ITkPix_8x8": (5000, 5000, 400, 384, 8, 8), "TJMonopix1": (4000, 3600, 112, 224, 1, 1), "TJMonopix1_2x2": (4000, 3600, 112, 224, 2, 2),
           "Mimosa26": (1840, 1840, 1152, 576, 1, 1), "DepfetH5z85": (5000, 8500, 64, 64, 1, 1), "DepfetH5z55": (5000, 5500, 64, 64, 1, 1), "Timepix3": (5500, 5500, 256, 256, 1, 1)}
AXES = ("x", "y", "z")
ROTS = ("rotation_alpha", "rotation_beta", "rotation_gamma")


def rots(r, lim=325):
    while True:
        a = [r.choice(ANG) for _ in range(3)]
        if a[0][2] * a[1][2] * a[2][2] <= lim:
            return a


def angle(a):
    return float(np.arctan2(a[1], a[0]))


def warmup(d):
    from beam_telescope_analysis.telescope import dut
    from beam_telescope_analysis.tools import geometry_utils


def make(case):
    from beam_telescope_analysis.telescope import dut as dm
    q = case["dut"]
    kw = dict(zip(ROTS, [angle(a) for a in q["rot"]]))
    kw.update({"translation_" + a: v / U for a, v in zip(AXES, q["tr"])})
    t = case["type"]
    if t == "ScatteringPlane":
        return dm.ScatteringPlane(name="d", **kw)
    if t.startswith("Diamond"):
        return getattr(dm, t)(name="d", sensor_position=(20, 30), **kw)
    if t:
        return getattr(dm, t)(name="d", **kw)
    cls = case.get("cls", "RectangularPixelDut")
    return getattr(dm, cls)(name="d", column_size=q["px"] / U, row_size=q["py"] / U, n_columns=q["nc"], n_rows=q["nr"], **kw)


def form(kind, cols):
    if kind == "list":
        return [list(map(float, v)) for v in cols]
    if kind == "tuple":
        return [tuple(map(float, v)) for v in cols]
    if kind == "f4":
        return [np.array(v, dtype="f4") for v in cols]
    return [np.array(v, dtype="f8") for v in cols]


def toint(pts, scale):
    return [[NaN if v != v else int(round(v * scale)) if abs(v * scale) < 2e9 else 2000000000 for v in map(float, p)] for p in pts]


def run_case(case, d):
    k = case["kind"]
    with np.errstate(all="ignore"):
        return {"walk": walk, "euler": euler, "cross": cross, "sphere": sphere}[k](case)


def walk(case):
    dut = make(case)
    cur, frame = np.array(case["start"], dtype="f8"), "index"
    if case["frame"] == "local":
        frame, cur = "local", np.where(cur == NaN, np.nan, cur) / U
    else:
        cur = cur / 4.
    steps = []
    for s in case["steps"]:
        op, ov = s["op"], s["ov"]
        scale = 4. if frame == "index" else U
        st = {"op": op, "in": toint(cur, scale), "out": [], "exc": ""}
        kw = {"translation_" + a: v[0] / U for a, v in zip(AXES, ov["tr"]) if v}
        kw.update({a: angle(v) for a, v in zip(ROTS, ov["rot"]) if v})
        cols = form(s["form"], cur.T)
        try:
            if op == "index_to_local":
                out = dut.index_to_local_position(cols[0], cols[1])
                frame = "local"
            elif op == "index_to_global":
                out = dut.index_to_global_position(cols[0], cols[1], **kw)
                frame = "global"
            elif op == "local_to_index":
                out = dut.local_position_to_index(*(cols if s["z"] else cols[:2]))
                frame = "index"
            elif op == "global_to_index":
                out = dut.global_position_to_index(*cols, **kw)
                frame = "index"
            elif op == "local_to_global":
                out = dut.local_to_global_position(*(cols if s["z"] else cols[:2]), **kw)
                frame = "global"
            elif op == "global_to_local":
                out = dut.global_to_local_position(*cols, **kw)
                frame = "local"
            elif op == "cell":
                out = dut.map_to_primitive_cell(cols[0], cols[1])
                st["out"] = toint(np.array(out).T, U)
                out = None
            else:
                g = op == "global_extent"
                st["out"] = toint([dut.x_extent(g), dut.y_extent(g), dut.z_extent(g)], U)
                out = None
            if out is not None:
                cur = np.array(out, dtype="f8").T
                st["out"] = toint(cur, 4. if frame == "index" else U)
        except (ValueError, RuntimeError) as e:
            st["exc"] = type(e).__name__
        steps.append(st)
        if st["exc"]:
            break
    return {"exc": "", "steps": steps}


def cs(a):
    return [int(round(1e4 * np.cos(a))), int(round(1e4 * np.sin(a)))]


def euler(case):
    from beam_telescope_analysis.tools import geometry_utils as gu
    a = case["a"]
    R = gu.rotation_matrix(*a)
    for b in case.get("times", []):  # products of matrices carry rounding errors
        R = np.dot(np.dot(gu.rotation_matrix(*b), gu.rotation_matrix(*b).T), R)
    q = np.asarray(R)
    out = gu.euler_angles(q)
    return {"exc": "", "R": [[int(round(1e4 * v)) for v in row] for row in q], "out": [cs(v) if v == v else [0, 0] for v in out]}


def cross(case):
    from beam_telescope_analysis.tools import geometry_utils as gu
    q = case["dut"]
    kw = dict(zip(ROTS, [angle(a) for a in q["rot"]]))
    kw.update({"translation_" + a: v / U for a, v in zip(AXES, q["tr"])})
    o = np.array([l["o"] for l in case["lines"]]) / U
    v = np.array([l["d"] for l in case["lines"]]) / case["norm"]
    return {"exc": "", "out": toint(gu.get_line_intersections_with_dut(o, v, **kw), U)}


def sphere(case):
    from beam_telescope_analysis.tools import geometry_utils as gu
    p = np.array(case["in"], dtype="f8").T / U
    phi, theta, r = gu.cartesian_to_spherical(*p)
    out = np.array(gu.spherical_to_cartesian(phi, theta, r)).T
    return {"exc": "", "phi": [int(1e4 * v) for v in phi], "out": toint(out, U)}


D0 = {"px": 1, "py": 1, "nc": 1, "nr": 1, "rot": [[1, 0, 1]] * 3, "tr": [0, 0, 0]}
NOV = {"tr": [[], [], []], "rot": [[], [], []]}


def encode(c, r):
    o = {"kind": c["kind"], "dut": c.get("dut", D0)}
    if c["kind"] == "walk":
        if r["exc"]:
            st = [{"op": "failed", "in": [], "out": [], "exc": r["exc"], "ov": NOV, "anyov": False, "cell": [1, 1]}]
        else:
            st = [dict(a, ov=b["ov"], anyov=any(b["ov"]["tr"] + b["ov"]["rot"]), cell=b["cell"]) for a, b in zip(r["steps"], c["steps"])]
        return dict(o, type=c["type"] if c["type"] in SENSORS else "", steps=st)
    if c["kind"] == "euler":
        return dict(o, a=[cs(v) for v in c["a"]], exc=r["exc"], R=r.get("R", []), out=r.get("out", []))
    if c["kind"] == "cross":
        return dict(o, lines=c["lines"], exc=r["exc"], out=r.get("out", []))
    return dict(o, exc=r["exc"], phi=r.get("phi", []), out=r.get("out", []), **{"in": c["in"]})


def rnd_walk(r, t=None):
    if t is None:
        t = r.choice([""] * 4 + list(SENSORS) + ["ScatteringPlane", "Diamond3DpCVD", "DiamondPseudo3DpCVD"])
    cls, cell = "RectangularPixelDut", (1, 1)
    if t in SENSORS:
        px, py, nc, nr = SENSORS[t][:4]
        cell = SENSORS[t][4:]
    elif t:
        px, py, nc, nr = 25000, 5000, 80, 336
    else:
        px, py = r.choice([1000, 1840, 5000, 25000, 1236]), r.choice([1000, 1840, 5000, 25000, 1236])
        nc, nr = r.choice([1, 2, 3, 7, 40, min(400, 2000000 // px)]), r.choice([1, 2, 3, 7, 40, min(400, 2000000 // py)])
        if r.random() < .2:
            cls, cell, nc = "RectangularPixelDutWithDoubleColumns", (2, 1), nc + nc % 2
    rot = rots(r) if r.random() < .8 else [[1, 0, 1]] * 3
    flat = all(a == [1, 0, 1] for a in rot)
    tr = [r.choice([0, r.randrange(-1000000, 1000000)]) for _ in range(2)] + [r.choice([0, r.randrange(-1000000, 1000000)])]
    n, lo = r.randrange(1, 7), 3
    special = t and t not in SENSORS
    if special or r.random() < .2:
        frame = "local"
        start = [[px * (r.randrange(3, 4 * nc + 2) - 2 - 2 * nc) // 4, py * (r.randrange(3, 4 * nr + 2) - 2 - 2 * nr) // 4, 0] for _ in range(n)]
        if r.random() < .3:
            start[r.randrange(n)] = [NaN] * 3
        if r.random() < .15:
            q = start[r.randrange(n)]
            q[2] = r.choice([500, -20]) if q[0] != NaN else NaN
    else:
        frame = "index"
        lo = 3
        if flat and r.random() < .5:
            lo, tr = 2, [0, 0, 0]
        start = [[r.randrange(lo, 4 * nc + 5 - lo), r.randrange(lo, 4 * nr + 5 - lo)] for _ in range(n)]
        if r.random() < .4:
            start = [[4 * r.randrange(1, nc + 1), 4 * r.randrange(1, nr + 1)] for _ in range(n)]
        if r.random() < .15:
            start[r.randrange(n)][r.randrange(2)] = r.choice([1, 0, -4, 4 * max(nc, nr) + 3, 4 * max(nc, nr) + 8])
    steps, f, held = [], frame, NOV
    for _ in range(r.randrange(2, 8)):
        if f == "index":
            op = r.choice(["index_to_local", "index_to_global", "index_to_local", "extent", "global_extent"])
        elif f == "local":
            op = r.choice(["local_to_global", "local_to_global", "local_to_index", "cell"]) if not special else "local_to_global"
        else:
            op = r.choice(["global_to_local", "global_to_local", "global_to_index"]) if not special else "global_to_local"
        ov = NOV
        if op in ("local_to_global", "index_to_global") and lo == 3 and r.random() < .35:
            ov = {"tr": [[r.choice([0, r.randrange(-1000000, 1000000)])] if r.random() < .4 else [] for _ in range(3)], "rot": [[], [], []]}
            if r.random() < .5:
                q = [a if r.random() < .5 else [] for a in rots(r)]
                e = [b or a for a, b in zip(rot, q)]
                if e[0][2] * e[1][2] * e[2][2] <= 325:
                    ov["rot"] = q
            held = ov
        elif op in ("local_to_global", "index_to_global"):
            held = NOV
        elif f == "global":
            ov = held
        has_z = frame == "local" and any(p[2] not in (0, NaN) for p in start)
        steps.append({"op": op, "ov": ov, "form": r.choice(["array", "array", "list", "tuple"]), "z": int(has_z or r.random() < .5), "cell": list(cell)})
        f = {"index_to_local": "local", "index_to_global": "global", "local_to_global": "global", "global_to_local": "local", "local_to_index": "index", "global_to_index": "index"}.get(op, f)
    return {"kind": "walk", "type": t, "cls": cls, "dut": {"px": px, "py": py, "nc": nc, "nr": nr, "rot": rot, "tr": tr}, "frame": frame, "start": start, "steps": steps}


def rnd_euler(r):
    q = [0., np.pi / 2, -np.pi / 2, np.pi, -np.pi, 1e-9, np.pi / 4]
    f = lambda lim: r.choice(q) if r.random() < .4 else r.uniform(-lim, lim)
    b = r.choice([np.pi / 2, -np.pi / 2, np.pi / 2 - 1e-10, 1e-8 - np.pi / 2, np.pi / 2 - 1e-4]) if r.random() < .35 else f(1.5)
    return {"kind": "euler", "a": [float(v) for v in (f(3.1), b, f(3.1))], "times": [[r.uniform(-3, 3) for _ in range(3)] for _ in range(r.choice([0, 0, 1, 3]))]}


def rnd_cross(r):
    flat = r.random() < .25
    rot = [[1, 0, 1]] * 3 if flat else rots(r, 65)
    n = lines = None
    tr = [r.randrange(-100000, 100000) for _ in range(3)]
    # normal of the plane, times the denominator
    M = np.eye(3)
    for a, k in zip(rot, range(3)):
        cc, ss, dd = a
        Q = {0: [[dd, 0, 0], [0, cc, -ss], [0, ss, cc]], 1: [[cc, 0, ss], [0, dd, 0], [-ss, 0, cc]], 2: [[cc, -ss, 0], [ss, cc, 0], [0, 0, dd]]}[k]
        M = np.dot(np.array(Q), M)
    n = M[:, 2]
    den = rot[0][2] * rot[1][2] * rot[2][2]
    lines = []
    while len(lines) < r.randrange(1, 8):
        d = [r.randrange(-30, 31) for _ in range(3)]
        o = [r.randrange(-100000, 100000) for _ in range(3)]
        if abs(np.dot(n, d)) >= .1 * den * max(1, np.linalg.norm(d)) or (flat and any(d) and np.dot(n, d) == 0):
            lines.append({"o": o, "d": d})
    return {"kind": "cross", "dut": dict(D0, rot=rot, tr=tr), "lines": lines, "norm": r.choice([1., 30., 1000.])}


def rnd_sphere(r):
    f = lambda: r.choice([0, 0, r.randrange(-100000, 100000), 100, -100])
    pts = [[f(), f(), f()] for _ in range(6)]
    return {"kind": "sphere", "in": [p for p in pts if p[0] or p[1] or p[2] >= 0] or [[0, 0, 0]]}


def check(ctx):
    ctx.mc("CoordinatesMC", must_cover=["MLocal", "MIndex", "MGlobal", "MBack"])
    ctx.mc("GeometryMC")
    if not ctx.quick:
        ctx.mc("CoordinatesMC", "CoordinatesMCBig.cfg", timeout=1500)
        ctx.mc("GeometryMC", "GeometryMCBig.cfg", timeout=1500)
    r = ctx.rng
    cases = [rnd_walk(r, t) for t in list(SENSORS) * 2] + [rnd_walk(r) for _ in range(ctx.n(1500, 20000))]
    cases += [rnd_euler(r) for _ in range(ctx.n(400, 4000))] + [rnd_cross(r) for _ in range(ctx.n(300, 3000))] + [rnd_sphere(r) for _ in range(ctx.n(150, 1500))]
    r.shuffle(cases)
    ctx.validate("CoordinatesTrace", ctx.execute(cases), encode, kind="random walks and matrices")
