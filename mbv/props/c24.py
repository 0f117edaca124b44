"""C24: alignment."""
ASSUMPTIONS = ["every chunk of the tracks has no usable track or at least nine of them",
               "a DUT is aligned with tracks from other DUTs that have their true placement (aligning the telescope against itself has no unique solution)",
               "displacements up to 300 um and 30 mrad; accepted deviation 0.02 um and 60 urad (the iteration ends when a step of 30 % is below 1e-4 um and 1e-5 rad)",
               "single angles are only judged where turning about a fixed axis leaves the other angles alone"]
from mbv.util import *
from mbv.props import c13

NAMES = ("translation_x", "translation_y", "translation_z", "rotation_alpha", "rotation_beta", "rotation_gamma")
SC = np.array([100., 100., 100., 1e6, 1e6, 1e6])


def fl(p):
    return [float(v) for v in np.array(p) / SC]


def warmup(d):
    import random
    r = random.Random(1)
    run_case(calc_case(r), d)


def config(fn, case, pl):
    k = [dict(zip(NAMES, fl(p)), column_size=50., row_size=50., n_columns=800, n_rows=800, **({} if l is None else {"x_limit": (l[0], l[1]), "y_limit": (l[2], l[3])})) for p, l in zip(pl, case["lim"])]
    return telescope(fn, k, rotation_alpha=.001, rotation_beta=-.002)


def placements(fn):
    from beam_telescope_analysis.telescope.telescope import Telescope
    t = Telescope(fn)
    return [[float(getattr(x, n)) for n in NAMES] for x in t], (float(t.rotation_alpha), float(t.rotation_beta))


def lines(rs, n, spread):
    o = np.column_stack([rs.uniform(-9000, 9000, n), rs.uniform(-9000, 9000, n), np.zeros(n)])
    s = np.column_stack([rs.normal(0, spread, n), rs.normal(0, spread, n), np.ones(n)])
    return o, s / np.linalg.norm(s, axis=1)[:, None]


def rotation(a, b, c):
    sa, ca, sb, cb, sc, cc = np.sin(a), np.cos(a), np.sin(b), np.cos(b), np.sin(c), np.cos(c)
    return np.array([[cc, -sc, 0], [sc, cc, 0], [0, 0, 1]]).dot(np.array([[cb, 0, sb], [0, 1, 0], [-sb, 0, cb]])).dot(np.array([[1, 0, 0], [0, ca, -sa], [0, sa, ca]]))


def local(p, o, s):
    """intersection with the plane and direction, in local coordinates"""
    t, m = np.array(p[:3]), rotation(*p[3:])
    k = ((t - o).dot(m[:, 2])) / s.dot(m[:, 2])
    return (o + k[:, None] * s - t).dot(m), s.dot(m)


def run_case(case, d):
    import os
    import tables as tb
    from beam_telescope_analysis import dut_alignment as da
    nd = len(case["inp"])
    rs = np.random.RandomState(case["seed"])
    for fn in ("tel.yaml", "tel_aligned.yaml", "out.yaml"):
        if os.path.exists(fn):
            os.remove(fn)
    conf = config("tel.yaml", case, case["inp"])
    before = open(conf).read()
    start = [fl(p) for p in case["inp"]]
    exc = ""
    if case["kind"] == "calc":
        with tb.open_file("tracks.h5", "w") as f:
            for k, s in enumerate(case["groups"][0]):
                pat = case["rows"][k]     # per row: 1 usable, 0 no hit, 2 no fit, 3 outside of the limits
                n = len(pat)
                a = np.zeros(n, dtype=c13.dtype(nd))
                for name in a.dtype.names:
                    a[name] = 7
                o, sl = lines(rs, n, .05)
                off, dr = local(start[s], o, sl)
                hit, _ = local(fl(case["truth"][s]), o, sl)
                for j in range(n) if case["drift"] else []:   # the position changes from chunk to chunk
                    q = [v + w for v, w in zip(case["truth"][s], case["drift"][j // 12] + [0, 0, 0])]
                    hit[j] = local(fl(q), o[j:j + 1], sl[j:j + 1])[0][0]
                l = case["lim"][s]
                for j, u in enumerate(pat):
                    if u == 1 and l is not None:
                        # inside of the limits: pull the line to where it hits
                        q = (rs.uniform(l[0], l[1]), rs.uniform(l[2], l[3]))
                        p = fl(case["truth"][s])
                        at = rotation(*p[3:]).dot([q[0], q[1], 0]) + np.array(p[:3])
                        o1 = at - sl[j] * (at[2] / sl[j][2])
                        x = local(start[s], o1[None], sl[j:j + 1])
                        off[j], dr[j] = x[0][0], x[1][0]
                        hit[j] = [q[0], q[1], 0]
                    elif u == 3:
                        i = rs.randint(2)
                        hit[j, i] = l[2 * i + rs.randint(2)] + 0.
                        hit[j, i] += 50 if hit[j, i] == l[2 * i + 1] else -50
                    if u != 1:   # would spoil everything
                        off[j] += [500, -400, 0]
                for i, x in enumerate("xyz"):
                    a["offset_" + x], a["slope_" + x] = off[:, i], dr[:, i]
                    a["%s_dut_%d" % (x, s)] = hit[:, i] if i < 2 else 0
                a["track_chi2"] = [np.nan if u == 2 else 1.5 for u in pat]
                for j, u in enumerate(pat):
                    if u == 0:
                        for x in "xyz":
                            a["%s_dut_%d" % (x, s)][j] = np.nan
                    if u == 2:
                        for x in "xyz":
                            a["offset_" + x][j] = a["slope_" + x][j] = np.nan
                f.create_table(f.root, "Tracks_DUT%d" % s, obj=a)
        pars = None if case["pars"] is None else [None if p is None else [NAMES[v - 1] for v in p] for p in case["pars"][0]]
        try:
            da.calculate_transformation(conf, "tracks.h5", case["groups"][0], select_alignment_parameters=pars, use_limits=bool(case["limits"]), chunk_size=case["chunk"])
        except RuntimeError:
            exc = "RuntimeError"
        out, unchanged = conf, 1
    else:
        n = case["n"]
        o, sl = lines(rs, n, .003)
        a = np.zeros(n, dtype=merged_dtype(nd))
        a["event_number"] = np.arange(n) * 2
        for k in range(nd):
            hit, _ = local(fl(case["truth"][k]), o, sl)
            a["x_dut_%d" % k], a["y_dut_%d" % k] = hit[:, 0], hit[:, 1]
            a["x_err_dut_%d" % k] = a["y_err_dut_%d" % k] = 5
            for q in ("cluster_shape", "n_hits", "n_cluster", "charge"):
                a["%s_dut_%d" % (q, k)] = 1
            a["hit_flag"] |= 1 << k
        f = h5table("merged.h5", "MergedClusters", a)
        if case["exist"]:
            config(case["output"] or "tel_aligned.yaml", case, case["exist"])
        pars = None if case["pars"] is None else [None if g is None else [None if p is None else [NAMES[v - 1] for v in p] for p in g] for g in case["pars"]]
        tel = case["tel"]
        out = da.align(conf, f, output_telescope_configuration=case["output"] or None, select_duts=case["groups"][0] if case["flat"] else case["groups"], alignment_parameters=pars, select_telescope_duts=tel,
                       select_fit_duts=case["fit"], select_hit_duts=case["hit"], max_iterations=case["iter"], fit_method="fit", track_chi2=None,
                       quality_distances=(3000., 3000.) if case["quality"] else None, isolation_distances=None, plot=False, chunk_size=case["chunk"])
        assert out == (case["output"] or "tel_aligned.yaml")
        unchanged = int(open(conf).read() == before)
        left = [x for x in os.listdir(".") if "tmp" in x]
        assert not left, left
    got, beam = placements(out)
    sel = [s for g in case["groups"] for s in g]
    base = [fl(case["exist"][s] if case["exist"] and s not in sel else case["inp"][s]) for s in range(nd)]
    if exc:
        sel = []
    same = int(all(got[s] == base[s] for s in range(nd) if s not in sel))
    return {"exc": exc, "got": [[int(round(v)) for v in np.array(p) * SC] for p in got], "same": same, "beam": int(beam == (.001, -.002)), "in": unchanged}


def encode(c, r):
    use = [[sum(1 for u in c["rows"][k] if u == 1) if c["kind"] == "calc" else c["n"] for k in range(len(g))] for g in c["groups"]]
    pars = [[[0] if c["pars"] is None or c["pars"][k] is None or c["pars"][k][j] is None else c["pars"][k][j] for j in range(len(g))] for k, g in enumerate(c["groups"])]
    e = {"exc": r["exc"], "got": r.get("got", []), "same": r.get("same", 1), "beam": r.get("beam", 1), "in": r.get("in", 1)}
    return dict(e, inp=c["inp"], exist=c["exist"] or [], truth=c["truth"], drift=[[sum(c["rows"][0][12 * k:12 * k + 12][j] == 1 for j in range(12))] + v for k, v in enumerate(c["drift"])] if c["kind"] == "calc" and c["drift"] else [], groups=c["groups"], pars=pars, tel=c["tel"] if c["kind"] == "align" else [], use=use)


def place(r, z, big=True):
    return [r.randrange(-40000, 40000), r.randrange(-40000, 40000), z] + [r.randrange(-300000, 300000) if big else r.randrange(-100000, 100000) for _ in "xyz"]


def displace(r, p, pars, scale=30000):
    t = list(p)
    for v in pars:
        t[v - 1] += r.randrange(-scale, scale + 1)
    return t


def faithful(s, p):
    q = [v for v in s if v > 3]
    return q in ([], [6], [4, 5, 6]) or q == [5] and p[5] == 0 or q == [4] and p[4] == 0 == p[5]


def calc_case(r, pars=None, zero=None, use=None):
    nd = r.choice([1, 2, 3, 11])
    sel = r.sample(range(nd), 1 if use else r.randrange(1, min(nd, 3) + 1))
    inp = [place(r, r.choice([0, 1000000 * k, r.randrange(9000000)])) for k in range(nd)]
    P, lim = [], [None] * nd
    nopars = use is None and r.random() < .2
    for s in sel:
        if use:
            p = pars
            inp[s][3:] = [v if z else 0 for v, z in zip(inp[s][3:], zero)]
        else:
            p = None if nopars else r.choice([None, [1, 2, 3, 4, 5, 6], [1, 2, 4, 5, 6], [1, 2, 3], [1, 2], [6], [1, 6], [1, 2, 3, 6], [4, 5, 6], sorted(r.sample(range(1, 7), r.randrange(1, 6)))])
        P.append(p)
        if r.random() < .5:
            x, y = r.randrange(-8000, 2000), r.randrange(-8000, 2000)
            lim[s] = [x, x + r.randrange(3000, 6000), y, y + r.randrange(3000, 6000)]
    truth = [list(p) for p in inp]
    for s, p in zip(sel, P):
        q = list(range(1, 7)) if p is None or r.random() < .15 else p
        truth[s] = displace(r, inp[s], q)
    limits = int(r.random() < .7)
    rows, chunk = [], None
    for k, s in enumerate(sel):
        bad = [0, 2] + ([3, 3] if lim[s] is not None and limits else [])
        if use:
            chunk = 12
            q = []
            for u in use:
                u = u and r.choice([9, 10, 12])
                b = [1] * u + [r.choice(bad) for _ in range(chunk - u)]
                r.shuffle(b)
                q += b
        else:
            n = r.choice([0, 3, 4, 5, 8])
            if r.random() < .05:
                q = [r.choice(bad)] * r.choice([0, 5])
            else:
                q = [1] * 40 + [r.choice(bad) for _ in range(5 * n)]
                r.shuffle(q)
        rows.append(q)
    if chunk is None:
        chunk = r.choice([1000000, 1000000, 50, 100])
    drift = None
    if use and r.random() < .5 and not any(v > 3 for v in pars):
        drift = [[r.randrange(-3000, 3001) if i + 1 in pars else 0 for i in range(3)] for _ in use]
        lim[sel[0]] = None
        rows[0] = [2 if u == 3 else u for u in rows[0]]
    return {"kind": "calc", "drift": drift, "inp": inp, "exist": None, "truth": truth, "lim": lim, "groups": [sel], "pars": None if nopars else [P], "rows": rows, "limits": limits, "chunk": chunk, "seed": r.randrange(10 ** 6)}


def align_case(r):
    nd = r.choice([5, 6, 7])
    inp = [place(r, 100000 * 100 * k, False) for k in range(nd)]
    inp[0] = [0] * 6
    # DUTs to align: not the first and the last plane
    free = list(range(1, nd - 1))
    r.shuffle(free)
    fixed = [0, nd - 1]
    shape = r.choice([[1], [1, 1], [2], [2], [2, 1], [1, 2]])
    groups = []
    for m in shape:
        if len(free) >= m + (1 if nd == 5 and len(groups) > 0 else 0):
            groups.append([free.pop() for _ in range(m)])
    for s in free:
        if r.random() < .5:
            fixed.append(s)
    fixed.sort()
    exist = [place(r, 12345 * k, False) for k in range(nd)] if r.random() < .6 else None
    truth = [list(p) for p in inp]
    pars = []
    for g in groups:
        if r.random() < .3:
            pars.append(None)
        else:
            pars.append([r.choice([None, [1, 2, 4, 5, 6], [1, 2, 6], [1, 2]]) for _ in g])
    if r.random() < .2:
        pars = None
    tel = sorted(set([0, nd - 1] + ([groups[0][0]] if r.random() < .0 else [])))
    for k, g in enumerate(groups):
        for j, s in enumerate(g):
            p = None if pars is None or pars[k] is None else pars[k][j]
            truth[s] = displace(r, inp[s], range(1, 7) if p is None else p, 20000)
    # the fixed planes must be true also in the existing output
    if exist:
        for s in fixed:
            exist[s] = list(inp[s])
    flat = int(len(groups) == 1 and r.random() < .5)
    fit = [fixed] * len(groups)
    hit = [sorted(set(fixed) | (set(g) if r.random() < .5 else set())) for g in groups]
    return {"kind": "align", "inp": inp, "exist": exist, "truth": truth, "lim": [None] * nd, "groups": groups, "pars": pars, "tel": tel, "fit": fixed if r.random() < .3 else fit, "hit": hit, "flat": flat,
            "iter": 2, "n": r.choice([60, 90]), "quality": int(r.random() < .6), "output": r.choice(["", "out.yaml"]), "chunk": r.choice([1000000, 45]), "seed": r.randrange(10 ** 6)}


def check(ctx):
    ctx.mc("AlignmentMC", must_cover=["MPrepare", "MChunk", "MStore", "MNoTracks", "MSave"])
    if not ctx.quick:
        ctx.mc("AlignmentMC", "AlignmentMCBig.cfg", timeout=900)
    en = ctx.enumerate("AlignmentMC", "AlignmentEnum.cfg" if ctx.quick else "AlignmentEnumBig.cfg")
    cases = [calc_case(ctx.rng, sorted(e["pars"]), e["zero"], e["use"]) for e in en]
    cases += [calc_case(ctx.rng, sorted(e["pars"]), e["zero"], e["use"]) for e in en if len(e["use"]) > 1 and e["pars"] and not any(v > 3 for v in e["pars"]) for _ in range(4)]
    ctx.validate("AlignmentTrace", ctx.execute(cases, jit=False), encode, kind="enumerated selections")
    cases = [calc_case(ctx.rng) for _ in range(ctx.n(200, 4000))]
    ctx.validate("AlignmentTrace", ctx.execute(cases, jit=False), encode, kind="random tracks")
    cases = [align_case(ctx.rng) for _ in range(ctx.n(16, 300))]
    ctx.validate("AlignmentTrace", ctx.execute(cases), encode, kind="alignment")
