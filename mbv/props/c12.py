"""C12: Kalman filter: exact lines, no scattering = least squares, order of the planes, unused planes."""
ASSUMPTIONS = ["rotations are rational (exact in integers), tilts up to 67 degrees and planes seen from behind; slopes up to 10 mrad; position errors of a few um, at least three hits, 5 GeV electrons",
               "for scattered hits with scattering, only the independence properties are decided (order and placement of the planes, unused hits, other tracks); without scattering and with equal errors, the result is the least squares line",
               "the pool is replaced by a stand-in that runs the jobs on copies of their arguments"]
from mbv import lines as L


def warmup(d):
    import random
    for k in ("line", "lsq", "scatter"):
        L.run_case(L.case(random.Random(1), "kalman", k), d)


def run_case(case, d):
    return L.run_case(case, d)


def check(ctx):
    r = ctx.rng
    ctx.mc_bg("GeometryMC", "GeometryMC.cfg" if ctx.quick else "GeometryMCBig.cfg", timeout=1000)
    ctx.mc_bg("LsqMC", timeout=1000)
    kinds = ["line"] * 5 + ["lsq"] * 4 + ["scatter"]
    cases = [L.case(r, "kalman", kinds[k % 10]) for k in range(ctx.n(130, 3000))]
    recs = ctx.execute(cases)
    ctx.validate("FitLineTrace", [x for x in recs if x[0]["kind"] != "lsq"], L.encode_line, kind="lines")
    ctx.validate("FitLsqTrace", [x for x in recs if x[0]["kind"] == "lsq"], L.encode_lsq, kind="least squares")
