"""C10: straight line fit: exact lines, least squares, independence of unused hits."""
ASSUMPTIONS = ["rotations are rational (exact in integers), tilts up to 67 degrees and planes seen from behind; slopes up to 20 mrad; track and hit errors far below the pitch of the planes, so that the orthogonal and the vertical least squares line agree to 0.4 um",
               "the pool is replaced by a stand-in that runs the jobs on copies of their arguments"]
from mbv import lines as L


def warmup(d):
    import random
    L.run_case(L.case(random.Random(1), "fit", "line"), d)


def run_case(case, d):
    return L.run_case(case, d)


def check(ctx):
    r = ctx.rng
    ctx.mc_bg("GeometryMC", "GeometryMC.cfg" if ctx.quick else "GeometryMCBig.cfg", timeout=1000)
    ctx.mc_bg("LsqMC", timeout=1000)
    kinds = ["line"] * 5 + ["lsq"] * 4 + ["scatter"]
    cases = [L.case(r, "fit", kinds[k % 10]) for k in range(ctx.n(220, 6000))]
    recs = ctx.execute(cases, jit=False)
    ctx.validate("FitLineTrace", [x for x in recs if x[0]["kind"] != "lsq"], L.encode_line, kind="lines")
    ctx.validate("FitLsqTrace", [x for x in recs if x[0]["kind"] == "lsq"], L.encode_lsq, kind="least squares")
