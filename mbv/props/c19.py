"""C19: telescope configuration files and attributes."""
ASSUMPTIONS = ["numbers are multiples of 1/8 or taken from a pool of arbitrary floats", "after a failed load the walk ends (the object may be partially loaded)"]
from mbv.util import *
import itertools

PLACE = ["translation_x", "translation_y", "translation_z", "rotation_alpha", "rotation_beta", "rotation_gamma"]
GEO = ["column_size", "row_size", "n_columns", "n_rows"]
OPT = ["name", "x_limit", "y_limit", "material_budget", "intrinsic_resolution"]
FREE = ["RectangularPixelDut", "RectangularPixelDutWithDoubleColumns"]
DIA = ["Diamond3DpCVD", "DiamondPseudo3DpCVD"]
FIXED = ["FEI4", "RD53A", "RD53A_8x8", "ITkPix", "ITkPix_8x8", "TJMonopix1", "TJMonopix1_2x2", "PSI46", "Mimosa26", "DepfetH5z85", "DepfetH5z55", "Timepix3", "ScatteringPlane"]
POOL = [0.1, 1 / 3., 1e-7, -2.5e-05, 3.141592653589793, 123456.789, 1e22, -0.30000000000000004]
INF = 10 ** 9


def code(v):
    v = float(v)
    if v in (np.inf, -np.inf):
        return INF if v > 0 else -INF
    if v in POOL:
        return 2000000 + POOL.index(v)
    if v != v or abs(v) > 100000 or v * 8 != int(v * 8):
        return -77777777
    return int(v * 8)


def raw(n):
    if abs(n) == INF:
        return np.inf if n > 0 else -np.inf
    if n >= 2000000:
        return POOL[n - 2000000]
    return n / 8.


def encval(a, v):
    """value of an attribute -> sequence for the specification"""
    if v is None:
        return []
    try:
        if a == "name":
            return [v if type(v) is str else "?%r" % v]
        if a in ("x_limit", "y_limit", "intrinsic_resolution", "sensor_position"):
            return [code(x) for x in v]
        return [code(v)] if not isinstance(v, str) else [-88888888]
    except Exception:
        return [-88888888]


def rawval(a, v, form=0):
    if not v:
        return None
    if a == "name":
        return int(v[0]) if form and v[0].isdigit() and v[0] == str(int(v[0])) else v[0]
    if a in ("x_limit", "y_limit", "intrinsic_resolution"):
        x = [raw(q) for q in v]
        return (tuple(x), x, np.array(x))[form % 3]
    if a == "sensor_position":
        return [int(raw(q)) for q in v]
    if a in ("n_columns", "n_rows"):
        return (int(raw(v[0])), float(raw(v[0])), np.int64(raw(v[0])))[form % 3]
    x = raw(v[0])
    if form % 3 == 1 and x == x // 1 and abs(x) < 1e6:
        return int(x)
    return np.float64(x) if form % 3 == 2 else x


def warmup(d):
    from beam_telescope_analysis.telescope import telescope


def run_case(case, d):
    return {"exc": "", "walks": [walk(w, k) for k, w in enumerate(case["walks"])]}


def walk(ops, kk):
    import os
    import yaml
    from collections import OrderedDict
    from beam_telescope_analysis.telescope import telescope as tm, dut as dm
    names = {f: "w%d_%s.yaml" % (kk, f) for f in "abc"}
    fn = lambda f: names[f] if f else None
    t = tm.Telescope()
    plain = lambda a, v, form: (lambda x: x.tolist() if isinstance(x, (np.ndarray, np.generic)) else list(x) if isinstance(x, tuple) else x)(rawval(a, v, form))
    steps = []
    for o in ops:
        exc, opened = "", 1
        form = o.get("form", 0)
        try:
            k = o["op"]
            if k == "add":
                t.add_dut(dut_type=getattr(dm, o["type"]) if o.get("cls") and hasattr(dm, o["type"]) else o["type"], dut_id=o["id"], **{a: rawval(a, v, form) for a, v in dict(o["at"]).items()})
            elif k == "set":
                setattr(t[o["id"]], o["a"], o["bad"] if not o["ok"] else rawval(o["a"], o["v"], form))
            elif k == "settel":
                setattr(t, o["a"], rawval(o["a"], o["v"], form))
            elif k == "remove":
                del t.dut[o["id"]]
            elif k == "from":
                t[o["id"]] = getattr(dm, o["type"]).from_dut(t[o["src"]], **{a: rawval(a, v, form) for a, v in dict(o["at"]).items()})
            elif k == "save":
                t.save_configuration(fn(o["f"]), keep_others=o["keep"])
            elif k == "load":
                t.load_configuration(fn(o["f"]))
            elif k == "new":
                t = tm.Telescope(fn(o["f"]))
            elif k == "fresh":
                t = tm.Telescope()
            else:
                c = o["c"]
                q = {}
                if c["others"]:
                    q["OTHER"] = {"note": c["others"]}
                if c["has"]:
                    q["TELESCOPE"] = {a: plain(a, v, form) for a, v in dict(c["tel"]).items()}
                    if c["extra"]:
                        q["TELESCOPE"]["comment"] = c["extra"]
                    q["TELESCOPE"]["DUT"] = {x["id"]: dict({a: plain(a, v, form) for a, v in dict(x["at"]).items()}, **({"dut_type": x["type"]} if x["type"] else {})) for x in c["duts"]}
                with open(fn(o["f"]), "w") as f:
                    if q:
                        yaml.safe_dump(q, f, sort_keys=bool(form))
                ok = tm.open_configuation(fn(o["f"])) == q and tm.open_configuation(dict(q)) == q and tm.open_configuation(OrderedDict(q)) == q and (not q or tm.open_configuation(yaml.safe_dump(q)) == q)
                with open(fn(o["f"])) as f:
                    ok = ok and tm.open_configuation(f) == q
                opened = int(ok)
        except (ValueError, TypeError, AttributeError, KeyError) as e:
            exc = "error"
            if o["op"] == "write":
                raise
        ds = []
        for i in t.dut:
            dd = t.dut[i]
            ds.append({"id": i, "type": type(dd).__name__, "at": {a: encval(a, getattr(dd, a)) for a in dd.dut_attributes}})
        it = list(t)
        ds = [next(x for x in ds if t.dut[x["id"]] is dd) for dd in it]
        files = []
        if o["op"] in ("save", "write"):
            for f in "abc":
                if not os.path.isfile(names[f]):
                    files.append({"f": f, "c": []})
                    continue
                with open(names[f]) as fh:
                    q = yaml.safe_load(fh) or {}
                tl = q.get("TELESCOPE") or {}
                oth = set(q) - {"OTHER", "TELESCOPE"}
                files.append({"f": f, "c": [{"has": "TELESCOPE" in q, "others": q.get("OTHER", {}).get("note", "") + "".join(sorted(oth)), "extra": tl.get("comment", ""),
                              "tel": {a: encval(a, v) for a, v in tl.items() if a not in ("DUT", "comment")},
                              "duts": [{"id": i, "type": v.get("dut_type", ""), "at": {a: encval(a, str(x) if a == "name" and type(x) is int else x) for a, x in v.items() if a != "dut_type"}} for i, v in tl.get("DUT", {}).items()]}]})
        steps.append({"exc": exc, "duts": ds, "tel": {a: encval(a, getattr(t, a)) for a in PLACE}, "n": len(t), "names": list(t.dut_names), "files": files, "open": opened})
        if exc and o["op"] == "load":
            break
    return steps


def split(recs):
    out = []
    for c, r in recs:
        if r["exc"]:
            out += [({"walks": [w]}, r) for w in c["walks"][:1]]
        else:
            out += [({"walks": [w]}, {"exc": "", "steps": s}) for w, s in zip(c["walks"], r["walks"])]
    return out


def encode(c, r):
    if r["exc"]:
        return {"exc": r["exc"], "steps": []}
    return {"exc": "", "steps": [{"o": {k: v for k, v in o.items() if k not in ("bad", "form", "cls")}, "obs": s} for o, s in zip(c["walks"][0], r["steps"])]}


def rnd_val(r, a):
    n = lambda: r.choice([0, 8, r.randrange(-800000, 800000), 2000000 + r.randrange(len(POOL))])
    if a == "name":
        return [r.choice(["DUT1", "FE-I4 no. 3", "\u00f6: {x}", "123", "null", "yes", "1e3", " a'\"b#"])]
    if a in ("x_limit", "y_limit"):
        return r.choice([[], [r.randrange(-8000, 8000), r.randrange(-8000, 8000)], [-INF, r.randrange(-8000, 8000)], [r.randrange(-8000, 8000), INF]])
    if a == "intrinsic_resolution":
        return r.choice([[], [n(), n()]])
    if a == "material_budget":
        return [n()]
    if a == "sensor_position":
        return [8 * r.randrange(50), 8 * r.randrange(50)]
    if a in GEO[:2]:
        return [r.randrange(8, 4000)]
    if a in GEO[2:]:
        return [8 * r.randrange(1, 500)]
    return [n()]


def attrs(t):
    return PLACE + OPT + (GEO if t in FREE else ["sensor_position"] if t in DIA else [])


def rnd_at(r, t, part=False):
    at = {}
    for a in attrs(t):
        if a in OPT and r.random() < .6 or part and r.random() < .7:
            continue
        at[a] = rnd_val(r, a)
    x = r.random()
    if x < .04 and at:
        at.pop(r.choice(sorted(at)))
    elif x < .08:
        a = r.choice([a for a in ["column_size", "sensor_position", "foo", "n_rows", "pixel_size"] if a not in attrs(t)])
        at[a] = [16, 16] if a == "sensor_position" else [16]
    return at


def rnd_walk(r):
    ids = r.sample([0, 1, 2, 3, 7, 10, 11], r.choice([1, 2, 3]))
    ty = lambda: r.choice(FREE + DIA + FIXED) if r.random() < .97 else "NoDut"
    types = {}
    ops = []
    for _ in range(r.randrange(4, 16)):
        i = r.choice(ids)
        form = r.randrange(3)
        x = r.random()
        if x < .25:
            t = ty()
            ops.append({"op": "add", "id": i, "type": t, "at": rnd_at(r, t), "cls": int(r.random() < .3)})
            types[i] = t
        elif x < .45:
            t = types.get(i, "FEI4")
            a = r.choice(attrs(t)) if r.random() < .8 else r.choice(GEO + ["sensor_position", "foo", "pixel_size", "n_pixel", "_foo", "translationx"])
            ok = r.random() < .9 or a not in PLACE
            ops.append({"op": "set", "id": i, "a": a, "v": rnd_val(r, a), "ok": ok, "bad": r.choice(["abc", None, [1.0]])})
        elif x < .5:
            a = r.choice(PLACE)
            ops.append({"op": "settel", "a": a, "v": rnd_val(r, a)})
        elif x < .54:
            ops.append({"op": "remove", "id": i})
        elif x < .6:
            t = ty().replace("NoDut", "FEI4")
            ops.append({"op": "from", "id": i, "src": r.choice(ids), "type": t, "at": rnd_at(r, t, r.random() < .8)})
        elif x < .75:
            ops.append({"op": "save", "f": r.choice(["", "a", "b", "c"]), "keep": r.random() < .5})
        elif x < .82:
            ops.append({"op": "load", "f": r.choice(["", "a", "b", "c"])})
        elif x < .88:
            ops.append({"op": "new", "f": r.choice(["a", "b", "c"])})
        elif x < .9:
            ops.append({"op": "fresh"})
        else:
            has = r.random() < .8
            ds = []
            if has:
                for j in r.sample(ids, r.randrange(len(ids) + 1)):
                    t = ty()
                    t0 = "" if r.random() < .2 else t
                    ds.append({"id": j, "type": t0, "at": rnd_at(r, t0 or "RectangularPixelDut")})
            ops.append({"op": "write", "f": r.choice("abc"), "c": {"has": has, "tel": {a: rnd_val(r, a) for a in PLACE if has and r.random() < .5}, "duts": ds, "others": r.choice(["", "note"]), "extra": r.choice(["", "more"]) if has else ""}})
        ops[-1]["form"] = form
    return ops


def check(ctx):
    ctx.mc("TelescopeConfigMC", "TelescopeConfigMC.cfg" if ctx.quick else "TelescopeConfigMCBig.cfg", timeout=1500)
    ops = [o[0] for o in ctx.enumerate("TelescopeConfigMC", "TelescopeConfigEnum.cfg")]
    for o in ops:
        if o["op"] == "write":
            c = o["c"]
            c["duts"] = [dict(v, id=int(k)) for k, v in dict(c["duts"] or {}).items()]
            c["tel"] = c["tel"] or {}
        o.setdefault("at", {}) if o["op"] in ("add", "from") else None
    walks = [list(w) for n in ((1, 2, 3) if ctx.quick else (1, 2, 3, 4)) for w in itertools.product(ops, repeat=n)]
    if ctx.quick:
        walks = ctx.rng.sample(walks, 2500)
    elif len(walks) > 40000:
        walks = ctx.rng.sample(walks, 40000)
    group = lambda ws: [{"walks": ws[k:k + 50]} for k in range(0, len(ws), 50)]
    ctx.validate("TelescopeConfigTrace", split(ctx.execute(group(walks), jit=False)), encode, kind="enumerated histories")
    walks = [rnd_walk(ctx.rng) for _ in range(ctx.n(1500, 20000))]
    ctx.validate("TelescopeConfigTrace", split(ctx.execute(group(walks), jit=False)), encode, kind="random histories")
