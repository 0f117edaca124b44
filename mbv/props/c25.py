"""C25: converters of readout systems."""
ASSUMPTIONS = ["the readout systems' own interpreters (pybar, pymosa_mimosa26_interpreter) are not installed: stand-ins write the interpreted hit table"]
from mbv.util import *

IDS = [1, 2, 3, 4, 5, 6]


def stubs():
    import sys, types, contextlib
    if "pybar" in sys.modules:
        return sys.modules["pybar"]._state

    class Any(object):
        pass
    S = {"log": None}

    class Interp(object):
        def __init__(self, files, out):
            self.interpreter = types.SimpleNamespace(set_warning_output=lambda v: None, print_summary=lambda: None)
            self.files, self.out = files, out

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def interpret_word_table(self):
            if not self.create_hit_table:
                return
            S["write"](self)

        def plot_histograms(self):
            pass

    class AnalyzeRawData(Interp):
        def __init__(self, raw_data_file=None, analyzed_data_file=None, create_pdf=False):
            import os
            fs = [raw_data_file] if isinstance(raw_data_file, str) else sorted(raw_data_file)
            Interp.__init__(self, fs, analyzed_data_file or os.path.splitext(fs[0])[0] + "_interpreted.h5")

    class DataInterpreter(Interp):
        def __init__(self, raw_data_file=None, analyzed_data_file=None, analyze_m26_header_ids=None, trigger_data_format=2, timing_offset=None, create_pdf=True, **kw):
            import os
            Interp.__init__(self, [raw_data_file], analyzed_data_file or os.path.splitext(raw_data_file)[0] + "_interpreted.h5")
            self.analyzed_data_file = self.out
            self.trigger_data_format = trigger_data_format
            self.analyze_m26_header_ids = IDS if analyze_m26_header_ids is None else analyze_m26_header_ids

    def mod(name, **kw):
        m = types.ModuleType(name)
        for k, v in kw.items():
            setattr(m, k, v)
        sys.modules[name] = m
        return m
    p = mod("pybar", _state=S)
    p.analysis = mod("pybar.analysis")
    p.analysis.analyze_raw_data = mod("pybar.analysis.analyze_raw_data", AnalyzeRawData=AnalyzeRawData)
    m = mod("pymosa_mimosa26_interpreter")
    m.data_interpreter = mod("pymosa_mimosa26_interpreter.data_interpreter", DataInterpreter=DataInterpreter)
    m.raw_data_interpreter = mod("pymosa_mimosa26_interpreter.raw_data_interpreter", DEFAULT_PYMOSA_M26_HEADER_IDS=IDS)
    try:
        import contextlib2
    except ImportError:
        mod("contextlib2", ExitStack=contextlib.ExitStack)
    return S


def warmup(d):
    stubs()
    from beam_telescope_analysis.converter import pybar_fei4_converter, pymosa_converter


F_DT = [("event_number", "i8"), ("trigger_number", "u4"), ("relative_BCID", "u1"), ("LVL1ID", "u2"), ("column", "u1"), ("row", "u2"), ("tot", "u1"), ("BCID", "u2"), ("TDC", "u2")]
M_DT = [("plane", "u1"), ("event_number", "i8"), ("trigger_number", "u4"), ("trigger_time_stamp", "u4"), ("frame_id", "u4"), ("column", "u2"), ("row", "u2"), ("event_status", "u4")]


def raw(case):
    H = case["hits"]
    n = len(H)
    a = np.zeros(n, dtype=F_DT if case["kind"] == "fei4" else M_DT)
    for k, q in (("event_number", "ev"), ("column", "c"), ("row", "r")):
        a[k] = [h[q] for h in H]
    a["trigger_number"] = np.arange(n) * 7 + 3  # nothing of this is to be found in the output
    if case["kind"] == "fei4":
        a["relative_BCID"] = [h["t"] for h in H]
        a["tot"] = [h["q"] for h in H]
        a["LVL1ID"], a["BCID"], a["TDC"] = 5, 6, 7
    else:
        a["plane"] = [h["p"] for h in H]
        a["trigger_time_stamp"], a["frame_id"] = 11, 12
    return a


def run_case(case, d):
    import tables as tb, os
    S = stubs()
    from beam_telescope_analysis.converter import pybar_fei4_converter as fe, pymosa_converter as mi
    tab = raw(case)

    def put(path):
        with tb.open_file(path, "w") as f:
            f.create_table(f.root, "Hits", obj=tab)
            f.create_array(f.root, "Other", obj=[1, 2, 3])
    S["write"] = lambda it: put(it.out)
    want, names, exc = None, [], ""
    kw = {"chunk_size": case["chunk"]} if case["chunk"] else {}
    try:
        if case["kind"] == "fei4":
            if case["how"] == "direct":
                put("abc.x.h5")
                want = [case["names"][0] if case["names"] else "abc.x_formatted_fei4.h5"]
                names = [fe.format_hit_table("abc.x.h5", output_filename=want[0] if case["names"] else None, **kw)]
            else:
                fs = ["run_2.h5", "run_1.h5", "run_3.h5"] if case["how"] == "list" else "run_1.h5"
                want = [case["names"][0] if case["names"] else "run_1_interpreted_formatted_fei4.h5"]
                names = [fe.process_dut(fs, output_filename=want[0] if case["names"] else None)]
        else:
            ids = case["planes"] if case["ids"] else None
            if case["how"] == "direct":
                put("abc.x.h5")
                base = "abc.x"
                names = mi.format_hit_table("abc.x.h5", output_filenames=case["names"] or None, analyze_m26_header_ids=ids, **kw)
            else:
                base = "inter" if case["how"] == "named" else "run_1_interpreted"
                names = mi.process_dut("run_1.h5", output_filename="inter.h5" if case["how"] == "named" else None, output_filenames=case["names"] or None, analyze_m26_header_ids=ids)
            want = case["names"] or ["%s_header_id_%d.h5" % (base, p) for p in case["planes"]]
    except (RuntimeError, ValueError) as e:
        exc = type(e).__name__
        tb.file._open_files.close_all()
        if case["kind"] == "fei4":
            names = [n for n in want if os.path.exists(n)]
        else:
            names = []
            if case["names"] and len(case["names"]) == len(case["planes"]):
                names = [n for n in case["names"] if os.path.exists(n)]
    outs = []
    for n in names:
        with tb.open_file(n, "r") as f:
            T = f.root.Hits[:]
        ok = T.dtype.names == ("event_number", "frame", "column", "row", "charge")
        outs.append([[int(r["event_number"]), int(r["frame"]), int(r["column"]), int(r["row"]), int(r["charge"])] for r in T] if ok else [[-9]])
    return {"exc": "", "e": exc, "outs": outs, "files": int(list(names) == want)}


def encode(c, r):
    return {"hits": c["hits"], "planes": c["planes"], "kind": c["kind"], "namesOk": int(c["kind"] == "fei4" or not c["names"] or len(c["names"]) == len(c["planes"])),
            "exc": r["exc"] or r.get("e", ""), "outs": r.get("outs", []), "files": r.get("files", 0)}


def case(r):
    kind = r.choice(["fei4", "mimosa", "mimosa"])
    n = r.choice([0, 1, 2, 5, 12, 25, 40])
    ev = rnd_events(r, n, start=r.choice([(0, 1), (0, 3), (5, 1000), (2 ** 20, 2 ** 20 + 5)]))
    ev = [int(e) for e in ev]
    q = r.random()
    if n > 1 and q < .25:  # wrong order somewhere
        k = r.randrange(1, n)
        ev[k] = max(0, ev[k - 1] - r.choice([1, 1, 3]))
        if q < .1:
            ev[k:] = [e if e >= ev[k] else ev[k] for e in ev[k:]]
    elif n and q < .3:
        ev[0] = -1
    if kind == "fei4":
        planes = [1]
    else:
        planes = r.choice([IDS, IDS, [1], [2, 1], [6, 3, 1], [4, 9], [1, 2, 3, 4, 5]])
    C, R = (80, 336) if kind == "fei4" else (1152, 576)
    o = 1 if kind == "fei4" else 0
    hits = [{"p": r.choice([1, 2, 3, 4, 5, 6, 6]), "ev": e, "t": r.randrange(16), "c": o + r.choice([0, C - 1, r.randrange(C), r.randrange(C)]), "r": o + r.choice([0, R - 1, r.randrange(R), r.randrange(R)]), "q": r.randrange(16)} for e in ev]
    if kind == "fei4":
        for h in hits:
            h["p"] = 1
    names = []
    if r.random() < .4:
        names = ["out_%d.h5" % r.randrange(10, 99) for _ in planes]
        names = ["%d_%s" % (k, v) for k, v in enumerate(names)]
        if kind == "mimosa" and r.random() < .2:
            names = names[:-1] if r.random() < .5 and len(names) > 1 else names + ["more.h5"]
    how = r.choice(["direct", "direct", "direct", "single", "list"] if kind == "fei4" else ["direct", "direct", "direct", "auto", "named"])
    return {"kind": kind, "hits": hits, "planes": planes, "ids": int(planes != IDS or r.random() < .5), "names": names, "how": how, "chunk": r.choice([0, 1, 2, 3, 7, 11]) if how == "direct" else 0}


def replay(x, kind):
    hits = [{"p": h["p"], "ev": h["ev"], "t": k, "c": k + 1, "r": 10 * k + 1, "q": k % 3} for k, h in enumerate(x["h"])]
    return {"kind": kind, "hits": hits, "planes": [1] if kind == "fei4" else [2, 1], "ids": 1, "names": [], "how": "direct", "chunk": x["chunk"]}


def check(ctx):
    r = ctx.rng
    ctx.mc_bg("ReadoutMC", "ReadoutMC.cfg", timeout=2000, must_cover=["StoreChunk", "RejectChunk", "Finish"])
    if not ctx.quick:
        ctx.mc_bg("ReadoutMC", "ReadoutMCBig.cfg", timeout=2000, must_cover=["StoreChunk", "RejectChunk", "Finish"])
    enum = ctx.enumerate("ReadoutMC", "ReadoutEnum.cfg")
    cases = [replay(x, "mimosa") for x in enum]
    cases += [replay(x, "fei4") for x in enum if all(h["p"] == 1 for h in x["h"])]
    cases += [case(r) for _ in range(ctx.n(700, 12000))]
    recs = ctx.execute(cases)
    ctx.validate("ReadoutTrace", recs, encode)
