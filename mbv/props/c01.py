"""C01: chunked, event-aligned reading."""
ASSUMPTIONS = ["event numbers are sorted (documented precondition)",
               "with first_event_aligned=False, start index inside the table and the start event missing, the documentation leaves open whether the first event is read; not judged"]


def _table(h5, evs, i):
    import numpy as np
    arr = np.zeros(len(evs), dtype=[("event_number", "i8"), ("row", "i4")])
    arr["event_number"] = evs
    arr["row"] = np.arange(len(evs))
    t = h5.create_table(h5.root, "T%d" % i, obj=arr)
    t.flush()
    return t


def warmup(d):
    from beam_telescope_analysis.tools import analysis_utils


def run_case(case, d):
    import tables as tb
    from beam_telescope_analysis.tools.analysis_utils import data_aligned_at_events
    h5 = tb.open_file("x.h5", "w", driver="H5FD_CORE", driver_core_backing_store=0)
    t = _table(h5, case["tbl"], 0)
    indexed = False
    res = []
    for c in case["cfgs"]:
        if c["speed"] and not indexed:
            t.cols.event_number.create_csindex()
            indexed = True
        ev = []
        try:
            kw = dict(start_event_number=None if c["startEv"] < 0 else c["startEv"],
                      stop_event_number=None if c["stopEv"] < 0 else c["stopEv"], start_index=c["startIdx"],
                      stop_index=c["stopIdx"], chunk_size=c["chunk"], first_event_aligned=c["aligned"],
                      fail_on_missing_events=c["fail"])
            if c.get("defaults"):  # None means: whole table
                for k, v in (("start_index", 0), ("stop_index", len(case["tbl"]))):
                    if kw[k] == v:
                        kw[k] = None
            n = 0
            for rows, idx in data_aligned_at_events(t, try_speedup=bool(c["speed"]), **kw):
                ev.append({"e": "chunk", "rows": [int(x) for x in rows["row"]], "idx": int(idx)})
                n += 1
                if n > 2 * len(case["tbl"]) + 3:
                    ev.append({"e": "crash"})  # endless
                    break
            else:
                ev.append({"e": "end"})
        except ValueError:
            ev.append({"e": "error"})
        except Exception as e:
            ev.append({"e": "crash", "what": "%s: %s" % (type(e).__name__, e)})
        res.append(ev)
    h5.close()
    return {"runs": res}


def _flat(recs):
    out = []
    for case, rec in recs:
        if "exc" in rec:
            out.append(({"tbl": case["tbl"], "cfg": case["cfgs"][0]}, {"ev": [{"e": "crash", "what": rec["exc"]}]}))
            continue
        for c, ev in zip(case["cfgs"], rec["runs"]):
            out.append(({"tbl": case["tbl"], "cfg": {k: v for k, v in c.items() if k != "defaults"}}, {"ev": ev}))
    return out


def random_cases(ctx, n):
    r = ctx.rng
    cases = []
    for _ in range(n):
        evs, e = [], r.randrange(0, 3)
        while len(evs) < r.choice([3, 8, 20, 45]):
            evs += [e] * r.choice([1, 1, 1, 2, 2, 3, 5, 9])
            e += r.choice([1, 1, 1, 2, 4])
        L = len(evs)
        cfgs = []
        for _ in range(12):
            si = r.choice([0, 0, 0, r.randrange(L + 1)])
            so = r.choice([L, L, L, r.randrange(si, L + 1)])
            a, b = r.randrange(-1, e + 2), r.randrange(-1, e + 2)
            if r.random() < .3:
                a = -1
            if r.random() < .3:
                b = -1
            if r.random() < .4 and a >= 0:
                a = r.choice(evs)
            if a >= 0 and b >= 0 and a > b:
                a, b = b, a
            if r.random() < .4 and b >= 0:
                bb = [x for x in evs if x >= a]
                b = r.choice(bb) if bb else b
            speed = r.random() < .3
            al = True if speed else r.random() < .7
            idx = evs[si:so]
            if not al and si and a >= 0 and a not in idx:
                continue
            cfgs.append({"startEv": a, "stopEv": b, "startIdx": si, "stopIdx": so,
                         "chunk": r.choice([1, 2, 3, 4, 5, 7, 9, 10, 15, 25, 60]), "aligned": al,
                         "fail": r.random() < .4, "speed": speed, "defaults": r.random() < .5})
        if cfgs:
            cases.append({"tbl": evs, "cfgs": cfgs})
    return cases


def check(ctx):
    ctx.mc_bg("ChunkReaderMC", "ChunkReaderMC.cfg", must_cover=["Seek", "SeekFails", "ReadSome", "Finish", "TooLarge"])
    enum = ctx.enumerate("ChunkReaderEnum", "ChunkReaderEnum.cfg" if ctx.quick else "ChunkReaderEnumBig.cfg")
    r = ctx.rng
    keep = ctx.n(130, 500)
    for e in enum:
        cf = e["cfgs"]
        r.shuffle(cf)
        # all configurations without restriction, a random part of the others; the accelerated path for aligned ones
        e["cfgs"] = cf[:max(keep, len(cf) // 40)]
        e["cfgs"] += [dict(c, speed=True) for c in cf[-keep:] if c["aligned"]]
    recs = ctx.execute(enum + random_cases(ctx, ctx.n(1200, 12000)))
    flat = _flat(recs)
    ctx.validate("ChunkReaderTrace", flat, lambda c, r: dict(c, ev=[{k: v for k, v in x.items() if k != "what"} for x in r["ev"]]))
