"""Runs cases in forked children that have imported the code under test.
argv: module func infile outfile timeout procs batch scratch"""
import importlib, json, os, shutil, signal, sys, time, traceback, logging, warnings


def short(e):
    s = "%s: %s" % (type(e).__name__, e)
    return s[:400]


class CaseTimeout(BaseException):
    pass


def child(mod, func, cases, idx, out, scratch, timeout):
    os.setpgid(0, 0)
    import numpy as np
    fn = getattr(mod, func)

    def on_alarm(sig, frame):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, on_alarm)
    with open(out, "a", buffering=1) as f:
        for i in idx:
            f.write(json.dumps({"start": i}) + "\n")
            d = os.path.join(scratch, "c%d" % i)
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
            try:
                np.random.seed(12345)
                rec = fn(cases[i], d)
            except CaseTimeout:
                rec = {"exc": "TIMEOUT"}
            except SystemExit as e:
                rec = {"exc": "SystemExit %s" % e}
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                rec = {"exc": short(e), "tb": ["%s:%d %s" % (os.path.basename(t.filename), t.lineno, t.name) for t in tb[-4:]]}
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)
            f.write(json.dumps({"i": i, "rec": rec}) + "\n")
    os._exit(0)


def fast_inspect():
    """inspect.getmodule walks through all modules for each frame; the telescope classes look at the call stack for each
    attribute they set. Remembering the module of a source file changes nothing but the time."""
    import inspect
    orig, known = inspect.getmodule, {}

    def getmodule(obj, _filename=None):
        if not inspect.isframe(obj):
            return orig(obj, _filename)
        k = (obj.f_code.co_filename, _filename)
        if k not in known:
            known[k] = orig(obj, _filename)
        return known[k]
    inspect.getmodule = getmodule


def main():
    fast_inspect()
    modname, func, fin, fout, timeout, procs, batch, scratch = sys.argv[1:9]
    timeout, procs, batch = float(timeout), int(procs), int(batch)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all="ignore")
    mod = importlib.import_module(modname)
    cases = [json.loads(l) for l in open(fin)]
    os.makedirs(scratch, exist_ok=True)
    if hasattr(mod, "warmup"):
        try:
            d = os.path.join(scratch, "warm")
            os.makedirs(d, exist_ok=True)
            mod.warmup(d)
        except Exception:
            traceback.print_exc()  # the cases will show it
    todo = list(range(len(cases)))
    if not batch:
        batch = max(1, min(50, len(cases) // (procs * 4) or 1))
    batches = [todo[k:k + batch] for k in range(0, len(todo), batch)]
    batches.reverse()
    results, running, ntimeouts, nb = {}, {}, 0, 0
    devnull = os.open(os.devnull, os.O_RDWR)
    stop = False
    while batches or running:
        while batches and len(running) < procs and not stop:
            idx = batches.pop()
            out = os.path.join(scratch, "o%d" % nb)
            nb += 1
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
                try:
                    child(mod, func, cases, idx, out, scratch, timeout)
                finally:
                    os._exit(9)
            running[pid] = {"idx": idx, "out": out, "last": time.time(), "n": 0}
        if stop and not running:
            break
        time.sleep(0.01)
        for pid in list(running):
            r = running[pid]
            p, st = os.waitpid(pid, os.WNOHANG)
            lines = []
            if os.path.exists(r["out"]):
                sz = os.path.getsize(r["out"])
                if sz != r["n"]:
                    r["n"], r["last"] = sz, time.time()
            killed = False
            if p == 0 and time.time() - r["last"] > timeout:
                killed = True
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                p, st = os.waitpid(pid, 0)
            if p == 0:
                continue
            del running[pid]
            try:  # leftover grandchildren
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            done, started = set(), None
            if os.path.exists(r["out"]):
                for l in open(r["out"]):
                    try:
                        d = json.loads(l)
                    except ValueError:
                        continue
                    if "start" in d:
                        started = d["start"]
                    else:
                        results[d["i"]] = d["rec"]
                        done.add(d["i"])
            rest = [i for i in r["idx"] if i not in done]
            if rest:
                bad = started if started in rest else rest[0]
                results[bad] = {"exc": "HANG" if killed else "CRASH status %d" % st}
                ntimeouts += 1
                rest.remove(bad)
                if rest:
                    batches.append(rest)
                if ntimeouts >= (2 if killed else 6):
                    stop = True
                    batches = []
    with open(fout, "w") as f:
        for i in sorted(results):
            f.write(json.dumps({"i": i, "rec": results[i]}) + "\n")
    shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
