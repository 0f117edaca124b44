import os, sys, tempfile, logging, warnings
sys.path.insert(0, os.getcwd())
os.environ.setdefault("MPLBACKEND", "Agg")
work = tempfile.mkdtemp(prefix="demo_")
os.environ["NUMBA_CACHE_DIR"] = work
os.environ["TQDM_DISABLE"] = "1"
import atexit, shutil
atexit.register(shutil.rmtree, work, True)
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
import numpy as np
import tables as tb


def check(ok, text):
    if not ok:
        print("FAILED:", text)
        sys.exit(1)


def path(n):
    return os.path.join(work, n)


def write(name, node, arr):
    with tb.open_file(path(name), "w") as f:
        f.create_table(f.root, node, obj=arr)
    return path(name)


def read(name, node):
    with tb.open_file(name, "r") as f:
        return f.get_node("/" + node)[:]


def telescope(duts, **kw):
    from beam_telescope_analysis.telescope.telescope import Telescope
    t = Telescope(**kw)
    for i, d in enumerate(duts):
        q = dict(dut_type="RectangularPixelDut", name="DUT%d" % i, translation_x=0, translation_y=0, translation_z=0, rotation_alpha=0, rotation_beta=0, rotation_gamma=0)
        if q["dut_type"] == d.get("dut_type", "RectangularPixelDut"):
            q.update(column_size=50, row_size=50, n_columns=400, n_rows=400)
        q.update(d)
        t.add_dut(dut_id=i, **q)
    t.save_configuration(path("tel.yaml"))
    return path("tel.yaml")


def merged(rows, nd, err=5.0):
    """rows: [(event, [(x, y) or None] * nd)]"""
    d = [("event_number", "i8")]
    for q in "xyz":
        d += [("%s_dut_%d" % (q, i), "f8") for i in range(nd)]
    for q, t in (("charge", "f4"), ("frame", "u2"), ("n_hits", "u4"), ("cluster_ID", "i2"), ("cluster_shape", "i8"), ("n_cluster", "u4")):
        d += [("%s_dut_%d" % (q, i), t) for i in range(nd)]
    d += [("hit_flag", "u4")]
    for q in "xyz":
        d += [("%s_err_dut_%d" % (q, i), "f4") for i in range(nd)]
    a = np.zeros(len(rows), dtype=d)
    for k, (e, hits) in enumerate(rows):
        a["event_number"][k] = e
        for i, h in enumerate(hits):
            for q in ("x", "y", "z", "x_err", "y_err", "z_err", "charge"):
                a["%s_dut_%d" % (q, i)][k] = np.nan
            if h is None:
                continue
            a["x_dut_%d" % i][k], a["y_dut_%d" % i][k] = h
            a["z_dut_%d" % i][k] = a["z_err_dut_%d" % i][k] = 0
            a["x_err_dut_%d" % i][k] = a["y_err_dut_%d" % i][k] = err
            a["charge_dut_%d" % i][k] = 10 * k + i
            a["n_hits_dut_%d" % i][k] = a["n_cluster_dut_%d" % i][k] = 1
            a["cluster_ID_dut_%d" % i][k] = k
            a["cluster_shape_dut_%d" % i][k] = 1 + k
            a["hit_flag"][k] |= 1 << i
    return a


