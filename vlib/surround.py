"""Program run by C32 in one surrounding: loads the traces listed in a JSON file, analyses
them, and writes everything a caller can see to another.

surround.py REPO JOBS OUT; JOBS is {"settings": {...}, "jobs": [{"fmt", "path", "procs", "cct"}]}
"""
import json
import math
import os
import sys


def plain(x):
    """text of a value that does not depend on identities or on the order of sets"""
    import numpy as np

    if x is None or x is ...:
        return repr(x)
    if isinstance(x, (bool, np.bool_)):
        return str(bool(x))
    if isinstance(x, (float, np.floating)):
        return "nan" if math.isnan(x) else repr(float(x))
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, str):
        return repr(str(x))
    if isinstance(x, dict):
        return "{" + ", ".join(sorted("%s: %s" % (plain(k), plain(v)) for k, v in x.items())) + "}"
    if isinstance(x, (set, frozenset)):
        return "<" + ", ".join(sorted(map(plain, x))) + ">"
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(map(plain, x)) + "]"
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if hasattr(x, "get_level"):
        return "node %s/%s" % (getattr(x, "_pipit_nid", None), x.get_level())
    if hasattr(x, "columns"):
        return table(x)
    return "%s object" % type(x).__name__


def table(df):
    rows = ["columns %s" % plain([str(c) for c in df.columns])]
    cols = [df[c].tolist() for c in df.columns]
    for k, i in enumerate(df.index.tolist()):
        rows.append(plain(i) + ": " + " | ".join(plain(c[k]) for c in cols))
    return "\n".join(rows)


def forest(g):
    if g is None:
        return "none"
    out, todo = [], [(r, 0) for r in reversed(g.roots)]
    while todo:
        n, d = todo.pop()
        out.append("%d %s" % (d, plain(n)))
        todo += [(c, d + 1) for c in reversed(n.children)]
    return "\n".join(out)


def visit(job):
    from pipit import Trace

    out = {}

    def step(name, fn):
        try:
            r = fn()
        except Exception as e:
            out[name] = "raises %s" % type(e).__name__
            return None
        out[name] = r if isinstance(r, str) else plain(r)
        return r

    kw = {}
    if job["fmt"] in ("otf2", "projections"):
        kw["num_processes"] = job["procs"]
    if job["fmt"] in ("otf2", "projections", "nsight"):
        kw["create_cct"] = job["cct"]
    t = None
    try:
        t = getattr(Trace, "from_" + job["fmt"])(job["path"], **kw)
    except Exception as e:
        out["load"] = "raises %s: %s" % (type(e).__name__, str(e)[:200])
        return out
    out["load"] = table(t.events)
    out["definitions"] = table(t.definitions) if t.definitions is not None else "none"
    out["cct"] = forest(t.cct)
    step("to_chrome", t.to_chrome)
    step("calc_exc", lambda: (t.calc_exc_metrics(), table(t.events))[1])
    step("flat_profile", lambda: t.flat_profile(["time.exc", "time.inc"]))
    step("per_process", lambda: t.flat_profile("time.exc", per_process=True))
    step("load_imbalance", lambda: t.load_imbalance(num_processes=2))
    step("idle_time", lambda: t.idle_time(mpi_events=True))
    step("time_profile", lambda: t.time_profile(num_bins=3))
    step("comm_matrix", lambda: t.comm_matrix())
    step("comm_by_process", lambda: t.comm_by_process())
    step("message_histogram", lambda: t.message_histogram(bins=4))
    step("comm_over_time", lambda: t.comm_over_time(bins=4))
    step("multirun", lambda: Trace.multirun_analysis([t]))
    step("create_cct", lambda: (t.create_cct(), forest(t.cct))[1])
    step("events", lambda: table(t.events))
    return out


def main(repo, jobs, out):
    with open(jobs, encoding="utf-8") as f:
        todo = json.load(f)
    s = todo["settings"]
    if s.get("cpus"):
        os.cpu_count = lambda: s["cpus"]
    if s.get("affinity"):
        os.sched_setaffinity(0, set(sorted(os.sched_getaffinity(0))[:s["affinity"]]))
    if s.get("umask") is not None:
        os.umask(s["umask"])
    import gc
    import multiprocessing

    multiprocessing.cpu_count = os.cpu_count
    if s.get("start"):
        multiprocessing.set_start_method(s["start"])
    sys.path.insert(0, repo)
    import numpy as np
    import pandas as pd

    for k, v in s.get("pandas", {}).items():
        pd.set_option(k, v)
    if s.get("numpy"):
        np.set_printoptions(precision=2, threshold=3)
    if s.get("gc") == "off":
        gc.disable()
    elif s.get("gc") == "often":
        gc.set_threshold(50, 2, 2)
    if s.get("seed") is not None:
        import random

        random.seed(s["seed"])
        np.random.seed(s["seed"])
    res = []

    def work():
        for j in todo["jobs"]:
            res.append(visit(j))

    if s.get("thread"):
        import threading

        th = threading.Thread(target=work)
        th.start()
        th.join()
    else:
        work()
    with open(out, "w", encoding="utf-8") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main(*sys.argv[1:4])
