import gc
import locale
import logging
import os
import random
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings

from vlib import core
from vlib.core import check
from checks import c25

ID = "C30"
LEVEL = "exploration"
TECH = "resource monitor: processes, threads, descriptors, files, inputs and process settings before and after loads"
RULE = ("random sequences of 5 to 9 loads of the five formats, half of them of damaged or faulty input, results kept or released, "
        "by 1-8 workers, with the directory of the input writable or given relative to the working directory; compared before "
        "and after: descendant processes, threads, open descriptors, files of the temporary, working and input directories with "
        "content, mode and times, working directory, environment, umask, signal handlers, warning filters, recursion limit, "
        "random states, numpy and pandas settings; non-trivial = a successful and a failed load")
ASSUME = ["settings are compared across the first load of each format too; descriptors, threads and files are measured after a first load of each format, which may initialise libraries",
          "the OTF2 library leaks the anchor or definition file of archives it fails to open; these are not judged",
          "the collector is run before measuring, as references may be cyclic"]
N = {"quick": 220, "thorough": 2400}
CAP = {"quick": 40, "thorough": 500}
MIN = {"loads": 500, "failures": 100, "workers": 300, "descriptors": 500, "relative": 50}
WATCHDOG = 90


def make(rng, i, tier):
    fmts = [["otf2", "proj"], ["hpct", "otf2"], ["proj", "csv"], ["otf2", "nsight", "hpct"]][i % 4]
    inputs = []
    for f in fmts:
        k = {"otf2": 0, "proj": 1, "hpct": 2, "csv": 6, "nsight": 7}[f]
        inputs.append(c25.make(rng, k, tier))
    ops = []
    for _ in range(rng.randint(5, 9)):
        ops.append([rng.randrange(len(inputs)), rng.choice(["ok", "ok", "damage", "fault"]), rng.randrange(10**6),
                    rng.randrange(10**6), rng.random(), rng.choice([1, 2, 3, 8]), rng.random() < 0.3, rng.random() < 0.3])
    return {"inputs": inputs, "ops": ops, "seed": rng.randrange(10**9), "filters": rng.random() < 0.5}


def descriptors():
    out = []
    for d in os.listdir("/proc/self/fd"):
        try:
            out.append((int(d), os.readlink("/proc/self/fd/" + d)))
        except OSError:
            pass
    # the descriptor of the listing itself is gone by now
    return sorted(x for x in out if os.path.exists("/proc/self/fd/%d" % x[0]))


def settings():
    import numpy as np
    import pandas as pd

    opts = {}
    for k in ("mode.chained_assignment", "mode.copy_on_write", "display.max_rows", "display.width", "compute.use_numexpr",
              "future.infer_string", "display.precision", "display.max_columns"):
        try:
            opts[k] = pd.get_option(k)
        except Exception:
            pass
    u = os.umask(0)
    os.umask(u)
    return {
        "working directory": os.getcwd(), "environment": dict(os.environ), "umask": u,
        "signal handlers": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGPIPE)],
        "warning filters": [repr(f) for f in warnings.filters], "recursion limit": sys.getrecursionlimit(),
        "numpy errors": repr(np.geterr()), "pandas options": opts, "random": repr(random.getstate()),
        "numpy random": repr(np.random.get_state()), "search path": list(sys.path), "locale": locale.setlocale(locale.LC_ALL),
        "streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)], "logging": [logging.root.level, len(logging.root.handlers)],
        "collector": [gc.isenabled(), gc.get_threshold()], "switch interval": sys.getswitchinterval(),
        "default encoding": sys.getdefaultencoding(), "trace function": repr(sys.gettrace()), "excepthook": repr(sys.excepthook),
    }


def listing(path):
    """every file below, with content, mode and modification time"""
    out = {}
    for base, dirs, files in os.walk(path):
        st = os.stat(base)
        out[base] = (st.st_mode, st.st_mtime_ns)
        for f in files:
            f = os.path.join(base, f)
            st = os.lstat(f)
            with open(f, "rb") as g:
                out[f] = (st.st_mode, st.st_mtime_ns, st.st_size, st.st_nlink, hash(g.read()))
    return out


def settle():
    """waits until the processes started by the code under test have ended"""
    gc.collect()
    t = time.monotonic()
    left = core._descendants(os.getpid())
    while left and time.monotonic() - t < 10:
        time.sleep(0.01)
        gc.collect()
        left = core._descendants(os.getpid())
    return left


warm = set()


def run(case, obs):
    import multiprocessing

    from pipit import Trace

    tmp, work = os.path.join(obs.scratch, "tmp"), os.path.join(obs.scratch, "work")
    os.mkdir(tmp)
    os.mkdir(work)
    olddir, oldtmp, oldfilters = os.getcwd(), tempfile.tempdir, warnings.filters[:]
    oldenv = os.environ.get("TMPDIR")
    pools = []
    real = multiprocessing.Pool

    def pool(*a, **kw):
        p = real(*a, **kw)
        pools.append(len(p._pool))
        return p

    paths = []
    try:
        os.chdir(work)
        tempfile.tempdir = tmp
        os.environ["TMPDIR"] = tmp
        multiprocessing.Pool = pool
        if case["filters"]:
            warnings.filterwarnings("error", category=BytesWarning)
        for k, x in enumerate(case["inputs"]):
            p = os.path.join(obs.scratch, "in%d" % k)
            c25.build(x["format"], x["spec"], p)
            paths.append(p)

        def load(k, procs, relative):
            x = case["inputs"][k]
            fmt, p = x["format"], paths[k]
            if relative:
                p = os.path.relpath(p, os.getcwd())
                obs.count("relative")
            arg = os.path.join(p, "f.csv") if fmt in ("csv", "nsight") else p
            kw = {"num_processes": procs} if fmt in ("otf2", "proj") else {}
            return obs.raises("%s(%s)" % (fmt, kw), getattr(Trace, c25.LOAD[fmt]), arg, **kw)

        # the first load may import libraries, but has no other licence
        import importlib
        import pkgutil

        import otf2  # noqa: F401
        import pipit.readers

        for m in pkgutil.iter_modules(pipit.readers.__path__):
            importlib.import_module("pipit.readers." + m.name)
        first = settings()
        for k, x in enumerate(case["inputs"]):
            if x["format"] not in warm:
                e, t = load(k, 2, False)
                check(e is None, "loading failed", x["format"], repr(e)[:200])
                warm.add(x["format"])
                del t
                after = settings()
                for n in first:
                    check(first[n] == after[n], "%s changed by the first load of %s" % (n, x["format"]),
                          str(first[n])[:150], str(after[n])[:150])
        random.seed(case["seed"])
        import numpy as np

        np.random.seed(case["seed"] % 2**32)
        settle()
        files = [c25.snapshot(p) for p in paths]
        fds, ths, env = descriptors(), set(threading.enumerate()), settings()
        held, ok, bad, leaky = [], 0, 0, False
        for k, what, r, s, q, procs, relative, keep in case["ops"]:
            x = case["inputs"][k]
            fmt, p = x["format"], paths[k]
            req = c25.required(fmt, files[k])
            f = req[s % len(req)]
            before = len(pools)
            log = os.path.join(obs.scratch, "log")
            if what == "damage":
                c25.damage(fmt, f, files[k], p, r, s, q)
            ins = [listing(d) for d in (p, tmp, work)]
            if what == "fault":
                with c25.Faults(f, "eio", int(q * len(files[k][f])), log):
                    e, t = load(k, procs, relative)
            else:
                e, t = load(k, procs, relative)
            obs.count("loads")
            obs.count("failures", e is not None)
            if e is not None and fmt == "otf2":
                inside = [y for y in traceback.extract_tb(e.__traceback__) if y.filename.endswith("otf2/reader.py")]
                leaky = leaky or any(y.name == "__init__" for y in inside)
            if what == "ok":
                check(e is None, "loading failed", fmt, repr(e)[:200])
                ok += 1
            else:
                bad += e is not None
            obs.count("workers", sum(pools[before:]))
            outcome = "%s load of %s" % ("failed" if e is not None else "successful", fmt)
            now = [listing(d) for d in (p, tmp, work)]
            for a, b, d in zip(ins, now, ("input", "temporary directory", "working directory")):
                new = sorted(set(b) - set(a))
                gone = sorted(set(a) - set(b))
                check(not new and not gone, "%s changed by a %s" % (d, outcome), "new", new[:3], "gone", gone[:3])
                diff = [n for n in a if a[n] != b[n]]
                check(not diff, "%s changed by a %s" % (d, outcome), diff[:3])
            if keep:
                held.append((e, t))
            del e, t
            left = settle()
            check(not left, "processes stay behind after a %s" % outcome, len(left))
            after = settings()
            for n in env:
                check(env[n] == after[n], "%s changed by a %s" % (n, outcome), str(env[n])[:150], str(after[n])[:150])
            if what == "damage":
                c25.restore(p, files[k])
            if os.path.exists(log):
                os.unlink(log)
            obs.state(fmt, what, procs, len(held) > 0, outcome)
        held.clear()
        left = settle()
        check(not left, "processes stay behind", len(left))
        t0 = time.monotonic()
        while True:
            more = [t for t in threading.enumerate() if t not in ths]
            if not more or time.monotonic() - t0 > 5:
                break
            time.sleep(0.01)
        check(not more, "threads stay behind", [t.name for t in more][:3])
        now = descriptors()
        extra = [x for x in now if x not in fds]
        if leaky:
            # the OTF2 library does not close the archive if it cannot open it
            obs.count("library_leaks")
            extra = [x for x in extra if os.path.basename(x[1]).split(" ")[0] not in ("traces.otf2", "traces.def")]
        check(not extra, "open files stay behind", extra[:5])
        check([x for x in fds if x not in now] == [], "open files of the program were closed", [x for x in fds if x not in now][:3])
        obs.count("descriptors", len(fds))
    finally:
        multiprocessing.Pool = real
        os.chdir(olddir)
        tempfile.tempdir = oldtmp
        if oldenv is None:
            os.environ.pop("TMPDIR", None)
        else:
            os.environ["TMPDIR"] = oldenv
        warnings.filters[:] = oldfilters
        for p in paths + [tmp, work]:
            if os.path.isdir(p):
                c25.clear(p)
    obs.nontrivial = ok > 0 and bad > 0
