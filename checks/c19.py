import gzip
import multiprocessing
import os
import time

from vlib import fmt_otf2, fmt_proj, model
from vlib.core import check
from checks import c16, c18

ID = "C19"
LEVEL = "exploration"
TECH = "differential monitor over worker counts and injected worker delays"
RULE = ("random OTF2 archives (up to 12 locations) and Projections directories (up to 9 processors), each read by one worker "
        "and then with other worker counts, including more workers than locations and out-of-range counts, while seeded "
        "delays at the first read of a location make the workers finish in other orders; non-trivial = a count above one "
        "with two or more workers observed")
ASSUME = ["workers are processes started with the fork method, as on Linux",
          "order of columns, and integers against equal floats, are not part of the result"]
N = {"quick": 350, "thorough": 2600}
CAP = {"quick": 40, "thorough": 550}
MIN = {"parallel_reads": 200, "workers_seen": 500, "delayed": 200, "completion_orders": 40, "reordered": 30}


def calls(rng, names, n, start):
    return c16.calls(rng, names, n, start)


def make(rng, i, tier):
    i += 60
    if rng.random() < 0.5:
        spec = fmt_otf2.archive(rng, i, tier, calls, max_procs=rng.choice([2, 4, 8]), metrics=rng.random() < 0.4)
        fmt, n = "otf2", len(spec["locs"])
    else:
        spec = fmt_proj.directory(rng, i, tier, max_pes=rng.choice([3, 9]))
        if not any(spec["pes"]):
            spec["pes"][0].append(["BEGIN_COMPUTATION", {"t": 0}])
        fmt, n = "proj", len(spec["pes"])
    runs = []
    for _ in range(3):
        procs = rng.choice([2, 2, 3, 4, 5, 7, 8, n, n + 1, max(1, n - 1), 12, None, 0, -1, 1000])
        delays = [rng.choice([0, 0, 1, 2, 3]) for _ in range(n)] if rng.random() < 0.8 else []
        if delays and rng.random() < 0.4:
            delays = list(range(n, 0, -1))
        runs.append([procs, [min(d * 12, 60) for d in delays]])
    return {"format": fmt, "spec": spec, "runs": runs}


class Inject:
    """Delays the first read of every location in the workers, and logs it"""

    def __init__(self, log):
        self.log = log
        self.delays = []
        self.parent = os.getpid()

    def seen(self, key, place):
        if os.getpid() == self.parent:
            return
        d = self.delays[place % len(self.delays)] / 1000 if self.delays else 0
        if d:
            time.sleep(d)
        fd = os.open(self.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, ("%d %s %d\n" % (os.getpid(), key, d > 0)).encode())
        os.close(fd)

    def __enter__(self):
        import otf2.reader

        self.cls = otf2.reader.Reader
        self.handle, self.gz, self.count = self.cls._get_global_evt_reader_handle, gzip.open, multiprocessing.cpu_count

        def handle(this, locations):
            every = list(this.definitions.locations)
            places = [every.index(l) for l in (every if locations is None else locations)]
            if places:
                self.seen("+".join(map(str, places)), places[0])
            return self.handle(this, locations)

        def gz(name, *args, **kw):
            parts = os.path.basename(str(name)).split(".")
            if parts[-1] == "gz" and len(parts) > 3 and parts[-3].isdigit():
                self.seen(parts[-3], int(parts[-3]))
            return self.gz(name, *args, **kw)

        self.cls._get_global_evt_reader_handle = handle
        gzip.open = gz
        multiprocessing.cpu_count = lambda: 16
        return self

    def __exit__(self, *exc):
        self.cls._get_global_evt_reader_handle = self.handle
        gzip.open = self.gz
        multiprocessing.cpu_count = self.count


def table(df):
    out = {}
    for c in df.columns:
        out[str(c)] = [None if model.isnull(v) else c16.plain(v) for v in df[c].tolist()]
    return out


def differ(a, b):
    if set(a) != set(b):
        return "columns %s / %s" % (sorted(a), sorted(b))
    for c in a:
        if len(a[c]) != len(b[c]):
            return "rows %d / %d" % (len(a[c]), len(b[c]))
        for k, (x, y) in enumerate(zip(a[c], b[c])):
            if x != y:
                return "%s of row %d: %r / %r" % (c, k, x, y)
    return None


def run(case, obs):
    from pipit import Trace

    spec, fmt = case["spec"], case["format"]
    path, log = os.path.join(obs.scratch, "t"), os.path.join(obs.scratch, "log")
    mod, load = (fmt_otf2, Trace.from_otf2) if fmt == "otf2" else (fmt_proj, Trace.from_projections)
    mod.write(path, spec)
    seen = 0
    try:
        with Inject(log) as inj:
            one = obs.call("%s(1)" % fmt, load, path, num_processes=1)
            if fmt == "otf2":
                c16.compare(spec, one.events, obs, None)
            else:
                c18.compare(spec, one.events, obs)
            base = table(one.events)
            defs = None if one.definitions is None else table(one.definitions)
            for procs, delays in case["runs"]:
                inj.delays = delays
                if os.path.exists(log):
                    os.unlink(log)
                t = obs.call("%s(%s) delays %s" % (fmt, procs, delays), load, path, num_processes=procs)
                d = differ(base, table(t.events))
                check(d is None, "%s with %s workers differs from one worker" % (fmt, procs), d, delays)
                check(t.events.index.tolist() == list(range(len(t.events))), "row labels are not 0..n-1")
                if defs is not None:
                    d = differ(defs, table(t.definitions))
                    check(d is None, "definitions with %s workers differ" % procs, d)
                lines = []
                if os.path.exists(log):
                    with open(log) as f:
                        lines = [x.split() for x in f]
                workers = []
                for w in lines:
                    if w[0] not in workers:
                        workers.append(w[0])
                order = [workers.index(w[0]) for w in lines]
                pes = [w[1] for w in lines]
                obs.count("parallel_reads", len(workers) > 1)
                obs.count("workers_seen", len(workers))
                obs.count("delayed", sum(w[2] == "1" for w in lines))
                obs.count("reordered", pes != sorted(pes, key=lambda x: (len(x), x)) or order != sorted(order))
                key = (fmt, tuple(order), tuple(pes))
                obs.count("completion_orders", len(set(order)) > 1)
                obs.state(key)
                seen = max(seen, len(workers))
    finally:
        mod.remove(path)
        if os.path.exists(log):
            os.unlink(log)
    obs.nontrivial = seen > 1
