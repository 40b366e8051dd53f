import copy
import json
import os
import random
import sys
import threading

from vlib import core, fmt_csv, gen
from vlib.core import check
from checks import c14, c25

ID = "C31"
LEVEL = "exploration"
TECH = "schedule exploration: threads switched at executed lines of pipit by a seeded scheduler, against each program run alone"
RULE = ("2-4 threads, each with its own trace, made from a table or loaded from CSV, Nsight, HPCToolkit, OTF2 or Projections, and "
        "2-6 analyses and exports; two seeded schedules that switch at executed lines, from nearly every line to rarely, and one "
        "with the interpreter's own preemption at the shortest interval; non-trivial = ten switches inside pipit")
ASSUME = ["a trace is used by one thread", "switches happen between lines of pipit, or wherever the interpreter preempts",
          "loading with worker processes is not combined with free preemption (forking while other threads run)"]
N = {"quick": 320, "thorough": 5000}
CAP = {"quick": 60, "thorough": 500}
MIN = {"schedules": 600, "switches": 50000, "loads": 500, "operations": 3000, "interleavings": 300}
WATCHDOG = 400
OPS = ["match", "caller", "cct", "chrome", "idle", "profile", "imbalance", "time_profile", "inc", "exc", "multirun"]
COMM = ["matrix", "by_process", "sizes", "over_time"]


def make(rng, i, tier):
    out = []
    for _ in range(rng.randint(2, 4)):
        kind = rng.choice(["table", "table", "csv", "csv", "nsight", "hpct", "otf2", "proj"])
        if out and rng.random() < 0.3:
            kind = out[-1]["kind"]
        j = {"csv": 6, "nsight": 7, "hpct": 2, "otf2": 0, "proj": 1}.get(kind)
        if j is None:
            c = c14.make(rng, min(i, 120), tier)
            spec = c["specs"][0]
        else:
            spec = c25.make(rng, j, "quick")["spec"]
        ops = []
        for _ in range(rng.randint(2, 6)):
            op = rng.choice(OPS + (COMM if kind == "table" else []))
            a = {}
            if op in ("inc", "exc"):
                a = {"cols": rng.choice([None, ["Timestamp (ns)"]])}
            elif op == "profile":
                a = {"metrics": rng.choice(["time.exc", "time.inc", ["time.inc", "time.exc"]]), "pp": rng.random() < 0.5}
            elif op == "imbalance":
                a = {"metric": rng.choice(["time.exc", "time.inc"]), "num": rng.randint(1, 4)}
            elif op == "idle":
                a = {"funcs": rng.choice([None, ["Idle"], ["main", "a"]]), "mpi": rng.random() < 0.5}
            elif op in ("matrix", "by_process"):
                a = {"output": rng.choice(["size", "count"])}
            elif op == "over_time":
                a = {"output": rng.choice(["size", "count"]), "type": rng.choice(["send", "receive"]), "bins": rng.randint(1, 6)}
            elif op == "sizes":
                a = {"bins": rng.randint(1, 6)}
            elif op == "time_profile":
                a = {"bins": rng.randint(1, 4), "norm": rng.random() < 0.5}
            elif op == "multirun":
                a = {"which": [0] * rng.randint(1, 2)}
            ops.append([op, a])
        out.append({"kind": kind, "spec": spec, "ops": ops, "procs": rng.choice([1, 2]), "file": rng.random() < 0.3})
    return {"programs": out, "seeds": [rng.randrange(10**9) for _ in range(2)], "gaps": [rng.choice([2, 5, 20, 100]) for _ in range(2)]}


def prepare(programs, scratch):
    """writes the input of every program"""
    for k, p in enumerate(programs):
        path = p["path"] = os.path.join(scratch, "in%d" % k)
        if p["kind"] == "csv":
            fmt_csv.write(path, p["spec"], {"seconds": False})
        elif p["kind"] == "nsight":
            c25.fmt_nsight.write(path, p["spec"])
        elif p["kind"] != "table":
            c25.MOD[p["kind"]].write(path, p["spec"])


def cleanup(programs):
    for p in programs:
        if p["kind"] in ("csv", "nsight"):
            os.unlink(p["path"])
        elif p["kind"] != "table":
            c25.MOD[p["kind"]].remove(p["path"])


def plain(x):
    if isinstance(x, str) or x is None:
        return x
    if hasattr(x, "get_level"):
        return "node at level %s" % x.get_level()
    return repr(x)


def table(df):
    return {str(c): [plain(x) for x in df[c].tolist()] for c in df.columns}


def program(p, k, scratch):
    """what one thread does; -> list of results that can be compared"""
    from pipit import Trace

    out = []
    try:
        if p["kind"] == "table":
            t = gen.build(copy.deepcopy(p["spec"]))
        else:
            kw = {"num_processes": p["procs"]} if p["kind"] in ("otf2", "proj") else {}
            t = getattr(Trace, c25.LOAD[p["kind"]])(p["path"], **kw)
    except Exception as e:
        return [["load", type(e).__name__, str(e)[:200]]]
    out.append(["load", table(t.events), None if t.cct is None else c14.tree(t.cct)])
    ts = c14.Traces([t])
    ts.cols = [["Timestamp (ns)"]]
    for op, a in p["ops"]:
        try:
            r = c14.execute(ts, op, 0, a, lambda kind, v: list(v) if isinstance(v, list) else v)[1]
            out.append([op, json.loads(json.dumps(r))])
        except Exception as e:
            out.append([op, "error", type(e).__name__])
    if p["file"]:
        f = os.path.join(scratch, "chrome%d.json" % k)
        try:
            t.to_chrome(f)
            with open(f) as h:
                out.append(["to_chrome", h.read()])
            os.unlink(f)
        except Exception as e:
            out.append(["to_chrome", "error", type(e).__name__])
    out.append(["trace", table(t.events)])
    return out


forked = [False]
os.register_at_fork(after_in_child=lambda: forked.__setitem__(0, True))


class Baton:
    """One thread runs at a time; after a random number of executed lines of pipit another one does."""

    def __init__(self, n, seed, gap):
        self.rng, self.gap = random.Random(seed), gap
        self.cv = threading.Condition()
        self.turn, self.live = 0, list(range(n))
        self.who, self.left = {}, 1
        self.trail, self.switches = [], 0

    def line(self, code, lineno):
        if not code.co_filename.startswith(os.path.join(core.REPO, "pipit")):
            return sys.monitoring.DISABLE
        if forked[0]:
            return None
        me = self.who.get(threading.get_ident())
        if me is None:
            return None
        self.left -= 1
        if self.left <= 0:
            self.left = self.rng.randint(1, self.gap)
            self.pass_on(me, (code.co_name, lineno))

    def pass_on(self, me, at=None):
        with self.cv:
            if not self.live:
                return
            to = self.rng.choice(self.live)
            if to == me:
                return
            self.turn = to
            if at:
                self.switches += 1
                if len(self.trail) < 400:
                    self.trail.append((me, to) + at)
            self.cv.notify_all()
            if me in self.live:
                self.cv.wait_for(lambda: self.turn == me)

    def run(self, k, fn, results):
        self.who[threading.get_ident()] = k
        with self.cv:
            self.cv.wait_for(lambda: self.turn == k)
        try:
            results[k] = fn()
        except BaseException as e:
            results[k] = [["thread", type(e).__name__, str(e)[:200]]]
        finally:
            with self.cv:
                self.live.remove(k)
            self.pass_on(k)


def together(programs, scratch, seed, gap):
    """-> results, scheduler (None: free preemption)"""
    results = [None] * len(programs)
    b = None if seed is None else Baton(len(programs), seed, gap)
    fns = [lambda k=k, p=p: program(p, k, scratch) for k, p in enumerate(programs)]
    if b is None:
        gate = threading.Barrier(len(programs))

        def free(k):
            gate.wait()
            try:
                results[k] = fns[k]()
            except BaseException as e:
                results[k] = [["thread", type(e).__name__, str(e)[:200]]]

        ths = [threading.Thread(target=free, args=(k,), daemon=True) for k in range(len(programs))]
    else:
        ths = [threading.Thread(target=b.run, args=(k, fns[k], results), daemon=True) for k in range(len(programs))]
    mon, tool = sys.monitoring, 3
    old = sys.getswitchinterval()
    try:
        if b is None:
            sys.setswitchinterval(1e-6)
        else:
            mon.use_tool_id(tool, "verif-threads")
            mon.register_callback(tool, mon.events.LINE, b.line)
            mon.set_events(tool, mon.events.LINE)
            mon.restart_events()
        for t in ths:
            t.start()
        for t in ths:
            t.join(60)
        hung = any(t.is_alive() for t in ths)
        if hung:
            core.kill_descendants()
    finally:
        sys.setswitchinterval(old)
        if b is not None:
            mon.set_events(tool, 0)
            mon.register_callback(tool, mon.events.LINE, None)
            mon.free_tool_id(tool)
    return (None if hung else results), b


def run(case, obs):
    programs = copy.deepcopy(case["programs"])
    prepare(programs, obs.scratch)
    try:
        alone = [obs.call("alone " + p["kind"], program, p, k, obs.scratch) for k, p in enumerate(programs)]
        again = [obs.call("again " + p["kind"], program, p, k, obs.scratch) for k, p in enumerate(programs)]
        # what alone differs from one time to the other says nothing here
        check(alone == again, "a program run alone twice gives two results")
        modes = [(s, g) for s, g in zip(case["seeds"], case["gaps"])]
        if not any(p["kind"] in ("otf2", "proj") for p in programs):
            modes.append((None, None))
        for seed, gap in modes:
            for _ in range(3):
                # worker processes are forked while other threads exist, which the interpreter does not make safe
                res, b = obs.call("together(%s, %s)" % (seed, gap), together, programs, obs.scratch, seed, gap)
                if res is not None:
                    break
                obs.count("hung")
            check(res is not None, "threads do not finish", [p["kind"] for p in programs])
            for k, (p, x, y) in enumerate(zip(programs, alone, res)):
                for u, v in zip(x, y):
                    check(u == v, "%s of the %s trace of thread %d differs from the result alone" % (u[0], p["kind"], k),
                          str(u)[:250], str(v)[:250])
                    obs.count("operations")
                check(len(x) == len(y), "results of thread %d" % k, [u[:1] for u in x], [u[:1] for u in y])
                obs.count("loads", p["kind"] != "table")
            obs.count("schedules")
            if b is not None:
                obs.count("switches", b.switches)
                obs.state(tuple(b.trail))
                obs.count("interleavings", b.switches > 0)
                obs.nontrivial = obs.nontrivial or b.switches >= 10
    finally:
        cleanup(programs)
