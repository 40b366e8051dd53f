import atexit
import copy
import gc
import json
import os
import pickle
import struct
import subprocess
import sys

from vlib import core, gen
from vlib.core import check
from checks import c14, c25, c31

ID = "C33"
LEVEL = "exploration"
TECH = "history monitor: copies of traces used in turn with their originals, against fresh traces and recorded states"
RULE = ("random traces, made from tables or loaded from CSV, Nsight, HPCToolkit, OTF2 or Projections; histories of 5-14 steps: copy "
        "(deepcopy, pickle of protocols 2 to 5, alone or several traces together, through a program of its own), analyses on any of "
        "the copies, changes and release of a copy; non-trivial = a copy used after its original changed, or the other way round")
ASSUME = ["tables copied by deepcopy share the lists and nodes held in their cells, as pandas documents",
          "trees copied by deepcopy are not deeper than the recursion limit of Python permits"]
N = {"quick": 260, "thorough": 4000}
CAP = {"quick": 45, "thorough": 500}
MIN = {"copies": 500, "operations": 700, "bystanders": 1500, "elsewhere": 40, "spoiled": 100, "trees": 60}
WATCHDOG = 120
METHODS = ["deepcopy", "pickle2", "pickle3", "pickle4", "pickle5", "together", "elsewhere"]


def make(rng, i, tier):
    case = c31.make(rng, i, tier)
    while len(case["programs"]) > 2:
        case["programs"].pop()
    methods = METHODS if rng.random() < 0.5 else METHODS[1:]
    sources, pool = [], []
    for p in case["programs"]:
        sources.append({k: p[k] for k in ("kind", "spec", "procs")})
        pool.append([o for o in p["ops"] if o[0] != "pattern"] + [["cct", {}], ["cct", {}], ["exc", {"cols": None}]])
    of = list(range(len(sources)))  # source of every trace alive
    steps = []
    for k in range(rng.randint(5, 14)):
        w = rng.randrange(len(of))
        r = rng.random()
        if k == 0 or r < 0.3:
            m = methods[(i + k) % len(methods)]
            steps.append(["copy", w, m])
            of.append(of[w])
        elif r < 0.4 and len(of) > 2:
            steps.append(["spoil", w, rng.randrange(1000)])
            of.pop(w)
        elif r < 0.45 and len(of) > 2:
            steps.append(["release", w, None])
            of.pop(w)
        else:
            steps.append(["op", w, rng.choice(pool[of[w]])])
    return {"programs": sources, "steps": steps}


HELPER = r'''
import os, pickle, struct, sys
repo, verif = sys.argv[1:3]
sys.path[:0] = [repo, verif]
os.environ["NUMBA_DISABLE_JIT"] = "1"
out = os.fdopen(os.dup(1), "wb")
os.dup2(2, 1)
import warnings
warnings.simplefilter("ignore")
from checks import c14, c31
src = sys.stdin.buffer
while True:
    head = src.read(8)
    if len(head) < 8:
        break
    data = src.read(struct.unpack("<q", head)[0])
    try:
        trace, op, a = pickle.loads(data)
        ts = c14.Traces([trace])
        ts.cols = [["Timestamp (ns)"]]
        res = c14.execute(ts, op, 0, a, lambda kind, v: list(v) if isinstance(v, list) else v)[1]
        reply = pickle.dumps(["ok", res, trace], protocol=4)
    except Exception as e:
        reply = pickle.dumps(["error", "%s: %s" % (type(e).__name__, str(e)[:200]), None])
    out.write(struct.pack("<q", len(reply)) + reply)
    out.flush()
'''
helper = [None, None]


def elsewhere(trace, op, a):
    """sends a trace to another program, which analyses it and sends it back"""
    import pipit

    if helper[0] is None or helper[1] != os.getpid() or helper[0].poll() is not None:
        repo = os.path.dirname(os.path.dirname(os.path.abspath(pipit.__file__)))
        helper[0] = subprocess.Popen([sys.executable, "-c", HELPER, repo, core.VERIF], stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        helper[1] = os.getpid()
        atexit.register(close, os.getpid())
    data = pickle.dumps((trace, op, a), protocol=4)
    p = helper[0]
    p.stdin.write(struct.pack("<q", len(data)) + data)
    p.stdin.flush()
    head = p.stdout.read(8)
    check(len(head) == 8, "the program a trace was sent to ended")
    return pickle.loads(p.stdout.read(struct.unpack("<q", head)[0]))


def close(pid):
    if helper[0] is not None and pid == os.getpid():
        helper[0].stdin.close()
        helper[0].wait()


def state(t):
    """everything a trace holds"""
    defs = None if t.definitions is None else c31.table(t.definitions)
    return {"events": c31.table(t.events), "definitions": defs, "tree": None if t.cct is None else c14.tree(t.cct),
            "index": [str(x) for x in t.events.index], "types": [str(x) for x in t.events.dtypes],
            "numeric": list(t.numeric_cols), "inc": list(t.inc_metrics), "exc": list(t.exc_metrics)}


def first_difference(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict) and isinstance(b[k], dict):
                for c in list(a[k]) + list(b[k]):
                    if a[k].get(c) != b[k].get(c):
                        return "%s, column %s" % (k, c), a[k].get(c), b[k].get(c)
            return k, a[k], b[k]
    return None


def nodes_of(graph):
    out, todo = {}, list(graph.roots)
    while todo:
        n = todo.pop()
        out[id(n)] = n
        todo += n.children
    return out


def connected(t, obs):
    """the nodes the events of an unpickled trace refer to are those of its tree"""
    if t.cct is None or "Graph_Node" not in t.events.columns:
        return
    known = nodes_of(t.cct)
    for n in known.values():
        for c in n.children:
            check(c.parent is n, "a child's parent in the copied tree is another node")
    for n in t.events["Graph_Node"].tolist():
        if hasattr(n, "get_level"):
            check(id(n) in known, "an event of the copy refers to a node outside the copy's tree", str(n))
    obs.count("trees")


def run(case, obs):
    from pipit import Trace

    c31.prepare(case["programs"], obs.scratch)
    try:
        def fresh(k):
            p = case["programs"][k]
            if p["kind"] == "table":
                return gen.build(copy.deepcopy(p["spec"]))
            kw = {"num_processes": p["procs"]} if p["kind"] in ("otf2", "proj") else {}
            return getattr(Trace, c25.LOAD[p["kind"]])(p["path"], **kw)

        def execute(t, op, a):
            ts = c14.Traces([t])
            ts.cols = [["Timestamp (ns)"]]
            return json.loads(json.dumps(c14.execute(ts, op, 0, a, lambda kind, v: list(v) if isinstance(v, list) else v)[1]))

        live = [[k, obs.call("load", fresh, k)] for k in range(len(case["programs"]))]
        for x in live:
            x.append(state(x[1]))
        results = {}

        def expected(k, op, a):
            key = json.dumps([k, op, a])
            if key not in results:
                try:
                    results[key] = execute(fresh(k), op, a)
                except Exception as e:
                    results[key] = ["error", type(e).__name__]
            return results[key]

        changed = deep = False
        done = []
        for step, (what, w, arg) in enumerate(case["steps"]):
            k, t, before = live[w]
            where = "step %d (%s) after %s" % (step, what, done)
            touched = {id(t)}
            if what == "copy":
                try:
                    if arg == "deepcopy":
                        new = copy.deepcopy(t)
                        deep = True
                    elif arg == "together":
                        other = live[(w + 1) % len(live)][1]
                        new, second, again = pickle.loads(pickle.dumps([t, other, t]))
                        check(new is again, "a trace pickled twice became two")
                        check(new is not second or other is t, "two traces became one")
                        d = first_difference(state(second), live[(w + 1) % len(live)][2])
                        check(d is None, "%s: the other copied trace differs in" % where, d)
                    elif arg == "elsewhere":
                        op, a = "inc", {"cols": ["Timestamp (ns)"]}
                        kind, res, new = elsewhere(t, op, a)
                        want = expected(k, op, a)
                        if kind == "error":
                            check(want == ["error", res.split(":")[0]], "%s: analysis in another program" % where, res)
                            new = pickle.loads(pickle.dumps(t))
                        else:
                            check(c14.same(json.loads(json.dumps(res)), want), "%s: result in another program" % where, res, want)
                            # back to what it was, as far as the original goes
                            d = first_difference({c: v for c, v in state(new)["events"].items() if c in before["events"]}, before["events"])
                            check(d is None, "%s: the trace that came back differs in column" % where, d)
                            before = state(new)
                        obs.count("elsewhere")
                    else:
                        new = pickle.loads(pickle.dumps(t, protocol=int(arg[-1])))
                except RecursionError:
                    obs.count("too_deep")
                    new = pickle.loads(pickle.dumps(t, protocol=4))
                check(new is not t and new.events is not t.events and (t.definitions is None or new.definitions is not t.definitions),
                      "%s: the copy shares tables with the original" % where)
                now = state(new)
                d = first_difference(now, before)
                check(d is None, "%s by %s: the copy differs in" % (where, arg), d)
                if not deep:
                    connected(new, obs)
                live.append([k, new, now])
                touched.add(id(new))
                obs.count("copies")
            elif what == "op":
                op, a = arg
                want = expected(k, op, a)
                try:
                    got = execute(t, op, a)
                except Exception as e:
                    got = ["error", type(e).__name__]
                check(c14.same(got, want), "%s: %s%s differs from a fresh trace" % (where, op, json.dumps(a)), got, want)
                live[w][2] = state(t)
                changed = changed or live[w][2] != before
                obs.count("operations")
            else:
                live.pop(w)
                if what == "spoil":
                    for c in ("time.inc", "_children", "m9"):
                        t.inc_metrics.append(c)
                        t.exc_metrics.append(c)
                    t.numeric_cols.clear()
                    t.events["Timestamp (ns)"] = t.events["Timestamp (ns)"] * 0 - 5
                    for c in list(t.events.columns):
                        v = t.events[c]
                        if v.dtype.kind in "iuf" and v.to_numpy().flags.writeable:
                            v.to_numpy()[...] = 1
                        elif v.dtype == object and len(v):
                            for x in v.tolist():
                                if not deep and isinstance(x, list):
                                    x.append(-1)
                    if t.definitions is not None:
                        t.definitions["Definition Type"] = "spoiled"
                    if t.cct is not None and not deep:
                        for n in nodes_of(t.cct).values():
                            n.level = -9
                            n.children.clear()
                        t.cct.roots.clear()
                    changed = True
                    obs.count("spoiled")
                del t
                gc.collect()
            for j, (_, other, then) in enumerate(live):
                if id(other) in touched:
                    continue
                d = first_difference(state(other), then)
                check(d is None, "%s: trace %d changed in" % (where, j), d)
                obs.count("bystanders")
            done.append([what, w, arg if what != "op" else arg[0]])
            obs.state(what, arg if what == "copy" else arg[0] if what == "op" else None, case["programs"][k]["kind"])
        obs.nontrivial = changed and len(live) > 1
    finally:
        c31.cleanup(case["programs"])
