import copy
import hashlib
import json
import os

from vlib import gen, model
from vlib.core import check
from checks.c10 import make_spec
from checks.c30 import settings

ID = "C14"
LEVEL = "exploration"
TECH = "history monitor: every operation of a random sequence compared with the same operation on a fresh copy"
RULE = ("random sequences of 3-12 analyses and exports over 1-3 traces, arguments shared between calls, returned "
        "tables overwritten by the caller; non-trivial = an operation repeated or run after a different one")
ASSUME = ["row order of results whose order is not documented is not compared", "one thread of control"]
N = {"quick": 420, "thorough": 6000}
CAP = {"quick": 40, "thorough": 500}
MIN = {"operations": 1000, "source_comparisons": 1000, "repeated": 50, "settings_kept": 1000, "results_kept": 500}

PLAIN_OPS = ["match", "caller", "cct", "chrome", "matrix", "by_process", "sizes", "over_time", "idle", "profile",
             "imbalance", "time_profile", "inc", "exc", "multirun", "pattern"]


def make(rng, i, tier):
    specs = []
    for _ in range(rng.randint(1, 3)):
        s = make_spec(rng, min(i, 150), tier, clocks=["ties", "small", "strict", "float", "ns"])
        s["cat"] = True
        if not any(e[1] == "Enter" for e in s["ev"]):
            s["ev"].insert(0, [s["ev"][0][0], "Enter", "main", s["ev"][0][3], s["ev"][0][4], {}])
        if s["ev"][-1][0] == s["ev"][0][0]:
            s["ev"][-1][0] += 5
        gen.add_columns(rng, s, k=rng.randint(0, 1))
        specs.append(s)
    ops = []
    fav = rng.sample(PLAIN_OPS, 4)
    for _ in range(rng.randint(3, 12)):
        w = rng.randrange(len(specs))
        op = rng.choice(fav) if rng.random() < 0.5 else rng.choice(PLAIN_OPS)
        cols = ["Timestamp (ns)"] + list(specs[w]["cols"])
        a = {}
        if op in ("inc", "exc"):
            a = {"cols": None if rng.random() < 0.5 else rng.sample(cols, rng.randint(1, len(cols)))}
        elif op == "profile":
            a = {"metrics": rng.choice(["time.exc", "time.inc", ["time.exc"], ["time.inc", "time.exc"]]), "pp": rng.random() < 0.5}
        elif op == "imbalance":
            a = {"metric": rng.choice(["time.exc", "time.inc"]), "num": rng.randint(1, 4)}
        elif op == "idle":
            a = {"funcs": rng.choice([None, None, ["Idle"], ["Idle", "io"], ["main"]]), "mpi": rng.random() < 0.5}
        elif op in ("matrix", "by_process"):
            a = {"output": rng.choice(["size", "count"])}
        elif op == "over_time":
            a = {"output": rng.choice(["size", "count"]), "type": rng.choice(["send", "receive"]), "bins": rng.randint(1, 6)}
        elif op == "sizes":
            a = {"bins": rng.randint(1, 6)}
        elif op == "time_profile":
            a = {"bins": rng.randint(1, 4), "norm": rng.random() < 0.5}
        elif op == "pattern":
            a = {"name": rng.choice([e[2] for e in specs[w]["ev"] if e[1] == "Enter"]), "window": 3, "iterations": rng.randint(1, 4),
                 "metric": rng.choice(["time.exc", "time.exc", "time.inc"])}
        elif op == "multirun":
            a = {"which": [rng.randrange(len(specs)) for _ in range(rng.randint(1, 3))]}
        ops.append([op, w, a, rng.random() < 0.4])
    return {"specs": specs, "ops": ops}


def tree(graph):
    """one digest per root, equal for trees of the same shape and levels (trees can be deep)"""
    order, todo, digest = [], list(graph.roots), {}
    while todo:
        n = todo.pop()
        order.append(n)
        todo += n.children
    for n in reversed(order):
        text = json.dumps([n.get_level(), sorted(digest[id(c)] for c in n.children)])
        digest[id(n)] = hashlib.md5(text.encode()).hexdigest()
    return sorted(digest[id(r)] for r in graph.roots)


DERIVED = {
    "match": ["_matching_event", "_matching_timestamp"],
    "caller": ["_depth", "_parent", "_children"],
}


def execute(traces, op, w, a, shared):
    """runs one operation, returns (raw result, canonical result)"""
    from pipit import Trace

    t = traces[w]
    if op in DERIVED:
        (t._match_events if op == "match" else t._match_caller_callee)()
        return None, {c: canon_list(t.events[c].tolist()) for c in DERIVED[op]}
    if op in ("inc", "exc"):
        cols = a["cols"]
        arg = shared("cols", cols)
        (t.calc_inc_metrics if op == "inc" else t.calc_exc_metrics)(*([] if cols is None else [arg]))
        names = [("time" if c == "Timestamp (ns)" else c) + "." + op for c in (cols or list(traces.cols[w]))]
        if cols is None:
            # all of them, and no others, have metrics
            names += [c for c in t.events.columns if c.endswith("." + op) and c not in names]
        return None, {c: canon_list(t.events[c].tolist()) for c in names}
    if op == "cct":
        t.create_cct()
        paths = []
        for n in t.events["Graph_Node"].tolist():
            paths.append(None if n is None or isinstance(n, float) else n.get_level())
        return None, [tree(t.cct), paths]
    if op == "chrome":
        r = t.to_chrome()
        return r, r
    if op == "profile":
        r = t.flat_profile(metrics=shared("metrics", a["metrics"]), per_process=a["pp"])
    elif op == "imbalance":
        r = t.load_imbalance(a["metric"], a["num"])
    elif op == "idle":
        if a["funcs"] is None:
            r = t.idle_time(mpi_events=a["mpi"])
        else:
            r = t.idle_time(shared("funcs", a["funcs"]), mpi_events=a["mpi"])
        r = r.set_index("Process")
    elif op == "matrix":
        r = t.comm_matrix(a["output"])
    elif op == "by_process":
        r = t.comm_by_process(a["output"])
    elif op == "sizes":
        r = t.message_histogram(bins=a["bins"])
    elif op == "over_time":
        r = t.comm_over_time(output=a["output"], message_type=a["type"], bins=a["bins"])
    elif op == "time_profile":
        r = t.time_profile(num_bins=a["bins"], normalized=a["norm"])
    elif op == "pattern":
        os.environ["NUMBA_DISABLE_JIT"] = "1"
        try:
            r = t.detect_pattern(a["name"], iterations=a["iterations"], window_size=a["window"],
                                 metric=a.get("metric", "time.exc"))
        except (ValueError, IndexError) as e:
            return None, type(e).__name__
        return None, [p.index.tolist() for p in r]
    elif op == "multirun":
        given = [traces[k] for k in a["which"]]
        r = Trace.multirun_analysis(given)
        check(len(given) == len(a["which"]) and all(t is traces[k] for t, k in zip(given, a["which"])),
              "the list of traces was changed")
        return r, canon(r, rows=True)
    return r, canon(r)


def canon_list(v):
    out = []
    for x in v:
        if isinstance(x, (list, tuple)):
            out.append(canon_list(x))
        elif isinstance(x, str):
            out.append(x)
        elif model.isnull(x):
            out.append(None)
        else:
            out.append(float(x))
    return out


def canon(r, rows=False):
    import numpy as np
    import pandas as pd

    if isinstance(r, tuple):
        return [canon(x) for x in r]
    if isinstance(r, np.ndarray):
        return canon_list(r.tolist())
    if isinstance(r, pd.DataFrame):
        idx = [str(k) for k in r.index.tolist()]
        d = {str(c): canon_list(r[c].tolist()) for c in r.columns}
        out = [[k, {c: d[c][j] for c in d}] for j, k in enumerate(idx)]
        return out if rows else sorted(out, key=lambda x: (x[0], json.dumps(x[1], sort_keys=True)))
    return r


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return model.close(a, b, 1e6)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


class Traces(list):
    pass


def build_all(specs):
    ts = Traces(gen.build(copy.deepcopy(s)) for s in specs)
    ts.cols = [["Timestamp (ns)", "Process"][:1] + list(s["cols"]) for s in specs]
    return ts


def run(case, obs):
    import numpy as np
    import pandas as pd

    specs = case["specs"]
    traces = obs.call("Trace", build_all, specs)
    sources = [gen.frame(copy.deepcopy(s)) for s in specs]
    pool, seen = {}, set()
    earlier = []  # results the caller still has, and what they were

    def shared(kind, value):
        """the same list object for equal arguments, as a caller's constant would be"""
        if isinstance(value, list):
            key = (kind, json.dumps(value))
            obj = pool.setdefault(key, list(value))
            return obj
        return value

    def fresh_arg(kind, value):
        return list(value) if isinstance(value, list) else value

    for step, (op, w, a, spoil) in enumerate(case["ops"]):
        label = "%s[%d]%s" % (op, w, json.dumps(a))
        # (the search for patterns brings its libraries along, with their settings)
        before = settings() if op != "pattern" else None
        ferr, fres = obs.raises("fresh " + label, execute, build_all(specs), op, w, a, fresh_arg)
        err, res = obs.raises(label, execute, traces, op, w, a, shared)
        if before is not None:
            after = settings()
            check(after == before, "settings of the program changed by " + label,
                  *["%s: %s / %s" % (k, str(before[k])[:150], str(after[k])[:150]) for k in before if before[k] != after[k]][:1])
            obs.count("settings_kept")
        if ferr is not None:
            raise ferr
        check(err is None, "step %d: %s fails after %s" % (step, label, [o[0] for o in case["ops"][:step]]), repr(err))
        check(same(json.loads(json.dumps(res[1])), json.loads(json.dumps(fres[1]))),
              "step %d: %s differs from a fresh trace after %s" % (step, label, [(o[0], o[1]) for o in case["ops"][:step]]),
              res[1], fres[1])
        for key, obj in pool.items():
            check(json.dumps(obj) == key[1], "an argument list was changed by " + label, key[1], obj)
        for k, (t, src) in enumerate(zip(traces, sources)):
            now = t.events[list(src.columns)] if set(src.columns) <= set(t.events.columns) else None
            check(now is not None, "a source column vanished after " + label, list(t.events.columns))
            try:
                pd.testing.assert_frame_equal(now, src)
            except AssertionError as e:
                check(False, "source data of trace %d changed by %s" % (k, label), str(e)[:300])
            obs.count("source_comparisons")
        for what, held, was in earlier:
            check(canon(held) == was, "the result of %s was changed by %s" % (what, label))
            obs.count("results_kept")
        if not spoil and isinstance(res[0], (np.ndarray, pd.DataFrame, tuple)):
            earlier.append((label, res[0], canon(res[0])))
        if spoil:
            # what the caller does to a result must not reach the trace
            for r in res[0] if isinstance(res[0], tuple) else [res[0]]:
                if isinstance(r, np.ndarray) and r.flags.writeable:
                    r[...] = -7
                elif isinstance(r, pd.DataFrame):
                    for c in list(r.columns):
                        v = r[c].to_numpy()
                        if v.dtype.kind == "f" and v.flags.writeable:
                            v[...] = -7
                    r.drop(columns=list(r.columns)[:1], inplace=True)
            obs.count("spoiled_results", res[0] is not None)
        key = label
        obs.count("repeated", key in seen)
        seen.add(key)
        obs.count("operations")
        obs.state(op, case["ops"][step - 1][0] if step else None)
    obs.nontrivial = len(case["ops"]) > 2
