import json
import os

from vlib import fmt_csv, fmt_hpct, fmt_nsight, fmt_otf2, fmt_proj, model
from vlib.core import check, number
from checks import c14

ID = "C35"
LEVEL = "exploration"
TECH = "monitor of every analysis and export on traces with next to nothing in them, against direct definitions"
RULE = ("traces of 0-3 pieces per process (an event without duration, a call that is never left, a return without a call, a call of no "
        "duration, a call, a message) on 1-3 processes, many with none, as a table and from the five formats, which represent as much "
        "of it as they can; every analysis and export, in a random order, on one trace; non-trivial = all of them ran and there are no calls")
ASSUME = ["a column read from a file without rows has no type: metrics of such traces are requested by name",
          "ratios to zero (imbalance around a mean of zero, shares of an interval without length) are unspecified",
          "shares of an interval are of the processes with calls", "an archive without locations and a directory without processors are no traces"]
N = {"quick": 1300, "thorough": 24000}
CAP = {"quick": 45, "thorough": 400}
MIN = {"no_events": 150, "no_calls": 200, "operations": 15000, "table": 100, "csv": 100, "otf2": 100, "projections": 60, "nsight": 60,
       "hpctoolkit": 40}
OPS = ["match", "caller", "cct", "chrome", "matrix", "by_process", "sizes", "over_time", "idle", "profile", "imbalance", "time_profile",
       "inc", "exc", "multirun"]
FORMATS = ["table", "csv", "otf2", "projections", "nsight", "hpctoolkit", "table", "otf2"]
NAMES = ["main", "Idle", "MPI_Wait", "x->y", "Computation", "1", "bin"]


def make(rng, i, tier):
    fmt = FORMATS[i % len(FORMATS)]
    atoms = {"table": ["instant", "enter", "leave", "zero", "call", "send", "recv"], "csv": ["instant", "enter", "leave", "zero", "call"],
             "nsight": ["zero", "call"], "projections": ["instant", "enter", "leave", "zero", "call"],
             "otf2": ["instant", "enter", "leave", "zero", "call", "send", "recv"], "hpctoolkit": ["idle", "call"]}[fmt]
    names = rng.sample(NAMES, rng.choice([1, 1, 2]))
    np_ = rng.choice([1, 1, 2, 3])
    threads = fmt in ("table", "csv", "otf2") and rng.random() < 0.3
    one = rng.choice(atoms)
    most = rng.choice([0, 1, 1, 2, 3])
    start = rng.choice([0, 5, 10**9])
    ev = []
    for p in range(np_):
        for th in range(rng.choice([1, 2]) if threads else 1):
            t = start
            for _ in range(rng.randint(0, most)):
                a = one if rng.random() < 0.6 else rng.choice(atoms)
                n = rng.choice(names)
                t += rng.choice([0, 0, 1, 3])
                if a in ("instant", "send", "recv"):
                    d = {"msg_tag": 1, "msg_length": rng.choice([0, 8])}
                    d["receiver" if a == "send" else "sender"] = p if rng.random() < 0.5 else rng.randrange(np_)
                    ev.append([t, "Instant", {"send": "MpiSend", "recv": "MpiRecv"}.get(a, "tick"), p, th, d if a != "instant" else {}])
                    continue
                if a != "leave":
                    ev.append([t, "Enter", n, p, th, {}])
                t += rng.choice([1, 7]) if a == "call" else 0
                if a in ("zero", "call", "leave"):
                    ev.append([t, "Leave", n, p, th, {}])
    ev.sort(key=lambda e: e[0])  # stable: within a place the order stays
    ops = OPS[:]
    rng.shuffle(ops)
    return {"format": fmt, "np": np_, "threads": threads, "ev": ev, "ops": ops + rng.sample(OPS, 3), "procs": rng.choice([None, 1, 2, 4]),
            "cct": rng.random() < 0.5, "bins": rng.randint(1, 4), "norm": rng.random() < 0.5, "attrs": rng.random() < 0.5,
            "cat": rng.random() < 0.7, "float": rng.random() < 0.3, "seconds": rng.random() < 0.3, "layout": rng.randrange(10**6)}


# ------------------------------------------------- what is loaded: [[time, type, name, process, thread, attributes]]
def load(case, scratch, obs):
    import pandas as pd
    from pipit import Trace

    fmt, ev, np_ = case["format"], case["ev"], case["np"]
    path = os.path.join(scratch, "in")
    if fmt == "table":
        d = {"Timestamp (ns)": pd.Series([e[0] for e in ev], dtype="float64" if case["float"] else "int64"),
             "Event Type": pd.Series([e[1] for e in ev], dtype=object), "Name": pd.Series([e[2] for e in ev], dtype=object),
             "Process": pd.Series([e[3] for e in ev], dtype="int64")}
        if case["threads"]:
            d["Thread"] = pd.Series([e[4] for e in ev], dtype="int64")
        if case["attrs"] or any(e[5] for e in ev):
            d["Attributes"] = pd.Series([e[5] or None for e in ev], dtype=object)
        df = pd.DataFrame(d)
        if case["cat"]:
            df = df.astype({"Event Type": "category", "Name": "category", "Process": "category"})
        return obs.call("Trace", Trace, None, df), ev
    if fmt == "csv":
        fmt_csv.write(path, {"ev": ev, "thread": case["threads"], "cols": {}}, {"seconds": case["seconds"]})
        try:
            return obs.call("from_csv", Trace.from_csv, path), ev
        finally:
            os.unlink(path)
    if fmt == "nsight":
        m = model.match(ev, False)
        rs = [[e[0], ev[m[k]][0], e[2], 100 + e[3], 100 + e[3], "PushPop"] for k, e in enumerate(ev) if e[1] == "Enter"]
        fmt_nsight.write(path, {"ranges": rs})
        try:
            return obs.call("from_nsight", Trace.from_nsight, path, case["cct"]), None
        finally:
            os.unlink(path)
    if fmt == "otf2":
        regions = sorted({e[2] for e in ev if e[1] != "Instant"}) or ["none"]
        nt = 1 + max([e[4] for e in ev], default=0)
        locs, out = [], []
        for p in range(np_):
            for t in range(nt):
                rows = []
                for e in ev:
                    if (e[3], e[4]) == (p, t):
                        kind = e[1] if e[1] != "Instant" else "ThreadTeamBegin" if e[2] == "tick" else e[2]
                        a = dict(e[5], communicator=0, thread_team=0, region=regions.index(e[2]) if e[2] in regions else 0)
                        rows.append([e[0], kind, [a[x] for x, _ in fmt_otf2.KINDS[kind][1]], None])
                        out.append(e if e[2] != "tick" else e[:2] + [kind] + e[3:])
                locs.append({"group": p, "ref": len(locs), "type": "CPU_THREAD", "ev": rows})
        fmt_otf2.write(path, {"res": 10**9, "offset": 0, "groups": [{"ref": p, "name": "MPI Rank %d" % p} for p in range(np_)],
                              "regions": regions, "metrics": [], "attrs": [], "locs": locs})
        try:
            return obs.call("from_otf2", Trace.from_otf2, path, case["procs"], case["cct"]), sorted(out, key=lambda e: e[0])
        finally:
            fmt_otf2.remove(path)
    if fmt == "projections":
        names = sorted({e[2] for e in ev if e[1] != "Instant"})
        pes = [[] for _ in range(np_)]
        for e in ev:
            f = {"mtype": 0, "entry": 1 + names.index(e[2]) if e[2] in names else 0, "t": e[0], "event": 1, "pe": e[3], "len": 8, "recv": 0,
                 "ids": [], "cpu": 0, "perf": [], "mem": 5}
            pes[e[3]].append([{"Enter": "BEGIN_PROCESSING", "Leave": "END_PROCESSING", "Instant": "MEMORY_USAGE"}[e[1]], f])
        spec = {"name": "prog", "chares": [["C", 0]], "entries": [[1 + k, n, 0] for k, n in enumerate(names)], "events": {}, "stats": {},
                "papi": 0, "pes": pes}
        rows = [[r[0], r[1], r[2], p, 0, {}] for p, rs in fmt_proj.expected(spec).items() for r in rs]
        fmt_proj.write(path, spec)
        try:
            return (obs.call("from_projections", Trace.from_projections, path, case["procs"], case["cct"]),
                    sorted(rows, key=lambda e: e[0]))
        finally:
            fmt_proj.remove(path)
    # HPCToolkit: a thread with no samples, or only idle ones, or one with samples of a call
    names = sorted({e[2] for e in ev}) or ["main"]
    threads = []
    for p in range(np_):
        samples = [[e[0] + (e[1] == "Leave"), 2 + names.index(e[2]) if e[1] == "Enter" else 0] for e in ev if e[3] == p]
        last = {}
        for t, c in samples:
            last[t] = c
        if not samples and case["attrs"]:
            samples = last = {5: 0}
        threads.append({"ids": {"NODE": 7, "RANK": p}, "samples": sorted([t, c] for t, c in last.items())})
    spec = {"layout": case["layout"], "strings": ["start"] + names, "modules": [0], "files": [0],
            "functions": [[k + 1, 0, 64 * k, None, 0] for k in range(len(names))],
            "ctxs": [[1, None, None, 0, None, None, None, 0]] + [[2 + k, 1, 0, 1, k, None, None, None] for k in range(len(names))],
            "threads": threads, "t0": 0, "t1": max([e[0] for e in ev], default=5) + 10}
    named = {c[0]: (["start"] + names)[k] for k, c in enumerate(spec["ctxs"])}
    rows = [[r[0], r[1], named[r[2]], p, 0, {}] for p, rs in enumerate(fmt_hpct.expected(spec)) for r in rs]
    fmt_hpct.write(path, spec)
    try:
        return obs.call("from_hpctoolkit", Trace.from_hpctoolkit, path), sorted(rows, key=lambda e: e[0])
    finally:
        fmt_hpct.remove(path)


def loaded(case, t, want):
    """the events as loaded, compared with what was recorded"""
    df = t.events
    for c in ("Timestamp (ns)", "Event Type", "Name", "Process"):
        check(c in df.columns, "column %s is missing" % c, list(df.columns))
    cols = {c: df[c].tolist() for c in df.columns}
    n = len(df)
    th = "Thread" in cols
    got = [[cols["Timestamp (ns)"][k], cols["Event Type"][k], cols["Name"][k], number(cols["Process"][k]), number(cols["Thread"][k]) if th else 0]
           for k in range(n)]
    if case["format"] == "nsight":
        # processes are numbered by the reader
        count = {}
        for e in case["ev"]:
            count.setdefault(e[3], []).append([e[0], e[1], e[2]])
        have = {}
        for k, r in enumerate(got):
            have.setdefault(int(cols["PID"][k]) - 100, []).append(r[:3])
        check({p: sorted(map(tuple, v)) for p, v in have.items()} == {p: sorted(map(tuple, v)) for p, v in count.items()},
              "loaded events", have, count)
        return [r + [{}] for r in got], False
    places = {}
    for r in want:
        places.setdefault((r[3], r[4] if th else 0), []).append(r)
    have = {}
    full = []
    for r in got:
        have.setdefault((r[3], r[4]), []).append(r)
    check({k: len(v) for k, v in have.items()} == {k: len(v) for k, v in places.items()}, "number of events at every place",
          {str(k): len(v) for k, v in have.items()}, {str(k): len(v) for k, v in places.items()})
    attr = {}
    for k, rows in have.items():
        for j, (a, b) in enumerate(zip(rows, places[k])):
            check((a[0] is None or b[0] is None or abs(a[0] - b[0]) < 1e-3) and a[1:3] == b[1:3], "event %d of %s" % (j, k), a, b)
            attr[id(a)] = b[5]
    check(all(not a[0] > b[0] for a, b in zip(got, got[1:])), "events not in order of time", got)
    for r in got:
        full.append(r + [attr[id(r)]])
    return full, th


# ------------------------------------------------- what every operation has to say
def arguments(case, op):
    return {"profile": {"metrics": ["time.inc", "time.exc"], "pp": case["norm"]}, "imbalance": {"metric": "time.exc", "num": 2},
            "idle": {"funcs": None, "mpi": case["norm"]}, "matrix": {"output": "size" if case["norm"] else "count"},
            "by_process": {"output": "size" if case["norm"] else "count"}, "sizes": {"bins": case["bins"]},
            "over_time": {"output": "size" if case["norm"] else "count", "type": "send" if case["cct"] else "receive", "bins": case["bins"]},
            "time_profile": {"bins": case["bins"], "norm": case["norm"]}, "inc": {"cols": ["Timestamp (ns)"]},
            "exc": {"cols": ["Timestamp (ns)"]}, "multirun": {"which": [0, 0][: case["bins"]]}}.get(op, {})


def near(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    return abs(a - b) <= 1e-6


class Wants:
    def __init__(self, case, ev, th):
        self.ev = ev
        self.names = {e[2] for e in ev}
        self.procs = sorted({e[3] for e in ev})
        self.m = m = model.match(ev, th)
        self.parent, self.depth, self.children = model.nest(ev, th, m)
        ts = [e[0] for e in ev]
        self.inc = model.inclusive(ts, ev, m)
        self.exc = model.exclusive(self.inc, self.children)
        self.ctx = model.contexts(ev, th)
        self.span = max(ts) - min(ts) if ts else 0
        self.called = {e[2] for e in ev if e[1] == "Enter"}


def judge(op, a, res, w, case, obs):
    ev, n = w.ev, len(w.ev)
    rows = range(n)
    if op == "match":
        check(near(res["_matching_event"], w.m), "matching events", res, w.m)
        check(near(res["_matching_timestamp"], [None if j is None else ev[j][0] for j in w.m]), "matching timestamps", res)
    elif op == "caller":
        # what a call has; a leave has nothing
        check(near(res["_depth"], [w.depth.get(k) for k in rows]), "depths", res, w.depth)
        check(near([x for k, x in enumerate(res["_parent"]) if k in w.parent], [w.parent[k] for k in rows if k in w.parent]), "callers", res)
        kids = [sorted(x) if isinstance(x, list) else [] for x in res["_children"]]
        check(near(kids, [sorted(w.children.get(k, [])) for k in rows]), "callees", res, w.children)
    elif op in ("inc", "exc"):
        v = w.inc if op == "inc" else w.exc
        check(list(res) == ["time." + op] and near(res["time." + op], [v.get(k) for k in rows]), "metric", res, v)
    elif op == "cct":
        check(len(res[0]) == len({id(c) for c in w.ctx.values() if c[0] is None}), "roots of the tree", res, len(w.ctx))
        check(near(res[1], [len(model.path(w.ctx[k])) - 1 if k in w.ctx else None for k in rows]), "levels of the events", res)
    elif op == "chrome":
        got = json.loads(res)
        check(len(got) == n, "exported events", len(got), n)
        ph = {"Enter": "B", "Leave": "E"}
        check([g["ph"] for g in got] == [ph.get(e[1], "i") for e in ev] and [g["name"] for g in got] == [e[2] for e in ev], "exported", got)
    elif op in ("matrix", "by_process"):
        np_ = len(w.procs)
        want = {p: {q: 0 for q in w.procs} for p in w.procs}
        recv = dict.fromkeys(w.procs, 0)
        for e in ev:
            if e[1] == "Instant" and e[2] == "MpiSend":
                want[e[3]][e[5]["receiver"]] += e[5]["msg_length"] if a["output"] == "size" else 1
        if op == "matrix":
            check(near(res, [[want[p][q] for q in w.procs] for p in w.procs]) if np_ else res == [], "communication matrix", res, want)
        else:
            for p in w.procs:
                for q in w.procs:
                    recv[q] += want[p][q]
            check([[k, v["Sent"], v["Received"]] for k, v in res] == [[str(p), sum(want[p].values()), recv[p]] for p in w.procs],
                  "totals", res, want)
    elif op == "sizes":
        ls = [e[5]["msg_length"] for e in ev if e[2] == "MpiSend" and e[1] == "Instant"]
        check(sum(res[0]) == len(ls) and len(res[0]) == a["bins"] and len(res[1]) == a["bins"] + 1, "message sizes", res, ls)
    elif op == "over_time":
        name = "MpiSend" if a["type"] == "send" else "MpiRecv"
        ls = [e[5]["msg_length"] for e in ev if e[2] == name and e[1] == "Instant"]
        check(len(res[0]) == a["bins"] and near(sum(res[0]), sum(ls) if a["output"] == "size" else len(ls)), "messages over time", res, ls)
        if w.span:
            check(near(res[1][0], ev[0][0]) and near(res[1][-1], ev[-1][0]), "extent of the histogram", res[1])
    elif op == "idle":
        funcs = ["Idle"] + (["MPI_Wait", "MPI_Waitall", "MPI_Recv"] if a["mpi"] else [])
        want = dict.fromkeys(w.procs, 0)
        for k, v in w.inc.items():
            want[ev[k][3]] += v if ev[k][2] in funcs else 0
        check(sorted(k for k, _ in res) == sorted(map(str, w.procs)), "processes with idle times", res)
        check(all(near(v["Idle Time"], want[int(k)]) for k, v in res), "idle times", res, want)
    elif op == "profile":
        want = {}
        for k, e in enumerate(ev):
            if e[1] == "Enter":
                x = want.setdefault(str((e[2], e[3])) if a["pp"] else e[2], {"time.inc": [], "time.exc": []})
                x["time.inc"].append(w.inc.get(k, 0))
                x["time.exc"].append(w.exc.get(k, 0))
        rest = [k for k, _ in res if k not in want]
        check(set(want) <= {k for k, _ in res} and len({k for k, _ in res}) == len(res), "rows of the profile", res, sorted(want))
        check(all(v is None or v == 0 for k, d in res if k in rest for v in d.values()), "time of functions without calls", res)
        if a["pp"]:
            check(not rest, "rows of the profile", res, sorted(want))
        calls = {}
        for k, e in enumerate(ev):
            if e[1] == "Enter":
                calls.setdefault(e[2], set()).add(e[3])
        for k, d in res:
            for c in ("time.inc", "time.exc"):
                if k in want:
                    s = sum(want[k][c])
                    # a mean over the processes that called it
                    check(near(d[c], s if a["pp"] else s / len(calls[k])), "%s of %s" % (c, k), d, want[k])
    elif op == "imbalance":
        check(sorted(k for k, _ in res) == sorted(w.called), "functions with an imbalance", res, sorted(w.called))
        for k, d in res:
            per = {}
            for j, e in enumerate(ev):
                if e[1] == "Enter" and e[2] == k:
                    per[e[3]] = per.get(e[3], 0) + w.exc.get(j, 0)
            mean = sum(per.values()) / len(per)
            check(near(d["time.exc.mean"], mean) and len(d["Top processes"]) == min(2, len(per)), "imbalance of %s" % k, d, per)
            check(not mean or near(d["time.exc.imbalance"], max(per.values()) / mean), "imbalance of %s" % k, d, per)
    elif op == "time_profile":
        check(len(res) == a["bins"], "intervals", len(res))
        for k, d in res:
            check(set(d) - {"bin_start", "bin_end", "idle_time"} == w.called - {"bin_start", "bin_end", "idle_time"}, "functions", list(d))
        if w.span:
            width = w.span / a["bins"]
            callers = len({e[3] for e in ev if e[1] == "Enter"})
            for f in w.called:
                total = sum((d[f] or 0) * (width * callers if a["norm"] else 1) for k, d in res)
                want = sum(v for k, v in w.exc.items() if ev[k][2] == f)
                check(abs(total - want) <= 0.02 * a["bins"] * (n + 1), "time of %s over all intervals" % f, total, want)
            for k, d in res:
                j = int(k)
                check(near(d["bin_start"], ev[0][0] + j * width) and near(d["bin_end"], ev[0][0] + (j + 1) * width), "interval %d" % j, d)
        else:
            check(all(not v for k, d in res for f, v in d.items() if f in w.called or f == "idle_time"), "time in intervals of no length", res)
    elif op == "multirun":
        check(len(res) == len(a["which"]) and {float(k) for k, _ in res} == {float(len(w.procs))}, "runs", res)
        sums = {f: 0 for f in w.called}
        for k, v in w.exc.items():
            sums[ev[k][2]] += v
        per = {f: len({e[3] for e in ev if e[1] == "Enter" and e[2] == f}) for f in w.called}
        for k, d in res:
            check(w.called <= set(d), "functions of the runs", d, sorted(w.called))
            check(all(near(v or 0, sums[f] / per[f] if f in sums else 0) for f, v in d.items()), "times of the runs", d, sums)


def run(case, obs):
    t, want = load(case, obs.scratch, obs)
    check(t is not None, "no trace")
    ev, th = loaded(case, t, want)
    w = Wants(case, ev, th)
    receivers = {e[5]["receiver"] for e in ev if e[5].get("receiver") is not None}
    ts = c14.Traces([t])
    ts.cols = [["Timestamp (ns)"]]
    for step, op in enumerate(case["ops"]):
        a = arguments(case, op)
        if op in ("matrix", "by_process") and not receivers | set(range(len(w.procs))) <= set(w.procs):
            continue  # receivers outside the trace, processes that are not 0..n-1
        label = "%s%s after %s" % (op, json.dumps(a), case["ops"][:step])
        res = obs.call(label, c14.execute, ts, op, 0, a, lambda kind, v: list(v) if isinstance(v, list) else v)[1]
        judge(op, a, res, w, case, obs)
        obs.count("operations")
    obs.count(case["format"])
    obs.count("no_events", not ev)
    obs.count("no_calls", bool(ev) and not w.called)
    kinds = sorted({e[1] for e in ev})
    obs.state(case["format"], kinds, len(w.procs), len(ev), bool(w.span))
    obs.nontrivial = not w.called
