import os

from vlib import fmt_csv, fmt_hpct, fmt_nsight, fmt_otf2, fmt_proj, gen, model
from vlib.core import check
from checks.c05 import check_tree

ID = "C27"
LEVEL = "exploration"
TECH = "differential monitor: one execution written in five formats, loaded and analysed, each against the table itself"
RULE = ("random executions in microseconds on 1-4 processes with threads, nested calls, ties, unfinished calls and messages, written "
        "as CSV (ns or s), OTF2 (any tick that divides a microsecond, with or without an offset), Projections (entry methods), "
        "Nsight ranges and HPCToolkit samples (one per event), as far as the format can express them; calls, metrics, trees, profiles, idle times, imbalance, interval "
        "profiles, messages and a multi-run table are compared; non-trivial = three formats and ten calls")
ASSUME = ["times of the execution start at the origin of the archive", "Nsight gets complete calls without ambiguous ties only",
          "HPCToolkit gets complete calls below one outermost call, at times that differ within a place",
          "Projections gets one thread per process and adds an unmatched end of computation"]
N = {"quick": 640, "thorough": 5000}
CAP = {"quick": 60, "thorough": 500}
MIN = {"csv": 200, "otf2": 200, "projections": 60, "nsight": 40, "hpctoolkit": 25, "calls": 3000, "messages": 80, "profiles": 500, "multirun": 100}
NAMES = gen.PLAIN + ["solver.step", "x->y", "operator new", "std::vector<int>::operator[]", "f(int)", "Main"]
ROOT = "main thread"


def make(rng, i, tier):
    simple = rng.random() < 0.3
    style = "nested" if simple else rng.choice(["nested", "open", "orphan", "overlap", "chaos"])
    names = rng.sample(NAMES, rng.choice([1, 2, 4, 7])) if rng.random() < 0.8 else [
        n for n in rng.choice(gen.TWINS) if n == " ".join(n.split()) and not n[0].isdigit()] or ["x"]
    if rng.random() < 0.4:
        names.append("Idle")
    np_ = rng.randint(1, 4)
    threads = rng.random() < 0.4
    locs = [(p, t) for p in range(np_) for t in range(rng.randint(1, 3) if threads else 1)]
    clock = "strict" if simple else rng.choice(["ties", "small", "strict", "ns"])
    msgs = not simple and rng.random() < 0.4
    sampled = simple and rng.random() < 0.7
    n = gen.size_for(rng, i, tier)
    seqs = []
    for p, t in locs:
        c = gen.Clock(rng, clock)
        c.t = rng.randint(0, 20)
        k = max(1, n // len(locs)) if rng.random() < 0.7 else rng.randint(1, max(1, n))
        seq = gen.location(rng, names, k, c, style, 0.2 if msgs else 0)
        if sampled:  # a program that was sampled has one outermost call
            seq = [[seq[0][0] - 1, "Enter", ROOT]] + seq + [[seq[-1][0] + 1, "Leave", ROOT]]
        seqs.append((p, t, seq))
    ev = gen.merge(rng, seqs)
    long = rng.choice([1, 1, 1, 10**6])  # executions of seconds and minutes too
    for e in ev:
        if clock != "ns":
            e[0] *= long
        if clock == "ns":
            e[0] //= 1000
        if e[1] == "Instant":
            k = rng.choice(["MpiSend", "MpiIsend", "MpiRecv", "MpiIrecv"])
            peer = "receiver" if "end" in k else "sender"
            e[2], e[5] = k, {peer: rng.randrange(np_), "msg_tag": rng.randint(0, 9), "msg_length": rng.choice([0, 1, 8, 4096, 2**31])}
    return {"ev": ev, "np": np_, "threads": threads and len(locs) > np_, "style": style, "clock": clock, "msgs": msgs, "sampled": sampled,
            "layout": rng.randrange(10**6),
            "res": rng.choice([10**6, 10**7, 10**9, 2 * 10**9]), "offset": rng.choice([0, 0, 7, 10**9]),
            "seconds": rng.random() < 0.3, "pids": rng.sample(range(100, 9000), np_), "tids": sorted(rng.sample(range(10**4, 10**5), 8)),
            "procs": rng.choice([None, 1, 2]), "cct": rng.random() < 0.5, "bins": rng.randint(1, 5),
            "perm": rng.random() < 0.5, "shuffle": rng.randrange(10**6)}


# ---------------------------------------------------------------- the formats
def as_table(case, scratch, obs):
    spec = {"ev": [[e[0] * 1000] + e[1:] for e in case["ev"]], "thread": case["threads"], "cat": True, "attrs": True, "cols": {}}
    return gen.build(spec), spec["ev"], lambda k: (case["ev"][k][3], case["ev"][k][4])


def as_csv(case, scratch, obs):
    from pipit import Trace

    spec = {"ev": [[e[0] * 1000] + e[1:] for e in case["ev"]], "thread": case["threads"], "cols": {}}
    path = os.path.join(scratch, "t.csv")
    fmt_csv.write(path, spec, {"seconds": case["seconds"]})
    try:
        return obs.call("from_csv", Trace.from_csv, path)
    finally:
        os.unlink(path)


def as_otf2(case, scratch, obs):
    from pipit import Trace

    tick = case["res"] // 10**6
    ev = case["ev"]
    regions = sorted({e[2] for e in ev if e[1] != "Instant"}) or ["none"]
    locs, order = {}, sorted({(e[3], e[4]) for e in ev})
    for k, (p, t) in enumerate(order):
        locs[p, t] = {"group": p, "ref": t << 32 | p if case["perm"] else k, "type": "CPU_THREAD", "ev": []}
    for e in ev:
        ts = e[0] * tick + case["offset"]
        if e[1] == "Instant":
            a = dict(e[5], communicator=0, request_id=1)
            args = [a[x] for x, _ in fmt_otf2.KINDS[e[2]][1]]
            locs[e[3], e[4]]["ev"].append([ts, e[2], args, None])
        else:
            locs[e[3], e[4]]["ev"].append([ts, e[1], [regions.index(e[2])], None])
    spec = {"res": case["res"], "offset": case["offset"], "groups": [{"ref": p, "name": "MPI Rank %d" % p} for p in range(case["np"])],
            "regions": regions, "metrics": [], "attrs": [], "locs": [locs[k] for k in order]}
    path = os.path.join(scratch, "a")
    fmt_otf2.write(path, spec)
    try:
        return obs.call("from_otf2", Trace.from_otf2, os.path.join(path), case["procs"], case["cct"])
    finally:
        fmt_otf2.remove(path)


def as_projections(case, scratch, obs):
    from pipit import Trace

    if any(e[4] for e in case["ev"]) or case["msgs"]:
        return None
    names = sorted({e[2] for e in case["ev"]})
    ids = {n: 3 * k + 1 for k, n in enumerate(names)}
    pes = [[] for _ in range(case["np"])]
    for e in case["ev"]:
        f = {"mtype": 0, "entry": ids[e[2]], "t": e[0], "event": 1, "pe": e[3], "len": 8, "recv": 0, "ids": [], "cpu": 0, "perf": []}
        pes[e[3]].append([{"Enter": "BEGIN_PROCESSING", "Leave": "END_PROCESSING"}[e[1]], f])
    spec = {"name": "prog", "chares": [["C", 0]], "entries": [[k, n, 0] for n, k in ids.items()], "events": {}, "stats": {},
            "papi": 0, "pes": pes}
    path = os.path.join(scratch, "p")
    fmt_proj.write(path, spec)
    try:
        return obs.call("from_projections", Trace.from_projections, path, case["procs"], case["cct"])
    finally:
        fmt_proj.remove(path)


def as_nsight(case, scratch, obs):
    from pipit import Trace

    ev = case["ev"]
    if case["style"] != "nested" or case["msgs"]:
        return None
    for idx in model.by_location(ev, True).values():
        if any(ev[a][0] >= ev[b][0] for a, b in zip(idx, idx[1:])):
            return None
    m = model.match(ev, True)
    # numbers are given by the reader; they are recovered from the columns
    pid = {p: case["pids"][p] for p in range(case["np"])}
    ranges = []
    for k, e in enumerate(ev):
        if e[1] == "Enter":
            tid = pid[e[3]] if not case["threads"] else case["tids"][e[4]]
            ranges.append([e[0] * 1000, ev[m[k]][0] * 1000, e[2], pid[e[3]], tid, "PushPop"])
    path = os.path.join(scratch, "n.csv")
    fmt_nsight.write(path, {"ranges": ranges})
    try:
        t = obs.call("from_nsight", Trace.from_nsight, path, case["cct"])
    finally:
        os.unlink(path)
    return t


def as_hpctoolkit(case, scratch, obs):
    from pipit import Trace

    ev = case["ev"]
    if not case["sampled"]:
        return None
    by = model.by_location(ev, True)
    for idx in by.values():
        if any(ev[a][0] >= ev[b][0] for a, b in zip(idx, idx[1:])):
            return None
    names = sorted({e[2] for e in ev})
    ctxs, at, threads = [[1, None, None, 0, None, None, None, 0]], {(): 1}, []
    for p, t in sorted(by):
        path, samples = [], []
        for k in by[p, t]:
            if ev[k][1] == "Enter":
                path.append(ev[k][2])
            else:
                path.pop()
            key = tuple(path[1:])
            if key not in at:
                at[key] = len(ctxs) + 1
                ctxs.append([at[key], at[key[:-1]], 0, 1, names.index(key[-1]), None, None, None])
            samples.append([case["offset"] + ev[k][0] * 1000, at[key] if path else 0])
        ids = {"NODE": 7, "RANK": p}
        if case["threads"]:
            ids["THREAD"] = t
        threads.append({"ids": ids, "samples": samples})
    spec = {"layout": case["layout"], "strings": [ROOT] + names, "modules": [0], "files": [0], "ctxs": ctxs, "threads": threads,
            "functions": [[k + 1, 0, 64 * k, None, 0] for k in range(len(names))],
            "t0": case["offset"], "t1": case["offset"] + (ev[-1][0] + 1) * 1000}
    path = os.path.join(scratch, "h")
    fmt_hpct.write(path, spec)
    try:
        return obs.call("from_hpctoolkit", Trace.from_hpctoolkit, path)
    finally:
        fmt_hpct.remove(path)


# ---------------------------------------------------------------- what is compared
def number(case, df):
    """process number of every number given by a reader"""
    if "PID" not in df.columns:
        return lambda p: p
    back = {v: k for k, v in enumerate(case["pids"])}
    m = {}
    for p, pid in zip(df["Process"].tolist(), df["PID"].tolist()):
        check(m.setdefault(int(p), back[int(pid)]) == back[int(pid)], "one process number for two processes", p)
    return lambda p: m[p]


def places(case, t, num):
    df = t.events
    cols = {c: df[c].tolist() for c in df.columns}
    if "TID" in cols and case["threads"]:
        th = [case["tids"].index(int(x)) for x in cols["TID"]]
    elif "Thread" in cols:
        th = [int(x) for x in cols["Thread"]]
    else:
        th = [0] * len(df)
    keep = [k for k in range(len(df)) if not (cols["Name"][k] == "Computation" and "Projections" in case["now"])]
    where, rows = {}, {}
    for k in keep:
        l = (num(int(cols["Process"][k])), th[k])
        where[k] = (l, len(rows.setdefault(l, [])))
        rows[l].append(k)
    return cols, where, rows


def calls(case, t, num, obs):
    obs.call("calc_exc_metrics", t.calc_exc_metrics, ["Timestamp (ns)"])
    if t.cct is None or not case["cct"]:
        obs.call("create_cct", t.create_cct)
    cols, where, rows = places(case, t, num)
    at = lambda x: None if model.isnull(x) else where[int(x)]
    num_ = lambda x: None if model.isnull(x) else round(float(x), 3)
    nodes = {}
    out = {}
    for l, ks in sorted(rows.items()):
        out[l] = []
        for k in ks:
            kids = cols["_children"][k]
            kids = [] if kids is None or isinstance(kids, float) else [at(c) for c in kids]
            path, n = [], cols["Graph_Node" if "Graph_Node" in cols else "Node"][k]
            if cols["Event Type"][k] == "Enter" and n is not None and not isinstance(n, float):
                nodes.setdefault(id(n), len(nodes))
                path = [nodes[id(n)], n.get_level()]
            out[l].append({
                "time": num_(cols["Timestamp (ns)"][k]), "type": cols["Event Type"][k], "name": cols["Name"][k],
                "partner": at(cols["_matching_event"][k]), "caller": at(cols["_parent"][k]), "callees": kids,
                "depth": num_(cols["_depth"][k]), "inclusive": num_(cols["time.inc"][k]), "exclusive": num_(cols["time.exc"][k]),
                "path": path,
            })
    return out


def tree_of(rows):
    """first place of every node, in an order that every format gives"""
    first = {}
    for l in sorted(rows):
        for k, r in enumerate(rows[l]):
            if r["path"]:
                first.setdefault(r["path"][0], (l, k))
    return {(l, k): first[r["path"][0]] for l in rows for k, r in enumerate(rows[l]) if r["path"]}


def tables(case, t, num, obs):
    enters = set(t.events.loc[t.events["Event Type"] == "Enter", "Name"])
    out = {"idle_time": {}, "profile": {}, "mean profile": {}, "imbalance": {}, "intervals": []}
    for mpi in (False, True):
        r = obs.call("idle_time", t.idle_time, ["Idle"], mpi)
        for p, v in zip(r["Process"].tolist(), r["Idle Time"].tolist()):
            out["idle_time"][num(int(p)), mpi] = float(v)
    if not enters:
        return out
    r = obs.call("flat_profile", t.flat_profile, ["time.inc", "time.exc"], per_process=True).reset_index()
    for x in r.to_dict("records"):
        out["profile"][num(int(x["Process"])), x["Name"]] = (float(x["time.inc"]), float(x["time.exc"]))
    r = obs.call("flat_profile", t.flat_profile, ["time.exc"])["time.exc"]
    out["mean profile"] = {n: float(v) for n, v in zip(r.index.tolist(), r.tolist()) if not model.isnull(v)}
    r = obs.call("load_imbalance", t.load_imbalance, "time.inc", 9)
    for n, a, ps, m in zip(r.index.tolist(), r["time.inc.imbalance"].tolist(), r["Top processes"].tolist(), r["time.inc.mean"].tolist()):
        out["imbalance"][n] = (float(a), float(m), float(len(ps)))
    ts = t.events["Timestamp (ns)"]
    if ts.max() > ts.min():
        r = obs.call("time_profile", t.time_profile, case["bins"])
        for x in r.to_dict("records"):
            out["intervals"].append({k: float(v) for k, v in x.items() if not model.isnull(v) and (v != 0 or k[:4] == "bin_")})
    return out


def comm(case, t, obs):
    if not case["msgs"] or "Attributes" not in t.events or not any(e[1] == "Instant" for e in case["ev"]):
        return None
    if len({e[3] for e in case["ev"]}) != case["np"]:
        return None
    out = {}
    for o in ("size", "count"):
        out["matrix", o] = obs.call("comm_matrix", t.comm_matrix, o).tolist()
        r = obs.call("comm_by_process", t.comm_by_process, o)
        out["totals", o] = [r["Sent"].tolist(), r["Received"].tolist()]
    out["sizes"] = [x.tolist() for x in obs.call("message_histogram", t.message_histogram, 4)]
    ts = t.events["Timestamp (ns)"]
    for typ in ("send", "receive"):
        out["over time", typ] = [[round(float(v), 6) for v in x] for x in obs.call("comm_over_time", t.comm_over_time, "size", typ, 3)]
    return out


def near(a, b, scale):
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(near(x, y, scale) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(near(a[k], b[k], scale) for k in a)
    return model.close(a, b, scale) or abs(a - b) < 0.02 if isinstance(a, float) else a == b


def run(case, obs):
    case = dict(case, now="table")
    ref, rows, where = as_table(case, obs.scratch, obs)
    if not case["ev"]:
        return
    hi = case["ev"][-1][0] * 1000 + 1
    base = calls(case, ref, lambda p: p, obs)
    want_tree = tree_of(base)
    want = tables(case, ref, lambda p: p, obs)
    want_comm = comm(case, ref, obs)
    loaded = [ref]
    for name, f in (("CSV", as_csv), ("OTF2", as_otf2), ("Projections", as_projections), ("Nsight", as_nsight),
                    ("HPCToolkit", as_hpctoolkit)):
        case["now"] = name
        t = f(case, obs.scratch, obs)
        if t is None:
            continue
        num = number(case, t.events)
        got = calls(case, t, num, obs)
        check(set(got) == set(base), "processes and threads in %s" % name, sorted(got), sorted(base))
        for l in base:
            check(len(got[l]) == len(base[l]), "events of %s in %s" % (l, name), len(got[l]), len(base[l]))
            for k, (x, y) in enumerate(zip(base[l], got[l])):
                for c in x:
                    if c == "path":
                        check(x[c][1:] == y[c][1:], "level of event %d of %s in %s" % (k, l, name), x, y)
                    else:
                        check(x[c] == y[c], "%s of event %d of %s in %s" % (c, k, l, name), x[c], "but in", name, y[c])
                obs.count("calls", x["type"] == "Enter")
        check(tree_of(got) == want_tree, "the call tree from %s has other nodes" % name)
        r = tables(case, t, num, obs)
        for k in want:
            check(near(want[k], r[k], hi), "%s from %s" % (k, name), str(want[k])[:300], "but", str(r[k])[:300])
        obs.count("profiles")
        if name == "OTF2" and want_comm is not None:
            r = comm(case, t, obs)
            check(near(want_comm, r, hi), "communication from %s" % name, str(want_comm)[:300], "but", str(r)[:300])
            obs.count("messages")
        loaded.append(t)
        obs.count(name.lower())
    if any(e[1] == "Enter" for e in case["ev"]):
        from pipit import Trace

        r = obs.call("multirun_analysis", Trace.multirun_analysis, loaded)
        cols = [c for c in r.columns if not model.isnull(r[c].iloc[0])]
        for k in range(1, len(loaded)):
            for c in cols:
                check(model.close(r[c].iloc[0], r[c].iloc[k], hi) or abs(r[c].iloc[0] - r[c].iloc[k]) < 0.02,
                      "multi-run entry of %s in run %d" % (c, k), r[c].tolist())
        check(len(set(r.index.tolist())) == 1, "numbers of processes", r.index.tolist())
        obs.count("multirun")
    obs.state(case["style"], case["clock"], tuple((e[1], e[2]) for e in case["ev"][:40]))
    obs.nontrivial = len(loaded) >= 4 and len(case["ev"]) >= 20
