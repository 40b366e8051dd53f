import os

from vlib import fmt_otf2, gen, model
from vlib.core import check, number
from checks.c05 import check_tree

ID = "C16"
LEVEL = "exploration"
TECH = "round-trip monitor: event log given to the OTF2 writer against the loaded table"
RULE = ("random OTF2 archives written with the OTF2 library: 1-4 processes, threads, empty and non-CPU locations, dense, "
        "sparse and Score-P style location ids, 46 event kinds, event attributes, 10 timer resolutions, ties; non-trivial = "
        "two or more locations with events and an instant event")
ASSUME = ["the OTF2 library writes and reads archives correctly", "ticks since the start are below 2^53",
          "metric records are covered by C17"]
N = {"quick": 800, "thorough": 9000}
CAP = {"quick": 40, "thorough": 500}
MIN = {"events": 3000, "locations": 300, "ties": 200, "instants": 200, "sparse_ids": 50}


def calls(rng, names, n, start):
    c = gen.Clock(rng, rng.choice(["ties", "strict", "small", "ns"]))
    c.t = start
    return gen.location(rng, names, n, c, rng.choice(["nested", "nested", "open", "orphan", "overlap"]), 0.2)


def make(rng, i, tier):
    spec = fmt_otf2.archive(rng, i, tier, calls, scale=True)
    if rng.random() < 0.5:
        # exact merge order: distinct resolutions only matter for the scale
        spec["res"] = 10**9
    return {"spec": spec, "procs": rng.choice([None, None, 1, 2, 3, 5, 8]), "cct": rng.random() < 0.3}


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def rows_by_location(df):
    cols = {c: df[c].tolist() for c in df.columns}
    out = {}
    for k in range(len(df)):
        out.setdefault((number(cols["Process"][k]), number(cols["Thread"][k])), []).append(k)
    return cols, out


def compare(spec, df, obs, metrics):
    want = fmt_otf2.expected(spec)
    n = sum(len(v) for v in want.values())
    check(len(df) == n, "number of events", len(df), "recorded", n)
    check(df.index.tolist() == list(range(n)), "row labels are not 0..n-1")
    ts = df["Timestamp (ns)"].tolist()
    check(all(a <= b for a, b in zip(ts, ts[1:])), "rows not ordered by time")
    cols, got = rows_by_location(df)
    check(set(got) == set(want), "processes and threads", sorted(got), "recorded", sorted(want))
    if metrics is None and not spec.get("metrics"):
        check(sorted(set(df.columns) - {"Graph_Node"}) == ["Attributes", "Event Type", "Name", "Process", "Thread", "Timestamp (ns)"],
              "columns", list(df.columns))
    # a few roundings of the largest number involved, the time before the offset is taken off
    # (but events of different ticks stay apart, also if ticks are counted from the epoch)
    tick = 1e9 / spec["res"]
    tol = min(1e-15 * max([e[0] for l in spec["locs"] for e in l["ev"]] or [0]), 0.01) * tick
    for loc, rows in want.items():
        check(len(got[loc]) == len(rows), "events of process %d thread %d" % loc, len(got[loc]), len(rows))
        for k, r in zip(got[loc], rows):
            check(model.close(cols["Timestamp (ns)"][k], r[0], 0, rel=1e-14, abs_=tol), "time of event", loc,
                  cols["Timestamp (ns)"][k], "recorded", r[:3])
            check(cols["Event Type"][k] == r[1] and cols["Name"][k] == r[2], "event of %s" % (loc,),
                  [cols["Event Type"][k], cols["Name"][k]], "recorded", r[:3])
            a = cols["Attributes"][k]
            a = None if model.isnull(a) else plain(a)
            check(a == r[3], "attributes of %s %s" % (loc, r[:3]), a, "recorded", r[3])
            if metrics is not None:
                metrics(k, r, cols)
            obs.count("instants", r[1] == "Instant")
    obs.count("events", n)
    obs.count("locations", len(want))
    obs.count("ties", sum(a == b for a, b in zip(ts, ts[1:])))
    return want, cols


def run(case, obs):
    from pipit import Trace

    spec = case["spec"]
    path = os.path.join(obs.scratch, "t")
    fmt_otf2.write(path, spec)
    try:
        t = obs.call("from_otf2(%s)" % case["procs"], Trace.from_otf2, path, num_processes=case["procs"],
                     **({"create_cct": True} if case["cct"] else {}))
    finally:
        fmt_otf2.remove(path)
    df = t.events
    want, cols = compare(spec, df, obs, None)
    check(t.definitions is not None and len(t.definitions) > 0, "no definitions loaded")
    if case["cct"]:
        ev = [[cols["Timestamp (ns)"][k], cols["Event Type"][k], cols["Name"][k], number(cols["Process"][k]),
               number(cols["Thread"][k])] for k in range(len(df))]
        check_tree(t.cct, model.contexts(ev, True), dict(enumerate(df["Graph_Node"].tolist())), obs)
    else:
        check(t.cct is None, "a tree was made without being asked for")
    refs = sorted(l["ref"] for l in spec["locs"])
    obs.count("sparse_ids", refs != list(range(len(refs))))
    obs.state(tuple(sorted((l, len(v)) for l, v in want.items())), spec["res"])
    obs.nontrivial = len(want) > 1 and any(r[1] == "Instant" for v in want.values() for r in v)
