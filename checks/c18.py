import os

from vlib import fmt_proj, model
from vlib.core import check, number
from checks.c05 import check_tree
from checks.c16 import plain

ID = "C18"
LEVEL = "exploration"
TECH = "round-trip monitor: records written to Projections logs against the loaded table"
RULE = ("random Projections directories: 1-5 processors, 28 record types, chare dimensions 0-4, performance counters, "
        "ties, computations left open, empty logs; non-trivial = two processors with events and five record types")
ASSUME = ["records outside the supported set (broadcast creation) are not generated; the time of user supplied values, which the log does not record, is not judged",
          "words in names are separated by single blanks; names of user events and statistics are compared as pipit keeps them, with a trailing space"]
N = {"quick": 1400, "thorough": 10000}
CAP = {"quick": 40, "thorough": 500}
MIN = {"records": 3000, "synthesised_ends": 50, "ties": 300, "record_types": 300, "timeless": 300}


def make(rng, i, tier):
    spec = fmt_proj.directory(rng, i, tier, scale=True)
    if not any(spec["pes"]):
        spec["pes"][0].append(["BEGIN_COMPUTATION", {"t": 0}])
    return {"spec": spec, "procs": rng.choice([None, None, 1, 2, 3, 8]), "cct": rng.random() < 0.3}


def compare(spec, df, obs):
    want = fmt_proj.expected(spec)
    n = sum(len(v) for v in want.values())
    check(len(df) == n, "number of events", len(df), "recorded", n)
    check(df.index.tolist() == list(range(n)), "row labels are not 0..n-1")
    ts = df["Timestamp (ns)"].tolist()
    check(all(a <= b for a, b in zip(ts, ts[1:])), "rows not ordered by time")
    cols = {c: df[c].tolist() for c in df.columns}
    check(sorted(set(df.columns) - {"Graph_Node"}) == ["Attributes", "Event Type", "Name", "Process", "Timestamp (ns)"], "columns", list(df.columns))
    got = {}
    for k in range(n):
        got.setdefault(number(cols["Process"][k]), []).append(k)
    check(set(got) == set(want), "processors", sorted(got), "recorded", sorted(want))
    for pe, rows in want.items():
        check(len(got[pe]) == len(rows), "events of processor %d" % pe, len(got[pe]), len(rows))
        # records without a time can be anywhere; an end of a log of nothing else has none either
        timed = [r for r in rows if r[0] is not None]
        mine = [k for k in got[pe] if cols["Name"][k] != "User Supplied"]
        rest = [k for k in got[pe] if cols["Name"][k] == "User Supplied"]
        if not timed:
            mine, rest = [], sorted(rest + mine, key=lambda k: cols["Event Type"][k] == "Leave")
        check(len(mine) == len(timed), "events with a time of processor %d" % pe, len(mine), len(timed))
        # the end of a bracketed note is recorded with its begin: order by time, then as recorded
        rows = sorted(timed, key=lambda r: r[0]) + [r for r in rows if r[0] is None]
        obs.count("timeless", len(rest))
        for k, r in zip(mine + rest, rows):
            g = [ts[k] if r[0] is not None else None, cols["Event Type"][k], cols["Name"][k]]
            check(g == r[:3], "event of processor %d" % pe, g, "recorded", r[:3])
            a = cols["Attributes"][k]
            a = None if model.isnull(a) else plain(a)
            check(a == r[3], "attributes of %s" % (r[:3],), a, "recorded", r[3])
    obs.count("ties", sum(a == b for a, b in zip(ts, ts[1:])))
    return want, cols


def run(case, obs):
    from pipit import Trace

    spec = case["spec"]
    path = os.path.join(obs.scratch, "t")
    fmt_proj.write(path, spec)
    try:
        t = obs.call("from_projections(%s)" % case["procs"], Trace.from_projections, path,
                     num_processes=case["procs"], **({"create_cct": True} if case["cct"] else {}))
    finally:
        fmt_proj.remove(path)
    df = t.events
    want, cols = compare(spec, df, obs)
    if case["cct"]:
        ev = [[cols["Timestamp (ns)"][k], cols["Event Type"][k], cols["Name"][k], number(cols["Process"][k]), 0]
              for k in range(len(df))]
        check_tree(t.cct, model.contexts(ev, False), dict(enumerate(df["Graph_Node"].tolist())), obs)
    else:
        check(t.cct is None, "a tree was made without being asked for")
    kinds = {k for recs in spec["pes"] for k, f in recs}
    obs.count("records", sum(len(r) for r in spec["pes"]))
    obs.count("record_types", len(kinds))
    obs.count("synthesised_ends", sum(bool(r) and r[-1][0] != "END_COMPUTATION" for r in spec["pes"]))
    obs.state(tuple(sorted(kinds)))
    obs.nontrivial = len(want) > 1 and len(kinds) > 4
