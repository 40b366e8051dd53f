import os

from vlib import fmt_otf2, gen, model
from vlib.core import check
from checks.c16 import compare

ID = "C17"
LEVEL = "exploration"
TECH = "round-trip monitor: metric samples given to the OTF2 writer against the loaded columns"
RULE = ("random OTF2 archives with 1-3 metric classes sharing members, one- and two-digit and sparse member ids, samples "
        "before some events, of several classes at once, on their own between events and after the last, interleaved over locations, of metric instances, with counters up to 2^62; non-trivial = "
        "two metrics and an event without a value")
ASSUME = ["the OTF2 library writes and reads archives correctly",
          "a sample belongs to the next event of its location if that has the same time stamp, as OTF2 couples them",
          "metric names are unique; counters of 2^53 and more occur only where every event has a value (a column with missing "
          "values is a column of doubles)"]
N = {"quick": 1000, "thorough": 8000}
CAP = {"quick": 40, "thorough": 500}
MIN = {"values": 2000, "without_value": 1000, "uncoupled_samples": 500, "events": 2000}


def calls(rng, names, n, start):
    c = gen.Clock(rng, rng.choice(["ties", "strict", "small"]))
    c.t = start
    return gen.location(rng, names, n, c, rng.choice(["nested", "open"]), 0.2)


def make(rng, i, tier):
    spec = fmt_otf2.archive(rng, i, tier, calls, metrics=True)
    return {"spec": spec, "procs": rng.choice([None, None, 1, 2, 3])}


def run(case, obs):
    from pipit import Trace

    spec = case["spec"]
    path = os.path.join(obs.scratch, "t")
    fmt_otf2.write(path, spec)
    try:
        t = obs.call("from_otf2(%s)" % case["procs"], Trace.from_otf2, path, num_processes=case["procs"])
    finally:
        fmt_otf2.remove(path)
    names = []
    for c in spec["metrics"]:
        names += [m[0] for m in c if m[0] not in names]
    base = {"Timestamp (ns)", "Event Type", "Name", "Thread", "Process", "Attributes"}
    present = [c for c in t.events.columns if c not in base]
    check(set(present) <= set(names), "unknown columns", present, names)
    seen = {"values": 0, "without": 0}

    def metrics(k, r, cols):
        for m in names:
            g = cols[m][k] if m in cols else None
            if m in r[4]:
                # a column in which every event has a value holds integers as they are
                same = not model.isnull(g) and (g == r[4][m] if spec.get("full") else float(g) == float(r[4][m]))
                check(same, "value of %s" % m, g, "recorded", r[4][m], r[:3])
                seen["values"] += 1
            else:
                check(model.isnull(g), "%s has a value at an event without sample" % m, g, r[:3])
                seen["without"] += 1

    want, _ = compare(spec, t.events, obs, metrics)
    used = {m for v in want.values() for r in v for m in r[4]}
    check(set(present) == used, "metric columns", present, "sampled", sorted(used))
    obs.count("values", seen["values"])
    obs.count("without_value", seen["without"])
    samples = sum(e[1] == "Metric" for l in spec["locs"] for e in l["ev"])
    obs.count("uncoupled_samples", sum(a[1] == "Metric" and (b is None or b[0] != a[0]) for l in spec["locs"] for a, b in zip(l["ev"], l["ev"][1:] + [None])))
    obs.state(len(names), len(used), samples)
    obs.nontrivial = len(used) > 1 and seen["without"] > 0
