from vlib import gen, model
from vlib.core import check

ID = "C03"
LEVEL = "exploration"
TECH = "monitor of inclusive metric columns against leave-minus-enter of the recorded values"
RULE = ("random call histories with 0-2 extra numeric columns, some added after the trace was made, and random column arguments and call orders; "
        "non-trivial = two or more matched calls with a non-zero inclusive value")
ASSUME = ["rows ordered by time, row labels 0..n-1, as every reader produces",
          "values are exactly representable (integers below 2**53 or eighths)"]
N = {"quick": 5000, "thorough": 40000}
CAP = {"quick": 40, "thorough": 500}
MIN = {"inclusive_values": 1000, "extra_metric_values": 200, "late_columns": 100}
STYLES = ("nested", "nested", "open", "orphan", "overlap", "chaos")


def make(rng, i, tier):
    spec = gen.trace(rng, i, tier, STYLES, wide=0.01, large=True)
    if rng.random() < 0.6:
        gen.add_columns(rng, spec, nan=rng.random() < 0.3, dtypes=True)
    cols = ["Timestamp (ns)"] + list(spec["cols"])
    calls = []
    for _ in range(rng.randint(1, 3)):
        calls.append(None if rng.random() < 0.4 else rng.sample(cols, rng.randint(1, len(cols))))
    # columns that were added after the trace was made are computed when they are named
    late = [c for c in spec["cols"] if rng.random() < 0.5] if rng.random() < 0.25 else []
    if late:
        calls = [rng.sample(late, rng.randint(1, len(late))) if c is None else c for c in calls]
    return {"spec": spec, "calls": calls, "pre": rng.choice(["", "", "match", "caller"]), "late": late}


def build(case, obs):
    """the trace; columns that come late are added to its table by the user"""
    spec, late = case["spec"], case.get("late", [])
    if not late:
        return obs.call("Trace", gen.build, spec)
    t = obs.call("Trace", gen.build, {**spec, "cols": {c: v for c, v in spec["cols"].items() if c not in late}})
    df = gen.frame(spec)
    for c in late:
        t.events[c] = df[c]
    obs.count("late_columns", len(late))
    return t


def metric_name(col, kind):
    return ("time" if col == "Timestamp (ns)" else col) + kind


def values_of(spec, col):
    if col == "Timestamp (ns)":
        return [e[0] for e in spec["ev"]]
    return [float("nan") if v is None else v for v in spec["cols"][col]]


def run(case, obs):
    spec = case["spec"]
    ev, th = spec["ev"], spec["thread"]
    t = build(case, obs)
    if case["pre"] == "match":
        obs.call("_match_events", t._match_events)
    elif case["pre"] == "caller":
        obs.call("_match_caller_callee", t._match_caller_callee)
    done = []
    for cols in case["calls"]:
        if cols is None:
            obs.call("calc_inc_metrics()", t.calc_inc_metrics)
            done += ["Timestamp (ns)"] + list(spec["cols"])
        else:
            obs.call("calc_inc_metrics(%s)" % cols, t.calc_inc_metrics, cols)
            done += cols
    df = t.events
    m = model.match(ev, th)
    nz = 0
    check(len(df) == len(ev), "number of rows changed")
    for col in dict.fromkeys(done):
        name = metric_name(col, ".inc")
        check(name in df.columns, "no column " + name, list(df.columns))
        check(name in t.inc_metrics and t.inc_metrics.count(name) == 1, "inclusive metrics listed", t.inc_metrics)
        got = df[name].tolist()
        vals = values_of(spec, col)
        want = model.inclusive(vals, ev, m)
        for i, e in enumerate(ev):
            if i in want:
                if want[i] != want[i] and (vals[i] != vals[i] or vals[m[i]] != vals[m[i]]):
                    check(model.isnull(got[i]), "value computed from a missing value", i, name, got[i])
                    continue
                check(not model.isnull(got[i]) and model.close(got[i], want[i]),
                      "%s of row %d (%s)" % (name, i, e[2]), got[i], "expected", want[i])
                nz += want[i] != 0
                obs.count("inclusive_values")
                if col != "Timestamp (ns)":
                    obs.count("extra_metric_values")
                elif spec["style"] != "x":
                    check(got[i] >= 0, "negative inclusive time", i, got[i])
            else:
                check(model.isnull(got[i]), "%s on row %d, which is no matched call" % (name, i), got[i])
    obs.state(tuple(sorted(str(c) for c in case["calls"])), spec["style"], len(ev))
    obs.nontrivial = nz >= 2
