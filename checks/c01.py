from vlib import gen, model
from vlib.core import check

ID = "C01"
LEVEL = "exploration"
TECH = "online monitor of recorded match columns against a per-function open-call model"
RULE = ("random event histories over 1-4 processes, 0-3 threads each, with ties, recursion, unmatched, "
        "orphan and overlapping calls and hostile names; non-trivial = at least two matched pairs and "
        "either recursion, an unmatched event, or two locations")
ASSUME = ["rows ordered by time, row labels 0..n-1, as every reader produces"]
N = {"quick": 6000, "thorough": 60000}
CAP = {"quick": 40, "thorough": 500}
MIN = {"matched_pairs": 500, "unmatched_events": 50, "recursive_pairs": 20}
STYLES = ("nested", "nested", "open", "orphan", "overlap", "chaos")


def make(rng, i, tier):
    spec = gen.trace(rng, i, tier, STYLES, wide=0.02, large=True)
    return {"spec": spec, "via": rng.choice(["match", "match", "caller", "inc", "exc", "twice"])}


def trigger(t, via, obs):
    if via == "caller":
        obs.call("_match_caller_callee", t._match_caller_callee)
    elif via == "inc":
        obs.call("calc_inc_metrics", t.calc_inc_metrics)
    elif via == "exc":
        obs.call("calc_exc_metrics", t.calc_exc_metrics)
    else:
        obs.call("_match_events", t._match_events)
        if via == "twice":
            obs.call("_match_events", t._match_events)


def run(case, obs):
    spec = case["spec"]
    ev, th = spec["ev"], spec["thread"]
    t = obs.call("Trace", gen.build, spec)
    trigger(t, case["via"], obs)
    df = t.events
    check(len(df) == len(ev), "number of rows changed")
    got = df["_matching_event"].tolist()
    gts = df["_matching_timestamp"].tolist()
    want = model.match(ev, th)
    pairs = un = rec = 0
    for i, e in enumerate(ev):
        g = None if model.isnull(got[i]) else int(got[i])
        check(g == want[i], "row %d (%s %s) matched with" % (i, e[1], e[2]), g, "expected", want[i])
        if g is None:
            check(model.isnull(gts[i]), "unmatched row %d has a matching timestamp" % i, gts[i])
            un += e[1] in ("Enter", "Leave")
        else:
            check(gts[i] == ev[g][0], "matching timestamp of row %d" % i, gts[i], ev[g][0])
            f = ev[g]
            check(int(got[g]) == i, "matching is not symmetric", i, g)
            check({e[1], f[1]} == {"Enter", "Leave"} and e[2] == f[2]
                  and model.loc_of(e, th) == model.loc_of(f, th), "pair of different calls", i, g)
            pairs += e[1] == "Enter"
            rec += e[1] == "Enter" and any(
                ev[k][2] == e[2] and ev[k][1] == "Enter" and model.loc_of(ev[k], th) == model.loc_of(e, th)
                for k in range(i + 1, g))
    obs.count("matched_pairs", pairs)
    obs.count("unmatched_events", un)
    obs.count("recursive_pairs", rec)
    obs.state(tuple(want))
    obs.nontrivial = pairs >= 2 and (rec or un or len(model.by_location(ev, th)) > 1)
