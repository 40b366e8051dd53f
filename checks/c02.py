from vlib import gen, model
from vlib.core import check

ID = "C02"
LEVEL = "exploration"
TECH = "monitor of caller/depth/children columns against a call-stack model"
RULE = ("as C01; non-trivial = call depth of at least 2 and two or more children relations")
ASSUME = ["rows ordered by time, row labels 0..n-1, as every reader produces"]
N = {"quick": 5000, "thorough": 60000}
CAP = {"quick": 40, "thorough": 500}
MIN = {"parent_links": 500, "roots": 200, "skipped_unmatched": 50}
STYLES = ("nested", "nested", "open", "orphan", "overlap", "chaos")


def make(rng, i, tier):
    # now and then deeper than 16 bits count
    spec = gen.trace(rng, i, tier, STYLES, wide=0.01, large=True, depth=33000 if i == 40 or i % 4000 == 3999 else None,
                     max_procs=1 if i == 40 else 4)
    return {"spec": spec, "via": rng.choice(["caller", "caller", "match+caller", "exc", "twice"])}


def val(x):
    return None if model.isnull(x) else int(x)


def run(case, obs):
    spec = case["spec"]
    ev, th = spec["ev"], spec["thread"]
    t = obs.call("Trace", gen.build, spec)
    if case["via"] == "match+caller":
        obs.call("_match_events", t._match_events)
    if case["via"] == "exc":
        obs.call("calc_exc_metrics", t.calc_exc_metrics)
    else:
        obs.call("_match_caller_callee", t._match_caller_callee)
        if case["via"] == "twice":
            obs.call("_match_caller_callee", t._match_caller_callee)
    df = t.events
    check(len(df) == len(ev), "number of rows changed")
    gp, gd, gc = df["_parent"].tolist(), df["_depth"].tolist(), df["_children"].tolist()
    m = model.match(ev, th)
    parent, depth, children = model.nest(ev, th, m)
    links = roots = skipped = maxd = 0
    for i, e in enumerate(ev):
        kids = gc[i]
        kids = [] if kids is None or (isinstance(kids, float)) else [int(c) for c in kids]
        if i in parent:
            check(val(gp[i]) == parent[i], "caller of row %d (%s)" % (i, e[2]), val(gp[i]), "expected", parent[i])
            check(val(gd[i]) == depth[i], "depth of row %d (%s)" % (i, e[2]), val(gd[i]), "expected", depth[i])
            check(kids == children.get(i, []), "callees of row %d (%s)" % (i, e[2]), kids, "expected", children.get(i, []))
            links += parent[i] is not None
            roots += parent[i] is None
            maxd = max(maxd, depth[i])
        else:
            skipped += e[1] == "Enter"
            check(val(gp[i]) is None and val(gd[i]) is None and not kids,
                  "row %d (%s %s) is not a matched call but has relations" % (i, e[1], e[2]),
                  gp[i], gd[i], kids)
    obs.count("parent_links", links)
    obs.count("roots", roots)
    obs.count("skipped_unmatched", skipped)
    obs.state(tuple(sorted(parent.items())))
    obs.nontrivial = links >= 2 and maxd >= 1
