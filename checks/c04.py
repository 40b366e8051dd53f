from vlib import gen, model
from vlib.core import check
from checks.c03 import build, metric_name, values_of

ID = "C04"
LEVEL = "exploration"
TECH = "monitor of exclusive metric columns: inclusive minus direct callees, and conservation per location"
RULE = ("random call histories with 0-2 extra numeric columns, some added after the trace was made, and random column arguments and call orders; "
        "non-trivial = two or more calls whose exclusive and inclusive values differ")
ASSUME = ["rows ordered by time, row labels 0..n-1, as every reader produces",
          "values are exactly representable (integers below 2**53 or eighths)"]
N = {"quick": 4000, "thorough": 40000}
CAP = {"quick": 40, "thorough": 500}
MIN = {"exclusive_values": 1000, "calls_with_callees": 300, "conservation_sums": 200, "late_columns": 100}
STYLES = ("nested", "nested", "nested", "open", "orphan", "overlap", "chaos")


def make(rng, i, tier):
    spec = gen.trace(rng, i, tier, STYLES, wide=0.01, large=True)
    if rng.random() < 0.6:
        gen.add_columns(rng, spec, dtypes=True)
    cols = ["Timestamp (ns)"] + list(spec["cols"])
    calls = []
    for _ in range(rng.randint(1, 3)):
        calls.append([rng.choice(["exc", "exc", "inc"]),
                      None if rng.random() < 0.4 else rng.sample(cols, rng.randint(1, len(cols)))])
    calls.append(["exc", None if rng.random() < 0.4 else rng.sample(cols, rng.randint(1, len(cols)))])
    late = [c for c in spec["cols"] if rng.random() < 0.5] if rng.random() < 0.25 else []
    if late:
        calls = [[k, rng.sample(late, rng.randint(1, len(late))) if c is None else c] for k, c in calls]
    return {"spec": spec, "calls": calls, "late": late}


def run(case, obs):
    spec = case["spec"]
    ev, th = spec["ev"], spec["thread"]
    t = build(case, obs)
    done = []
    for kind, cols in case["calls"]:
        f = t.calc_exc_metrics if kind == "exc" else t.calc_inc_metrics
        if cols is None:
            obs.call("calc_%s_metrics()" % kind, f)
        else:
            obs.call("calc_%s_metrics(%s)" % (kind, cols), f, cols)
        if kind == "exc":
            done += (["Timestamp (ns)"] + list(spec["cols"])) if cols is None else cols
    df = t.events
    check(len(df) == len(ev), "number of rows changed")
    m = model.match(ev, th)
    parent, depth, children = model.nest(ev, th, m)
    differ = 0
    for col in dict.fromkeys(done):
        name = metric_name(col, ".exc")
        check(name in df.columns, "no column " + name, list(df.columns))
        check(t.exc_metrics.count(name) == 1, "exclusive metrics listed", t.exc_metrics)
        got = df[name].tolist()
        vals = values_of(spec, col)
        inc = model.inclusive(vals, ev, m)
        want = model.exclusive(inc, children)
        scale = max([abs(v) for v in inc.values()] or [1])
        for i, e in enumerate(ev):
            if i in want:
                check(not model.isnull(got[i]) and model.close(got[i], want[i], scale),
                      "%s of row %d (%s)" % (name, i, e[2]), got[i], "expected", want[i])
                differ += want[i] != inc[i]
                obs.count("exclusive_values")
                obs.count("calls_with_callees", i in children)
            else:
                check(model.isnull(got[i]), "%s on row %d, which is no matched call" % (name, i), got[i])
        # conservation: exclusive values of a location add up to those of its roots
        for loc, idx in model.by_location(ev, th).items():
            mine = [i for i in idx if i in want]
            total = sum(got[i] for i in mine)
            roots = sum(inc[i] for i in mine if parent[i] is None)
            check(model.close(total, roots, scale * max(1, len(mine))),
                  "exclusive values of location %s do not add up to its outermost calls" % (loc,), total, roots)
            obs.count("conservation_sums")
    obs.state(tuple(sorted(parent.items())), len(done))
    obs.nontrivial = differ >= 2
