from vlib import gen, model
from vlib.core import check
from checks.c06 import per_call

ID = "C07"
LEVEL = "exploration"
TECH = "monitor of load-imbalance tables against a per-rank model"
RULE = ("random call histories on 1-6 processes; metric and number of ranks to show vary beyond the ranks present; "
        "non-trivial = a function on two or more processes with unequal values")
ASSUME = ["rows ordered by time, row labels 0..n-1, as every reader produces",
          "the imbalance of a function whose mean is zero is unspecified",
          "mean and maximum are over the processes on which the function occurs"]
N = {"quick": 3000, "thorough": 20000}
CAP = {"quick": 40, "thorough": 400}
MIN = {"imbalances": 500, "rank_lists": 500, "multi_rank_functions": 200}


def make(rng, i, tier):
    spec = gen.trace(rng, i, tier, ("nested", "nested", "open", "orphan"), wide=0.05, large=True, max_procs=6)
    gen.add_columns(rng, spec, k=rng.randint(0, 1), dtypes=True)
    num = rng.choice([1, 1, 2, 3, 5, 20, 150, 1000])
    if len({e[3] for e in spec["ev"]}) > 100 and (rng.random() < 0.6 or i < 50):
        # one function on all of many processes
        num = rng.choice([2, 150, 1000, 1000])
        for e in spec["ev"]:
            e[2] = "main" if e[1] in ("Enter", "Leave") else e[2]
    metrics = ["time.exc", "time.exc", "time.inc"] + [c + k for c in spec["cols"] for k in (".inc", ".exc")]
    return {"spec": spec, "metric": rng.choice(metrics), "num": num,
            "default": rng.random() < 0.2}


def run(case, obs):
    spec, metric, num = case["spec"], case["metric"], case["num"]
    ev = spec["ev"]
    if not any(e[1] == "Enter" for e in ev):
        return
    t = obs.call("Trace", gen.build, spec)
    if not metric.startswith("time."):
        obs.call("calc_exc_metrics", t.calc_exc_metrics)
    if case["default"]:
        metric, num = "time.exc", 1
        r = obs.call("load_imbalance()", t.load_imbalance)
    else:
        r = obs.call("load_imbalance(%s,%d)" % (metric, num), t.load_imbalance, metric, num)
    val = per_call(spec, metric)
    scale = sum(abs(v) for v in val.values()) + 1
    sums = {}
    for i, e in enumerate(ev):
        if e[1] == "Enter":
            d = sums.setdefault(e[2], {})
            d[e[3]] = d.get(e[3], 0) + val.get(i, 0)
    names = r.index.tolist()
    check(sorted(names) == sorted(sums), "functions in the table", names, sorted(sums))
    means = r[metric + ".mean"].tolist()
    imbs = r[metric + ".imbalance"].tolist()
    tops = r["Top processes"].tolist()
    multi = 0
    for name, mean, imb, top in zip(names, means, imbs, tops):
        v = sums[name]
        wm = sum(v.values()) / len(v)
        check(model.close(mean, wm, scale), "mean of %r" % name, mean, "expected", wm)
        if abs(wm) > 1e-9 * scale:
            wi = max(v.values()) / wm
            check(model.close(imb, wi, 0, rel=1e-6), "imbalance of %r" % name, imb, "expected", wi)
            obs.count("imbalances")
            if len(v) > 1 and min(v.values()) < max(v.values()):
                multi += 1
        want_n = min(num, len(v))
        top = [int(p) for p in top]
        check(len(top) == want_n and len(set(top)) == len(top), "number of ranks shown for %r" % name, top, want_n)
        check(all(p in v for p in top), "rank shown for %r never called it" % name, top)
        rest = [v[p] for p in v if p not in top]
        shown = [v[p] for p in top]
        tol = 1e-9 * scale
        check(all(a >= b - tol for a, b in zip(shown, shown[1:])), "ranks of %r not by decreasing load" % name, top, shown)
        check(not rest or min(shown) >= max(rest) - tol, "a more loaded rank of %r is not shown" % name, top, v)
        obs.count("rank_lists")
    check(all(a >= b - 1e-9 * scale for a, b in zip(means, means[1:])), "rows not by decreasing mean", means)
    obs.count("multi_rank_functions", multi)
    obs.state(len(sums), num, metric, spec["style"])
    obs.nontrivial = multi > 0
