from vlib import gen, model
from vlib.core import check
from checks.c06 import per_call

ID = "C12"
LEVEL = "exploration"
TECH = "monitor of multi-run tables against per-run profile models"
RULE = ("1-5 random traces per case with different process counts and partly different functions; time or an extra "
        "metric; grouping by function or another column; non-trivial = two runs sharing a function")
ASSUME = ["rows ordered by time, row labels 0..n-1, as every reader produces",
          "a group that does not occur in a run may be empty or 0 for it"]
N = {"quick": 1300, "thorough": 9000}
CAP = {"quick": 40, "thorough": 400}
MIN = {"entries": 1000, "runs": 300}


def make(rng, i, tier):
    k = rng.choice([1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 6, 9])
    specs = []
    col = rng.choice(["Timestamp (ns)", "Timestamp (ns)", "m1"])
    phase = rng.random() < 0.25
    for _ in range(k):
        while True:
            s = gen.trace(rng, i, tier, ("nested", "nested", "open", "orphan"), max_procs=5, wide=0.01)
            if any(e[1] == "Enter" for e in s["ev"]):
                break
        if col == "m1":
            s["cols"]["m1"] = [rng.randint(-500, 500) for _ in s["ev"]]
        if phase:
            s["group"] = [rng.choice("ABC") for _ in s["ev"]]
        specs.append(s)
    # (one trace can be given more than once)
    again = rng.randrange(k) if rng.random() < 0.15 else None
    return {"specs": specs + ([specs[again]] if again is not None else []), "metric": col, "phase": phase, "again": again}


def run(case, obs):
    from pipit import Trace

    specs, col = case["specs"], case["metric"]
    traces = []
    for s in specs:
        t = obs.call("Trace", gen.build, s)
        if case["phase"]:
            t.events["Phase"] = s["group"]
        traces.append(t)
    if case.get("again") is not None:
        traces[-1] = traces[case["again"]]
    lst = list(traces)
    kw = {}
    if col != "Timestamp (ns)":
        kw["metric_column"] = col
    if case["phase"]:
        kw["groupby_column"] = "Phase"
    r = obs.call("multirun_analysis(%d runs,%s)" % (len(lst), kw), Trace.multirun_analysis, lst, **kw)
    check(len(lst) == len(traces) and all(a is b for a, b in zip(lst, traces)), "the list of traces was changed")
    check(len(r) == len(specs), "one row per run", len(r), len(specs))
    check([int(x) for x in r.index.tolist()] == [gen.proc_count(s) for s in specs], "rows labelled with process counts",
          r.index.tolist(), [gen.proc_count(s) for s in specs])
    check(r.index.name == "Number of Processes", "name of the rows' labels", r.index.name)
    metric = ("time" if col == "Timestamp (ns)" else col) + ".exc"
    wants, scale = [], 1.0
    for s in specs:
        val = per_call(s, metric)
        scale = max(scale, sum(abs(v) for v in val.values()))
        sums = {}
        for i, e in enumerate(s["ev"]):
            if e[1] == "Enter":
                g = s["group"][i] if case["phase"] else e[2]
                d = sums.setdefault(g, {})
                d[e[3]] = d.get(e[3], 0) + val.get(i, 0)
        wants.append({g: sum(d.values()) / len(d) for g, d in sums.items()})
    groups = set().union(*wants)
    cols = r.columns.tolist()
    check(len(set(cols)) == len(cols), "a group appears twice", cols)
    check(groups <= set(cols), "groups missing", sorted(groups - set(cols)))
    mat = {c: r[c].tolist() for c in cols}
    for k, w in enumerate(wants):
        for c in cols:
            g = mat[c][k]
            if c in w:
                check(model.close(g, w[c], scale), "run %d, group %r" % (k, c), g, "expected", w[c])
                obs.count("entries")
            else:
                check(model.isnull(g), "run %d never called %r" % (k, c), g)
    tot = [sum(v for v in mat[c] if not model.isnull(v)) for c in cols]
    check(all(a >= b - 1e-9 * scale * len(specs) for a, b in zip(tot, tot[1:])), "groups not by decreasing total", cols, tot)
    obs.count("runs", len(specs))
    obs.state(len(specs), len(groups), col)
    obs.nontrivial = len(specs) > 1 and any(sum(g in w for w in wants) > 1 for g in groups)
