from vlib import gen, model
from vlib.core import check
from checks.c03 import values_of

ID = "C06"
LEVEL = "exploration"
TECH = "monitor of profile tables against sums over a call-stack model"
RULE = ("random call histories with extra metrics; metric lists, grouping by function or by function and a second "
        "column, with and without per-process detail; non-trivial = two functions and a function on two processes")
ASSUME = ["rows ordered by time, row labels 0..n-1, as every reader produces",
          "groups with no call may be absent or empty in the result"]
N = {"quick": 3000, "thorough": 30000}
CAP = {"quick": 40, "thorough": 500}
MIN = {"profile_entries": 1000, "per_process_tables": 100, "averaged_over_processes": 100}
STYLES = ("nested", "nested", "open", "orphan", "overlap")


def make(rng, i, tier):
    spec = gen.trace(rng, i, tier, STYLES, wide=0.02, large=True, max_procs=5)
    gen.add_columns(rng, spec, k=rng.randint(0, 1), dtypes=True)
    if not any(e[1] == "Enter" for e in spec["ev"]):
        spec["ev"].append([spec["ev"][-1][0], "Enter", "main", spec["ev"][-1][3], spec["ev"][-1][4], None])
        for c in spec["cols"].values():
            c.append(c[-1])
    group = "Name"
    if rng.random() < 0.3:
        spec["group"] = [rng.choice(["A", "B", "C"]) for _ in spec["ev"]]
        group = rng.choice([["Name", "Phase"], ["Phase"], "Phase", ["Name"]])
    elif rng.random() < 0.2:
        group = rng.choice(["Process", ["Process"], ["Process", "Name"]] + ["Thread", ["Name", "Thread"]] * spec["thread"])
    metrics = ["time.exc", "time.inc"] + [c + k for c in spec["cols"] for k in (".inc", ".exc")]
    m = rng.choice(metrics + ["time.exc"]) if rng.random() < 0.5 else rng.sample(metrics, rng.randint(1, len(metrics)))
    return {"spec": spec, "metrics": m, "group": group, "per_process": rng.random() < 0.4, "spell": rng.random() < 0.5}


def per_call(spec, metric, cache={}):
    """{row of enter: value} of an inclusive or exclusive metric"""
    ev, th = spec["ev"], spec["thread"]
    col, kind = metric.rsplit(".", 1)
    col = "Timestamp (ns)" if col == "time" else col
    m = model.match(ev, th)
    inc = model.inclusive(values_of(spec, col), ev, m)
    if kind == "inc":
        return inc
    return model.exclusive(inc, model.nest(ev, th, m)[2])


def run(case, obs):
    spec, metrics, group = case["spec"], case["metrics"], case["group"]
    ev = spec["ev"]
    t = obs.call("Trace", gen.build, spec)
    if "group" in spec:
        t.events["Phase"] = spec["group"]
    mlist = metrics if isinstance(metrics, list) else [metrics]
    need = [x for x in mlist if not x.startswith("time.")]
    if need:
        obs.call("calc_exc_metrics", t.calc_exc_metrics)
    arg = list(metrics) if isinstance(metrics, list) else metrics
    garg = list(group) if isinstance(group, list) else group
    pp = case["per_process"]
    args = [arg, garg] if group != "Name" or case["spell"] else [arg] if metrics != "time.exc" else []
    kw = {"per_process": pp} if pp or case["spell"] else {}
    r = obs.call("flat_profile(%s,%s)" % (args, kw), t.flat_profile, *args, **kw)
    check(arg == metrics and garg == group, "arguments were changed")
    glist = group if isinstance(group, list) else [group]

    def key(i):
        return tuple(spec["group"][i] if g == "Phase" else ev[i][{"Name": 2, "Process": 3, "Thread": 4}[g]] for g in glist)

    enters = [i for i, e in enumerate(ev) if e[1] == "Enter"]
    check(list(r.columns) == mlist, "columns of the profile", list(r.columns), mlist)
    rows = {}
    for k, v in zip(r.index.tolist(), r.to_dict("records")):
        k = k if isinstance(k, tuple) else (k,)
        check(k not in rows, "duplicate profile entry", k)
        rows[k] = v
    for metric in mlist:
        val = per_call(spec, metric)
        scale = sum(abs(v) for v in val.values()) + 1
        sums = {}
        for i in enters:
            k = key(i) + (ev[i][3],)
            sums[k] = sums.get(k, 0) + val.get(i, 0)
        if pp:
            want = sums
            obs.count("per_process_tables")
        else:
            groups = {}
            for k, v in sums.items():
                groups.setdefault(k[:-1], []).append(v)
            want = {k: sum(v) / len(v) for k, v in groups.items()}
            obs.count("averaged_over_processes", sum(len(v) > 1 for v in groups.values()))
        for k, v in want.items():
            check(k in rows, "no profile entry for", k)
            check(model.close(rows[k][metric], v, scale), "%s of %s" % (metric, k), rows[k][metric], "expected", v)
            obs.count("profile_entries")
        for k in rows:
            check(k in want or model.isnull(rows[k][metric]) or rows[k][metric] == 0,
                  "profile entry of something never called", k, rows[k])
    obs.state(str(metrics), str(group), pp, len(rows))
    obs.nontrivial = len({ev[i][2] for i in enters}) > 1 and len({ev[i][3] for i in enters}) > 1
