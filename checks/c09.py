from vlib import gen, model
from vlib.core import check

ID = "C09"
LEVEL = "exploration"
TECH = "monitor of time profiles against interval intersection of a call-stack model; conservation per bin"
RULE = ("random nested call histories, 1-60 bins, absolute and normalized; "
        "non-trivial = two or more bins with work of two functions")
ASSUME = ["well nested calls; first and last event differ in time; every process has a call",
          "contributions below 0.01 ns may be reported as 0",
          "the idle column is only defined for one thread per process"]
N = {"quick": 1500, "thorough": 12000}
CAP = {"quick": 40, "thorough": 500}
MIN = {"bin_values": 2000, "bins": 500, "idle_checks": 200, "calls_spanning_bins": 100}


def make(rng, i, tier):
    while True:
        spec = gen.trace(rng, i, tier, ("nested", "nested", "nested", "open", "orphan"), instants=0, wide=0.01,
                         clocks=["ties", "small", "strict", "ns", "float", "epoch"])
        ts = [e[0] for e in spec["ev"]]
        procs = {e[3] for e in spec["ev"]}
        if max(ts) - min(ts) >= 1 and procs == {e[3] for e in spec["ev"] if e[1] == "Enter"}:
            break
    spec["cat"] = True
    return {"spec": spec, "bins": rng.choice([1, 2, 3, 4, 5, 7, 10, 13] + ([50, 60] if rng.random() < 0.1 else [])),
            "norm": rng.random() < 0.4, "spell": rng.random() < 0.5}


def run(case, obs):
    spec, nb, norm = case["spec"], case["bins"], case["norm"]
    ev, th = spec["ev"], spec["thread"]
    t = obs.call("Trace", gen.build, spec)
    kw = {}
    if nb != 50:
        kw["num_bins"] = nb
    if norm or case["spell"]:
        kw["normalized"] = norm
    r = obs.call("time_profile(%s)" % kw, t.time_profile, **kw)
    check(len(r) == nb, "number of bins", len(r), nb)
    lo, hi = min(e[0] for e in ev), max(e[0] for e in ev)
    width = (hi - lo) / nb
    m = model.match(ev, th)
    rel = [e[0] - lo for e in ev]
    parent, depth, children = model.nest(ev, th, m)
    procs = {e[3] for e in ev}
    total = width * len(procs)
    tol = 1e-6 * max(1.0, (hi - lo)) + 0.0101
    names = {e[2] for e in ev if e[1] == "Enter"}
    have = set(r.columns) - {"bin_start", "bin_end", "idle_time"}
    if not names & {"bin_start", "bin_end", "idle_time"}:
        check(names == have, "functions in the profile", sorted(names ^ have))
    cols = {c: r[c].tolist() for c in r.columns}
    busy_bins = 0

    def cut(i, a, b):
        return max(0.0, min(rel[m[i]], b) - max(rel[i], a))

    for b in range(nb):
        s, e_ = lo + b * width, lo + (b + 1) * width
        slack = 1e-6 * max(1, hi - lo) + 4e-16 * max(abs(lo), abs(hi))  # bounds of intervals are doubles
        check(abs(cols["bin_start"][b] - s) <= slack and abs(cols["bin_end"][b] - e_) <= slack,
              "edges of bin %d" % b, cols["bin_start"][b], cols["bin_end"][b], "expected", s, e_)
        s, e_ = b * width, (b + 1) * width
        want = dict.fromkeys(names, 0.0)
        for i in parent:
            o = cut(i, s, e_)
            if o <= 0:
                continue
            want[ev[i][2]] += o - sum(cut(c, s, e_) for c in children.get(i, []))
            obs.count("calls_spanning_bins", rel[i] < s or rel[m[i]] > e_)
        got_sum = 0.0
        for f in names:
            g = cols[f][b]
            g = 0.0 if model.isnull(g) else g
            w = want[f] / total if norm else want[f]
            lim = tol / total if norm else tol
            check(abs(g - w) <= lim * (1 + len(ev) * 1e-3), "time of %r in bin %d" % (f, b), g, "expected", w)
            got_sum += g
            obs.count("bin_values")
        busy_bins += sum(v > tol for v in want.values()) > 1
        if not th:
            full = 1.0 if norm else total
            lim = (tol / total if norm else tol) * (2 + len(names))
            check(abs(cols["idle_time"][b] + got_sum - full) <= lim,
                  "bin %d does not add up to the time of its processes" % b, cols["idle_time"][b], got_sum, full)
            check(cols["idle_time"][b] >= 0, "negative idle time", cols["idle_time"][b])
            obs.count("idle_checks")
        obs.count("bins")
    obs.state(nb, norm, len(names), len(procs), spec["style"])
    obs.nontrivial = nb > 1 and busy_bins > 0
