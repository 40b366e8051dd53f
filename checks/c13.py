import json
import math
import os

from vlib import fmt_hpct, fmt_nsight, fmt_otf2, fmt_proj, gen, model
from vlib.core import check
from checks import c22
from checks.c16 import calls, plain

ID = "C13"
LEVEL = "exploration"
TECH = "offline checker: exported Chrome JSON decoded and compared event by event"
RULE = ("random traces with hostile names, attributes, threads, loops, and prior analyses, and random inputs of the other formats; exported to a string, a new file or over an earlier one; "
        "non-trivial = three or more records with two phases")
ASSUME = ["timestamps are integers or exact fractions below 2**53 ns", "times before the origin may be rounded towards it",
          "floats in attributes are judged to 13 significant digits or 15 decimals"]
N = {"quick": 5000, "thorough": 40000}
CAP = {"quick": 40, "thorough": 400}
MIN = {"records": 2000, "files": 100, "with_args": 200, "loops": 200, "loaded_from_files": 60}


def where(rng):
    return {"name": rng.choice(["out.json", "my trace.json", "trace", "t.v2.txt", "\u00e9.json"]), "exists": rng.random() < 0.3}


def from_file(rng, i, tier):
    """an input of one of the formats; what is loaded from it is exported"""
    fmt = rng.choice(["otf2", "projections", "nsight", "hpctoolkit"])
    i = rng.randint(20, 150)
    if fmt == "otf2":
        spec = fmt_otf2.archive(rng, i, tier, calls)
    elif fmt == "projections":
        spec = fmt_proj.directory(rng, i, tier)
        if not any(spec["pes"]):
            spec["pes"][0].append(["BEGIN_COMPUTATION", {"t": 0}])
    elif fmt == "nsight":
        spec = c22.make(rng, i, tier)
    else:
        spec = fmt_hpct.database(rng, i, tier)
    return {"fmt": fmt, "spec": spec, "file": rng.random() < 0.3, "pre": rng.choice([[], ["exc"], ["cct"]]),
            **where(rng)}


def load(case, obs):
    from pipit import Trace

    fmt, spec = case["fmt"], case["spec"]
    path = os.path.join(obs.scratch, "t.csv")
    mod = {"otf2": fmt_otf2, "projections": fmt_proj, "nsight": fmt_nsight, "hpctoolkit": fmt_hpct}[fmt]
    mod.write(path, spec)
    try:
        kw = {"num_processes": 1} if fmt in ("otf2", "projections") else {}
        return obs.call("from_" + fmt, getattr(Trace, "from_" + fmt), path, **kw)
    finally:
        (os.unlink if fmt == "nsight" else mod.remove)(path)


def logical(df):
    """the events of a loaded table, as a trace spec has them"""
    c = {k: df[k].tolist() for k in df.columns if k in ("Timestamp (ns)", "Event Type", "Name", "Process", "Thread", "Attributes")}
    n = len(df)
    th, at = c.get("Thread", [None] * n), c.get("Attributes", [None] * n)
    rows = []
    for k in range(n):
        t = None if model.isnull(th[k]) else th[k]
        a = at[k] if isinstance(at[k], (dict, list)) else None
        rows.append([c["Timestamp (ns)"][k], c["Event Type"][k], c["Name"][k], c["Process"][k], t,
                     json.loads(json.dumps(plain(a), default=list))])
    return rows, "Thread" in c, "Attributes" in c


def make(rng, i, tier):
    if i > 30 and rng.random() < 0.05:
        return from_file(rng, i, tier)
    spec = gen.trace(rng, i, tier, ("nested", "open", "orphan", "overlap"), wide=0.01, large=True, instants=rng.choice([0.0, 0.3]))
    if rng.random() < 0.6:
        spec["attrs"] = True
        for e in spec["ev"]:
            if e[1] != "Leave":
                e[5] = rng.choice([{}, {"region": "Region 3"}, {"a": 1, "b": [1, 2, {"c": "x"}]},
                                   {"u": "\u00e9\u51fd\"\\", "n": None}, {"f": 0.5, "t": True},
                                   {"f": rng.uniform(-1, 1) * 10 ** rng.randint(-12, 12), "l": [rng.random(), 1 / 3]},
                                   {"i": rng.choice([2**31, 2**53 + 1, 2**63 - 1, 2**64 - 1, -(2**63)]), "s": "/\t\n\u2028\U0001f600"}])
    if rng.random() < 0.12:
        # some are loops, as HPCToolkit traces have them
        loops = set(rng.sample(sorted({e[2] for e in spec["ev"]}), 1))
        for e in spec["ev"]:
            if e[2] in loops and e[1] in ("Enter", "Leave"):
                e[1] = "Loop " + e[1]
    return {"spec": spec, "file": rng.random() < 0.3, "pre": rng.choice([[], [], ["exc"], ["cct"], ["exc", "cct"]]), **where(rng)}


PH = {"Enter": "B", "Leave": "E", "Instant": "i", "Loop Enter": "B", "Loop Leave": "E"}


def same(a, b):
    """equal, and floats in all the digits that the JSON writer can give"""
    if isinstance(a, float) and isinstance(b, (int, float)) and not isinstance(b, bool):
        return math.isclose(a, b, rel_tol=1e-13, abs_tol=2e-15)
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    return a == b


def run(case, obs):
    spec = case["spec"]
    if "fmt" in case:
        t = load(case, obs)
        ev, th, attrs = logical(t.events)
        obs.count("loaded_from_files")
    else:
        ev, th, attrs = spec["ev"], spec["thread"], spec.get("attrs")
        t = obs.call("Trace", gen.build, spec)
    for p in case["pre"]:
        obs.call(p, t.calc_exc_metrics if p == "exc" else t.create_cct)
    cols = list(t.events.columns)
    if case["file"]:
        path = os.path.join(obs.scratch, case.get("name", "out.json"))
        if case.get("exists"):
            with open(path, "w") as f:
                f.write('[{"name": "an earlier export"}]' * 5000)
        obs.call("to_chrome(file)", t.to_chrome, path)
        check(os.path.isfile(path), "no file was written")
        with open(path, encoding="utf-8") as f:
            text = f.read()
        os.unlink(path)
        obs.count("files")
    else:
        text = obs.call("to_chrome()", t.to_chrome)
    recs = json.loads(text)
    if isinstance(recs, dict):  # the format also allows an object with the list in it
        recs = recs["traceEvents"]
    check(len(recs) == len(ev), "number of records", len(recs), len(ev))
    # the format gives no order between locations; within a location order is meaning
    def split(rows, key):
        d = {}
        for r in rows:
            d.setdefault(key(r), []).append(r)
        return d

    got = split(recs, lambda r: (r["pid"], r.get("tid")) if th else (r["pid"],))
    want = split(ev, lambda e: model.loc_of(e, th))
    check({k for k in got} == {k for k in want}, "locations", sorted(map(str, got)), sorted(map(str, want)))
    for k in want:
        check(len(got[k]) == len(want[k]), "records of location %s" % (k,), len(got[k]), len(want[k]))
        for r, e in zip(got[k], want[k]):
            check(r["name"] == e[2], "name", r, e)
            check(r["ph"] == PH[e[1]], "phase", r, e)
            check(r["ts"] == int(r["ts"]), "timestamp in microseconds", r, e)
            # rounded down (before the origin also towards it); beyond 2**50 a double can't tell
            t_ns, tell = e[0], isinstance(e[0], int) or abs(e[0]) < 2**50
            exact = t_ns // 1000 if isinstance(t_ns, int) else math.floor(t_ns / 1000)
            least = exact if tell else t_ns / 1000 - 1
            most = exact if tell and t_ns >= 0 else exact + 1
            check(least <= r["ts"] <= most, "timestamp in microseconds", r, e)
            if attrs:
                check(same(e[5], r.get("args")), "arguments", r, e)
                obs.count("with_args", bool(e[5]))
            obs.count("loops", e[1][0] == "L" and e[1] != "Leave")
            obs.count("records")
        check(all(a["ts"] <= b["ts"] for a, b in zip(got[k], got[k][1:])), "time goes backwards", k)
    check(list(t.events.columns) == cols, "export changed the trace", cols, list(t.events.columns))
    obs.state(tuple((e[1], e[2]) for e in ev[:30]))
    obs.nontrivial = len(recs) > 2 and len({r["ph"] for r in recs}) > 1
