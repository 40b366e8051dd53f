import copy
import json
import random

from vlib import gen
from vlib.core import check
from checks import c14

ID = "C34"
LEVEL = "exploration"
TECH = "metamorphic monitor: the same trace held in tables of different column types, compared operation by operation"
RULE = ("random traces and sequences of 2-6 analyses and exports, each run on the table as the readers make it and on 4-6 tables of the "
        "same events: labels as text, strings or categories (unused, ordered, in any order), numbers of other widths or as "
        "categories, times as integers or floats, columns in another order, further columns, attributes in another order and with "
        "further entries; non-trivial = at least two operations compared")
ASSUME = ["of processes with equal shares, load imbalance can name any first",
          "where a table has no entry for a function or group, zero and missing are taken as equal",
          "numeric process and thread columns may get metrics of their own when no columns are named",
          "nullable times are not generated, as no reader produces them"]
N = {"quick": 260, "thorough": 4000}
CAP = {"quick": 40, "thorough": 500}
MIN = {"operations": 3000, "labels": 300, "numbers": 300, "times": 100, "layout": 200}

LABELS = ["object", "string", "category", "appear", "unused", "ordered", "reversed"]
NUMBERS = ["int64", "int32", "uint32", "int16", "uint8", "Int64", "object", "category", "appear", "unused", "ordered", "reversed"]
TIMES = ["int64", "int32", "uint64", "float64"]


def choose(rng, has_thread, metric_cols):
    """one way of holding a table"""
    v = {}
    if rng.random() < 0.6:
        v["Name"] = rng.choice(LABELS)
    if rng.random() < 0.4:
        v["Event Type"] = rng.choice(LABELS)
    if rng.random() < 0.6:
        v["Process"] = rng.choice(NUMBERS)
    if has_thread and rng.random() < 0.6:
        v["Thread"] = rng.choice(NUMBERS)
    if rng.random() < 0.3:
        v["Timestamp (ns)"] = rng.choice(TIMES)
    for c in metric_cols:
        if rng.random() < 0.3:
            v[c] = rng.choice(["float64", "int64", "int32", "int16"])
    layout = [x for x in ("permuted", "extra", "index", "attrs", "blocks") if rng.random() < 0.3]
    return {"types": v, "layout": layout, "seed": rng.randrange(10**9)}


def make(rng, i, tier):
    case = c14.make(rng, i, tier)
    spec = case["specs"][0]
    if rng.random() < 0.5:
        # as readers that do not group columns produce it
        spec["cat"] = False
    ops = [[op, a if op != "multirun" else {"which": [0]}] for op, w, a, _ in case["ops"] if w == 0][:6]
    cols = ["Timestamp (ns)"] + list(spec["cols"])
    for op, a in ops:
        if a.get("cols"):
            a["cols"] = [c for c in a["cols"] if c in cols] or cols
    while len(ops) < 2:
        ops.append([rng.choice(["caller", "cct", "chrome", "exc", "time_profile", "multirun", "profile"]), {}])
        op, a = ops[-1]
        a.update({"exc": {"cols": None}, "time_profile": {"bins": rng.randint(1, 4), "norm": False}, "multirun": {"which": [0]},
                  "profile": {"metrics": "time.exc", "pp": rng.random() < 0.5}}.get(op, {}))
    return {"spec": spec, "ops": ops, "variants": [choose(rng, spec["thread"], list(spec["cols"])) for _ in range(rng.randint(4, 6))]}


def hold(values, kind, rng, more):
    """the values in a column of another type; None where the type can't hold them"""
    import pandas as pd

    distinct = list(dict.fromkeys(values))
    if kind in ("appear", "unused", "ordered", "reversed"):
        cats = distinct
        if kind == "unused":
            cats = cats + [x for x in more if x not in cats]
        if kind == "reversed":
            cats = sorted(cats, reverse=True)
        elif kind != "appear":
            rng.shuffle(cats)
        return pd.Categorical(values, categories=cats, ordered=kind == "ordered")
    if kind in ("category", "object", "string"):
        return pd.Series(values, dtype="object").astype(kind).array
    try:
        col = pd.array(values, dtype=kind) if kind == "Int64" else pd.Series(values).astype(kind).to_numpy()
    except (OverflowError, ValueError, TypeError):
        return None
    return col if [x for x in col.tolist()] == values else None


def shaken(attrs, rng):
    """attributes in another order, with entries no analysis asks for"""
    if not isinstance(attrs, dict):
        return attrs
    d = dict(attrs, **{"comm": "MPI Comm 1", "source": 3, "length": 77})
    keys = list(d)
    rng.shuffle(keys)
    return {k: d[k] for k in keys}


def frame(spec, variant, obs):
    import numpy as np
    import pandas as pd

    rng = random.Random(variant["seed"])
    df = gen.frame(copy.deepcopy(spec))
    cols = {c: df[c].array for c in df.columns}
    for c, kind in variant["types"].items():
        values = df[c].tolist()
        new = hold(values, kind, rng, ["zz", "Idle", "main", "MpiSend"] if c == "Name" else ["Loop Enter", "Loop Leave", "Instant"] if c == "Event Type"
                   else [97, 98, 99])
        if new is not None:
            cols[c] = new
            obs.count("labels" if c in ("Name", "Event Type") else "times" if c.startswith("Time") else "numbers")
            obs.state("type", c if c in ("Name", "Event Type", "Process", "Thread", "Timestamp (ns)") else "metric", kind)
    if "attrs" in variant["layout"] and "Attributes" in cols:
        obs.count("attributes")
        cols["Attributes"] = pd.Series([shaken(a, rng) for a in df["Attributes"]], dtype=object).array
    if "extra" in variant["layout"]:
        n = len(df)
        cols["note"] = pd.array([rng.choice(["x", "Enter", "main", None]) for _ in range(n)], dtype=object)
        cols["flag"] = pd.Categorical([rng.choice("ab") for _ in range(n)])
        cols["Core"] = pd.array([str(rng.randrange(3)) for _ in range(n)], dtype=object)
    names = list(cols)
    if "permuted" in variant["layout"]:
        rng.shuffle(names)
    out = pd.DataFrame({c: cols[c] for c in names})
    if "index" in variant["layout"]:
        # labels written out rather than as a range
        out.index = pd.Index(np.arange(len(out)), dtype=rng.choice(["int64", "int32"]))
    if "blocks" in variant["layout"]:
        # put together from parts, as the readers do with the parts their workers read
        k = rng.randint(0, len(out))
        parts = [p for p in (out.iloc[:k], out.iloc[k:]) if len(p)]
        out = pd.concat(parts)
    obs.count("layout", bool(variant["layout"]))
    return out


def settled(op, a, r, shares):
    """canonical results without groups that have no calls, zero for what is missing"""
    r = json.loads(json.dumps(r))
    if op in ("inc", "exc") and a["cols"] is None:
        return {k: v for k, v in r.items() if k.split(".")[0] not in ("Process", "Thread", "Core")}
    if op == "chrome":
        def key(e):
            return json.dumps({k: str(v) if k in ("pid", "tid") else v for k, v in e.items() if k != "args"}, sort_keys=True)
        data = json.loads(r)
        return [key(e) for e in (data["traceEvents"] if isinstance(data, dict) else data)]
    if op == "imbalance":
        # of processes with equal shares, any can be named first
        for name, row in r:
            row["shares"] = [shares.get((name, int(p)), "none") for p in row["Top processes"]]
            row["Top processes"] = len(set(row["Top processes"]))
    if op in ("profile", "multirun", "time_profile"):
        out = []
        for k, row in r:
            row = {c: v if v is not None else 0.0 if op == "time_profile" else None for c, v in row.items()}
            if op != "time_profile":
                row = {c: v for c, v in row.items() if v is not None}
            if row or op == "time_profile":
                out.append([k, row])
        return out
    return r


def run(case, obs):
    from pipit import Trace

    spec = case["spec"]

    def arg(kind, value):
        return list(value) if isinstance(value, list) else value

    def holder(df):
        ts = c14.Traces([Trace(None, df)])
        ts.cols = [["Timestamp (ns)"] + list(spec["cols"])]
        return ts

    ref = obs.call("Trace", holder, gen.frame(copy.deepcopy(spec)))
    others = [obs.call("Trace", holder, frame(spec, v, obs)) for v in case["variants"]]
    for op, a in case["ops"]:
        label = op + json.dumps(a)
        err, want = obs.raises(label, c14.execute, ref, op, 0, a, arg)
        if err is not None:
            raise err
        shares = {}
        if op == "imbalance":
            table = ref[0].flat_profile(metrics=a["metric"], per_process=True)[a["metric"]]
            shares = {(str(name), int(p)): float(x) for (name, p), x in table.items()}
        want = settled(op, a, want[1], shares)
        for ts, v in zip(others, case["variants"]):
            held = "held as %s %s" % (json.dumps(v["types"]), v["layout"])
            err, got = obs.raises(label, c14.execute, ts, op, 0, a, arg)
            check(err is None, "%s fails when the table is %s" % (label, held), repr(err))
            got = settled(op, a, got[1], shares)
            check(c14.same(got, want), "%s differs when the table is %s" % (label, held), got, want)
            obs.count("operations")
            obs.state(op, *sorted(v["types"].items()))
    obs.nontrivial = len(case["ops"]) > 1
