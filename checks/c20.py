import os

from vlib import fmt_hpct, model
from vlib.core import check, number

ID = "C20"
LEVEL = "exploration"
TECH = "replay monitor: call stacks rebuilt from loaded events against the sampled contexts"
RULE = ("random HPCToolkit databases: trees of 1-60 contexts of all lexical types (some 700 deep), 1-9 threads with repeated, "
        "idle, simultaneous and no samples, random section layout, strides and identifiers; non-trivial = two samples that "
        "share part of their path")
ASSUME = ["databases follow format version 4.0 (FORMATS.md)", "a thread index is recorded for all threads or for none",
          "samples of a thread are in time order"]
N = {"quick": 3500, "thorough": 16000}
CAP = {"quick": 40, "thorough": 500}
MIN = {"samples": 3000, "events": 5000, "kept_open": 500, "idle": 100, "loops": 300}


def make(rng, i, tier):
    deep = i % 97 == 50
    return {"spec": fmt_hpct.database(rng, i, tier, deep=deep, scale=True)}


def val(x):
    return None if model.isnull(x) else x


def run(case, obs):
    from pipit import Trace

    spec = case["spec"]
    path = os.path.join(obs.scratch, "t")
    fmt_hpct.write(path, spec)
    try:
        t = obs.call("from_hpctoolkit", Trace.from_hpctoolkit, path)
    finally:
        fmt_hpct.remove(path)
    df = t.events
    nodes, of, by = fmt_hpct.tree(spec)
    info = fmt_hpct.places(spec)
    want = fmt_hpct.expected(spec)
    n = sum(len(w) for w in want)
    check(len(df) == n, "number of events", len(df), "expected", n)
    check(df.index.tolist() == list(range(n)), "row labels are not 0..n-1")
    cols = {c: df[c].tolist() for c in df.columns}
    ts = cols["Timestamp (ns)"]
    check(all(a <= b for a, b in zip(ts, ts[1:])), "rows not ordered by time")
    none = [None] * n
    threaded = any("THREAD" in th["ids"] for th in spec["threads"])
    got = {}
    for k in range(n):
        key = (number(cols["Process"][k]), val(cols.get("Thread", none)[k]) if threaded else None)
        got.setdefault(key, []).append(k)
    names = {}
    seen = set()
    for th, rows in zip(spec["threads"], want):
        key = (th["ids"].get("RANK", 0), th["ids"].get("THREAD"))
        seen.add(key)
        ks = got.get(key, [])
        check(len(ks) == len(rows), "events of rank %s thread %s" % key, len(ks), "expected", len(rows))
        stack, at = [], {}
        for k, (time, typ, c) in zip(ks, rows):
            name, file, line, mod = info[c]
            g = [cols["Timestamp (ns)"][k], cols["Event Type"][k], cols["Name"][k], int(cols["Calling Context ID"][k])]
            check(g == [time, typ, name, c], "event of rank %s thread %s" % key, g, "sampled", [time, typ, name, c])
            # the replayed stack
            if g[1].endswith("Enter"):
                stack.append(c)
            else:
                check(stack and stack[-1] == c, "return without its call", g, stack[-3:])
                stack.pop()
            at[g[0]] = list(stack)
            check(val(cols.get("Source File Name", none)[k]) == file, "source file", cols.get("Source File Name", none)[k], file)
            gl = val(cols.get("Source File Line Number", none)[k])
            check(str(gl) == str(line), "source line", gl, line, c)
            for col, kind in (("Host", "NODE"), ("Core", "CORE")):
                gv = val(cols.get(col, none)[k])
                check(gv == th["ids"].get(kind), col, gv, th["ids"].get(kind))
            node = cols["Node"][k]
            check(names.setdefault(c, node) is node, "two nodes for one context", c)
            check(len(fmt_hpct.path_of(nodes, c)) == node.get_level() + 1, "level of the node", c, node.get_level())
            obs.count("loops", typ.startswith("Loop"))
        check(not stack, "calls left open after the last time stamp", stack)
        # at every sample time the open calls are the sampled path
        last = {}
        for s, c in th["samples"]:
            last[s - spec["t0"]] = [] if c == 0 else fmt_hpct.path_of(nodes, of[c])
        cur = []
        for time in sorted(set(last) | set(at)):
            cur = at.get(time, cur)
            if time in last and time != spec["t1"] - spec["t0"]:
                check(cur == last[time], "open calls at a sample", time, cur, "sampled", last[time])
                obs.count("samples_replayed")
        prev = []
        for s, c in th["samples"]:
            p = [] if c == 0 else fmt_hpct.path_of(nodes, of[c])
            kept = sum(a == b for a, b in zip(p, prev))
            obs.count("kept_open", kept > 0)
            obs.count("idle", c == 0)
            if kept and p != prev:
                obs.nontrivial = True
            prev = p
        obs.count("samples", len(th["samples"]))
        obs.state(tuple(r[1] for r in rows)[:60])
    check(set(got) <= seen, "events of unknown threads", sorted(set(got) - seen, key=str))
    obs.count("events", n)
