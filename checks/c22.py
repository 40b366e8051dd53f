import os

from vlib import fmt_nsight, gen, model
from vlib.core import check, number
from checks.c05 import check_tree

ID = "C22"
LEVEL = "exploration"
TECH = "round-trip and nesting monitor: ranges written to reports against replayed calls and returns"
RULE = ("random Nsight range reports: 1-4 processes with 1-3 threads, nested, adjacent, identical, empty and overlapping "
        "ranges with many equal times, shuffled rows and columns, further columns with empty cells, times since the epoch, thread ids shared between processes or equal to them; "
        "non-trivial = a tie within a thread and two ranges nested")
ASSUME = ["reports are CSV encoded in UTF-8, with the columns of nvtx_pushpop_trace"]
N = {"quick": 3500, "thorough": 22000}
CAP = {"quick": 40, "thorough": 500}
MIN = {"ranges": 5000, "nested": 1500, "empty": 500, "ties": 2000, "threaded": 200, "multi_process": 200, "more_fields": 1000}
NAMES = gen.PLAIN + ["a->b", "f(int, char**)", "été", "std::vector<int>::operator[]", "x\"y", "back\\slash", "very_" * 30]


def make(rng, i, tier):
    names = rng.sample(NAMES, rng.choice([1, 2, 4, 7])) if rng.random() < 0.8 else [
        n for t in rng.sample(gen.TWINS, 2) for n in t]
    if rng.random() < 0.1:
        # ranges named by the number of an iteration, or with names that look like missing values
        names = rng.choice([["0", "1", "2", "10"], ["nan", "NA", "None", "", "null"], ["007", "7", "7.0"], names + ["1", "NULL"]])
    nproc = rng.randint(1, 4)
    # now and then more processes, threads or functions than a byte counts, or more rows than 16 bits count
    many = gen.many_of(rng, i, 0.01, ["procs", "threads", "names"])
    large = i == 45 or i % 5000 == 4999
    if many == "procs":
        nproc = 257 if i == 46 else rng.choice([130, 257])
    elif many == "names":
        names = names + ["fn%d" % k for k in range(300)]
    pids = rng.sample(rng.choice([range(0, 6), range(1, 9), range(1000, 90000), range(2**56, 2**56 + 9)] if nproc < 5 else [range(300), range(1000, 90000)]), nproc)
    same = rng.random() < 0.25
    style = "overlap" if rng.random() < 0.15 else "nested"
    n = 35000 // nproc if large else {"procs": 3, "threads": 3, "names": 400}[many] if many else gen.size_for(rng, i, tier)
    nth = 260 if many == "threads" else 3
    epoch = rng.choice([0, 0, 0, 1_700_000_000_000_000_001])
    per, tids = [], rng.sample(range(1, 600 if many else 60) if rng.random() < 0.5 else range(10**5, 10**6), max(8, nth))
    for p in pids:
        own = [p] if same else rng.sample(tids, nth if nth > 3 else rng.randint(1, 3)) if nth > 3 or rng.random() < 0.7 else [p] + [x for x in rng.sample(tids, 1) if x != p]
        for t in own:
            start = epoch + rng.choice([0, 3, 10**9])
            per.append([r + [p, t] for r in fmt_nsight.nest(rng, names, n if large else rng.randint(1, n), start, style)])
    ranges = [r for x in per for r in x]
    how = rng.choice(["start", "start", "thread", "shuffle"])
    if how == "start":
        ranges.sort(key=lambda r: r[0])
    elif how == "shuffle":
        rng.shuffle(ranges)
    ranges = [r + [rng.choice(["PushPop", "s t"])] for r in ranges]
    more = {}
    if rng.random() < 0.4:
        # columns that reports have or not, with cells that are empty
        miss = rng.choice([0, 0.3])
        for c in rng.sample(["ParentId", "Lev", "NameTree", "DurNonChild (ns)"], rng.randint(1, 3)):
            one = {"ParentId": lambda: rng.randint(0, 9), "Lev": lambda: rng.randint(0, 3), "NameTree": lambda: rng.choice(["    x", "--y", "z w"]),
                   "DurNonChild (ns)": lambda: rng.randint(0, 10**6)}[c]
            more[c] = [None if rng.random() < miss else one() for _ in ranges]
    order = None
    if rng.random() < 0.3:
        order = list(range(len(fmt_nsight.HEAD) + len(more)))
        rng.shuffle(order)
    return {"ranges": ranges, "style": style, "order": order, "quote": rng.random() < 0.2, "bom": rng.random() < 0.05, "crlf": rng.random() < 0.1, "cct": rng.random() < 0.3,
            "more": more}


def run(case, obs):
    from pipit import Trace

    path = os.path.join(obs.scratch, "t.csv")
    fmt_nsight.write(path, case)
    try:
        t = obs.call("from_nsight", Trace.from_nsight, path, **({"create_cct": True} if case["cct"] else {}))
    finally:
        os.unlink(path)
    R = case["ranges"]
    df = t.events
    n = len(df)
    check(n == 2 * len(R), "number of events", n, "ranges", len(R))
    check(df.index.tolist() == list(range(n)), "row labels are not 0..n-1")
    cols = {c: df[c].tolist() for c in df.columns}
    ts = cols["Timestamp (ns)"]
    check(all(a <= b for a, b in zip(ts, ts[1:])), "rows not ordered by time")
    threaded = any(r[3] != r[4] for r in R)
    check(("Thread" in cols) == threaded, "thread column", "Thread" in cols, threaded)
    check(len(cols) == len(df.columns) and not set(cols) - set(fmt_nsight.HEAD) - set(case.get("more", {}))
          - {"Timestamp (ns)", "Event Type", "Process", "Thread", "Graph_Node"}, "columns that the report does not have", list(df.columns))
    # numbering
    pm, tm = {}, {}
    for k in range(n):
        p, pid, tid = number(cols["Process"][k]), int(cols["PID"][k]), int(cols["TID"][k])
        check(pm.setdefault(pid, p) == p, "one process has two numbers", pid, p, pm[pid])
        if threaded:
            th = number(cols["Thread"][k])
            check(tm.setdefault((pid, tid), th) == th, "one thread has two numbers", pid, tid, th, tm[pid, tid])
    check(sorted(pm.values()) == list(range(len(pm))), "process numbers are not dense", pm)
    for pid in pm:
        ths = sorted(v for (p, t_), v in tm.items() if p == pid)
        check(ths == list(range(len(ths))), "thread numbers of process %s are not dense" % pid, ths)
    # every range once, with its fields
    seen, stacks, prev = {}, {}, {}
    for k in range(n):
        rid = int(cols["RangeId"][k])
        s, e, name, pid, tid, x = R[rid]
        typ = cols["Event Type"][k]
        check(typ in ("Enter", "Leave"), "type", typ)
        check((rid, typ) not in seen, "two %s events of a range" % typ, R[rid])
        seen[rid, typ] = k
        g = [ts[k], cols["Name"][k], int(cols["PID"][k]), int(cols["TID"][k]), cols["Duration (ns)"][k], cols["Style"][k]]
        w = [s if typ == "Enter" else e, name, pid, tid, e - s, x]
        check(g == w, "%s of range %d" % (typ, rid), g, "recorded", w)
        for c, v in case.get("more", {}).items():
            a, b = cols[c][k], v[rid]
            check(model.isnull(a) if b is None else a == b, "%s of %s of range %d" % (c, typ, rid), a, "recorded", b)
            obs.count("more_fields")
        if typ == "Leave":
            check((rid, "Enter") in seen, "a range ends before it begins", R[rid])
        key = (pid, tid)
        obs.count("ties", prev.get(key) == ts[k])
        prev[key] = ts[k]
        st = stacks.setdefault(key, [])
        if case["style"] == "nested":
            if typ == "Enter":
                if st:
                    o = R[st[-1]]
                    check(o[0] <= s and e <= o[1], "a range starts within one that does not enclose it", o, R[rid])
                    obs.count("nested")
                st.append(rid)
            else:
                check(st and st[-1] == rid, "a range ends while an inner one is open", R[rid], [R[x] for x in st[-3:]])
                st.pop()
    check(len(seen) == 2 * len(R), "missing calls or returns", len(seen), len(R))
    if case["cct"]:
        ev = [[ts[k], cols["Event Type"][k], cols["Name"][k], number(cols["Process"][k]),
               int(cols["Thread"][k]) if threaded else 0] for k in range(n)]
        check_tree(t.cct, model.contexts(ev, threaded), dict(enumerate(df["Graph_Node"].tolist())), obs)
    else:
        check(t.cct is None, "a tree was made without being asked for")
    obs.count("ranges", len(R))
    obs.count("empty", sum(r[0] == r[1] for r in R))
    obs.count("threaded", threaded)
    obs.count("multi_process", len(pm) > 1)
    obs.state(tuple(cols["Event Type"][:40]), len(pm), len(tm))
    obs.nontrivial = len(R) > 2 and any(a == b for a, b in zip(ts, ts[1:]))
