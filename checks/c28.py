import random

from vlib import gen, model
from vlib.core import check
from checks.c10 import make_spec

ID = "C28"
LEVEL = "exploration"
TECH = "metamorphic monitor: a trace against its images under removal, addition, reordering and renumbering of places and shifts and scales of time"
RULE = ("random traces, nested or not, with extra metrics and messages; one to three of: remove processes or threads, add a process, "
        "interleave simultaneous events of different places otherwise, renumber processes or threads, shift or scale time; pairs, "
        "callers, depths, metrics, tree nodes, idle times and profiles of every place, and the communication tables, are compared "
        "with those of the original; non-trivial = two places and ten calls")
ASSUME = ["ranks stay 0..n-1 where communication is compared", "the load of a function on processes that do not call it may be absent"]
N = {"quick": 2200, "thorough": 15000}
CAP = {"quick": 60, "thorough": 500}
MIN = {"places": 1500, "events": 10000, "removed": 200, "renumbered": 200, "scaled": 100, "shifted": 100, "reordered": 50,
       "added": 100, "matrices": 100, "profiles": 1000}
OPS = ["remove", "add", "reorder", "procs", "threads", "shift", "scale"]


def make(rng, i, tier):
    if rng.random() < 0.3:
        spec = make_spec(rng, i, tier, clocks=["ties", "small", "strict", "ns"])
        spec["ranks"] = True
    else:
        spec = gen.trace(rng, i, tier, ("nested", "nested", "open", "orphan", "overlap", "chaos"), max_procs=5)
        spec["ranks"] = False
    gen.add_columns(rng, spec, k=rng.randint(0, 1))
    names = sorted({e[2] for e in spec["ev"] if e[1] != "Instant"})
    if names and rng.random() < 0.5:
        idle = rng.choice(names)
        for e in spec["ev"]:
            if e[2] == idle:
                e[2] = "Idle"
    ops = rng.sample([o for o in OPS if not spec["ranks"] or o not in ("remove", "add")], rng.randint(1, 3))
    return {"spec": spec, "ops": ops, "seed": rng.randrange(10**9), "first": rng.random() < 0.5}


def place(e, th):
    return (e[3], e[4] if th else 0)


def transform(spec, ops, rng, obs):
    """-> new spec, {place: new place}, time factor, time shift"""
    th = spec["thread"]
    rows = [(e, [c[k] for c in spec["cols"].values()]) for k, e in enumerate(spec["ev"])]
    to = {place(e, th): place(e, th) for e, _ in rows}
    factor, shift = 1, 0
    hi = max([abs(e[0]) for e, _ in rows] or [0])
    whole = all(isinstance(e[0], int) for e, _ in rows)
    for op in ops:
        if op == "remove":
            if len(to) < 2:
                continue
            now = sorted(to.values())
            if rng.random() < 0.5:
                gone = set(rng.sample(now, rng.randint(1, len(now) - 1)))
            else:
                p = rng.choice(now)[0]
                gone = {l for l in now if l[0] == p}
                if len(gone) == len(now):
                    continue
            rows = [r for r in rows if place(r[0], th) not in gone]
            to = {l: n for l, n in to.items() if n not in gone}
            obs.count("removed", len(gone))
        elif op == "add":
            used = {e[3] for e, _ in rows}
            p = max(used) + 1 if rng.random() < 0.5 and max(used) < 2**31 - 1 else min(set(range(99)) - used)
            ts = sorted(e[0] for e, _ in rows)
            new = []
            names = sorted({e[2] for e, _ in rows}) + ["new"]
            for t in sorted(rng.choice(ts) for _ in range(rng.randint(1, 20))):
                new.append(([t, rng.choice(["Enter", "Leave", "Enter"]), rng.choice(names), p, 0, None],
                            [rng.randint(0, 9) for _ in spec["cols"]]))
            out, k = [], 0
            for r in rows:
                while k < len(new) and (new[k][0][0] < r[0][0] or new[k][0][0] == r[0][0] and rng.random() < 0.5):
                    out.append(new[k])
                    k += 1
                out.append(r)
            rows = out + new[k:]
            obs.count("added")
        elif op == "reorder":
            seqs = {}
            for r in rows:
                seqs.setdefault(place(r[0], th), []).append(r)
            heads, out = dict.fromkeys(seqs, 0), []
            while len(out) < len(rows):
                live = [l for l in sorted(seqs) if heads[l] < len(seqs[l])]
                t = min(seqs[l][heads[l]][0][0] for l in live)
                l = rng.choice([l for l in live if seqs[l][heads[l]][0][0] == t])
                out.append(seqs[l][heads[l]])
                heads[l] += 1
            obs.count("reordered", [r[0] for r in out] != [r[0] for r in rows])
            rows = out
        elif op in ("procs", "threads"):
            if op == "procs":
                ps = sorted({e[3] for e, _ in rows})
                if spec["ranks"]:
                    new = ps[:]
                    rng.shuffle(new)
                else:
                    new = rng.sample(range(60), len(ps))
                m = dict(zip(ps, new))
                sub = {l: (m[l[0]], l[1]) for l in {place(e, th) for e, _ in rows}}
            else:
                if not th:
                    continue
                m, sub = {}, {}
                for p in sorted({e[3] for e, _ in rows}):
                    ts = sorted({e[4] for e, _ in rows if e[3] == p})
                    for a, b in zip(ts, rng.sample(range(12), len(ts))):
                        sub[(p, a)] = (p, b)
            out = []
            for e, c in rows:
                q = sub[place(e, th)]
                e = [e[0], e[1], e[2], q[0], q[1] if th else e[4]] + e[5:]
                if op == "procs" and len(e) > 5 and isinstance(e[5], dict):
                    e[5] = {k: m.get(v, v) if k in ("receiver", "sender") else v for k, v in e[5].items()}
                out.append((e, c))
            rows = out
            to = {l: sub[n] for l, n in to.items()}
            obs.count("renumbered")
        elif op == "shift" and whole:
            d = rng.choice([1, 10**6, 10**12, 12345])
            if hi * factor + shift + d < 2**52:
                shift += d
                rows = [([e[0] + d] + e[1:], c) for e, c in rows]
                obs.count("shifted")
        elif op == "scale":
            f = rng.choice([2, 4, 3, 1000]) if whole else 2
            if (hi + shift) * factor * f < 2**52:
                factor, shift = factor * f, shift * f
                rows = [([e[0] * f] + e[1:], c) for e, c in rows]
                obs.count("scaled")
    new = dict(spec, ev=[e for e, _ in rows], cols={k: [c[j] for _, c in rows] for j, k in enumerate(spec["cols"])})
    return new, to, factor, shift


def observe(spec, obs, first):
    """results by place and position within the place"""
    ev, th = spec["ev"], spec["thread"]
    t = obs.call("Trace", gen.build, spec)
    steps = [("create_cct", t.create_cct), ("exc", lambda: t.calc_exc_metrics())]
    for n, f in steps if first else steps[::-1]:
        obs.call(n, f)
    df = t.events
    where, seqs = [], {}
    for k, e in enumerate(ev):
        l = place(e, th)
        where.append((l, len(seqs.setdefault(l, []))))
        seqs[l].append(k)
    cols = {c: df[c].tolist() for c in df.columns}
    nodes = cols["Graph_Node"]

    def at(x):
        if model.isnull(x):
            return None
        l, k = where[int(x)]
        return (l, k)

    metrics = [c for c in cols if c.endswith((".inc", ".exc"))]
    out = {}
    for l, ks in seqs.items():
        rows = []
        for k in ks:
            kids = cols["_children"][k]
            kids = [] if kids is None or isinstance(kids, float) else [at(c) for c in kids]
            n = nodes[k]
            n = None if n is None or isinstance(n, float) else n
            rows.append({
                "partner": at(cols["_matching_event"][k]), "time of the partner": cols["_matching_timestamp"][k],
                "caller": at(cols["_parent"][k]), "depth": None if model.isnull(cols["_depth"][k]) else int(cols["_depth"][k]),
                "callees": kids, "metrics": {m: None if model.isnull(cols[m][k]) else cols[m][k] for m in metrics},
                "node": n, "name": ev[k][2], "level": None if n is None else n.get_level(),
            })
        out[l] = rows
    idle = obs.call("idle_time", t.idle_time)
    idle = dict(zip([int(p) for p in idle["Process"].tolist()], idle["Idle Time"].tolist()))
    prof = {}
    if any(e[1] == "Enter" for e in ev):
        called = {(e[3], e[2]) for k, e in enumerate(ev) if e[1] == "Enter" and not model.isnull(cols["_matching_event"][k])}
        r = obs.call("flat_profile", t.flat_profile, ["time.inc", "time.exc"], per_process=True).reset_index()
        for p, n, a, b in zip(r["Process"].tolist(), r["Name"].tolist(), r["time.inc"].tolist(), r["time.exc"].tolist()):
            if (int(p), n) in called:
                prof.setdefault(int(p), {})[n] = (a, b)
        check({(p, n) for p in prof for n in prof[p]} == called, "functions in the profile",
              sorted(prof.items()), sorted(called))
    comm = None
    if spec["ranks"]:
        comm = {o: obs.call("comm_matrix(%s)" % o, t.comm_matrix, o).tolist() for o in ("size", "count")}
    return out, idle, prof, comm


def run(case, obs):
    spec = case["spec"]
    new, to, factor, shift = transform(spec, case["ops"], random.Random(case["seed"]), obs)
    if not new["ev"] or not to:
        return
    a, idle_a, prof_a, comm_a = observe(spec, obs, case["first"])
    b, idle_b, prof_b, comm_b = observe(new, obs, True)
    what = "after " + ", ".join(case["ops"])
    node = {}
    back = {}
    hi = max(abs(e[0]) for e in new["ev"])

    def moved(x):
        return None if x is None else (to.get(x[0]), x[1])

    for l, rows in a.items():
        if l not in to:
            continue
        other = b[to[l]]
        check(len(rows) == len(other), "events of place %s" % (l,))
        for k, (x, y) in enumerate(zip(rows, other)):
            for f in ("partner", "caller"):
                check(moved(x[f]) == y[f], "%s of event %d of %s changed %s" % (f, k, l, what), moved(x[f]), y[f])
            check([moved(c) for c in x["callees"]] == y["callees"], "callees of event %d of %s changed %s" % (k, l, what))
            for f in ("depth", "level", "name"):
                check(x[f] == y[f], "%s of event %d of %s changed %s" % (f, k, l, what), x[f], y[f])
            u, v = x["time of the partner"], y["time of the partner"]
            check(model.isnull(u) == model.isnull(v), "partner of event %d of %s %s" % (k, l, what), u, v)
            if not model.isnull(u):
                check(model.close(u * factor + shift, v, hi), "time of the partner of event %d of %s %s" % (k, l, what), u, v)
            check(set(x["metrics"]) == set(y["metrics"]), "metrics", sorted(x["metrics"]), sorted(y["metrics"]))
            for m, u in x["metrics"].items():
                v = y["metrics"][m]
                check((u is None) == (v is None), "%s of event %d of %s %s" % (m, k, l, what), u, v)
                if u is not None:
                    s = factor if m.startswith("time.") else 1
                    check(model.close(u * s, v, hi if s else 0), "%s of event %d of %s changed %s" % (m, k, l, what), u, v)
            u, v = x["node"], y["node"]
            check((u is None) == (v is None), "tree node of event %d of %s %s" % (k, l, what))
            if u is not None:
                check(node.setdefault(id(u), v) is v, "a tree node split %s" % what, x["name"])
                check(back.setdefault(id(v), u) is u, "tree nodes merged %s" % what, x["name"])
                p, q = u.parent, v.parent
                check((p is None) == (q is None), "parent of a tree node %s" % what)
                if p is not None:
                    check(node.get(id(p)) is None or node[id(p)] is q, "parent of a tree node changed %s" % what, x["name"])
            obs.count("events")
        obs.count("places")
    # processes of which all places were kept
    full = {l[0] for l in a if all(k in to for k in a if k[0] == l[0])}
    for p in full:
        q = next(to[l][0] for l in to if l[0] == p)
        check(model.close(idle_a[p] * factor, idle_b[q], hi), "idle time of process %s changed %s" % (p, what), idle_a[p], idle_b[q])
        x, y = prof_a.get(p, {}), prof_b.get(q, {})
        check(set(x) == set(y), "functions of process %s changed %s" % (p, what), sorted(set(x) ^ set(y)))
        for n in x:
            for u, v in zip(x[n], y[n]):
                check(model.close(u * factor, v, hi), "profile of process %s, %s, changed %s" % (p, n, what), u, v)
        obs.count("profiles")
    if comm_a is not None:
        pm = {l[0]: n[0] for l, n in to.items()}
        for o in comm_a:
            for i in pm:
                for j in pm:
                    check(comm_a[o][i][j] == comm_b[o][pm[i]][pm[j]], "communication %s of %d to %d changed %s" % (o, i, j, what),
                          comm_a[o][i][j], comm_b[o][pm[i]][pm[j]])
        obs.count("matrices")
    obs.state(tuple(case["ops"]), tuple(sorted(to.items())), factor, shift)
    obs.nontrivial = len(a) >= 2 and sum(len(r) for r in a.values()) >= 20
