import os

from vlib import fmt_otf2, gen
from vlib.core import check

ID = "C10"
LEVEL = "exploration"
TECH = "conservation monitor: recorded messages against matrix cells and per-process totals"
RULE = ("random traces of 1-7 ranks with blocking and non-blocking sends and receives, other instants and calls, rows also in random order; "
        "one in twenty is an OTF2 archive whose messages are sent within communicators of some of the ranks, in any order; "
        "non-trivial = two or more messages between different pairs")
ASSUME = ["receivers are the numbers of processes, or in OTF2 archives the ranks within a communicator (not an inter-communicator); the matrix has at least as many ranks as there are with events",
          "sends without a matching receive count as messages (the matrix is built from sends)"]
N = {"quick": 6000, "thorough": 30000}
CAP = {"quick": 40, "thorough": 400}
MIN = {"messages": 1000, "cells": 1000, "totals": 500, "empty_traces": 5, "subsets": 200}


def make_spec(rng, i, tier, clocks=None, scale=False):
    n = rng.randint(1, 7)
    # many ranks, or more rows than 16 bits count
    more = {"wide": 0.01, "large": True} if scale else {}
    spec = gen.trace(rng, i, tier, ("nested", "open", "orphan"), ranks=True, max_procs=n,
                     instants=rng.choice([0.0, 0.3, 0.6, 0.9]), hostile=rng.random() < 0.3, clocks=clocks, **more)
    np_ = max(e[3] for e in spec["ev"]) + 1
    if len({e[3] for e in spec["ev"]}) < np_:
        t = spec["ev"][-1][0]
        have = {e[3] for e in spec["ev"]}
        for p in range(np_):
            if p not in have:
                spec["ev"].append([t, "Enter", "main", p, 0, None])
    # calls must not carry the names of messages
    for e in spec["ev"]:
        if e[1] != "Instant" and e[2].startswith("Mpi"):
            e[2] = "main"
    return gen.add_messages(rng, spec, np_)


def archive(rng):
    """an OTF2 archive whose messages are sent within communicators of some of the ranks, in any order"""
    n = rng.randint(1, 6)
    refs = list(range(n))
    if rng.random() < 0.3:
        refs = rng.sample(range(n + 4), n)
    comms = [list(range(n)), None]  # all of them, and each alone
    for _ in range(rng.randint(1, 4)):
        comms.append(rng.sample(range(n), rng.randint(1, n)))
    locs = []
    for g in range(n):
        for th in range(rng.choice([1, 1, 2])):
            t, ev = rng.randint(0, 20), []
            for _ in range(rng.randint(1, 8)):
                t += rng.randint(0, 5)
                c = rng.choice([k for k, m in enumerate(comms) if m is None or g in m])
                size = rng.choice([0, 1, 8, 4096, 2**31, rng.randint(0, 10**6)])
                other = 0 if comms[c] is None else rng.randrange(len(comms[c]))
                kind = rng.choice(["MpiSend", "MpiSend", "MpiIsend", "MpiRecv", "MpiIrecv", "Enter"])
                args = [0] if kind == "Enter" else [other, c, rng.randint(0, 9), size] + ([len(ev)] if kind.startswith("MpiI") else [])
                ev.append([t, kind, args, None])
            locs.append({"group": g, "type": "CPU_THREAD", "ref": len(locs), "ev": ev})
    return {"res": 10**9, "groups": [{"ref": r, "name": "MPI Rank %d" % k} for k, r in enumerate(refs)], "regions": ["main"],
            "locs": locs, "comms": comms}


def make(rng, i, tier):
    if rng.random() < 0.05:
        return {"archive": archive(rng), "ops": [[rng.choice(["matrix", "by_process"]), rng.choice(["size", "count", None])]
                                                 for _ in range(rng.randint(1, 3))]}
    spec = make_spec(rng, i, tier, scale=True)
    if rng.random() < 0.15:
        rng.shuffle(spec["ev"])  # totals do not depend on the order of the rows
    if rng.random() < 0.15:
        # ranks that recorded nothing, though others may send to them
        gone = set(rng.sample(range(np_ := max(e[3] for e in spec["ev"]) + 1), rng.randint(0, np_ - 1)))
        spec["ev"] = [e for e in spec["ev"] if e[3] not in gone]
    return {"spec": spec, "ops": [[rng.choice(["matrix", "by_process"]), rng.choice(["size", "count", None])]
                                  for _ in range(rng.randint(1, 3))]}


def run(case, obs):
    if "archive" in case:
        from pipit import Trace

        a = case["archive"]
        path = fmt_otf2.write(os.path.join(obs.scratch, "archive"), a)
        t = obs.call("from_otf2", Trace.from_otf2, path, 1)
        fmt_otf2.remove(path)
        ref = [g["ref"] for g in a["groups"]]
        sends = []
        for loc in a["locs"]:
            for _, kind, args, _ in loc["ev"]:
                if kind in ("MpiSend", "MpiIsend"):
                    members = a["comms"][args[1]] or [loc["group"]]
                    sends.append((ref[loc["group"]], ref[members[args[0]]], args[3]))
                    obs.count("subsets", members != list(range(len(ref))))
        count = len({loc["group"] for loc in a["locs"]})
    else:
        ev = case["spec"]["ev"]
        t = obs.call("Trace", gen.build, case["spec"])
        count = gen.proc_count(case["spec"])
        sends = [(e[3], e[5]["receiver"], e[5]["msg_length"]) for e in ev if e[2] in ("MpiSend", "MpiIsend") and e[1] == "Instant"]
    part = 1 + max([x for s in sends for x in s[:2]], default=-1)
    n = max(count, part)
    obs.count("silent_ranks", part > count)
    for op, output in case["ops"]:
        kw = {} if output is None else {"output": output}
        want = [[0] * n for _ in range(n)]
        for s, r, b in sends:
            want[s][r] += 1 if output == "count" else b
        if op == "matrix":
            got = obs.call("comm_matrix(%s)" % output, t.comm_matrix, **kw)
            check(got.shape == (n, n), "shape of the matrix", got.shape, n)
            for s in range(n):
                for r in range(n):
                    check(float(got[s][r]) == want[s][r], "volume from %d to %d (%s)" % (s, r, output),
                          float(got[s][r]), "expected", want[s][r])
                    obs.count("cells")
            check(float(got.sum()) == sum(map(sum, want)), "total volume")
        else:
            df = obs.call("comm_by_process(%s)" % output, t.comm_by_process, **kw)
            check(len(df) == n, "number of processes", len(df), n)
            for p in range(n):
                check(float(df.loc[p, "Sent"]) == sum(want[p]), "sent by %d (%s)" % (p, output), float(df.loc[p, "Sent"]), sum(want[p]))
                rec = sum(want[s][p] for s in range(n))
                check(float(df.loc[p, "Received"]) == rec, "received by %d (%s)" % (p, output), float(df.loc[p, "Received"]), rec)
                obs.count("totals")
            check(float(df["Sent"].sum()) == float(df["Received"].sum()), "sent and received totals differ")
    obs.count("messages", len(sends))
    obs.count("empty_traces", not sends)
    obs.state(n, tuple(sorted((s, r) for s, r, _ in sends)))
    obs.nontrivial = len({(s, r) for s, r, _ in sends}) > 1
