import bisect

from vlib import gen, model
from vlib.core import check
from checks.c10 import make_spec

ID = "C11"
LEVEL = "exploration"
TECH = "conservation monitor: recorded messages against histogram bins"
RULE = ("random message traces; 1-40 bins or explicit ranges, volume or count, sends or receives; "
        "rows also in random order; non-trivial = messages in two or more bins")
ASSUME = ["ranks numbered 0..n-1; intervals representable as distinct floating point numbers", "histograms of traces without any message are only required not to fail and to be empty"]
N = {"quick": 6000, "thorough": 30000}
CAP = {"quick": 40, "thorough": 400}
MIN = {"messages": 1000, "bins": 1000, "over_time": 300, "size_histograms": 300}


def make(rng, i, tier):
    spec = make_spec(rng, i, tier, clocks=["ties", "small", "strict", "ns", "float"], scale=True)
    if rng.random() < 0.15:
        rng.shuffle(spec["ev"])  # a histogram does not depend on the order of the rows
    ops = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.4:
            op = ["sizes", rng.choice([None, 1, 2, 5, 20, 33]), rng.choice([None, None, [0, 4096], [1, 70]])]
        else:
            op = ["time", rng.choice([None, 1, 2, 3, 10, 40]), rng.choice([None, "size", "count"]), rng.choice([None, "send", "receive"])]
        ops.append(op)
    return {"spec": spec, "ops": ops}


def bins_of(values, weights, edges):
    out = [0] * (len(edges) - 1)
    for v, w in zip(values, weights):
        if v < edges[0] or v > edges[-1]:
            continue
        k = min(bisect.bisect_right(edges, v) - 1, len(out) - 1)
        out[k] += w
    return out


def even(edges, lo, hi, n):
    if len(edges) != n + 1:
        return False
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5
    tol = 1e-9 * max(abs(lo), abs(hi), 1)
    return all(abs(e - (lo + (hi - lo) * k / n)) <= tol for k, e in enumerate(edges))


def run(case, obs):
    spec = case["spec"]
    ev = spec["ev"]
    t = obs.call("Trace", gen.build, spec)
    inst = [e for e in ev if e[1] == "Instant"]
    sends = [(e[0], e[5]["msg_length"]) for e in inst if e[2] in ("MpiSend", "MpiIsend")]
    recvs = [(e[0], e[5]["msg_length"]) for e in inst if e[2] in ("MpiRecv", "MpiIrecv")]
    lo, hi = min(e[0] for e in ev), max(e[0] for e in ev)
    spread = 0
    for op in case["ops"]:
        if op[0] == "sizes":
            kw = {}
            if op[1] is not None:
                kw["bins"] = op[1]
            if op[2] is not None:
                kw["range"] = tuple(op[2])
            h, edges = obs.call("message_histogram(%s)" % kw, t.message_histogram, **kw)
            h, edges = [float(x) for x in h], [float(x) for x in edges]
            n = op[1] or 20
            check(len(h) == n, "number of bins", len(h), n)
            vals = [s for _, s in sends]
            if vals:
                a, b = op[2] or (min(vals), max(vals))
                check(even(edges, a, b, n), "edges of the histogram", edges, a, b)
            want = bins_of(vals, [1] * len(vals), edges)
            check(h == want, "messages per size bin", h, "expected", want)
            if op[2] is None:
                check(sum(h) == len(sends), "messages lost or duplicated", sum(h), len(sends))
            obs.count("size_histograms")
        else:
            kw = {}
            if op[1] is not None:
                kw["bins"] = op[1]
            if op[2] is not None:
                kw["output"] = op[2]
            if op[3] is not None:
                kw["message_type"] = op[3]
            h, edges = obs.call("comm_over_time(%s)" % kw, t.comm_over_time, **kw)
            h, edges = [float(x) for x in h], [float(x) for x in edges]
            n = op[1] or 50
            msgs = recvs if op[3] == "receive" else sends
            check(len(h) == n and even(edges, lo, hi, n), "time intervals", edges[:3], edges[-1:], lo, hi)
            want = bins_of([x for x, _ in msgs], [1 if op[2] == "count" else s for _, s in msgs], edges)
            check(h == [float(x) for x in want], "communication per interval", kw, h, "expected", want)
            check(sum(h) == sum(1 if op[2] == "count" else s for _, s in msgs), "volume lost or duplicated")
            obs.count("over_time")
        spread = max(spread, sum(1 for x in h if x))
        obs.count("bins", len(h))
    obs.count("messages", len(sends) + len(recvs))
    obs.state(str(case["ops"]), len(sends), len(recvs))
    obs.nontrivial = spread > 1
