import os
import warnings

from vlib import gen, model
from vlib.core import check

ID = "C24"
LEVEL = "exploration"
TECH = "post-condition monitor on every pattern returned, with constructed periodic sections and a repeated call"
RULE = ("sections of 3-14 iterations of 3-9 calls, exactly periodic, periodic with noise, or random nested traces, on 1-3 processes "
        "running in step, shifted or with calls of their own; window and number of iterations given or left out; time and "
        "other metrics; non-trivial = a pattern was found")
ASSUME = ["windows of at least three calls, and at least two of them", "stumpy runs without its compiler except in some thorough cases"]
N = {"quick": 480, "thorough": 9000}
CAP = {"quick": 45, "thorough": 500}
MIN = {"patterns": 1000, "periodic": 500, "recognised": 400, "in_step": 200, "repeated": 300}
WATCHDOG = 400


def iterations(rng, k, names, durs, gap, t, extra, loop):
    out = []
    for _ in range(k):
        out.append([t, "Enter", loop])
        for n, d in zip(names, durs):
            t += gap
            out.append([t, "Enter", n])
            if extra == "noise":
                d += rng.randint(0, 3)
            if extra == "nested" and d > 3:
                out += [[t + 1, "Enter", "in"], [t + 2, "Leave", "in"]]
            t += d
            out.append([t, "Leave", n])
            if extra == "skip" and rng.random() < 0.1:
                t += 1
                out += [[t, "Enter", "other"], [t + 2, "Leave", "other"]]
                t += 2
        t += gap
        # an iteration may never end
        if extra != "open" or k < 3 or len(out) < 9 or rng.random() < 0.7:
            out.append([t, "Leave", loop])
        t += gap
    return out, t


def make(rng, i, tier):
    sections = []
    for _ in range(5):
        if rng.random() < 0.25:
            spec = gen.trace(rng, 300, tier, ("nested", "nested", "overlap", "open"), hostile=False, clocks=["ties", "small", "strict", "ns"])
            spec["cat"] = True
            names = sorted({e[2] for e in spec["ev"] if e[1] == "Enter"}) or ["main"]
            proc = rng.choice([e[3] for e in spec["ev"]]) if spec["ev"] else 0
            s = {"spec": spec, "loop": rng.choice(names), "process": proc, "periodic": None, "k": None}
        else:
            k, c = rng.randint(3, 14), rng.randint(3, 9)
            np_ = rng.choice([1, 2, 3])
            loop = rng.choice(["iter", "main loop"])
            gap = rng.choice([0, 1, 1, 4]) if rng.random() < 0.5 else 2
            extra = rng.choice([None, None, None, None, "noise", "nested", "skip", "open"])
            durs = rng.sample(range(1, 10 ** rng.choice([2, 4, 7])), c)
            names = ["f%d" % rng.randint(0, c) for _ in range(c)]
            mode = rng.choice(["step", "step", "shifted", "own"])
            before = rng.randint(0, 3)
            seqs = []
            for p in range(np_):
                t = 5 if mode == "step" else rng.randint(0, 50)
                out = []
                out.append([t, "Enter", "main"])
                for _ in range(before):
                    t += 1
                    out += [[t, "Enter", "init"], [t, "Leave", "init"]]
                if mode == "own":
                    rng.shuffle(durs)
                body, t = iterations(rng, k, names, durs, gap, t + 1, extra, loop)
                out += body
                for _ in range(rng.randint(0, 3)):
                    t += 1
                    out += [[t, "Enter", "fini"], [t, "Leave", "fini"]]
                out.append([t + 1, "Leave", "main"])
                seqs.append((p, 0, out))
            spec = {"ev": gen.merge(rng, seqs), "thread": False, "cat": True, "cols": {}}
            s = {"spec": spec, "loop": loop, "process": rng.randrange(np_), "k": k, "in_step": mode == "step" and np_ > 1,
                 "periodic": c if extra in (None,) else None}
        gen.add_columns(rng, s["spec"], k=rng.randint(0, 1))
        s["metric"] = "time.exc"
        if s["periodic"] is None:
            s["metric"] = rng.choice(["time.exc", "time.inc"] + [x + ".exc" for x in s["spec"]["cols"]])
        s["window"] = rng.choice([None, None, rng.randint(3, 8)])
        s["iterations"] = rng.choice([None, None, rng.randint(2, 9)])
        if s["periodic"] and s["window"]:
            s["window"] = rng.randint(3, s["periodic"] + 1)
        s["first"] = rng.random() < 0.5
        # metrics of other columns may have been computed before
        s["prior"] = rng.choice(["inc", "exc"]) if s["spec"]["cols"] and rng.random() < 0.5 else None
        sections.append(s)
    return {"sections": sections, "jit": tier == "thorough" and i % 8 == 0}


def expected_calls(s):
    """rows of the completed calls of the process between first entry and last exit"""
    spec = s["spec"]
    ev, p = spec["ev"], s["process"]
    m = model.match(ev, spec["thread"])
    enter = [k for k, e in enumerate(ev) if e[1] == "Enter" and e[2] == s["loop"] and e[3] == p]
    leave = [k for k, e in enumerate(ev) if e[1] == "Leave" and e[2] == s["loop"] and e[3] == p]
    if not enter or not leave or leave[-1] <= enter[0]:
        return None, 0, None, None
    lo, hi = enter[0], leave[-1]
    return [k for k in range(lo + 1, hi) if ev[k][1] == "Enter" and ev[k][3] == p and m[k] is not None], len(enter), lo, hi


def shape(y):
    mean = sum(y) / len(y)
    dev = (sum((v - mean) ** 2 for v in y) / len(y)) ** 0.5
    return [(v - mean) / dev if dev else 0.0 for v in y]


def one(s, obs):
    import pandas as pd

    rows, count, lo, hi = expected_calls(s)
    if not rows:
        return None
    n = s["iterations"] or count
    w = s["window"] or int(len(rows) / n)
    if w < 3 or len(rows) < 2 * w:
        return None
    ev = s["spec"]["ev"]
    t = obs.call("Trace", gen.build, s["spec"])
    if s.get("prior"):
        obs.call("calc_%s_metrics" % s["prior"], getattr(t, "calc_%s_metrics" % s["prior"]), list(s["spec"]["cols"]))
    if s["first"] or not s["metric"].startswith("time"):
        obs.call("calc_exc_metrics", t.calc_exc_metrics)
    kw = {"metric": s["metric"]} if s["metric"] != "time.exc" or s["window"] else {}
    for a, v in (("iterations", s["iterations"]), ("window_size", s["window"])):
        if v is not None:
            kw[a] = v
    if s["process"] or s["window"]:
        kw["process"] = s["process"]
    label = "detect_pattern(%s, %s)" % (s["loop"], kw)
    got = obs.call(label, t.detect_pattern, s["loop"], **kw)
    check(len(got) <= n, "%d patterns of at most %d iterations" % (len(got), n))
    at = {k: j for j, k in enumerate(rows)}
    starts = []
    for p in got:
        idx = p.index.tolist()
        check(idx == sorted(set(idx)), "rows of a pattern are not in order", idx)
        check(all(lo <= k <= hi for k in idx), "a pattern lies outside the section", idx, [lo, hi])
        try:
            pd.testing.assert_frame_equal(p, t.events.loc[idx])
        except AssertionError as e:
            check(False, "rows of a pattern differ from those of the trace", str(e)[:300])
        check(all(k in at for k in idx), "a pattern has rows that are no completed calls of process %s" % s["process"],
              [ev[k][:4] for k in idx if k not in at][:5])
        check(len(idx) == w, "calls in a pattern", len(idx), "window", w)
        j = at[idx[0]]
        check(idx == rows[j:j + w], "a pattern is not a run of consecutive calls", idx, rows[j:j + w])
        for k, v, name, ts in zip(idx, p[s["metric"]].tolist(), p["Name"].tolist(), p["Timestamp (ns)"].tolist()):
            check(not model.isnull(v) and name == ev[k][2] and ts == ev[k][0], "a row of a pattern", [k, v, name, ts], ev[k][:4])
        starts.append(j)
        obs.count("patterns")
    check(len(set(starts)) == len(starts), "an occurrence is returned twice", starts)
    again = obs.call(label, t.detect_pattern, s["loop"], **kw)
    check([p.index.tolist() for p in again] == [p.index.tolist() for p in got], "the same call gives other patterns",
          [p.index.tolist()[:1] for p in got], [p.index.tolist()[:1] for p in again])
    obs.count("repeated")
    if got:
        obs.nontrivial = True
        obs.count("in_step", bool(s.get("in_step")))
    obs.state(len(got), w, n, len(rows), bool(s["periodic"]))
    if not s["periodic"]:
        return None
    obs.count("periodic")
    seqs = {tuple(ev[k][2] for k in p.index.tolist()) for p in got}
    if len(seqs) > 1:
        # other functions can have values that differ by a shift and a factor only, which the
        # search, as it compares normalised values, can't tell apart
        shapes = [shape(p[s["metric"]].tolist()) for p in got]
        check(all(abs(x - y) < 1e-6 for q in shapes[1:] for x, y in zip(q, shapes[0])),
              "occurrences with different functions in an exactly periodic section", sorted(seqs)[:3])
        obs.count("alike")
    if got and w <= s["periodic"] + 1:
        check(len(got) >= min(n, s["k"] - 1), "occurrences found of an exactly periodic section", len(got), "of", s["k"], "asked", n)
    obs.count("recognised", bool(got))
    # rounding inside the library may hide the pattern altogether, when it leaves no distance of zero
    return bool(got) if s["k"] >= 4 and n >= s["k"] and w > 3 else None


def run(case, obs):
    if not case["jit"]:
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        found = [one(s, obs) for s in case["sections"]]
    found = [f for f in found if f is not None]
    check(len(found) < 3 or any(found), "no pattern in any of %d exactly periodic sections" % len(found))
