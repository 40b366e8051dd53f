import os
import pathlib

from vlib import fmt_csv, gen, model
from vlib.core import check, number

ID = "C15"
LEVEL = "exploration"
TECH = "round-trip monitor: recorded logical events against the loaded table"
RULE = ("random logical traces written as CSV with shuffled rows and columns, nanoseconds or seconds, spaces after "
        "commas, quoting, both line ends, byte order marks, compressed files and open ones, extra columns of text and numbers with missing values, times since the epoch; non-trivial = three or more rows with a tie or a shuffled row order")
ASSUME = ["names do not begin with a blank or contain line ends",
          "timestamps are exactly representable; conversion from seconds is exact to a nanosecond"]
N = {"quick": 6000, "thorough": 25000}
CAP = {"quick": 40, "thorough": 400}
MIN = {"rows": 3000, "seconds_files": 200, "tied_rows": 200, "shuffled_files": 200, "missing": 1000, "odd_names": 1000, "other_sources": 300}
ODD = ["", "nan", "None", "NA", "null", "NULL", "0", "1", "007", "1.0", "1e3", "inf", "-1", "True", "main ", "tab\t", "#N/A", "1_000"]


def make(rng, i, tier):
    while True:
        spec = gen.trace(rng, i, tier, ("nested", "open", "orphan", "overlap"), instants=rng.choice([0.0, 0.2]),
                         wide=0.01, large=True,
                         clocks=["ties", "small", "strict", "ns", "float", "epoch"])
        if not any(e[2][:1] == " " or "\n" in e[2] for e in spec["ev"]):
            break
    if rng.random() < 0.15:
        # functions with names that look like something else, or all of them numbers
        pool = rng.choice([ODD, ["0", "1", "2", "03", "3"], ["nan", "fmod", "x"], ["1.0", "1.00", "1e0"]])
        m = {}
        for e in spec["ev"]:
            e[2] = m.setdefault(e[2], rng.choice(pool))
    if rng.random() < 0.4:
        gen.add_columns(rng, spec, k=1)
    n = len(spec["ev"])
    if rng.random() < 0.4:
        # more columns, of text and numbers, with or without missing values
        for c in rng.sample(["Note", "flag", "address", "load"], rng.randint(1, 2)):
            one = {"Note": lambda: rng.choice(["x", "two words", "comma, here", "quote\"", "\u00e9t\u00e9", "a;b", "1.5 s"]),
                   "flag": lambda: rng.random() < 0.5,
                   "address": lambda: rng.choice([2**53 + 1, 2**62 + 1, 2**63 - 1, -(2**60) - 1, 7]),
                   "load": lambda: rng.uniform(-1, 1) * 10 ** rng.randint(-9, 9)}[c]
            miss = rng.choice([0.3, 0.3, 0.3, 0.3, 0.3, 1]) if c != "address" and rng.random() < 0.5 else 0
            spec["cols"][c] = [None if rng.random() < miss else one() for _ in range(n)]
    opts = {"seconds": rng.random() < 0.35, "spaces": rng.random() < 0.5, "quote": rng.random() < 0.2,
            "crlf": rng.random() < 0.15, "open_end": rng.random() < 0.15, "bom": rng.random() < 0.05,
            "given": rng.choice(["name"] * 12 + ["packed", "path", "file", "bytes"])}
    if spec["ev"][-1][0] > 2**50:
        opts["seconds"] = False  # a double of seconds does not tell such times apart
    if rng.random() < 0.5:
        # a file grouped by location, or in any order that keeps each tie group's order per location
        rows = list(range(n))
        kind = rng.choice(["location", "blocks", "reverse"])
        if kind == "location":
            rows.sort(key=lambda k: model.loc_of(spec["ev"][k], True))
        elif kind == "blocks":
            cut = rng.randint(0, n)
            # swap two parts only where time separates them, or keep ties in order
            rows = rows[cut:] + rows[:cut]
        else:
            rows = rows[::-1]
        opts["rows"] = rows
    ncol = 4 + int(spec["thread"]) + len(spec["cols"])
    if rng.random() < 0.3:
        o = list(range(ncol))
        rng.shuffle(o)
        opts["order"] = o
    return {"spec": spec, "opts": opts}


def run(case, obs):
    from pipit import Trace

    spec, opts = case["spec"], case["opts"]
    given = opts.get("given", "name")
    path = os.path.join(obs.scratch, "t.csv.gz" if given == "packed" else "t.csv")
    fmt_csv.write(path, spec, opts)
    if given in ("file", "bytes"):
        with open(path, "rb" if given == "bytes" else "r", **({} if given == "bytes" else {"encoding": "utf-8-sig", "newline": ""})) as f:
            t = obs.call("from_csv of an open file", Trace.from_csv, f)
    else:
        t = obs.call("from_csv", Trace.from_csv, pathlib.Path(path) if given == "path" else path)
    obs.count("other_sources", given != "name")
    os.unlink(path)
    rows = opts.get("rows") or list(range(len(spec["ev"])))
    order = sorted(range(len(rows)), key=lambda k: spec["ev"][rows[k]][0])
    want = [rows[k] for k in order]
    df = t.events
    check(len(df) == len(want), "number of rows", len(df), len(want))
    check(df.index.tolist() == list(range(len(want))), "row labels are not 0..n-1", df.index.tolist()[:20])
    check("Timestamp (ns)" in df.columns and "Timestamp (s)" not in df.columns, "time column", list(df.columns))
    ts = df["Timestamp (ns)"].tolist()
    check(all(a <= b for a, b in zip(ts, ts[1:])), "rows not ordered by time")
    cols = {c: df[c].tolist() for c in df.columns}
    check(sorted(df.columns) == sorted(["Timestamp (ns)", "Event Type", "Name", "Process"] + ["Thread"] * bool(spec["thread"]) + list(spec["cols"])),
          "columns", list(df.columns))
    # rows of one time and different locations may come in any order
    got_by, want_by = {}, {}
    for k in range(len(want)):
        g = (number(cols["Process"][k]),) + ((number(cols["Thread"][k]),) if spec["thread"] else ())
        got_by.setdefault(g, []).append(k)
        want_by.setdefault(model.loc_of(spec["ev"][want[k]], spec["thread"]), []).append(want[k])
    check(set(got_by) == set(want_by), "locations", sorted(got_by), sorted(want_by))
    for loc in want_by:
        check(len(got_by[loc]) == len(want_by[loc]), "events of location %s" % (loc,))
        for k, w in zip(got_by[loc], want_by[loc]):
            e = spec["ev"][w]
            lim = 1e-3 + abs(e[0]) * 1e-12 if opts["seconds"] else 0
            check(abs(ts[k] - e[0]) <= lim, "timestamp", ts[k], "expected", e[0], opts)
            check(cols["Event Type"][k] == e[1] and cols["Name"][k] == e[2], "event",
                  [cols["Event Type"][k], cols["Name"][k]], "expected", e)
            for c, v in spec["cols"].items():
                a, b = cols[c][k], v[w]
                if b is None:
                    check(model.isnull(a), "missing value of column " + c, a)
                    obs.count("missing")
                else:
                    # (a decimal may be read to the last place but one)
                    check(abs(a - b) <= 1e-15 * abs(b) if isinstance(b, float) else a == b and isinstance(a, str) == isinstance(b, str),
                          "column " + c, a, b)
            obs.count("rows")
            obs.count("odd_names", e[2] in ODD)
    tied = sum(a == b for a, b in zip(ts, ts[1:]))
    obs.count("tied_rows", tied)
    obs.count("seconds_files", opts["seconds"])
    obs.count("shuffled_files", bool(opts.get("rows")))
    obs.state(tuple((e[1], e[2]) for e in spec["ev"][:20]))
    obs.nontrivial = len(rows) > 2 and (tied or bool(opts.get("rows")))
