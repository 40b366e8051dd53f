"""Generator of logical traces, and their construction as pipit traces.

A trace spec is JSON: {"ev": [[ts, type, name, process, thread, attrs], ...],
"thread": bool, "cat": bool, "cols": {column: [values]}}; thread is ignored when
"thread" is false.
"""

PLAIN = ["main", "foo", "bar", "baz", "solve", "MPI_Send", "MPI_Recv", "MPI_Wait",
         "MPI_Waitall", "Idle", "compute", "io"]
HOSTILE = ["a", "b", "a->b", "b->a", "->", "a->", "operator->", "", " ", "Enter", "Leave",
           "nan", "None", "0", "1", "main ", "Main", "f(int, char**)", "\u00e9t\u00e9",
           "\u51fd\u6570", "x\"y", "back\\slash", "line\nbreak", "tab\t", "std::vector<int>::operator[]",
           "<unkown function>", "inf", "very_" * 30]
INSTANTS = ["MpiSend", "MpiRecv", "MpiIsend", "MpiIrecv", "ProgramBegin", "marker", "foo", "main"]

# names that differ in one place only: overloads, blanks, case, numbers, Unicode forms, beginnings, ends
TWINS = [["f(int)", "f(double)", "f(int, int)", "f"], ["a<int>", "a<float>", "a"], ["ns::g", "other::g", "g"], ["F", "f"], ["h", "h ", " h"],
         ["x.1", "x.2", "x"], ["p_1", "p_01", "p_10"], ["caf\u00e9", "cafe\u0301", "cafe"], ["long_" * 40 + "a", "long_" * 40 + "b"],
         ["solve", "solver", "re_solve"], ["a b", "a  b", "a\tb"], ["foo", "foo@plt", "foo.cold"], ["MPI_Send", "PMPI_Send", "MPI_Sendrecv"],
         ["1.0", "1", "1e0"], ["\u2126", "\u03a9"], ["k[0]", "k[1]"], ["a/b", "b", "/b"], ["u:v", "v"], ["loop at a.c:1", "loop at a.c:12"]]


def pick_names(rng, hostile=True):
    pool = list(PLAIN)
    if hostile and rng.random() < 0.2:
        few = [n for t in rng.sample(TWINS, rng.choice([1, 1, 2, 3])) for n in t]
        return list(dict.fromkeys(few))
    if hostile and rng.random() < 0.35:
        pool = HOSTILE + PLAIN[:4]
    k = rng.choice([1, 2, 3, 4, 6, 9])
    return rng.sample(pool, min(k, len(pool)))


class Clock:
    """Non-decreasing time; the step distribution decides how many ties there are."""

    def __init__(self, rng, mode):
        self.rng = rng
        self.mode = mode
        self.t = {
            "ties": lambda: rng.randint(0, 3),
            "small": lambda: rng.randint(-5, 50),
            "strict": lambda: rng.randint(0, 10),
            "ns": lambda: rng.randint(0, 10**12),
            "big": lambda: 2**50 + rng.randint(0, 2**50),
            "epoch": lambda: 1700000000 * 10**9 + rng.randint(0, 10**15),
            "float": lambda: rng.randint(0, 400) / 4.0,
        }[mode]()

    def step(self):
        r, m = self.rng, self.mode
        if m == "ties":
            d = 0 if r.random() < 0.6 else r.randint(1, 2)
        elif m == "small":
            d = r.randint(0, 6)
        elif m == "strict":
            d = r.randint(1, 9)
        elif m == "ns":
            d = r.choice([0, 1, r.randint(1, 10**3), r.randint(1, 10**9)])
        elif m == "epoch":
            d = r.choice([0, 1, r.randint(1, 200), r.randint(1, 10**6)])
        elif m == "big":
            d = r.randint(0, 2**20)
        else:
            d = r.randint(0, 30) / 4.0
        self.t += d
        return self.t


CLOCKS = ["ties", "small", "strict", "ns", "big", "epoch", "float"]


def location(rng, names, n, clock, style, instants=0.0):
    """One location's own event sequence [(ts, type, name, None)].

    styles: nested      every call matched and properly nested
            open        nested, but calls still open at the end stay unmatched
            orphan      nested, plus leaves of functions that are not open
            overlap     leaves may close any open call
            chaos       all of it
    """
    out, stack = [], []
    pdeep = rng.choice([0.35, 0.5, 0.65, 0.8])
    maxdepth = rng.choice([1, 2, 3, 5, 12, 60])
    while len(out) < n:
        t = clock.step()
        if instants and rng.random() < instants:
            out.append([t, "Instant", rng.choice(INSTANTS)])
            continue
        r = rng.random()
        if style in ("orphan", "chaos") and r < 0.12:
            free = [x for x in names + ["ghost"] if x not in stack]
            if free:
                out.append([t, "Leave", rng.choice(free)])
                continue
        if not stack or (len(stack) < maxdepth and rng.random() < pdeep):
            f = rng.choice(names)
            stack.append(f)
            out.append([t, "Enter", f])
        else:
            i = len(stack) - 1
            if style in ("overlap", "chaos") and rng.random() < 0.35:
                i = rng.randrange(len(stack))
            f = stack[i]
            # the most recent call of that name is the one that ends
            j = max(k for k in range(len(stack)) if stack[k] == f)
            del stack[j]
            out.append([t, "Leave", f])
    if style in ("nested", "orphan", "overlap"):
        while stack:
            out.append([clock.step(), "Leave", stack.pop()])
    elif style == "chaos":
        while stack and rng.random() < 0.5:
            i = rng.randrange(len(stack))
            f = stack[i]
            j = max(k for k in range(len(stack)) if stack[k] == f)
            del stack[j]
            out.append([clock.step(), "Leave", f])
    return out


def merge(rng, seqs):
    """Time-ordered interleaving that keeps every sequence's own order; ties between
    sequences are broken at random. seqs: [(proc, thread, events)]"""
    heads = [0] * len(seqs)
    out = []
    while True:
        best, who = None, []
        for k, (_, _, s) in enumerate(seqs):
            if heads[k] < len(s):
                t = s[heads[k]][0]
                if best is None or t < best:
                    best, who = t, [k]
                elif t == best:
                    who.append(k)
        if not who:
            return out
        k = rng.choice(who)
        p, th, s = seqs[k]
        e = s[heads[k]]
        heads[k] += 1
        out.append([e[0], e[1], e[2], p, th, e[3] if len(e) > 3 else None])


def size_for(rng, i, tier):
    """small cases first, with a tail of larger ones"""
    if i < 200:
        return rng.randint(1, 3 + i // 10)
    if tier == "thorough" and rng.random() < 0.05:
        return rng.randint(100, 600)
    return rng.choice([rng.randint(1, 12), rng.randint(8, 40), rng.randint(20, 90)])


def deep(rng, names, depth, clock, instants=0.0, style="nested"):
    """One deep chain of calls, now and then with a leaf call on the way down or up; where calls may
    overlap, the outermost ones end while all others are still open"""
    out, stack = [], []
    outer = ["outermost", "next to it"][:rng.randint(1, 2)] if style in ("overlap", "chaos") else []
    for f in outer:
        out.append([clock.step(), "Enter", f])

    def leaf():
        if rng.random() < 0.05:
            f = rng.choice(names)
            out.append([clock.step(), "Enter", f])
            out.append([clock.step(), "Leave", f])
        if instants and rng.random() < instants:
            out.append([clock.step(), "Instant", rng.choice(INSTANTS)])

    f = rng.choice(names)
    while len(stack) < depth:
        if rng.random() < 0.3:
            f = rng.choice(names)
        stack.append(f)
        out.append([clock.step(), "Enter", f])
        leaf()
    for f in outer:
        out.append([clock.step(), "Leave", f])
    while stack:
        out.append([clock.step(), "Leave", stack.pop()])
        leaf()
    for f in outer:
        out += [[clock.step(), k, names[0]] for k in ("Enter", "Leave")]
    return out


def many_of(rng, i, p, kinds):
    """now and then (and in the cases 46 to 48 at any rate) one of the kinds, of which there will be
    more than a byte counts"""
    if 46 <= i <= 48:
        return kinds[(i - 46) % len(kinds)]
    return rng.choice(kinds) if i > 20 and rng.random() < p else None


def locations(rng, max_procs=4, ranks=False, threads=None):
    """[(process, thread)] and whether the trace has a thread column"""
    np_ = rng.randint(1, max_procs)
    if ranks:
        procs = list(range(np_))
    else:
        procs = rng.choice([list(range(np_)), sorted(rng.sample(range(40), np_)),
                            rng.sample(range(9), min(np_, 9))])
        if rng.random() < 0.12:  # such as ids of the operating system
            procs = rng.sample([0, 1, 127, 128, 255, 256, 4464, 32767, 32768, 65536, 70000, 4194304, 2**31 - 1], np_)
    has_thread = rng.random() < 0.5 if threads is None else threads
    if has_thread and not ranks and rng.random() < 0.1:  # numbers that look alike when written next to each other
        pairs = [(1, 11), (11, 1), (1, 1), (11, 11), (111, 1), (1, 111), (0, 10), (10, 0), (0, 100), (1, 10), (11, 0), (1, 2), (2, 1)]
        pairs = rng.sample(pairs, 6)
        few = {p for p, _ in pairs[:max_procs]}
        return sorted(x for x in pairs if x[0] in few), has_thread
    locs = []
    for p in procs:
        nt = rng.randint(1, 3) if has_thread else 1
        tids = list(range(nt)) if rng.random() < 0.7 else rng.sample(range(6), nt)
        locs += [(p, t) for t in tids]
    return locs, has_thread


def trace(rng, i, tier, styles=("nested",), hostile=True, max_procs=4, ranks=False,
          threads=None, instants=None, clocks=None, total=None, cat=None, depth=None, wide=0.0,
          large=False):
    names = pick_names(rng, hostile)
    locs, has_thread = locations(rng, max_procs, ranks, threads)
    style = rng.choice(list(styles))
    mode = rng.choice(clocks or CLOCKS)
    n = total if total is not None else size_for(rng, i, tier)
    if large and (i == 45 or i % 5000 == 4999):
        # more rows than 16 bits count
        total = n = 70000
        locs = locs[:3]
    what = many_of(rng, i, wide, ["procs", "names"] + (["threads"] if threads is not False else [])) if wide and total is None else None
    if what:
        # many processes, threads or functions: more than a byte can number
        total, n = 0, rng.choice([400, 900])
        many = 300 if 46 <= i <= 48 else rng.choice([129, 140, 257, 300])
        if what == "procs":
            locs, has_thread = [(p, 0) for p in range(many)], bool(threads)
        elif what == "threads":
            locs, has_thread = [(p, t) for p in sorted({p for p, _ in locs})[:2] for t in range(many)], True
        else:
            names = names + ["fn%d" % k for k in range(many)]
    inst = rng.choice([0.0, 0.0, 0.2]) if instants is None else instants
    base = Clock(rng, mode).t
    seqs = []
    if depth is None and i > 20 and total is None and (rng.random() < 0.01 or i in (41, 43)):
        depth = 700 if i in (41, 43) else rng.choice([130, 150, 260, 400, 1100])
        if i in (41, 43) and "overlap" in styles:
            style = "overlap"
    for p, t in locs:
        c = Clock(rng, mode)
        if mode in ("big", "ns"):
            c.t = base + rng.randint(0, 1000)
        if depth and not seqs:
            seqs.append((p, t, deep(rng, names, depth, c, inst, style)))
            continue
        k = max(2 if total == 0 else 1, n // len(locs)) if total in (0, 70000) or rng.random() < 0.7 else rng.randint(1, max(1, n))
        seqs.append((p, t, location(rng, names, k, c, style, inst)))
    if inst and rng.random() < 0.2:
        # events that are no calls, though named like calls, as of the loops of HPCToolkit
        for _, _, s in seqs:
            for e in s:
                if e[1] == "Instant" and rng.random() < 0.5:
                    e[1], e[2] = rng.choice(["Loop Enter", "Loop Leave"]), rng.choice(["loop", e[2]] + names)
    return {
        "ev": merge(rng, seqs), "thread": has_thread,
        "cat": rng.random() < 0.7 if cat is None else cat,
        "style": style, "clock": mode, "cols": {},
    }


def add_messages(rng, spec, nproc, p=0.3, sizes=None):
    """Turns the instants of a trace into point-to-point messages, and gives every
    event attributes (None on leaves, as the readers do)."""
    for e in spec["ev"]:
        if e[1] == "Instant":
            e[2] = rng.choice(["MpiSend", "MpiIsend", "MpiRecv", "MpiIrecv", "MpiIsendComplete",
                               "MpiRecvRequest", "marker"])
            size = rng.choice(sizes or [0, 1, 7, 8, 64, 1000, 4096, 10**6, 2**31])
            if "Send" in e[2] or "send" in e[2]:
                e[5] = {"receiver": rng.randrange(nproc), "msg_length": size, "msg_tag": rng.randint(0, 9)}
            elif "ecv" in e[2]:
                e[5] = {"sender": rng.randrange(nproc), "msg_length": size, "msg_tag": rng.randint(0, 9)}
            else:
                e[5] = {"note": "x"}
        elif e[1] == "Enter":
            e[5] = {"region": "Region 1"} if rng.random() < 0.5 else {}
    spec["attrs"] = True
    return spec


WIDTHS = {"int8": (-128, 127), "uint8": (0, 255), "int16": (-2**15, 2**15 - 1), "uint16": (0, 2**16 - 1), "int32": (-2**31, 2**31 - 1),
          "uint32": (0, 2**32 - 1), "uint64": (0, 2**40), "uint64 ": (2**64 - 2**40, 2**64 - 1), "int64": (2**62, 2**62 + 2**40)}


def add_columns(rng, spec, k=None, nan=False, dtypes=False):
    n = len(spec["ev"])
    for c in rng.sample(["m1", "PAPI_TOT_INS", "bytes", "Energy (J)", "L1.misses"], rng.randint(1, 2) if k is None else k):
        kind = rng.choice(["counter", "int", "float", "const"])
        if kind == "counter":
            v, acc = [], rng.randint(0, 10)
            for _ in range(n):
                acc += rng.randint(0, 50)
                v.append(acc)
        elif kind == "int":
            v = [rng.randint(-1000, 1000) for _ in range(n)]
        elif kind == "float":
            v = [rng.randint(-4000, 4000) / 8.0 for _ in range(n)]
        else:
            v = [rng.randint(0, 5)] * n
        if dtypes and rng.random() < 0.2:
            # as few bytes as the values need, or values that floats can't hold (their differences can be held)
            dt = rng.choice(sorted(WIDTHS))
            lo, hi = WIDTHS[dt]
            v = [rng.choice([lo, hi, rng.randint(lo, hi)]) for _ in range(n)]
            spec.setdefault("dtypes", {})[c] = dt.strip()
        elif nan and n and rng.random() < 0.4:
            v = [float(x) for x in v]
            for j in range(n):
                if rng.random() < 0.3:
                    v[j] = None
        spec["cols"][c] = v
    return spec


def frame(spec):
    import pandas as pd

    ev = spec["ev"]
    d = {
        "Timestamp (ns)": [e[0] for e in ev],
        "Event Type": [e[1] for e in ev],
        "Name": [e[2] for e in ev],
    }
    if spec["thread"]:
        d["Thread"] = [e[4] for e in ev]
    d["Process"] = [e[3] for e in ev]
    if spec.get("attrs"):
        d["Attributes"] = [e[5] for e in ev]
    for c, v in spec.get("cols", {}).items():
        d[c] = [float("nan") if x is None else x for x in v]
        if c in spec.get("dtypes", {}):
            d[c] = pd.array(d[c], dtype=spec["dtypes"][c]).to_numpy()
    df = pd.DataFrame(d)
    if spec.get("attrs"):
        df["Attributes"] = df["Attributes"].astype(object)
    kinds = {"Event Type": "category", "Name": "category"}
    if spec["cat"]:
        df = df.astype({"Process": "int32"})
        kinds["Process"] = "category"
        if spec["thread"]:
            kinds["Thread"] = "category"
    return df.astype(kinds)


def build(spec):
    from pipit import Trace

    return Trace(None, frame(spec))


def proc_count(spec):
    return len({e[3] for e in spec["ev"]})
