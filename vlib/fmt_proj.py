"""Projections directories, written record by record from a JSON spec, and what the
spec says pipit has to load.

spec: {"name": executable, "chares": [[name, dimensions]], "entries": [[id, name, chare]],
       "events": {id: name}, "stats": {id: name}, "papi": number,
       "pes": [[ [record type, {field: value}], ... ]] }     times in microseconds
"""
import gzip
import os

BASE = {"CREATION": 1, "BEGIN_PROCESSING": 2, "END_PROCESSING": 3, "ENQUEUE": 4, "DEQUEUE": 5,
        "BEGIN_COMPUTATION": 6, "END_COMPUTATION": 7, "BEGIN_INTERRUPT": 8, "END_INTERRUPT": 9, "MESSAGE_RECV": 10,
        "BEGIN_TRACE": 11, "END_TRACE": 12, "USER_EVENT": 13, "BEGIN_IDLE": 14, "END_IDLE": 15, "BEGIN_PACK": 16,
        "END_PACK": 17, "BEGIN_UNPACK": 18, "END_UNPACK": 19, "CREATION_MULTICAST": 21,
        "USER_SUPPLIED": 26, "MEMORY_USAGE": 27, "USER_SUPPLIED_NOTE": 28, "USER_SUPPLIED_BRACKETED_NOTE": 29, "USER_STAT": 32,
        "BEGIN_USER_EVENT_PAIR": 98, "END_USER_EVENT_PAIR": 99, "USER_EVENT_PAIR": 100}
# fields of each record in file order
FIELDS = {
    "CREATION": ["mtype", "entry", "t", "event", "pe", "len", "t2"],
    "CREATION_MULTICAST": ["mtype", "entry", "t", "event", "pe", "len", "t2", "dests"],
    "BEGIN_PROCESSING": ["mtype", "entry", "t", "event", "pe", "len", "recv", "ids", "cpu", "perf"],
    "END_PROCESSING": ["mtype", "entry", "t", "event", "pe", "len", "cpu", "perf"],
    "ENQUEUE": ["mtype", "t", "event", "pe"], "DEQUEUE": ["mtype", "t", "event", "pe"],
    "BEGIN_COMPUTATION": ["t"], "END_COMPUTATION": ["t"],
    "BEGIN_INTERRUPT": ["t", "event", "pe"], "END_INTERRUPT": ["t", "event", "pe"],
    "MESSAGE_RECV": ["mtype", "t", "event", "pe", "len"],
    "BEGIN_TRACE": ["t"], "END_TRACE": ["t"],
    "USER_EVENT": ["uid", "t", "event", "pe"],
    "BEGIN_IDLE": ["t", "pe"], "END_IDLE": ["t", "pe"], "BEGIN_PACK": ["t", "pe"], "END_PACK": ["t", "pe"],
    "BEGIN_UNPACK": ["t", "pe"], "END_UNPACK": ["t", "pe"],
    "USER_SUPPLIED": ["value"], "MEMORY_USAGE": ["mem", "t"], "USER_SUPPLIED_NOTE": ["t", "note"],
    "USER_SUPPLIED_BRACKETED_NOTE": ["t", "t2", "uid", "note"],
    "USER_STAT": ["t", "t2", "stat", "pe", "sid"],
    "BEGIN_USER_EVENT_PAIR": ["uid", "t", "event", "pe", "nest"], "END_USER_EVENT_PAIR": ["uid", "t", "event", "pe", "nest"],
    "USER_EVENT_PAIR": ["uid", "t", "event", "pe", "nest"],
}


def line(kind, f):
    out = [str(BASE[kind])]
    for k in FIELDS[kind]:
        v = f[k]
        if k == "dests":
            out += [str(len(v))] + [str(x) for x in v]
        elif isinstance(v, list):
            out += [str(x) for x in v]
        else:
            out.append(str(v))
    return " ".join(out)


def sts(spec):
    L = ["PROJECTIONS_ID", "VERSION 11.0", "MACHINE linux-x86_64", "SMPMODE 1 1", 'COMMANDLINE "./prog 1 2"',
         "CHARMVERSION 7.0.0", "USERNAME user", "HOSTNAME host", "PROCESSORS %d" % len(spec["pes"]),
         "TIMESTAMP 2022-08-10T15:41:36Z", "TOTAL_CHARES %d" % len(spec["chares"]), "TOTAL_EPS %d" % len(spec["entries"]),
         "TOTAL_MSGS 2", "TOTAL_PSEUDOS 0", "TOTAL_EVENTS %d" % len(spec["events"]),
         "TOTAL_STATS %d" % len(spec["stats"])]
    if spec["papi"]:
        L.append("TOTAL_PAPI_EVENTS %d" % spec["papi"])
        L += ["PAPI_EVENT %d PAPI_%d" % (k, k) for k in range(spec["papi"])]
    L += ['CHARE %d "%s" %d' % (k, n, d) for k, (n, d) in enumerate(spec["chares"])]
    L += ['ENTRY CHARE %d "%s" %d %d' % (k, n, c, 0) for k, n, c in spec["entries"]]
    L += ["MESSAGE %d %d" % (k, 8 * k) for k in range(2)]
    L += ["EVENT %s %s" % (k, n) for k, n in spec["events"].items()]
    L += ["STAT %s %s" % (k, n) for k, n in spec["stats"].items()]
    return "\n".join(L + ["END"]) + "\n"


def write(path, spec):
    os.mkdir(path)
    with open(os.path.join(path, spec["name"] + ".sts"), "w", encoding="utf-8") as f:
        f.write(sts(spec))
    for pe, recs in enumerate(spec["pes"]):
        text = "PROJECTIONS-RECORD %d\n" % len(recs) + "".join(line(k, f) + "\n" for k, f in recs)
        with gzip.open(os.path.join(path, "%s.%d.log.gz" % (spec["name"], pe)), "wt", compresslevel=1, encoding="utf-8") as f:
            f.write(text)
    return path


def remove(path):
    for f in os.listdir(path):
        os.unlink(os.path.join(path, f))
    os.rmdir(path)


def expected(spec):
    """{pe: [[time ns (None: the record has none), type, name, attributes or None]]} in recorded order"""
    ent = {k: n for k, n, c in spec["entries"]}
    uev = {int(k): n + " " for k, n in spec["events"].items()}
    ust = {int(k): n + " " for k, n in spec["stats"].items()}
    out = {}
    for pe, recs in enumerate(spec["pes"]):
        rows = []
        for kind, f in recs:
            t = f["t"] * 1000
            place = {"From PE": f.get("pe")}
            if kind.split("_")[-1] in ("IDLE", "PACK", "UNPACK"):
                rows.append([t, "Enter" if kind.startswith("BEGIN") else "Leave", kind.split("_")[1].capitalize(), place])
            elif kind == "USER_SUPPLIED_NOTE":
                rows.append([t, "Instant", "User Supplied Note", {"Note": f["note"] + " "}])
            elif kind == "USER_SUPPLIED_BRACKETED_NOTE":
                a = {"Event ID": f["uid"], "Event Name": uev[f["uid"]], "Note": f["note"] + ' "'}
                rows.append([t, "Enter", "User Supplied Bracketed Note", a])
                rows.append([f["t2"] * 1000, "Leave", "User Supplied Bracketed Note", a])
            elif kind == "USER_SUPPLIED":
                rows.append([None, "Instant", "User Supplied", {"User Supplied": str(f["value"])}])
            elif kind == "MEMORY_USAGE":
                rows.append([t, "Instant", "Memory Usage", {"Memory Usage": f["mem"]}])
            elif kind == "CREATION":
                rows.append([t, "Instant", ent[f["entry"]], {
                    "From PE": f["pe"], "MType": f["mtype"], "Entry Type": "Create", "Message Length": f["len"],
                    "Event ID": f["event"], "Send Time": f["t2"] * 1000}])
            elif kind == "CREATION_MULTICAST":
                rows.append([t, "Instant", ent[f["entry"]], {
                    "From PE": f["pe"], "Message Type": f["mtype"], "Entry Type": "Multicast",
                    "Message Length": f["len"], "Event ID": f["event"], "Send Time": f["t2"] * 1000,
                    "Destinatopn PEs": f["dests"]}])
            elif kind == "BEGIN_PROCESSING":
                rows.append([t, "Enter", ent[f["entry"]], {
                    "From PE": f["pe"], "Message Type": f["mtype"], "Entry Type": "Processing", "Event ID": f["event"],
                    "Message Length": f["len"], "Receive Time": f["recv"], "ID List": f["ids"],
                    "CPU Start Time": f["cpu"], "perf counts list": f["perf"]}])
            elif kind == "END_PROCESSING":
                rows.append([t, "Leave", ent[f["entry"]], None])
            elif kind in ("BEGIN_TRACE", "END_TRACE", "BEGIN_COMPUTATION", "END_COMPUTATION"):
                rows.append([t, "Enter" if kind.startswith("BEGIN") else "Leave", kind.split("_")[1].capitalize(), None])
            elif kind == "MESSAGE_RECV":
                rows.append([t, "Instant", "Message Receive", {
                    "From PE": f["pe"], "Message Type": f["mtype"], "Event ID": f["event"], "Message Length": f["len"]}])
            elif kind in ("ENQUEUE", "DEQUEUE"):
                rows.append([t, "Instant", {"ENQUEUE": "Enque", "DEQUEUE": "Deque"}[kind],
                             {"From PE": f["pe"], "Message Type": f["mtype"], "Event ID": f["event"]}])
            elif kind in ("BEGIN_INTERRUPT", "END_INTERRUPT"):
                rows.append([t, "Enter" if kind.startswith("BEGIN") else "Leave", "Interrupt",
                             {"From PE": f["pe"], "Event ID": f["event"]}])
            elif kind == "USER_EVENT":
                rows.append([t, "Instant", uev[f["uid"]], {"From PE": f["pe"], "Event ID": f["event"],
                                                           "Event Type": "User Event"}])
            elif kind == "USER_EVENT_PAIR":
                rows.append([t, "Instant", uev[f["uid"]], {"From PE": f["pe"], "Event ID": f["event"],
                                                           "Nested ID": f["nest"], "Event Type": "User Event Pair"}])
            elif kind in ("BEGIN_USER_EVENT_PAIR", "END_USER_EVENT_PAIR"):
                rows.append([t, "Enter" if kind.startswith("BEGIN") else "Leave", "User Event Pair", {
                    "From PE": f["pe"], "Event ID": f["event"], "Nested ID": f["nest"],
                    "User Event Name": uev[f["uid"]]}])
            elif kind == "USER_STAT":
                rows.append([t, "Instant", ust[f["sid"]], {"From PE": f["pe"], "User Time": f["t2"] * 1000,
                                                           "Stat": float(f["stat"]), "Event Type": "User Stat"}])
            else:
                raise AssertionError(kind)
        if rows and rows[-1][1:3] != ["Leave", "Computation"]:
            # at the time of the last record that has one
            rows.append([([None] + [r[0] for r in rows if r[0] is not None])[-1], "Leave", "Computation", None])
        if rows:
            out[pe] = rows
    return out


def fill(rng, kind, t, npe, spec):
    """random fields for a record at time t"""
    f = {"t": t}
    for k in FIELDS[kind]:
        if k == "t":
            continue
        if k == "entry":
            f[k] = rng.choice(spec["entries"])[0]
        elif k == "uid":
            f[k] = int(rng.choice(list(spec["events"])))
        elif k == "sid":
            f[k] = int(rng.choice(list(spec["stats"])))
        elif k == "pe":
            f[k] = rng.randrange(npe)
        elif k == "dests":
            f[k] = [rng.randrange(npe) for _ in range(rng.randint(0, 4))]
        elif k == "perf":
            f[k] = [rng.randint(0, 10**6) for _ in range(spec["papi"])]
        elif k == "t2":
            f[k] = t + rng.randint(0, 5)
        elif k == "note":
            f[k] = " ".join(rng.choice(["alpha", "beta", "x=1", "100%", "d\u00e9j\u00e0"]) for _ in range(rng.randint(1, 3)))
        elif k == "stat":
            f[k] = rng.randint(-100, 100) / 4.0 if rng.random() < 0.7 else rng.uniform(-1, 1) * 10 ** rng.randint(-9, 9)
        elif k == "ids":
            pass
        elif k == "value":
            f[k] = rng.randint(-9, 9) * 10 ** rng.choice([0, 0, 5, 17])
        else:
            f[k] = rng.randint(0, 2000) if rng.random() < 0.9 else rng.choice([-1, 2**31 - 1, 2**31, 2**40 + 1, 10**18 + 1])
    if kind == "BEGIN_PROCESSING":
        chare = [c for e, n, c in spec["entries"] if e == f["entry"]][0]
        f["ids"] = [rng.randint(0, 9) for _ in range(spec["chares"][chare][1])]
    return f


CALLS = ["PROCESSING", "IDLE", "PACK", "UNPACK", "TRACE", "INTERRUPT", "USER_EVENT_PAIR"]
SINGLE = ["CREATION", "CREATION_MULTICAST", "ENQUEUE", "DEQUEUE", "MESSAGE_RECV", "USER_EVENT", "MEMORY_USAGE",
          "USER_SUPPLIED_NOTE", "USER_SUPPLIED_BRACKETED_NOTE", "USER_STAT", "USER_EVENT_PAIR", "USER_SUPPLIED"]


def directory(rng, i, tier, max_pes=5, brackets=True, scale=False):
    from vlib import gen

    npe = rng.randint(1, max_pes)
    # now and then more of everything than a byte counts, or more records than 16 bits count
    many = gen.many_of(rng, i, 0.01, ["pes", "entries"]) if scale else None
    large = scale and (i == 45 or i % 5000 == 4999)
    if many == "pes":
        npe = 257 if i == 46 else rng.choice([130, 257])
    names = ["main", "Main(CkArgMsg* m)", "work", "a b c", "f(int, int)", "resume", "x->y", "r\u00e9duction", "\u51fd\u6570()"]
    if rng.random() < 0.2:
        names = list(dict.fromkeys(n for t in rng.sample(gen.TWINS, 2) for n in t if n == " ".join(n.split())))
    chares = [["Ch %d" % k if rng.random() < 0.3 else "Chare%d" % k, rng.randint(0, 4)] for k in range(rng.randint(1, 4))]
    ids = rng.sample(range(40), rng.randint(1, 5))
    if many == "entries":
        ids = rng.sample(range(700), rng.choice([130, 300]))
        names = names + ["e%d(int)" % k for k in range(300)]
    spec = {"name": rng.choice(["prog", "pingpong.prj", "a-b"]), "chares": chares,
            "entries": [[k, rng.choice(names), rng.randrange(len(chares))] for k in ids],
            "events": {str(k): rng.choice(["ev one", "Ev", "e e e", "\u00e9tape 1"]) for k in rng.sample(range(90), 2)},
            "stats": {str(k): rng.choice(["stat", "st at", "\u00b5s"]) for k in rng.sample(range(9), 2)},
            "papi": rng.choice([0, 0, 1, 3]), "pes": []}
    start = rng.choice([2**31, 5 * 10**9, 10**12]) if rng.random() < 0.1 else None
    n = max(1, (70000 if large else 600 if many else gen.size_for(rng, i, tier)) // npe)
    single = [k for k in SINGLE if brackets or "BRACKETED" not in k]
    for pe in range(npe):
        recs, t, stack = [], rng.choice([0, 5, 1000] if start is None else [start, start + 3]), []
        if rng.random() < 0.9:
            recs.append(["BEGIN_COMPUTATION", {"t": t}])
        for _ in range(rng.randint(0, 2 * n)):
            t += rng.choice([0, 0, 1, 2, 7])
            r = rng.random()
            if r < 0.4:
                k = rng.choice(single)
                recs.append([k, fill(rng, k, t, npe, spec)])
            elif stack and (r < 0.7 or len(stack) > 6):
                k, f = stack.pop()
                g = fill(rng, "END_" + k, t, npe, spec)
                for key in ("entry", "uid"):
                    if key in f:
                        g[key] = f[key]
                recs.append(["END_" + k, g])
            else:
                k = rng.choice(CALLS)
                f = fill(rng, "BEGIN_" + k, t, npe, spec)
                stack.append((k, f))
                recs.append(["BEGIN_" + k, f])
        if rng.random() < 0.6:
            while stack:
                k, f = stack.pop()
                t += rng.choice([0, 1])
                g = fill(rng, "END_" + k, t, npe, spec)
                for key in ("entry", "uid"):
                    if key in f:
                        g[key] = f[key]
                recs.append(["END_" + k, g])
            recs.append(["END_COMPUTATION", {"t": t + 1}])
        spec["pes"].append(recs)
    return spec
