import collections
import os
import random

from vlib import fmt_otf2, gen, model
from vlib.core import check
from checks.c16 import calls, plain

ID = "C29"
LEVEL = "exploration"
TECH = "round-trip monitor: definition registry given to the OTF2 writer against the definitions table, with reference resolution"
RULE = ("random OTF2 archives with random further definitions of the 33 kinds the library can write (system trees, call paths, call "
        "sites, topologies, windows, metric instances and recorders, I/O, calling contexts, properties), "
        "random fields, sparse ids, references between kinds; every region, communicator, parameter and attribute reference of an "
        "event is looked up in the table; non-trivial = twelve kinds and an event with a reference")
ASSUME = ["the OTF2 library writes and reads archives correctly", "identifiers are below 2^53"]
N = {"quick": 900, "thorough": 7000}
CAP = {"quick": 40, "thorough": 500}
MIN = {"definitions": 8000, "references": 3000, "event_refs": 1500, "kinds": 2000, "sparse_ids": 40}


def make(rng, i, tier):
    spec = fmt_otf2.archive(rng, i, tier, calls, max_procs=3, metrics=rng.random() < 0.5, instants=0.5)
    spec["extra"] = rng.randrange(10**9) if rng.random() < 0.95 else None
    spec["extras"] = rng.choice([1, 3, 8, 20, 60] if tier == "quick" else [3, 20, 60, 200])
    spec["region_refs"] = rng.choice(["dense", "dense", "gaps"])
    return {"spec": spec, "procs": rng.choice([1, 2, 3, None]), "cct": rng.random() < 0.2}


class Extra:
    """random definitions; keeps the registry for the oracle"""

    def __init__(self, spec):
        self.spec = spec
        self.d = None

    def __call__(self, d, env):
        self.d = d
        self.env = env
        spec = self.spec
        if spec["region_refs"] == "gaps":
            k = 0
            r2 = random.Random(spec["extra"] or 1)
            for r in env["regions"]:
                k += r2.choice([1, 2, 5, 40])
                r._ref = k
        for reg in registries(d):
            if hasattr(reg, "_elements_by_ref"):
                reg._ref = max([reg._ref] + [x._ref for x in reg])  # identifiers may have been set above
        if spec["extra"] is None:
            return
        rng = random.Random(spec["extra"])
        from otf2 import enums as E

        pools = {
            "node": [env["root"]], "group": list(env["groups"]), "region": list(env["regions"]), "loc": list(env["locs"]),
            "locs": [env["g"]], "comm": list(env["comms"]), "class": list(env["plain"]), "pint": [env["pint"]],
            "pstr": [env["pstr"]], "file": [], "iop": [], "ioh": [], "scl": [], "ctx": [], "path": [], "dim": [], "topo": [],
            "member": list(env["members"].values()),
        }

        def name():
            if same:  # fields of one definition that look alike
                return same[0]
            return rng.choice(["n", "x y", "", "n", "größe", "a,b", "Region 3", "None", "n%d" % rng.randrange(1000)])

        def enum(e):
            return getattr(e, rng.choice([k for k in vars(e) if k.isupper() and k != "TYPE"]))

        def val():
            return rng.choice([0, -3, 2**40, 1.5, "text", "", "a b"])

        def pick(k, none=False):
            if none and rng.random() < 0.3:
                return None
            return rng.choice(pools[k])

        def prop(make, what):
            n = "p%d" % len(what._properties)
            make(what, n, value=val())

        same, done = [], set()
        ops = ["node", "nodeprop", "domain", "lgroup", "lgprop", "locprop", "region", "callsite", "path", "pathparam", "groups",
               "member", "class", "instance", "recorder", "comm", "param", "win", "dim", "topo", "coord", "scl", "ctx",
               "ctxprop", "intgen", "par", "parprop", "iop", "iofile", "fileprop", "ioh", "pre", "attr"]
        for _ in range(spec["extras"]):
            op = rng.choice(ops)
            same[:] = [rng.choice(["3", "", "rack", "n"])] if rng.random() < 0.1 else []
            if op == "node":
                pools["node"].append(d.system_tree_node(name(), rng.choice(["rack", "", "node", name()]), pick("node")))
            elif op == "nodeprop":
                prop(d.system_tree_node_property, pick("node"))
            elif op == "domain":
                key = ("dom", pick("node"), enum(E.SystemTreeDomain))
                d.system_tree_node_domain(key[1], key[2])
            elif op == "lgroup":
                d.location_group(name(), E.LocationGroupType.ACCELERATOR, pick("node"), pick("group", True))
            elif op == "lgprop":
                prop(d.location_group_property, pick("group"))
            elif op == "locprop":
                prop(d.location_property, pick("loc"))
            elif op == "region":
                d.region(name(), rng.choice([None, name()]), name(), enum(E.RegionRole), enum(E.Paradigm),
                         enum(E.RegionFlag), rng.choice([None, "f.c", "größe.f90"]), rng.randrange(9999), rng.randrange(9999))
            elif op == "callsite":
                d.callsite(rng.choice([None, "f.c"]), rng.randrange(100), pick("region"), pick("region"))
            elif op == "path":
                up = rng.choice(pools["path"]) if pools["path"] and rng.random() < 0.7 else None
                x = d.callpath(up, pick("region"))
                pools["path"].append(x)
            elif op == "pathparam" and pools["path"]:
                p = pick("path")
                if not p._properties:
                    d.callpath_parameter(p, env["pint"], value=rng.randrange(-5, 50))
            elif op == "groups":
                k = rng.choice(["loc", "region", "rank"])
                flags = enum(E.GroupFlag)
                if k == "rank":
                    m = rng.sample(list(env["g"].members), rng.randint(0, len(env["g"].members)))
                    x = d.group(name(), E.GroupType.COMM_GROUP, E.Paradigm.MPI, flags, tuple(m))
                    pools["locs"].append(x)
                else:
                    m = tuple(rng.choice(pools[k]) for _ in range(rng.randint(0, 4)))
                    t = E.GroupType.LOCATIONS if k == "loc" else E.GroupType.REGIONS
                    d.group(name(), t, enum(E.Paradigm), flags, m)
            elif op == "member":
                x = d.metric_member("mm%d" % rng.randrange(10**6), name(), enum(E.MetricType), enum(E.MetricMode),
                                    rng.choice([E.Type.INT64, E.Type.DOUBLE]), enum(E.Base), rng.randint(-3, 9), name())
                pools["member"].append(x)
            elif op == "class" and pools["member"]:
                ms = rng.sample(pools["member"], rng.randint(1, min(3, len(pools["member"]))))
                pools["class"].append(d.metric_class(tuple(ms), enum(E.MetricOccurrence), enum(E.RecorderKind)))
            elif op == "instance" and pools["class"]:
                d.metric_instance(pick("class"), pick("loc"), scope=rng.choice([pick("loc"), pick("group"), pick("node"), env["g"]]))
            elif op == "recorder" and pools["class"]:
                d.metric_class_recorder(pick("class"), pick("loc"))
            elif op == "comm":
                pools["comm"].append(d.comm(name(), pick("locs"), pick("comm", True), enum(E.CommFlag)))
            elif op == "param":
                d.parameter(name(), enum(E.ParameterType))
            elif op == "win":
                d.rma_win(name(), pick("comm"), enum(E.RmaWinFlag))
            elif op == "dim":
                pools["dim"].append(d.cart_dimension(name(), rng.randint(1, 9), enum(E.CartPeriodicity)))
            elif op == "topo" and pools["dim"]:
                pools["topo"].append(d.cart_topology(name(), pick("comm"),
                                                     tuple(pick("dim") for _ in range(rng.randint(1, 3)))))
            elif op == "coord" and pools["topo"]:
                t = pick("topo")
                d.cart_coordinate(t, rng.randrange(9), tuple(rng.randrange(9) for _ in t.dimensions))
            elif op == "scl":
                n = rng.randrange(99)
                pools["scl"].append(d.source_code_location(str(n) if same else "f%d.c" % rng.randrange(9), n))
            elif op == "ctx":
                s = rng.choice(pools["scl"]) if pools["scl"] and rng.random() < 0.6 else None
                p = rng.choice(pools["ctx"]) if pools["ctx"] and rng.random() < 0.6 else None
                pools["ctx"].append(d.calling_context(pick("region"), s, p))
            elif op == "ctxprop" and pools["ctx"]:
                prop(d.calling_context_property, pick("ctx"))
            elif op == "intgen":
                d.interrupt_generator(name(), enum(E.InterruptGeneratorMode), enum(E.Base), rng.randint(-9, 3), rng.randint(1, 99))
            elif op == "par":
                p = enum(E.Paradigm)
                if ("par", str(p)) not in done:
                    done.add(("par", str(p)))
                    d.paradigm(p, name(), enum(E.ParadigmClass))
            elif op == "parprop":
                p = enum(E.Paradigm)
                if ("pp", str(p)) not in done:
                    done.add(("pp", str(p)))
                    d.paradigm_property(p, E.ParadigmProperty.COMM_NAME_TEMPLATE, value=rng.choice(["${id}", "win"]))
            elif op == "iop":
                pools["iop"].append(d.io_paradigm("id%d" % len(pools["iop"]), name(), enum(E.IoParadigmClass),
                                                  enum(E.IoParadigmFlag)))
            elif op == "iofile":
                mk = d.io_regular_file if rng.random() < 0.6 else d.io_directory
                pools["file"].append(mk("/data/%d" % rng.randrange(99), pick("node")))
            elif op == "fileprop" and pools["file"]:
                prop(d.io_file_property, pick("file"))
            elif op == "ioh" and pools["file"] and pools["iop"]:
                up = rng.choice(pools["ioh"]) if pools["ioh"] and rng.random() < 0.4 else None
                pools["ioh"].append(d.io_handle(name(), pick("file"), pick("iop"), enum(E.IoHandleFlag), pick("comm", True), up))
            elif op == "pre" and pools["ioh"]:
                d.io_pre_created_handle_state(pick("ioh"), enum(E.IoAccessMode), enum(E.IoStatusFlag))
            elif op == "attr":
                d.attribute(name(), name(), rng.choice([E.Type.INT64, E.Type.STRING]))


def show(x):
    from otf2 import definitions as D

    if isinstance(x, D._RefDefinition):
        return "%s %d" % (type(x).__name__, x._ref)
    if isinstance(x, (tuple, list)):
        return [show(v) for v in x]
    if type(x).__module__.startswith(("otf2", "_otf2")):
        return str(x)
    return x


def registries(d):
    """all registries of the writer: those whose elements are definitions"""
    out = []
    for k, v in vars(d).items():
        if k.startswith("_") and hasattr(v, "_definition_registry"):
            out.append(v)
    return out


def run(case, obs):
    from pipit import Trace

    spec = case["spec"]
    extra = Extra(spec)
    path = os.path.join(obs.scratch, "t")
    try:
        fmt_otf2.write(path, dict(spec, more=extra))
        t = obs.call("from_otf2", Trace.from_otf2, path, case["procs"], case["cct"])
    finally:
        fmt_otf2.remove(path)
    d = extra.d
    want = []
    for reg in registries(d):
        for x in reg:
            f = {n.name: show(getattr(x, n.name)) for n in x._fields}
            ref = getattr(x, "_ref", None)
            if type(x).__name__ == "Location":
                k = [k for k, l in enumerate(extra.env["locs"]) if l is x][0]
                f["number_of_events"] = len(spec["locs"][k]["ev"])
            want.append((type(x).__name__, ref, list(f.values())[0] if len(f) == 1 else f))
    df = t.definitions
    check(df is not None, "no definitions table")
    got = []
    clock = None
    cols = [df[c].tolist() for c in ("Definition Type", "ID", "Attributes")]
    for k, i, a in zip(*cols):
        i = None if model.isnull(i) else int(i)
        if k == "ClockProperties":
            check(clock is None, "clock properties listed twice")
            check(i is None, "clock properties with an identifier", i)
            clock = a
        else:
            got.append((k, i, plain(a)))
    check(clock is not None, "no clock properties")
    check(clock["timer_resolution"] == spec["res"], "timer resolution", clock, "recorded", spec["res"])
    check(clock["global_offset"] == fmt_otf2.offset(spec), "global offset", clock, "recorded", fmt_otf2.offset(spec))
    a, b = collections.Counter(map(repr, got)), collections.Counter(map(repr, want))
    if a != b:
        miss, more = list((b - a))[:3], list((a - b))[:3]
        check(False, "definitions differ", "recorded, not listed:", miss, "listed, not recorded:", more)
    # every reference resolves, to the definition meant (the kind and number were
    # compared above; here: it is in the table exactly once)
    listed = collections.Counter((k, i) for k, i, _ in got if i is not None)
    check(all(v == 1 for v in listed.values()), "identifier listed twice", [k for k, v in listed.items() if v > 1][:3])
    kinds = {type(x).__name__ for reg in registries(d) for x in reg}

    from otf2 import definitions as D

    def walk(x, where):
        if isinstance(x, D._RefDefinition):
            obs.count("references")
            check(listed[(type(x).__name__, x._ref)] == 1, "reference of %s to nothing" % where, show(x))
        elif isinstance(x, (tuple, list)):
            for v in x:
                walk(v, where)

    for reg in registries(d):
        for x in reg:
            for n in x._fields:
                walk(getattr(x, n.name), type(x).__name__)
    regions = {i: a["name"] for k, i, a in got if k == "Region"}
    ev = t.events
    # events: the reference in the attributes, looked up in the table
    refs = {"region": [r._ref for r in extra.env["regions"]], "comm": [c._ref for c in extra.env["comms"]]}
    names, attrs = ev["Name"].tolist(), ev["Attributes"].tolist()
    types = ev["Event Type"].tolist()
    nref = 0
    for k in range(len(ev)):
        x = attrs[k]
        if not isinstance(x, dict):
            continue
        for f, v in list(x.items()) + [(None, q) for q in (x.get("attributes") or {})]:
            if isinstance(v, str) and v.split(" ")[0] in kinds and f not in ("string", "program_name"):
                kind, _, num = v.rpartition(" ")
                check(num.isdigit() and listed[(kind, int(num))] == 1, "reference of an event to nothing", names[k], v)
                nref += 1
                if f == "region":
                    check(types[k] == "Enter", "a region of an event that is no call", names[k])
                    check(regions[int(num)] == names[k], "region of a call", v, regions[int(num)], "name", names[k])
                    check(int(num) in refs["region"], "region of a call", v)
                if f == "communicator":
                    check(int(num) in refs["comm"], "communicator of an event", v)
    # exact references, event by event
    exp = fmt_otf2.expected(spec)
    rows = {}
    procs, ths = ev["Process"].tolist(), ev["Thread"].tolist()
    for k in range(len(ev)):
        rows.setdefault((int(procs[k]), int(ths[k])), []).append(k)
    check(set(rows) == set(exp), "processes and threads", sorted(rows), sorted(exp))
    amap = {}
    for n in range(len(spec["attrs"])):
        amap["Attribute %d" % n] = n
    for loc, ks in rows.items():
        check(len(ks) == len(exp[loc]), "events of", loc)
        for k, r in zip(ks, exp[loc]):
            if r[3] is None:
                continue
            for f in ("region", "communicator"):
                if f in r[3]:
                    n = int(r[3][f].split(" ")[1])
                    w = "%s %d" % (r[3][f].split(" ")[0], refs["region" if f == "region" else "comm"][n])
                    check(attrs[k].get(f) == w, "reference of an event", names[k], attrs[k].get(f), "recorded", w)
    obs.count("event_refs", nref)
    obs.count("definitions", len(got))
    obs.count("kinds", len(kinds))
    obs.count("sparse_ids", spec["region_refs"] == "gaps")
    obs.state(tuple(sorted(collections.Counter(k for k, _, _ in got).items())))
    obs.nontrivial = len(kinds) >= 12 and nref > 0
