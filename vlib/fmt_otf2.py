"""OTF2 archives, written with the writer of the OTF2 library from a JSON spec, and
what the spec says pipit has to load.

spec: {"res": ticks per second, "offset": recorded global offset or None,
       "groups": [{"ref", "name"}], "regions": [name], "metrics": [class: [member name]],
       "member_refs": [...], "attrs": [[name, type]],
       "locs": [{"group": index, "ref", "type", "ev": [[t, kind, args, attributes]]}]}
"""
import json
import os

# kind -> (writer method, [(argument, kind of argument)])
KINDS = {
    "Enter": ("enter", [("region", "region")]),
    "Leave": ("leave", [("region", "region")]),
    "MpiSend": ("mpi_send", [("receiver", "int"), ("communicator", "comm"), ("msg_tag", "int"), ("msg_length", "int")]),
    "MpiIsend": ("mpi_isend", [("receiver", "int"), ("communicator", "comm"), ("msg_tag", "int"), ("msg_length", "int"),
                               ("request_id", "int")]),
    "MpiIsendComplete": ("mpi_isend_complete", [("request_id", "int")]),
    "MpiIrecvRequest": ("mpi_irecv_request", [("request_id", "int")]),
    "MpiRecv": ("mpi_recv", [("sender", "int"), ("communicator", "comm"), ("msg_tag", "int"), ("msg_length", "int")]),
    "MpiIrecv": ("mpi_irecv", [("sender", "int"), ("communicator", "comm"), ("msg_tag", "int"), ("msg_length", "int"),
                               ("request_id", "int")]),
    "MpiRequestTest": ("mpi_request_test", [("request_id", "int")]),
    "MpiCollectiveBegin": ("mpi_collective_begin", []),
    "MpiCollectiveEnd": ("mpi_collective_end", [("collective_op", "collop"), ("communicator", "comm"), ("root", "int"),
                                                ("size_sent", "int"), ("size_received", "int")]),
    "OmpFork": ("omp_fork", [("number_of_requested_threads", "int")]),
    "OmpJoin": ("omp_join", []),
    "OmpTaskCreate": ("omp_task_create", [("task_id", "int")]),
    "ThreadFork": ("thread_fork", [("model", "paradigm"), ("number_of_requested_threads", "int")]),
    "ThreadTeamBegin": ("thread_team_begin", [("thread_team", "comm")]),
    "ParameterInt": ("parameter_int", [("parameter", "pint"), ("value", "int")]),
    "ParameterString": ("parameter_string", [("parameter", "pstr"), ("string", "str")]),
    "ProgramBegin": ("program_begin", [("program_name", "str"), ("program_arguments", "strs")]),
    "ProgramEnd": ("program_end", [("exit_status", "int")]),
    "BufferFlush": ("buffer_flush", [("stop_time", "int")]),
    "MeasurementOnOff": ("measurement_on_off", [("measurement_mode", "mode")]),
    "MpiRequestCancelled": ("mpi_request_cancelled", [("request_id", "int")]),
    "MpiProbe": ("mpi_probe", [("sender", "int"), ("communicator", "comm"), ("tag", "int"), ("message_id", "int")]),
    "MpiMrecv": ("mpi_mrecv", [("message_id", "int"), ("msg_length", "int")]),
    "MpiImrecv": ("mpi_imrecv", [("request_id", "int"), ("msg_length", "int")]),
    "NonBlockingCollectiveRequest": ("non_blocking_collective_request", [("request_id", "int")]),
    "NonBlockingCollectiveComplete": ("non_blocking_collective_complete", [
        ("collective_op", "collop"), ("communicator", "comm"), ("root", "int"), ("size_sent", "int"),
        ("size_received", "int"), ("request_id", "int")]),
    "CommCreate": ("comm_create", [("communicator", "comm")]),
    "OmpAcquireLock": ("omp_acquire_lock", [("lock_id", "int"), ("acquisition_order", "int")]),
    "OmpTaskSwitch": ("omp_task_switch", [("task_id", "int")]),
    "ThreadJoin": ("thread_join", [("model", "paradigm")]),
    "ThreadTaskCreate": ("thread_task_create", [("thread_team", "comm"), ("creating_thread", "int"),
                                                ("generation_number", "int")]),
    "ThreadBegin": ("thread_begin", [("thread_contingent", "comm"), ("sequence_count", "int")]),
    "ParameterUnsignedInt": ("parameter_unsigned_int", [("parameter", "puint"), ("value", "uint")]),
    "RmaWinCreate": ("rma_win_create", [("win", "win")]),
    "RmaCollectiveEnd": ("rma_collective_end", [("collective_op", "collop"), ("sync_level", "sync"), ("win", "win"),
                                                ("root", "int"), ("bytes_sent", "int"), ("bytes_received", "int")]),
    "RmaAcquireLock": ("rma_acquire_lock", [("win", "win"), ("remote", "int"), ("lock_id", "int"), ("lock_type", "lock")]),
    "RmaPut": ("rma_put", [("win", "win"), ("remote", "int"), ("bytes", "int"), ("matching_id", "int")]),
    "RmaGet": ("rma_get", [("win", "win"), ("remote", "int"), ("bytes", "int"), ("matching_id", "int")]),
    "IoSeek": ("io_seek", [("handle", "ioh"), ("offset_request", "int"), ("whence", "whence"), ("offset_result", "int")]),
    "IoDeleteFile": ("io_delete_file", [("io_paradigm", "iop"), ("file", "file")]),
    "IoOperationComplete": ("io_operation_complete", [("handle", "ioh"), ("bytes_result", "int"), ("matching_id", "int")]),
    "IoTryLock": ("io_try_lock", [("handle", "ioh"), ("lock_type", "lock")]),
}
# definitions only some kinds refer to: they are written when one is used
RMA = [k for k in KINDS if k.startswith("Rma")]
IO = [k for k in KINDS if k.startswith("Io")]
INSTANTS = [k for k in KINDS if k not in ("Enter", "Leave")]
NUMS = {"INT64": int, "UINT64": int, "DOUBLE": float, "INT32": int}


def write(path, spec):
    import otf2
    from otf2.enums import (CollectiveOp, GroupFlag, GroupType, IoHandleFlag, IoParadigmClass, IoParadigmFlag,
                            IoSeekOption, LocationType, LockType, MeasurementMode, MetricOccurrence, MetricMode,
                            MetricScope, MetricType, Paradigm, ParameterType, RmaSyncLevel, Type)

    with otf2.writer.open(path, timer_resolution=spec["res"]) as w:
        d = w.definitions
        root = d.system_tree_node("node", "machine")
        groups = []
        for k, g in enumerate(spec["groups"]):
            x = d.location_group(g["name"], system_tree_parent=root)
            x._ref = g["ref"]
            groups.append(x)
        regions = []
        for k, r in enumerate(spec["regions"]):
            # equal names stay different regions; compilers record mangled names besides
            x = d.region(r, "_Z%d%s" % (len(r), r), "about " + r, begin_line_number=k + 1)
            regions.append(x)
        members, classes = {}, []
        refs = list(spec.get("member_refs") or [])
        for cls in spec.get("metrics", []):
            ms = []
            for m in cls:
                if m[0] not in members:
                    x = d.metric_member(m[0], "", MetricType.OTHER, MetricMode.ACCUMULATED_START,
                                        getattr(Type, m[1]))
                    if refs:
                        x._ref = refs.pop(0)
                    members[m[0]] = x
                ms.append(members[m[0]])
            x = d.metric_class(tuple(ms), MetricOccurrence.SYNCHRONOUS)
            classes.append(x)
        plain = list(classes)  # for definitions that refer to classes
        attrs = [d.attribute(n, "", getattr(Type, t)) for n, t in spec.get("attrs", [])]
        locs = []
        for k, l in enumerate(spec["locs"]):
            x = d.location("loc %d" % k, group=groups[l["group"]], type=getattr(LocationType, l["type"]))
            x._ref = l["ref"]
            locs.append(x)
        for k in spec.get("instances") or []:  # samples are recorded with an instance of the class
            classes[k] = d.metric_instance(classes[k], recorder=locs[0], metric_scope=MetricScope.LOCATION, scope=locs[0])
        firsts = {}
        for l, x in zip(spec["locs"], locs):
            firsts.setdefault(l["group"], x)
        d.group("MPI locations", GroupType.COMM_LOCATIONS, Paradigm.MPI, GroupFlag.NONE,
                tuple(firsts[k] for k in sorted(firsts)))
        g = d.group("world", GroupType.COMM_GROUP, Paradigm.MPI, GroupFlag.NONE,
                    tuple(firsts[k] for k in sorted(firsts)))
        if spec.get("comms"):
            # each: the positions of its members among the location groups, None for one of each process alone
            comms = []
            for k, ranks in enumerate(spec["comms"]):
                kind = GroupType.COMM_SELF if ranks is None else GroupType.COMM_GROUP
                x = d.group("members %d" % k, kind, Paradigm.MPI, GroupFlag.NONE, tuple(firsts[r] for r in ranks or ()))
                comms.append(d.comm("comm %d" % k, x))
        else:
            comms = [d.comm("comm %d" % k, g) for k in range(3)]
        pint, pstr = d.parameter("pi", ParameterType.INT64), d.parameter("ps", ParameterType.STRING)
        used = {e[1] for l in spec["locs"] for e in l["ev"]}
        puint = d.parameter("pu", ParameterType.UINT64) if "ParameterUnsignedInt" in used else None
        win = d.rma_win("window", comms[0]) if used & set(RMA) else None
        iop = iof = ioh = None
        if used & set(IO):
            iop = d.io_paradigm("POSIX", "POSIX I/O", IoParadigmClass.SERIAL, IoParadigmFlag.NONE)
            iof = d.io_regular_file("/tmp/some file", scope=root)
            ioh = d.io_handle("handle", iof, iop, IoHandleFlag.NONE)
        if spec.get("more"):
            spec["more"](d, locals())
        conv = {
            "region": lambda v: regions[v], "int": int, "comm": lambda v: comms[v],
            "collop": lambda v: getattr(CollectiveOp, v), "paradigm": lambda v: getattr(Paradigm, v),
            "pint": lambda v: pint, "pstr": lambda v: pstr, "str": str, "strs": list,
            "mode": lambda v: getattr(MeasurementMode, v), "uint": int, "puint": lambda v: puint, "win": lambda v: win,
            "sync": lambda v: getattr(RmaSyncLevel, v), "lock": lambda v: getattr(LockType, v),
            "whence": lambda v: getattr(IoSeekOption, v), "ioh": lambda v: ioh, "iop": lambda v: iop, "file": lambda v: iof,
        }
        for l, x in zip(spec["locs"], locs):
            ew = w.event_writer_from_location(x)
            for t, kind, args, al in l["ev"]:
                if kind == "Metric":
                    ew.metric(t, classes[args[0]], args[1])
                    continue
                name, sig = KINDS[kind]
                kw = {a: conv[k](v) for (a, k), v in zip(sig, args)}
                if al:
                    kw["attributes"] = {attrs[n]: v for n, v in al}
                getattr(ew, name)(t, **kw)
        if spec.get("offset") is not None:
            w._first_timestamp = spec["offset"]
            if w._last_timestamp is None:
                w._last_timestamp = spec["offset"]
            w._realtime_timestamp = 1.0
    return path


def offset(spec):
    if spec.get("offset") is not None:
        return spec["offset"]
    ts = [e[0] for l in spec["locs"] for e in l["ev"]]
    return min(ts) if ts else 0


def threads(spec):
    """thread number of every location: dense within its process, by location id"""
    out = {}
    for g in range(len(spec["groups"])):
        refs = sorted(l["ref"] for l in spec["locs"] if l["group"] == g and l["type"] == "CPU_THREAD")
        out.update({(g, r): k for k, r in enumerate(refs)})
    return out


def attributes(spec, kind, args, al):
    """what the Attributes column has to hold"""
    if kind == "Leave":
        return None
    show = {
        "region": lambda v: "Region %d" % v, "int": int, "comm": lambda v: "Comm %d" % v,
        "collop": lambda v: "CollectiveOp." + v, "paradigm": lambda v: "Paradigm." + v,
        "pint": lambda v: "Parameter 0", "pstr": lambda v: "Parameter 1", "str": str, "strs": list,
        "mode": lambda v: "MeasurementMode." + v, "uint": int, "puint": lambda v: "Parameter 2",
        "win": lambda v: "RmaWin 0", "sync": lambda v: "RmaSyncLevel." + v, "lock": lambda v: "LockType." + v,
        "whence": lambda v: "IoSeekOption." + v, "ioh": lambda v: "IoHandle 0", "iop": lambda v: "IoParadigm 0",
        "file": lambda v: "IoRegularFile 0",
    }
    d = {a: show[k](v) for (a, k), v in zip(KINDS[kind][1], args)}
    if al:
        d["attributes"] = {"Attribute %d" % n: v for n, v in al}
    return d


def expected(spec):
    """{(process, thread): [[time, type, name, attributes, {metric: value}]]} in order"""
    off, scale = offset(spec), 1e9 / spec["res"]
    th = threads(spec)
    out = {}
    for l in spec["locs"]:
        if l["type"] != "CPU_THREAD":
            continue
        key = (spec["groups"][l["group"]]["ref"], th[(l["group"], l["ref"])])
        rows = []
        pending = {}
        ptime = None
        for t, kind, args, al in l["ev"]:
            if kind == "Metric":
                if ptime != t:
                    pending = {}
                ptime = t
                for m, v in zip(spec["metrics"][args[0]], args[1]):
                    pending[m[0]] = v
                continue
            vals = pending if ptime == t else {}
            pending, ptime = {}, None
            if kind in ("Enter", "Leave"):
                typ, name = kind, spec["regions"][args[0]]
            else:
                typ, name = "Instant", kind
            rows.append([(t - off) * scale, typ, name, attributes(spec, kind, args, al), vals])
        if rows:
            out[key] = rows
    return out


def random_args(rng, kind, nproc, nreg):
    out = []
    for a, k in KINDS[kind][1]:
        if k == "int":
            if a in ("receiver", "sender", "root"):
                out.append(rng.randrange(nproc))
            elif a in ("msg_length", "size_sent", "size_received"):
                out.append(rng.choice([0, 1, 8, 4096, 2**31, 2**40]))
            elif a == "value":
                out.append(rng.choice([-5, 0, 7, 2**40]))
            elif a == "exit_status":
                out.append(rng.choice([0, 1, -1]))
            else:
                out.append(rng.randint(0, 1000))
        elif k == "region":
            out.append(rng.randrange(nreg))
        elif k == "comm":
            out.append(rng.randrange(3))
        elif k == "collop":
            out.append(rng.choice(["BARRIER", "BCAST", "ALLREDUCE"]))
        elif k == "paradigm":
            out.append(rng.choice(["OPENMP", "PTHREAD"]))
        elif k == "uint":
            out.append(rng.choice([0, 1, 2**63, 2**64 - 1]))
        elif k == "sync":
            out.append(rng.choice(["NONE", "PROCESS", "MEMORY"]))
        elif k == "lock":
            out.append(rng.choice(["EXCLUSIVE", "SHARED"]))
        elif k == "whence":
            out.append(rng.choice(["FROM_START", "FROM_END", "DATA"]))
        elif k in ("pint", "pstr", "puint", "win", "ioh", "iop", "file"):
            out.append(0)
        elif k == "str":
            out.append(rng.choice(["prog", "a b", "x"]))
        elif k == "strs":
            out.append([rng.choice(["-n", "4", ""]) for _ in range(rng.randint(0, 3))])
        elif k == "mode":
            out.append(rng.choice(["ON", "OFF"]))
    return out


def archive(rng, i, tier, calls, max_procs=4, metrics=False, sparse=None, hostile=True, resolutions=None,
            instants=0.2, attrs=True, gpu=True, scale=False):
    """A random archive spec. calls(rng, names, n, start) -> [[ts, type, name]] gives
    the calls of one location."""
    from vlib import gen

    names = [n for n in gen.pick_names(rng, hostile) if "\0" not in n]
    regs = list(names) + ["ghost"]
    if rng.random() < 0.2:
        regs.append(regs[0])  # another region of the same name
    np_ = rng.randint(1, max_procs)
    # now and then more of everything than a byte counts, or more events than 16 bits count
    many = gen.many_of(rng, i, 0.01, ["procs", "threads", "regions"]) if scale else None
    large = scale and (i == 45 or i % 5000 == 4999)
    if many == "procs":
        np_ = 300 if i == 46 else rng.choice([130, 257, 300])
    elif many == "regions":
        names = names + ["fn%d" % k for k in range(rng.choice([130, 257, 300]))]
        regs = list(names) + ["ghost"]
    style = rng.choice(["dense", "scorep", "sparse"]) if sparse is None else sparse
    groups = [{"ref": g, "name": "MPI Rank %d" % g} for g in range(np_)]
    if style == "sparse" and rng.random() < 0.3:
        for g, r in zip(groups, sorted(rng.sample(range(50 + 2 * np_), np_))):
            g["ref"] = r
    res = rng.choice(resolutions or [1, 1000, 10**6, 10**9, 10**9, 2 * 10**9, 1999999999, 3 * 10**6, 3 * 10**9, 2394230000])
    start = rng.choice([0, 1, 1000, 10**6, 10**12, 17 * 10**17])
    mets, refs = [], None
    if metrics:
        pool = ["PAPI_TOT_INS", "PAPI_L2_DCM", "m x", "energy", "ru", "w1", "w2", "w3", "w4", "w5", "w6", "w7"]
        typ = {m: rng.choice(["INT64", "UINT64", "DOUBLE"]) for m in pool}
        for _ in range(rng.randint(1, 3)):
            mets.append([[m, typ[m]] for m in rng.sample(pool, rng.randint(1, 4))])
        n = len({m[0] for c in mets for m in c})
        if rng.random() < 0.5:
            refs = sorted(rng.sample(range(30), n)) if rng.random() < 0.7 else list(range(8, 8 + n))
    # counters beyond single precision; those beyond double precision only if every event has a value
    big = rng.random()
    full = big > 0.93
    top = 10**6 if big < 0.7 else 2**62 if full else 2**53 - 1
    inst = [k for k in range(len(mets)) if rng.random() < 0.2]
    atts = [["a%d" % k, rng.choice(["INT64", "DOUBLE", "STRING"])] for k in range(rng.randint(0, 2))] if attrs else []
    locs, nextref = [], 0
    for g in range(np_):
        nt = rng.choice([1, 1, 2, 3]) if rng.random() < 0.6 else 1
        if many == "threads" and g == 0:
            nt = 257 if i == 47 else rng.choice([130, 257])
        for t in range(nt):
            ref = {"dense": nextref, "scorep": (t << 32) | g, "sparse": nextref}[style]
            nextref += rng.choice([1, 1, 3, 7]) if style == "sparse" else 1
            typ = "CPU_THREAD"
            if gpu and t > 0 and rng.random() < 0.15:
                typ = rng.choice(["GPU", "METRIC"])
            locs.append({"group": g, "ref": ref, "type": typ, "ev": []})
    if rng.random() < 0.3:
        rng.shuffle(locs)
    n = 68000 if large else 600 if many else gen.size_for(rng, i, tier)
    for l in locs:
        if rng.random() < 0.08 and len(locs) > 1:
            continue  # a location that recorded nothing
        k = max(1, n // len(locs))
        evs = calls(rng, names, k, start)
        last = None
        for t, typ, name in evs:
            if mets and last is not None and t > last + 1 and l["type"] == "CPU_THREAD" and rng.random() < 0.1:
                # a sample on its own between two events
                c = rng.randrange(len(mets))
                l["ev"].append([rng.randint(last + 1, t - 1), "Metric", [c, [2.5 if m[1] == "DOUBLE" else 2 for m in mets[c]]], None])
            if mets and (full or rng.random() < 0.5) and l["type"] == "CPU_THREAD":
                for c in range(len(mets)) if full else rng.sample(range(len(mets)), rng.randint(1, len(mets))):
                    vals = [(float(rng.randint(0, 1000)) / 4 if big < 0.7 else rng.uniform(-1e9, 1e9)) if m[1] == "DOUBLE" else
                            rng.randint(0, top) if m[1] == "UINT64" else rng.randint(-top, top) for m in mets[c]]
                    l["ev"].append([t, "Metric", [c, vals], None])
            al = [[a, {"INT64": rng.randint(-9, 9), "DOUBLE": rng.randint(-9, 9) / 2, "STRING": rng.choice(["s", "t u"])}[
                atts[a][1]]] for a in range(len(atts)) if rng.random() < 0.3]
            if typ == "Instant" or not full and rng.random() < instants / 3:
                if typ != "Instant":
                    l["ev"].append([t, typ, [rng.choice([r for r in range(len(regs)) if regs[r] == name])], al])
                    al = []
                kind = rng.choice(INSTANTS)
                args = random_args(rng, kind, np_, len(regs))
                if kind == "BufferFlush":
                    args = [t + 5]
                l["ev"].append([t, kind, args, al])
            else:
                l["ev"].append([t, typ, [rng.choice([r for r in range(len(regs)) if regs[r] == name])], al])
            last = t
        if mets and last is not None and rng.random() < 0.2 and l["type"] == "CPU_THREAD":
            # a sample after the last event
            c = rng.randrange(len(mets))
            l["ev"].append([last + 3, "Metric", [c, [1.5 if m[1] == "DOUBLE" else 1 for m in mets[c]]], None])
    ts = [e[0] for l in locs for e in l["ev"]]
    off = None
    if ts and rng.random() < 0.4:
        off = max(0, min(ts) - rng.choice([0, 1, 1000, 10**6]))
    return {"res": res, "offset": off, "groups": groups, "regions": regs, "metrics": mets, "member_refs": refs,
            "instances": inst, "full": full, "attrs": atts, "locs": locs}


def remove(path):
    """removes an archive written by write(), file by file"""
    for base, dirs, files in os.walk(path, topdown=False):
        for f in files:
            os.unlink(os.path.join(base, f))
        os.rmdir(base)


def dumps(spec):
    return json.dumps(spec)
