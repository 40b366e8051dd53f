from vlib import gen, model
from vlib.core import check

ID = "C08"
LEVEL = "exploration"
TECH = "monitor of idle-time tables over call sequences against a model without history"
RULE = ("random call histories rich in idle and waiting calls; sequences of queries with the default and with own "
        "function lists, with and without waiting MPI calls; non-trivial = a non-zero idle time and a repeated query")
ASSUME = ["rows ordered by time, row labels 0..n-1, as every reader produces",
          "nested idle calls each count with their full duration"]
N = {"quick": 2400, "thorough": 30000}
CAP = {"quick": 40, "thorough": 400}
MIN = {"idle_values": 1000, "nonzero_idle": 300, "mpi_queries": 200, "default_queries": 200}
NEAR = ["MPI_Waitany", "MPI_Recv_init", "PMPI_Wait", "Idle time", "idle", " Idle", "Sleeping", "MPI_Sendrecv", "MPI_Send"]
WAITS = ["MPI_Wait", "MPI_Waitall", "MPI_Recv"]


def make(rng, i, tier):
    spec = gen.trace(rng, i, tier, ("nested", "nested", "open", "orphan", "overlap"), wide=0.02, large=True, hostile=False)
    # rename so that idle functions are frequent
    names = sorted({e[2] for e in spec["ev"]})
    to = {n: rng.choice(["Idle", "MPI_Wait", "MPI_Recv", "MPI_Waitall", "Sleep", n, n] + (NEAR if rng.random() < 0.5 else [])) for n in names}
    for e in spec["ev"]:
        e[2] = to[e[2]]
    q = []
    for _ in range(rng.randint(2, 5)):
        fl = rng.choice([None, None, ["Idle"], ["Sleep"], ["Idle", "Sleep", "MPI_Send"], [], ["MPI_Recv", "Idle"]])
        q.append([fl, rng.random() < 0.4, rng.random() < 0.25])
    return {"spec": spec, "queries": q}


def run(case, obs):
    spec = case["spec"]
    ev, th = spec["ev"], spec["thread"]
    t = obs.call("Trace", gen.build, spec)
    shared = {}
    m = model.match(ev, th)
    dur = model.inclusive([e[0] for e in ev], ev, m)
    nz = 0
    for fl, mpi, keep in case["queries"]:
        if fl is None:
            r = obs.call("idle_time(mpi=%s)" % mpi, t.idle_time, mpi_events=mpi) if mpi else obs.call("idle_time()", t.idle_time)
            funcs = ["Idle"]
            obs.count("default_queries")
        else:
            # sometimes the caller reuses one list object for several queries
            arg = shared.setdefault(tuple(fl), list(fl)) if keep else list(fl)
            r = obs.call("idle_time(%s,mpi=%s)" % (fl, mpi), t.idle_time, arg, mpi_events=mpi)
            check(arg == fl, "the caller's list of idle functions was changed", fl, arg)
            funcs = fl
        funcs = set(funcs) | (set(WAITS) if mpi else set())
        obs.count("mpi_queries", mpi)
        want = {e[3]: 0 for e in ev}
        for i, d in dur.items():
            if ev[i][2] in funcs:
                want[ev[i][3]] += d
        got = {}
        for p, v in zip(r["Process"].tolist(), r["Idle Time"].tolist()):
            check(p not in got, "process listed twice", p)
            got[p] = v
        check(set(got) == set(want), "processes in the table", sorted(got), sorted(want))
        for p in want:
            check(model.close(got[p], want[p], want[p]), "idle time of process %s for %s" % (p, sorted(funcs)),
                  got[p], "expected", want[p])
            nz += want[p] != 0
            obs.count("idle_values")
    obs.count("nonzero_idle", nz)
    obs.state(tuple(map(str, case["queries"])))
    obs.nontrivial = nz > 0
