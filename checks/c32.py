import json
import os
import shutil
import signal
import subprocess
import sys

from vlib import core, fmt_csv, fmt_hpct, fmt_nsight, fmt_otf2, fmt_proj, gen
from vlib.core import check
from checks import c22
from checks.c16 import calls

ID = "C32"
LEVEL = "exploration"
TECH = "differential monitor: one program over the same inputs in different surroundings, everything it sees compared"
RULE = ("random traces of all five formats, loaded and analysed by one program in a plain surrounding and in random others: hash "
        "seeds, working directories, ways to write the path, names of directories, other files beside the trace and their order, "
        "processor counts, start methods of workers, optimisation levels, locale, time zone, threads, garbage collection, "
        "pandas and numpy settings; non-trivial = two inputs with events")
ASSUME = ["results are compared in full, also the order of rows and columns",
          "programs that start workers by spawning protect their main module, as Python asks for"]
N = {"quick": 40, "thorough": 700}
CAP = {"quick": 60, "thorough": 500}
MIN = {"surroundings": 60, "components": 2000, "events": 1000}
WATCHDOG = 240
FORMATS = ["csv", "otf2", "projections", "nsight", "hpctoolkit"]
# text files have another encoding than UTF-8, as in locales like de_DE.ISO-8859-1 (none of which is installed here)
ASCII = {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
DIRS = ["t", "a b", "x[1]", "100%s", "{0}", "q?*", "t.sts", "it's", "#1", "\u00e9t\u00e9", "-d", ".t", "$HOME", "traces.otf2",
        "t.log.gz", "very_" * 30]


def surrounding(rng):
    """one or several things different"""
    s = {}
    kinds = ["hash", "cwd", "path", "dir", "extra", "cpus", "start", "opt", "env", "thread", "gc", "pandas", "numpy",
             "seed", "umask", "affinity", "order"]
    for k in rng.sample(kinds, rng.choice([1, 2, 3, 6])):
        s[k] = {"hash": lambda: rng.choice([1, 2, 3, 4, 5, 6, 7, 1234, 99999]), "cwd": lambda: rng.choice(["parent", "other", "inside"]),
                "path": lambda: rng.choice(["relative", "dots", "slash", "link", "twice"]), "dir": lambda: rng.choice(DIRS),
                "extra": lambda: True, "cpus": lambda: rng.choice([1, 2, 3, 7, 12]), "start": lambda: rng.choice(["spawn", "forkserver"]),
                "opt": lambda: 1, "thread": lambda: True, "gc": lambda: rng.choice(["off", "often"]),
                "env": lambda: rng.choice([{"TZ": "Asia/Tokyo"}, {"TZ": "America/New_York"}, {"LC_ALL": "C"}, {"LANG": "C", "LC_ALL": "POSIX"},
                                           {"LC_ALL": "C.UTF-8"}, dict(ASCII), dict(ASCII), dict(ASCII), dict(ASCII), {"COLUMNS": "20"}, {"HOME": "/nonexistent"}]),
                "pandas": lambda: rng.choice([{"mode.copy_on_write": True}, {"display.precision": 2, "display.max_rows": 4},
                                              {"mode.chained_assignment": None}, {"compute.use_bottleneck": False, "compute.use_numexpr": False}]),
                "numpy": lambda: True, "seed": lambda: rng.randint(0, 99), "umask": lambda: rng.choice([0, 0o077]),
                "affinity": lambda: rng.choice([1, 2]), "order": lambda: True}[k]()
    if s.get("env") == ASCII and not s.get("dir", "t").isascii():
        s["dir"] = "t"  # file names are ASCII there, too
    return s


def make(rng, i, tier):
    jobs = []
    for fmt in rng.sample(FORMATS, 3):
        if fmt == "csv":
            spec = gen.trace(rng, i + 30, tier, ("nested", "open", "orphan"), hostile=False, clocks=["ties", "small", "strict", "float"],
                             total=rng.randint(2, 60))
            for e in spec["ev"]:
                e[2] = "gr\u00f6\u00dfe" if e[2] in ("main", "foo") else e[2]
        elif fmt == "otf2":
            spec = fmt_otf2.archive(rng, min(i + 30, 190), tier, calls)
        elif fmt == "projections":
            spec = fmt_proj.directory(rng, min(i + 20, 190), tier)
            # (text that needs an encoding, in the logs as well)
            spec["pes"][0].append(["USER_SUPPLIED_NOTE", {"t": 10**6, "note": "d\u00e9j\u00e0 vu"}])
        elif fmt == "nsight":
            spec = c22.make(rng, min(i + 5, 40), tier)
        else:
            spec = fmt_hpct.database(rng, min(i + 20, 190), tier)
        jobs.append({"fmt": fmt, "spec": spec, "procs": rng.choice([None, None, 1, 2, 3]), "cct": rng.random() < 0.4})
    around = [surrounding(rng) for _ in range(3)]
    if rng.random() < 0.3:
        around[0].update({"env": dict(ASCII), "dir": "t"})
    return {"jobs": jobs, "around": around}


def write(path, job):
    fmt = job["fmt"]
    if fmt == "csv":
        fmt_csv.write(path, job["spec"], {"seconds": False, "spaces": False})
    elif fmt == "nsight":
        fmt_nsight.write(path, job["spec"])
    else:
        {"otf2": fmt_otf2, "projections": fmt_proj, "hpctoolkit": fmt_hpct}[fmt].write(path, job["spec"])


def copy(src, dst, reverse):
    """a copy, its files made in the opposite order when asked for"""
    if os.path.isfile(src):
        shutil.copyfile(src, dst)
        return
    os.mkdir(dst)
    for f in sorted(os.listdir(src), reverse=reverse):
        copy(os.path.join(src, f), os.path.join(dst, f), reverse)


EXTRA = {"otf2": ["README", "scorep.cfg", "profile.cubex"], "projections": ["README", "notes.txt", "a.projrc", ".hidden", "a.topo"],
         "hpctoolkit": ["README", "FORMATS.md", "cct.db", ".hidden"]}


def observe(base, k, case, s, obs):
    """runs the program in surrounding s; returns what it saw"""
    top = os.path.join(base, "v%d" % k)
    os.makedirs(os.path.join(top, "other"))
    home = os.path.join(top, s.get("dir", "t"))
    os.mkdir(home)
    cwd = {"parent": top, "other": os.path.join(top, "other"), "inside": home}.get(s.get("cwd"), base)
    jobs = []
    for n, job in enumerate(case["jobs"]):
        name = "j%d" % n + (".csv" if job["fmt"] in ("csv", "nsight") else "")
        path = os.path.join(home, name)
        copy(os.path.join(base, name), path, bool(s.get("order")))
        if s.get("extra") and job["fmt"] in EXTRA:
            for f in EXTRA[job["fmt"]]:
                if not os.path.exists(os.path.join(path, f)):
                    with open(os.path.join(path, f), "w") as g:
                        g.write("something else\n")
        how = s.get("path")
        if how == "link":
            link = os.path.join(top, "link %d" % n)
            os.symlink(path, link)
            path = link
        elif how == "relative":
            path = os.path.relpath(path, cwd)
        elif how == "dots":
            path = os.path.join(os.path.dirname(path), ".", "..", os.path.basename(home), name)
        elif how == "twice":
            path = path.replace("/" + name, "//" + name)
        elif how == "slash" and os.path.isdir(path):
            path += "/"
        jobs.append({"fmt": job["fmt"], "path": path, "procs": job["procs"], "cct": job["cct"]})
    todo, out = os.path.join(top, "jobs.json"), os.path.join(top, "out.json")
    with open(todo, "w", encoding="utf-8") as f:
        json.dump({"settings": s, "jobs": jobs}, f)
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(s.get("hash", 0))
    env.update(s.get("env", {}))
    argv = [sys.executable, "-B"] + (["-" + "O" * s["opt"]] if s.get("opt") else [])
    argv += [os.path.join(core.VERIF, "vlib", "surround.py"), core.REPO, todo, out]
    err = os.path.join(top, "err")
    with open(err, "w") as e:
        p = subprocess.Popen(argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=e, stderr=e, start_new_session=True)
        try:
            p.wait()
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
    obs.count("surroundings")
    if not os.path.exists(out):
        with open(err, errors="replace") as f:
            check(False, "the program ended with %s and no result in %s" % (p.returncode, s), f.read()[-600:])
    with open(out, encoding="utf-8") as f:
        return json.load(f)


def difference(a, b):
    x, y = a.split("\n"), b.split("\n")
    for k, (p, q) in enumerate(zip(x, y)):
        if p != q:
            return [k, p[:250], q[:250]]
    return ["lines", len(x), len(y)]


def run(case, obs):
    base = os.path.join(obs.scratch, "c32")
    os.mkdir(base)
    try:
        for n, job in enumerate(case["jobs"]):
            write(os.path.join(base, "j%d" % n + (".csv" if job["fmt"] in ("csv", "nsight") else "")), job)
        obs.ncalls += 1
        obs.count("api_calls")
        obs.calls.append("program in the plain surrounding")
        want = observe(base, 0, case, {}, obs)
        for n, w in enumerate(want):
            check("raises" not in w["load"][:7], "%s does not load" % case["jobs"][n]["fmt"], w["load"])
        for k, s in enumerate(case["around"]):
            obs.calls.append("program in %s" % json.dumps(s))
            got = observe(base, k + 1, case, s, obs)
            for n, (w, g) in enumerate(zip(want, got)):
                for c in w:
                    check(g.get(c) == w[c], "%s of a %s trace differs in %s" % (c, case["jobs"][n]["fmt"], json.dumps(s)),
                          difference(w[c], g.get(c, g["load"])))
                    obs.count("components")
                obs.count("events", w["load"].count("\n"))
                obs.state(case["jobs"][n]["fmt"], *sorted(s))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    obs.nontrivial = sum(w["load"].count("\n") > 1 for w in want) > 1
