"""Check runner: generates cases, drives the real code, collects what the monitors
observed, and turns it into a three-valued verdict.

A check module provides
  ID, LEVEL, TECH, RULE, ASSUME   constants
  N      {"quick": cases, "thorough": cases}
  CAP    {"quick": seconds, "thorough": seconds}   soft cap: no new case after it
  MIN    {counter: least total}   fewer observations than this = inconclusive
  make(rng, i, tier) -> case      JSON-serialisable
  run(case, obs)                  raises Violation
  known(obs) -> optional          deterministic probes of recorded findings
"""

import hashlib
import importlib
import json
import numbers
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Violation(Exception):
    pass


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Deadlock(BaseException):
    pass


class StepBudget(BaseException):
    pass


def jdump(x, **kw):
    def default(o):
        if hasattr(o, "item"):
            return o.item()
        if isinstance(o, (set, frozenset)):
            return sorted(o, key=str)
        return repr(o)

    return json.dumps(x, default=default, **kw)


def short(x, n=700):
    s = x if isinstance(x, str) else jdump(x)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


class Observer:
    """What the monitors saw during one shard's run."""

    def __init__(self, scratch=None):
        self.counters = {}
        self.states = set()
        self.calls = []  # API-boundary log of the current case
        self.ncalls = 0
        self.nontrivial = False
        self.samples = []
        self.scratch = scratch
        self.log = []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def state(self, *key):
        if len(self.states) < 200000:
            self.states.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def call(self, label, fn, *args, **kwargs):
        """Calls the code under test and records the call; an exception on a valid
        input is a violation."""
        self.ncalls += 1
        self.count("api_calls")
        self.calls.append(label)
        try:
            return fn(*args, **kwargs)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/pipit/" in f.filename]
            at = (
                " at %s:%s" % (os.path.basename(where[-1].filename), where[-1].name)
                if where
                else ""
            )
            raise Violation(
                "%s raised %s: %s%s" % (label, type(e).__name__, short(str(e), 300), at)
            )

    def raises(self, label, fn, *args, **kwargs):
        """Calls the code under test; returns the exception, or None and the result."""
        self.ncalls += 1
        self.count("api_calls")
        self.calls.append(label)
        try:
            return None, fn(*args, **kwargs)
        except MemoryError:
            raise
        except Exception as e:
            return e, None


def check(cond, msg, *info):
    if not cond:
        raise Violation(msg + ("" if not info else ": " + short(list(info))))


# -- hang detection ---------------------------------------------------------


def number(x):
    """a number of a process or thread, which is an integer, also by type"""
    check(isinstance(x, numbers.Integral), "the number of a process or thread is no integer", repr(x))
    return int(x)


def _descendants(pid):
    kids = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    parts = f.read().rsplit(")", 1)[1].split()
                kids.setdefault(int(parts[1]), []).append(int(d))
            except (OSError, IndexError):
                pass
    out, todo = [], [pid]
    while todo:
        p = todo.pop()
        for k in kids.get(p, []):
            out.append(k)
            todo.append(k)
    return out


def _task_states(pids, skip_tid):
    """state and cpu ticks of every thread of these processes"""
    states, ticks = [], 0
    for p in pids:
        try:
            tids = os.listdir("/proc/%d/task" % p)
        except OSError:
            continue
        for t in tids:
            if int(t) == skip_tid:
                continue
            try:
                with open("/proc/%d/task/%s/stat" % (p, t)) as f:
                    parts = f.read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            states.append(parts[0])
            ticks += int(parts[11]) + int(parts[12])
    return states, ticks


def _quiescent():
    """True if, over five seconds, no thread of this process tree other than the
    caller was ever runnable or used processor time: nothing can make progress."""
    me, tid = os.getpid(), threading.get_native_id()
    first = None
    for _ in range(50):
        states, ticks = _task_states([me] + _descendants(me), tid)
        if any(s in "RD" for s in states):
            return False
        if first is None:
            first = ticks
        elif ticks != first:
            return False
        time.sleep(0.1)
    return True


def kill_descendants():
    for p in _descendants(os.getpid()):
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass


def _on_alarm(signum, frame):
    # called in the main thread, whatever it waits for
    f = frame
    waiting = False
    while f is not None:
        if f.f_code.co_name in ("wait", "acquire", "poll", "select", "join", "recv"):
            waiting = True
            break
        f = f.f_back
    if waiting and _quiescent():
        raise Deadlock()
    raise CaseTimeout()


def run_limited(fn, seconds):
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class _SerialPool:
    def __init__(self, processes=None, initializer=None, initargs=(), **kw):
        if initializer:
            initializer(*initargs)

    def map(self, fn, items, chunksize=None):
        return [fn(x) for x in items]

    def starmap(self, fn, items, chunksize=None):
        return [fn(*x) for x in items]

    def imap(self, fn, items, chunksize=None):
        return iter(self.map(fn, items))

    imap_unordered = imap

    def map_async(self, fn, items, *a, **kw):
        return _Done(self.map(fn, items))

    def apply(self, fn, args=(), kwds={}):
        return fn(*args, **kwds)

    def apply_async(self, fn, args=(), kwds={}, *a, **kw):
        return _Done(fn(*args, **kwds))

    def close(self):
        pass

    terminate = join = close

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


class _Done:
    def __init__(self, x):
        self.x = x

    def get(self, timeout=None):
        return self.x

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    successful = ready


def run_stepped(fn, budget, seconds):
    """Runs fn counting executed lines of the code under test; StepBudget when the
    budget is exceeded."""
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "verif")
    n = [0]
    base = os.path.join(REPO, "pipit")

    def line(code, lineno):
        if not code.co_filename.startswith(base):
            return mon.DISABLE
        n[0] += 1
        if n[0] > budget:
            raise StepBudget(n[0])

    mon.register_callback(tool, mon.events.LINE, line)
    mon.set_events(tool, mon.events.LINE)
    import multiprocessing

    pool = multiprocessing.Pool
    # the counted lines have to be executed in this process
    multiprocessing.Pool = _SerialPool
    try:
        return run_limited(fn, seconds)
    finally:
        multiprocessing.Pool = pool
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)


# -- shard ------------------------------------------------------------------


def load(pid):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    return importlib.import_module("checks." + pid.lower())


def case_rng(seed, pid, i):
    return random.Random("%s/%s/%s" % (seed, pid, i))


def run_case(mod, case, obs, watchdog):
    """Returns None, or a message describing the violation."""
    obs.calls = []
    before = obs.ncalls

    def go():
        obs.nontrivial = False
        mod.run(case, obs)

    try:
        run_limited(go, watchdog)
        return None
    except Violation as e:
        return str(e)
    except Deadlock:
        kill_descendants()
        return "deadlock: every thread and process blocked, no progress possible"
    except CaseTimeout:
        kill_descendants()
        try:
            run_stepped(go, getattr(mod, "STEPS", 30_000_000), 600)
        except StepBudget:
            return "no result within %d executed lines of pipit" % getattr(
                mod, "STEPS", 30_000_000
            )
        except Violation as e:
            return str(e)
        except (CaseTimeout, Deadlock):
            kill_descendants()
            raise Inconclusive("watchdog fired, step budget not exhausted")
        return None
    except (MemoryError, Inconclusive):
        raise
    except OSError:
        raise
    except Exception as e:
        if obs.ncalls == before:
            raise  # nothing of pipit ran: harness error
        tb = traceback.extract_tb(e.__traceback__)
        return "unexpected shape of a result after %s: %s: %s (monitor %s:%d)" % (
            obs.calls[-1] if obs.calls else "?",
            type(e).__name__,
            short(str(e), 300),
            os.path.basename(tb[-1].filename),
            tb[-1].lineno,
        )


def shard(pid, k, K, out, seed, tier):
    mod = load(pid)
    scratch = tempfile.mkdtemp(prefix="verif-%s-%d-" % (pid, k))
    obs = Observer(scratch)
    res = {
        "evaluations": 0,
        "distinct": [],
        "violations": [],
        "errors": [],
        "inconclusive": [],
        "capped": False,
    }
    t0 = time.monotonic()
    cap = mod.CAP[tier]
    watchdog = getattr(mod, "WATCHDOG", 60)
    distinct = set()
    try:
        for i in range(k, mod.N[tier], K):
            spent = time.monotonic() - t0
            if spent > cap and (spent > HARD_CAP or enough(mod, obs, K)):
                # on a slow machine a shard goes on past its time cap until
                # it has made its part of the required observations
                res["capped"] = True
                break
            case = None
            try:
                case = mod.make(case_rng(seed, pid, i), i, tier)
                text = jdump(case)
                msg = run_case(mod, json.loads(text), obs, watchdog)
            except Inconclusive as e:
                res["inconclusive"].append("case %d: %s" % (i, e))
                continue
            except Exception:
                res["errors"].append("case %d: %s" % (i, traceback.format_exc()[-3000:]))
                break
            res["evaluations"] += 1
            if msg is not None:
                res["violations"].append(
                    {"i": i, "case": json.loads(text), "message": msg, "calls": obs.calls}
                )
                break
            if obs.nontrivial:
                distinct.add(hashlib.md5(text.encode()).hexdigest()[:12])
                if len(obs.samples) < 1 and 20 < len(text) < 1500:
                    obs.samples.append(
                        {"case_index": i, "case": json.loads(text), "calls": obs.calls[:20]}
                    )
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res["distinct"] = sorted(distinct)
    res["counters"] = obs.counters
    res["states"] = sorted(obs.states)
    res["samples"] = obs.samples
    with open(out, "w") as f:
        f.write(jdump(res))


HARD_CAP = 600


def enough(mod, obs, shards):
    return all(obs.counters.get(c, 0) * shards >= n for c, n in mod.MIN.items())


# -- parent -----------------------------------------------------------------


def known_entries(pid):
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:") and "property=%s " % pid in line:
                    out.append(line)
    except FileNotFoundError:
        pass
    return out


def main(pid, tier=None, seed=None):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    K = int(os.environ.get("VERIF_SHARDS", "8"))
    procs = []
    try:
        env = child_env()
        for k in range(K):
            out = os.path.join(tmp, "%d.json" % k)
            err = open(os.path.join(tmp, "%d.err" % k), "w")
            p = subprocess.Popen(
                [sys.executable] + (["-O"] if k % 2 and getattr(load(pid), "OPTIMIZED", False) else []) +
                [os.path.join(VERIF, "run.py"), pid, "--shard",
                 str(k), str(K), out, str(seed), tier],
                cwd=tmp, env=env, stdout=err, stderr=err, start_new_session=True,
            )
            procs.append((p, out, err))
        results, broken = [], []
        for k, (p, out, err) in enumerate(procs):
            p.wait()
            err.close()
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                with open(err.name) as f:
                    broken.append("shard %d ended with %s: %s" % (k, p.returncode, f.read()[-1500:]))
        return finish(pid, tier, seed, results, broken, time.monotonic() - t0)
    finally:
        for p, out, err in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)


def child_env():
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
        MKL_NUM_THREADS="1", PYTHONUNBUFFERED="1",
    )
    return env


def finish(pid, tier, seed, results, broken, wall):
    mod = load(pid)
    counters, states, distinct, samples = {}, set(), set(), []
    viol, errors, inconcl, evaluations, capped = [], list(broken), [], 0, False
    for r in results:
        evaluations += r["evaluations"]
        capped = capped or r["capped"]
        for c, n in r.get("counters", {}).items():
            counters[c] = counters.get(c, 0) + n
        states.update(r.get("states", []))
        distinct.update(r["distinct"])
        samples += r.get("samples", [])
        viol += r["violations"]
        errors += r["errors"]
        inconcl += r["inconclusive"]
    viol.sort(key=lambda v: (len(jdump(v["case"])), v["i"]))

    known_lines = []
    fired = []
    if hasattr(mod, "known"):
        # deterministic probes of the findings recorded in known_findings.txt
        obs = Observer(tempfile.mkdtemp(prefix="verif-%s-known-" % pid))
        try:
            fired = mod.known(obs)  # [(key, text)]
        finally:
            shutil.rmtree(obs.scratch, ignore_errors=True)
        listed = known_entries(pid)
        for key, text in fired:
            if any("key=%s " % key in line + " " for line in listed):
                known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, text))
            else:
                viol.append({"i": -1, "case": {"known": key}, "message": text, "calls": []})

    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(distinct),
        "rule": mod.RULE,
        "samples": samples[:3],
        "observed": dict(sorted(counters.items())),
        "distinct_monitor_states": len(states),
        "stopped_by_time_cap": capped,
        "inconclusive_cases": inconcl[:5],
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": coverage, "assumptions": mod.ASSUME, "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if os.environ.get("VERIF_NO_EVIDENCE") != "1":
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            f.write(jdump(ev, indent=1))

    for line in known_lines:
        print(line)
    print(
        "%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d monitor states, %s, %.1f s"
        % (pid, tier, seed, evaluations, len(distinct), len(states),
           ", ".join("%s=%d" % kv for kv in sorted(counters.items())), wall)
    )
    if viol:
        d = os.path.join(VERIF, "out", "replay")
        os.makedirs(d, exist_ok=True)
        for v in viol[:3]:
            name = "%s-%s-%s.json" % (pid, seed, v["i"])
            with open(os.path.join(d, name), "w") as f:
                f.write(jdump({"property": pid, "seed": seed, "tier": tier, **v}))
            print("VIOLATION property=%s replay=out/replay/%s" % (pid, name))
            print("  " + v["message"])
        return 1
    if errors:
        print("ERROR: " + "\n".join(errors[:3]))
        return 3
    short_of = {c: n for c, n in mod.MIN.items() if counters.get(c, 0) < n}
    if short_of or not evaluations or not distinct:
        print("INCONCLUSIVE: too few observations of %s" % (short_of or "any case"))
        return 4
    if inconcl:
        print("INCONCLUSIVE: " + "; ".join(inconcl[:3]))
        return 4
    print("HELD property=%s on the executions above" % pid)
    return 0


def replay(pid, path):
    with open(path) as f:
        rec = json.load(f)
    mod = load(pid)
    obs = Observer(tempfile.mkdtemp(prefix="verif-%s-replay-" % pid))
    try:
        if "known" in rec["case"]:
            hit = [t for k, t in mod.known(obs) if k == rec["case"]["known"]]
            msg = hit[0] if hit else None
        else:
            msg = run_case(mod, rec["case"], obs, getattr(mod, "WATCHDOG", 60))
    finally:
        shutil.rmtree(obs.scratch, ignore_errors=True)
    if msg is None:
        print("not reproduced; calls:", obs.calls)
        return 0
    print("VIOLATION property=%s replay=%s" % (pid, path))
    print("  " + msg)
    return 1
