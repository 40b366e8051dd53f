import sys
import threading

from vlib.core import check

ID = "C23"
LEVEL = "exploration"
TECH = "reference-model monitor over sequences of option calls, also by concurrent threads"
RULE = ("random sequences of 5-60 get, set and reset calls with valid, invalid, unknown, mistyped and unhashable keys and "
        "values, options of every validator kind registered beside the built-in ones, and two threads that own one option "
        "each; after every call all options are read; non-trivial = an accepted and a rejected change and a reset")
ASSUME = ["options of types other than the two built-in ones are registered as the built-in ones are"]
N = {"quick": 12000, "thorough": 60000}
CAP = {"quick": 40, "thorough": 300}
MIN = {"accepted": 3000, "rejected": 3000, "resets": 1500, "reads": 20000, "concurrent_reads": 2000}

DEFAULTS = {"log_level": "INFO", "notebook_url": "http://localhost:8888"}
EXTRA = {"x_flag": ("bool_validator", False, [True, False], [0, 1, None, "True", 1.0, []]),
         "x_name": ("str_validator", "n", ["a", "", "b c", "http://x"], [b"a", None, 3, ["a"]]),
         "depth": ("int_validator", 10, [1, 2, 10**9], [0, -1, 1.0, "1", None, True]),
         "x_num": ("int_validator", 0, [0, -5, 7], [0.5, "1", None, False]),
         "x_real": ("float_validator", 0.5, [0.0, -1.5, 1e300], [1, "0.5", None, True])}
GOOD = {"log_level": ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"],
        "notebook_url": ["http://localhost:8888", "https://a.b/c?d=e", "http://127.0.0.1:1", "https://localhost"]}
BAD = {"log_level": ["debug", "", "TRACE", None, 10, ["INFO"], {"INFO": 1}, True, "INFO ", b"INFO"],
       "notebook_url": ["", "localhost", "ftp://x", None, 5, ["http://x"], " http://x", "ahttp://x", "httpx://a", True, "https:", "http:/a",
                        "https:a", "http", "a http://b"]}
NOKEYS = ["", None, "nope", "LOG_LEVEL", "log_level ", 0, 5, ["log_level"], "All", ("log_level",)]


def make(rng, i, tier):
    extra = rng.sample(sorted(EXTRA), rng.randint(0, 3))
    keys = sorted(DEFAULTS) + extra
    ops = []
    for _ in range(rng.randint(5, 20 + min(i, 400) // 10)):
        r = rng.random()
        k = rng.choice(keys)
        n = rng.randrange(20)
        if r < 0.3:
            ops.append(["set", k, n])
        elif r < 0.55:
            ops.append(["bad", k, n])
        elif r < 0.62:
            ops.append(["setno", n, rng.randrange(20)])
        elif r < 0.72:
            ops.append(["get", k])
        elif r < 0.78:
            ops.append(["getno", n])
        elif r < 0.88:
            ops.append(["reset", k])
        elif r < 0.94:
            ops.append(["resetall"])
        else:
            ops.append(["resetno", n])
    return {"extra": extra, "ops": ops, "threads": i % 10 == 3}


def pools(k):
    if k in EXTRA:
        return EXTRA[k][2], EXTRA[k][3]
    return GOOD[k], BAD[k]


def same(a, b):
    return type(a) is type(b) and a == b


def run(case, obs):
    import pipit
    from pipit.util import config

    reg, val = getattr(config, "registered_options", None), getattr(config, "global_config", None)
    extra = []
    if isinstance(reg, dict) and isinstance(val, dict):
        extra = [k for k in case["extra"] if hasattr(config, EXTRA[k][0])]
    defaults = dict(DEFAULTS, **{k: EXTRA[k][1] for k in extra})
    for k in extra:
        reg[k] = {"default": EXTRA[k][1], "validator": getattr(config, EXTRA[k][0])}
        val[k] = EXTRA[k][1]
    try:
        if not extra:
            obs.call("reset all", pipit.reset_option, "all")
        state = dict(defaults)

        def compare(what):
            for k in state:
                g = obs.call("get_option(%r)" % k, pipit.get_option, k)
                check(same(g, state[k]), "%s after %s" % (k, what), g, "expected", state[k])
                obs.count("reads")

        for k in sorted(DEFAULTS):
            obs.call("reset", pipit.reset_option, k)
        compare("reset of the built-in options")
        did = set()
        for op in case["ops"]:
            if op[0] in ("set", "bad", "get", "reset") and op[1] not in state:
                continue
            if op[0] == "set":
                v = pools(op[1])[0][op[2] % len(pools(op[1])[0])]
                obs.call("set_option(%r, %r)" % (op[1], v), pipit.set_option, op[1], v)
                state[op[1]] = v
                obs.count("accepted")
            elif op[0] == "bad":
                v = pools(op[1])[1][op[2] % len(pools(op[1])[1])]
                e, _ = obs.raises("set_option(%r, %r)" % (op[1], v), pipit.set_option, op[1], v)
                check(e is not None, "an invalid value was accepted", op[1], repr(v))
                obs.count("rejected")
            elif op[0] == "setno":
                k = NOKEYS[op[1] % len(NOKEYS)]
                v = GOOD["log_level"][op[2] % 5]
                e, _ = obs.raises("set_option(%r, %r)" % (k, v), pipit.set_option, k, v)
                check(e is not None, "an unknown option was set", repr(k))
                obs.count("rejected")
            elif op[0] == "getno":
                k = NOKEYS[op[1] % len(NOKEYS)]
                e, g = obs.raises("get_option(%r)" % (k,), pipit.get_option, k)
                check(e is not None, "an unknown option has a value", repr(k), repr(g))
                obs.count("rejected")
            elif op[0] == "resetno":
                k = NOKEYS[op[1] % len(NOKEYS)]
                e, _ = obs.raises("reset_option(%r)" % (k,), pipit.reset_option, k)
                check(e is not None, "an unknown option was reset", repr(k))
                obs.count("rejected")
            elif op[0] == "reset":
                obs.call("reset_option(%r)" % op[1], pipit.reset_option, op[1])
                state[op[1]] = defaults[op[1]]
                obs.count("resets")
            elif op[0] == "resetall":
                obs.call("reset_option('all')", pipit.reset_option, "all")
                state.update(defaults)
                obs.count("resets")
            did.add("rejected" if op[0].endswith("no") or op[0] == "bad" else op[0])
            compare(op)
        for k in ("all", ):
            e, g = obs.raises("get_option('all')", pipit.get_option, k)
            check(e is not None, "'all' is not an option", g)
        if case["threads"]:
            concurrent(case, obs, pipit)
    finally:
        for k in extra:
            reg.pop(k, None)
            val.pop(k, None)
        pipit.reset_option("all")
    obs.state(tuple(sorted(did)), len(extra))
    obs.nontrivial = {"set", "rejected"} <= did and ("reset" in did or "resetall" in did)


def concurrent(case, obs, pipit):
    wrong, reads = [], [0, 0]

    def work(n, key):
        vals = GOOD[key]
        for j in range(150):
            v = vals[(j * 7 + n) % len(vals)]
            pipit.set_option(key, v)
            g = pipit.get_option(key)
            if g != v:
                wrong.append((key, v, g))
            try:
                pipit.set_option(key, BAD[key][j % len(BAD[key])])
                wrong.append((key, "accepted", BAD[key][j % len(BAD[key])]))
            except Exception:
                pass
            g = pipit.get_option(key)
            if g != v:
                wrong.append((key, v, g))
            if j % 10 == 9:
                pipit.reset_option(key)
                g = pipit.get_option(key)
                if g != DEFAULTS[key]:
                    wrong.append((key, "reset", g))
            reads[n] += 2

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ths = [threading.Thread(target=work, args=(n, k)) for n, k in enumerate(sorted(DEFAULTS))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    finally:
        sys.setswitchinterval(old)
    obs.calls.append("two threads, one option each")
    check(not wrong, "an option changed by a thread that does not own it", wrong[:3])
    check(reads == [300, 300], "a thread ended early", reads)
    obs.count("concurrent_reads", sum(reads))
