import builtins
import errno
import io
import multiprocessing
import os
import shutil
import stat
import sys

from vlib import fmt_csv, fmt_hpct, fmt_nsight, fmt_otf2, fmt_proj, gen
from vlib.core import check
from checks import c16, c19

ID = "C25"
LEVEL = "exploration"
TECH = "fault-injection monitor: each load after a damage or with an injected input error, against the undamaged load, under a hang detector"
RULE = ("random valid traces in the five formats, each with 12 damages or faults of one required file: missing, empty, a directory, cut "
        "at any byte, wrong magic number or kind, swapped with another file, flipped bits (checksummed files), a second or incomplete "
        "index, missing columns, a directory of another format, unreadable, input errors after any number of bytes, files "
        "vanishing before the workers start, and short reads; half of it with assertions off; non-trivial = at least four damages reported")
ASSUME = ["OTF2 and HPCToolkit files have no checksums, so altered bytes are not detectable; the OTF2 library reports unreadable records "
          "other than by skipping a location or reading a wrong record in place; local definition files of OTF2 are optional",
          "CSV and Nsight text has no end marker, so cut files of these are not judged",
          "a damage that leaves the result the same is harmless"]
N = {"quick": 280, "thorough": 2600}
CAP = {"quick": 40, "thorough": 550}
MIN = {"damages": 1000, "reported": 800, "faults": 250, "fired": 100, "cut": 150, "formats": 60}
OPTIMIZED = True  # half of the processes run with assertions off (python -O)
WATCHDOG = 90
STEPS = 20_000_000


def calls(rng, names, n, start):
    return c16.calls(rng, names, n, start)


def make(rng, i, tier):
    fmt = ["otf2", "proj", "hpct", "proj", "otf2", "hpct", "csv", "nsight"][(i + i // 8) % 8]
    size = rng.choice([10, 40, 60])  # index used for the size of the trace
    if fmt == "otf2":
        spec = fmt_otf2.archive(rng, size, tier, calls, max_procs=3)
    elif fmt == "proj":
        spec = fmt_proj.directory(rng, size, tier, max_pes=3)
    elif fmt == "hpct":
        spec = fmt_hpct.database(rng, size, tier)
    elif fmt == "csv":
        spec = gen.trace(rng, size, tier)
    else:
        spec = {"ranges": [[s, e, n, 7, 7, ""] for s, e, n in fmt_nsight.nest(rng, ["a", "b", "c d"], 12, 0, "nested")]}
    out = []
    for _ in range(12):
        out.append([rng.randrange(10**6), rng.randrange(10**6), rng.random()])
    return {"format": fmt, "spec": spec, "damages": out, "procs": rng.choice([1, 2, 3, None]),
            "optimize": int(sys.flags.optimize)}


LOAD = {"otf2": "from_otf2", "proj": "from_projections", "hpct": "from_hpctoolkit", "csv": "from_csv", "nsight": "from_nsight"}
MOD = {"otf2": fmt_otf2, "proj": fmt_proj, "hpct": fmt_hpct}


class Fault(io.FileIO):
    """A file that fails with an input error after some bytes, or reads in pieces"""

    limit, done, short, log = None, 0, False, None

    def readinto(self, b):
        if self.limit is not None and self.done >= self.limit:
            fd = os.open(self.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, b"x")
            os.close(fd)
            raise OSError(errno.EIO, "Input/output error")
        n = min(len(b), 3 if self.short else 64)
        if self.limit is not None:
            n = min(n, self.limit - self.done)
        v = self.read_(n)
        b[: len(v)] = v
        self.done += len(v)
        return len(v)

    def read_(self, n):
        buf = bytearray(n)
        k = super().readinto(buf)
        return bytes(buf[:k])

    def readall(self):
        out = b""
        while True:
            b = bytearray(64)
            n = self.readinto(b)
            if not n:
                return out
            out += bytes(b[:n])


class Faults:
    def __init__(self, path, kind, limit, log):
        self.path, self.kind, self.limit, self.log = os.path.abspath(path), kind, limit, log

    def __enter__(self):
        self.open = builtins.open
        self.pool = multiprocessing.Pool
        real = self.open

        def hit(f):
            return isinstance(f, (str, os.PathLike)) and os.path.abspath(f) == self.path

        def open_(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if not hit(file) or any(c in mode for c in "wax+"):
                return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if self.kind == "denied":
                with real(self.log, "a") as f:
                    f.write("x")
                raise PermissionError(errno.EACCES, "Permission denied", file)
            raw = Fault(file, "rb")
            raw.limit, raw.log, raw.short = self.limit, self.log, self.kind == "short"
            if buffering == 0:
                return raw
            buf = io.BufferedReader(raw, 16)
            if "b" in mode:
                return buf
            text = io.TextIOWrapper(buf, encoding, errors, newline)
            text.mode = mode
            return text

        def pool_(*a, **kw):
            if self.kind == "vanish" and os.path.exists(self.path):
                os.unlink(self.path)
                with real(self.log, "a") as f:
                    f.write("x")
            return self.pool(*a, **kw)

        if self.kind == "vanish":
            multiprocessing.Pool = pool_
        else:
            builtins.open = open_
        return self

    def __exit__(self, *exc):
        builtins.open = self.open
        multiprocessing.Pool = self.pool


def build(fmt, spec, path):
    if fmt == "csv":
        os.mkdir(path)
        fmt_csv.write(os.path.join(path, "f.csv"), spec, {"seconds": False})
    elif fmt == "nsight":
        os.mkdir(path)
        fmt_nsight.write(os.path.join(path, "f.csv"), spec)
    else:
        MOD[fmt].write(path, spec)


def clear(path):
    for base, dirs, files in os.walk(path, topdown=False):
        for f in files:
            os.unlink(os.path.join(base, f))
        os.rmdir(base)


def snapshot(path):
    out = {}
    for base, dirs, files in os.walk(path):
        for f in files:
            with open(os.path.join(base, f), "rb") as g:
                out[os.path.join(base, f)] = g.read()
        for d in dirs:
            out.setdefault(os.path.join(base, d), None)
    return out


def restore(path, files):
    clear(path)
    os.mkdir(path)
    for f, data in files.items():
        if data is None:
            os.makedirs(f, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "wb") as g:
                g.write(data)


def required(fmt, files):
    out = sorted(f for f, d in files.items() if d is not None)
    if fmt == "otf2":
        # definitions of single locations are optional
        out = [f for f in out if not (f.endswith(".def") and os.path.basename(os.path.dirname(f)) == "traces")]
    return out


def damage(fmt, f, files, path, r, s, p):
    """Damages the file; returns the name of the damage, and how strictly to judge
    (error: it has to be reported; equal: reported or harmless; count: no event lost)"""
    data = files[f]
    base = os.path.basename(f)
    text = fmt in ("csv", "nsight")
    kinds = ["missing", "empty", "dir", "cut", "cut", "cut", "magic", "alien"]
    if text:
        kinds = ["missing", "empty", "dir", "column", "column", "alien"]
    if f.endswith(".gz"):
        kinds += ["flip", "flip", "flip", "unzipped", "empty", "other"]
    if fmt == "proj":
        kinds += ["two", "more"]
    if fmt == "hpct":
        kinds += ["swap", "kind", "kind"]
    k = kinds[r % len(kinds)]
    if k == "two":
        with open(os.path.join(path, "second.sts"), "wb") as g:
            g.write(next(d for n, d in files.items() if n.endswith(".sts")))
        if s % 2:  # a whole second trace
            for n, d in files.items():
                if n.endswith(".log.gz"):
                    with open(os.path.join(path, "second" + n[n.rindex(".", 0, -7):]), "wb") as g:
                        g.write(d)
        return k, "error"
    if k == "more":
        sts = next(n for n in files if n.endswith(".sts"))
        n = sum(x.endswith(".gz") for x in files)
        t = files[sts].replace(b"PROCESSORS %d\n" % n, b"PROCESSORS %d\n" % (n + 1 + s % 3))
        with open(sts, "wb") as g:
            g.write(t)
        return k, "error"
    os.unlink(f)
    if k == "missing":
        return k, "equal" if fmt == "otf2" and f.endswith(".evt") else "error"
    if k == "dir":
        os.mkdir(f)
        return k, "equal" if fmt == "otf2" and f.endswith(".evt") else "error"
    how = "error"
    if k == "empty":
        new = b""
        if fmt == "otf2" and f.endswith(".evt"):
            how = "equal"
    elif k == "cut":
        new = data[: s % len(data)] if p < 0.7 else data[: -(1 + s % min(12, len(data)))]
        how = "count" if f.endswith(".evt") else "equal"
    elif k == "magic":
        n = 1 + s % 8
        new = bytes(255 - b for b in data[:n]) + data[n:]
        how = "equal"
        if f.endswith(".evt"):
            how = "count"
        elif f.endswith(".sts"):  # its first line says nothing
            new = data
    elif k == "alien":
        new = [b"hello world\n", b"\x00" * 200, b"%PDF-1.4\n" + bytes(range(256)), b"{}", b"\n"][s % 5]
        if f.endswith(".evt"):
            how = "count"
    elif k == "flip":
        b = bytearray(data)
        b[s % len(b)] ^= 1 << (r // 7 % 8)
        new, how = bytes(b), "equal"
    elif k == "unzipped":
        import gzip

        new = gzip.decompress(data)
    elif k == "other":
        import gzip

        new = gzip.compress([b"", b"hello world\n1 2 3\n", b"2 1 5\n"][s % 3])
    elif k == "swap":
        other = [n for n in files if n.endswith(".db") and n != f]
        new = files[other[s % len(other)]]
    elif k == "kind":
        # says that it is a file of another kind, the rest is as it was
        a, b = [(10, 14), (0, 10), (10, 11), (13, 14)][s % 4]
        others = [x for x in (b"HPCTOOLKITmeta", b"HPCTOOLKITprof", b"HPCTOOLKITtrce", b"hpctoolkitMETA", b"HPCSTRUCTUprot")
                  if x[a:b] != data[a:b]]
        new = data[:a] + others[r % len(others)][a:b] + data[b:]
    elif k == "column":
        rows = [x.split(b",") for x in data.split(b"\n")]
        need = {"csv": [b"Timestamp (ns)", b"Event Type", b"Name", b"Process"],
                "nsight": [b"Start (ns)", b"End (ns)", b"Name", b"PID", b"TID"]}[fmt]
        c = need[s % len(need)]
        if any(len(x) != len(rows[0]) for x in rows if x != [b""]) or c not in rows[0]:
            new = b""
        else:
            j = rows[0].index(c)
            new = b"\n".join(b",".join(x[:j] + x[j + 1:]) for x in rows)
    with open(f, "wb") as g:
        g.write(new)
    return k, how if new != data else "equal"


def run(case, obs):
    from pipit import Trace

    fmt, spec = case["format"], case["spec"]
    path, log = os.path.join(obs.scratch, "t"), os.path.join(obs.scratch, "log")
    load = getattr(Trace, LOAD[fmt])
    kw = {"num_processes": case["procs"]} if fmt in ("otf2", "proj") else {}
    arg = os.path.join(path, "f.csv") if fmt in ("csv", "nsight") else path
    build(fmt, spec, path)
    try:
        files = snapshot(path)
        t = obs.call("%s(intact)" % fmt, load, arg, **kw)
        base, n = c19.table(t.events), len(t.events)
        del t
        req = required(fmt, files)
        reported = 0
        for r, s, p in case["damages"]:
            f = req[r % len(req)] if p < 0.6 else req[s % len(req)]
            name = os.path.basename(f)
            if os.path.exists(log):
                os.unlink(log)
            if r % 97 < 3:
                # the directory of another format, or nothing at all
                kind, how = "elsewhere", "error"
                other = os.path.join(obs.scratch, "o")
                os.mkdir(other)
                if r % 2:
                    with open(os.path.join(other, "f.csv"), "w") as g:
                        g.write("a,b\n1,2\n")
                e, t = obs.raises("%s(%s)" % (fmt, kind), load, other if fmt not in ("csv", "nsight") else
                                  os.path.join(other, "f.csv"), **kw)
                clear(other)
            elif r % 10 < 3:
                kinds = ["denied", "eio", "eio", "eio", "short"] + (["vanish"] if fmt in ("otf2", "proj") else [])
                kind = kinds[s % len(kinds)]
                if fmt == "otf2":
                    kind = "vanish"  # the library does not read with Python's files
                    ev = [x for x in req if x.endswith(".evt")]
                    f = ev[s % len(ev)]
                limit = None
                if kind == "eio":
                    limit = int(p * len(files[f]))
                how = "equal" if kind in ("vanish", "short", "eio", "denied") else "error"
                with Faults(f, kind, limit, log):
                    e, t = obs.raises("%s(%s of %s)" % (fmt, kind, name), load, arg, **kw)
                fired = os.path.exists(log)
                if fired and kind in ("denied", "eio"):
                    how = "error"
                obs.count("faults")
                obs.count("fired", fired)
                if kind == "short":
                    check(e is None, "%s: short reads of %s reported as an error" % (fmt, name), repr(e)[:200])
            else:
                kind, how = damage(fmt, f, files, path, r // 97, s, p)
                e, t = obs.raises("%s(%s %s)" % (fmt, kind, name), load, arg, **kw)
                obs.count("cut", kind == "cut")
            obs.count("damages")
            obs.state(fmt, name.rpartition(".")[2], kind, e is None or type(e).__name__)
            if e is None:
                if how == "count":
                    check(len(t.events) >= n, "%s: events lost without an error, file %s damaged (%s)" % (fmt, name, kind),
                          len(t.events), "recorded", n)
                else:
                    d = c19.differ(base, c19.table(t.events))
                    check(d is None, "%s: damaged input loaded without an error, file %s (%s)" % (fmt, name, kind), d)
                    check(how != "error" or kind == "cut",
                          "%s: no error although a required file is damaged, file %s (%s)" % (fmt, name, kind))
                del t
            else:
                reported += 1
                obs.count("reported")
            del e
            restore(path, files)
        # the undamaged trace loads as before: nothing of a failure sticks
        t = obs.call("%s(restored)" % fmt, load, arg, **kw)
        d = c19.differ(base, c19.table(t.events))
        check(d is None, "%s: the restored trace loads differently after failures" % fmt, d)
        obs.count("formats")
    finally:
        clear(path)
        if os.path.exists(log):
            os.unlink(log)
    obs.nontrivial = reported >= 4
