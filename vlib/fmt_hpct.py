"""HPCToolkit databases (meta.db, profile.db, trace.db version 4.0), written from a JSON
spec with any layout the format allows, and what the spec says pipit has to load.

spec: {"layout": seed, "strings": [..], "modules": [string], "files": [string],
       "functions": [[name or None, module or None, offset, file or None, line]],   (indices)
       "ctxs": [[id, parent id or None, lexical type, relation, function, [file, line], [module, offset], name]],
       "threads": [{"ids": {kind: value}, "samples": [[time, context id]]}], "t0", "t1"}
A context with parent None is an entry point with a name (string index).
"""
import os
import random
import struct


class Blob:
    """One section: parts placed in some order, pointers between them patched later"""

    def __init__(self, rng, align=8):
        self.rng, self.parts, self.align = rng, [], align
        self.where = {}

    def add(self, key, size):
        self.parts.append((key, size))

    def place(self, start, head=None):
        """positions of all parts from file position start; the head part comes first"""
        order = [p for p in self.parts if p[0] != head]
        self.rng.shuffle(order)
        order = [p for p in self.parts if p[0] == head] + order
        pos = start
        for key, size in order:
            pos += -pos % 8
            if key != head and self.rng.random() < 0.2:
                pos += 8 * self.rng.randint(1, 3)
            self.where[key] = pos
            pos += size
        return pos


def put(buf, pos, data):
    if len(buf) < pos + len(data):
        buf.extend(b"\xa5" * (pos + len(data) - len(buf)))
    buf[pos:pos + len(data)] = data


def flex(c, fn, sf, lm):
    out = b""
    flags = 0
    if c[4] is not None:
        flags |= 1
        out += struct.pack("<Q", fn(c[4]))
    if c[5] is not None:
        flags |= 2
        out += struct.pack("<QII", sf(c[5][0]), c[5][1], 0)
    if c[6] is not None:
        flags |= 4
        out += struct.pack("<QQ", lm(c[6][0]), c[6][1])
    return flags, out


def ctx_size(c):
    return 0x20 + 8 * ((c[4] is not None) + 2 * (c[5] is not None) + 2 * (c[6] is not None))


KINDS = ["SUMMARY", "NODE", "RANK", "THREAD", "GPUDEVICE", "GPUCONTEXT", "GPUSTREAM", "CORE"]


def meta(spec):
    rng = random.Random(spec["layout"])
    szm, szf, szfn, sze = (b + 8 * rng.choice([0, 0, 1, 2]) for b in (16, 16, 40, 32))
    ctxs = spec["ctxs"]
    kids = {}
    for c in ctxs:
        kids.setdefault(c[1], []).append(c)
    entries = kids.get(None, [])
    raw = [s.encode("utf-8") + b"\0" for s in spec["strings"]]
    order = ["general", "names", "metrics", "context", "strings", "modules", "files", "functions"]
    blobs = {k: Blob(rng) for k in order}
    title, desc = b"a title\0", "d\u00e9sc\0".encode("utf-8")
    blobs["general"].add("head", 16)
    blobs["general"].add("title", len(title))
    blobs["general"].add("desc", len(desc))
    names = [k.encode() + b"\0" for k in KINDS]
    blobs["names"].add("head", 9)
    blobs["names"].add("table", 8 * len(names))
    for k, n in enumerate(names):
        blobs["names"].add(k, len(n))
    blobs["metrics"].add("head", 0x1b)
    blobs["context"].add("head", 0xb)
    blobs["context"].add("entries", sze * len(entries))
    for c in ctxs:
        if c[0] in kids:
            blobs["context"].add(c[0], sum(ctx_size(x) for x in kids[c[0]]))
    blobs["strings"].add("all", sum(len(x) for x in raw))
    for k, n, s in (("modules", len(spec["modules"]), szm), ("files", len(spec["files"]), szf),
                    ("functions", len(spec["functions"]), szfn)):
        blobs[k].add("head", 0xe)
        blobs[k].add("table", n * s)
    place = list(order)
    rng.shuffle(place)
    pos, span = 0x90 + 8 * rng.choice([0, 0, 2]), {}
    for k in place:
        pos += -pos % 8 + 8 * rng.choice([0, 0, 1])
        end = blobs[k].place(pos, "all" if k == "strings" else "head")
        span[k] = (end - pos, pos)
        pos = end
    buf = bytearray()
    put(buf, 0, b"HPCTOOLKITmeta" + bytes([4, rng.choice([0, 0, 1, 7])]))
    for n, k in enumerate(order):
        put(buf, 0x10 + 16 * n, struct.pack("<QQ", *span[k]))
    w = blobs["general"].where
    put(buf, w["head"], struct.pack("<QQ", w["title"], w["desc"]))
    put(buf, w["title"], title)
    put(buf, w["desc"], desc)
    w = blobs["names"].where
    put(buf, w["head"], struct.pack("<QB", w["table"], len(names)))
    for k, n in enumerate(names):
        put(buf, w["table"] + 8 * k, struct.pack("<Q", w[k]))
        put(buf, w[k], n)
    put(buf, blobs["metrics"].where["head"], b"\0" * 0x1b)
    at, p = [], blobs["strings"].where["all"]
    for s in raw:
        at.append(p)
        put(buf, p, s)
        p += len(s)
    tab = {}
    for k, size in (("modules", szm), ("files", szf)):
        w = blobs[k].where
        put(buf, w["head"], struct.pack("<QIH", w["table"], len(spec[k]), size))
        for n, s in enumerate(spec[k]):
            put(buf, w["table"] + n * size, struct.pack("<IIQ", rng.randrange(2), 0, at[s]).ljust(size, b"\xee"))
        tab[k] = (w["table"], size)

    def lm(n):
        return tab["modules"][0] + n * tab["modules"][1]

    def sf(n):
        return tab["files"][0] + n * tab["files"][1]

    w = blobs["functions"].where
    put(buf, w["head"], struct.pack("<QIH", w["table"], len(spec["functions"]), szfn))

    def fn(n):
        return blobs["functions"].where["table"] + n * szfn

    for n, (name, mod, off, file, line) in enumerate(spec["functions"]):
        put(buf, fn(n), struct.pack("<QQQQII", 0 if name is None else at[name], 0 if mod is None else lm(mod), off,
                                    0 if file is None else sf(file), line, 0).ljust(szfn, b"\xee"))
    w = blobs["context"].where

    def children(i):
        return (sum(ctx_size(x) for x in kids[i]), w[i]) if i in kids else (0, 0)

    put(buf, w["head"], struct.pack("<QHB", w["entries"], len(entries), sze))
    for n, c in enumerate(entries):
        put(buf, w["entries"] + n * sze,
            struct.pack("<QQIHHQ", *children(c[0]), c[0], 1, 0, at[c[7]]).ljust(sze, b"\xee"))
    for i in kids:
        if i is None:
            continue
        p = w[i]
        for c in kids[i]:
            flags, fl = flex(c, fn, sf, lm)
            d = struct.pack("<QQIBBBBH", *children(c[0]), c[0], flags, c[3], c[2], len(fl) // 8, 1).ljust(0x20, b"\0") + fl
            put(buf, p, d)
            p += len(d)
    return bytes(buf) + b"\0" * (-len(buf) % 8) + b"_meta.db"


def profile(spec):
    rng = random.Random(spec["layout"] + 1)
    szp = 48 + 8 * rng.choice([0, 0, 1])
    hits, where = bytearray(), []
    for t in spec["threads"]:
        where.append(len(hits))
        ids = list(t["ids"].items())
        hits += struct.pack("<HHI", len(ids), 0, 0)
        for k, v in ids:
            hits += struct.pack("<BBHIQ", KINDS.index(k), 0, int(k in ("NODE", "CORE")), min(v, 2**32 - 1) if k not in ("NODE", "CORE") else 0, v)
    n = len(spec["threads"]) + 1
    size = {"infos": 16 + szp * n, "tuples": len(hits)}
    order = ["infos", "tuples"]
    if rng.random() < 0.5:
        order.reverse()
    pos, at = 0x30, {}
    for k in order:
        pos += -pos % 8 + 8 * rng.choice([0, 1])
        at[k] = pos
        pos += size[k]
    buf = bytearray()
    put(buf, 0, b"HPCTOOLKITprof" + bytes([4, 0]) + struct.pack("<QQQQ", size["infos"], at["infos"], size["tuples"], at["tuples"]))
    put(buf, at["infos"], struct.pack("<QIB", at["infos"] + 16, n, szp).ljust(16, b"\0"))
    perm = profiles(spec)
    for k in range(n):
        # the first one is the summary
        ptr = 0 if k == 0 else at["tuples"] + where[perm[k - 1]]
        put(buf, at["infos"] + 16 + k * szp,
            (struct.pack("<QQII", 0, 0, 0, 0) + struct.pack("<Q", 0) + struct.pack("<QI", ptr, int(k == 0))).ljust(szp, b"\0"))
    put(buf, at["tuples"], bytes(hits))
    return bytes(buf) + b"_prof.db"


def profiles(spec):
    perm = list(range(len(spec["threads"])))
    random.Random(spec["layout"] + 2).shuffle(perm)
    return perm


def trace(spec):
    rng = random.Random(spec["layout"] + 3)
    szt = 24 + 8 * rng.choice([0, 0, 1])
    n = len(spec["threads"])
    index = {t: k + 1 for k, t in enumerate(profiles(spec))}
    lines = [b"".join(struct.pack("<QI", t, c) for t, c in th["samples"]) for th in spec["threads"]]
    size = 0x20 + szt * n
    head_first = rng.random() < 0.5
    pos = 0x20
    if head_first:
        head, pos = pos, pos + size
    at = [0] * n
    order = list(range(n))
    rng.shuffle(order)
    for k in order:
        pos += -pos % 8 + 8 * rng.choice([0, 1])
        at[k] = pos
        pos += len(lines[k])
    if not head_first:
        head = pos = pos + -pos % 8
    buf = bytearray()
    put(buf, 0, b"HPCTOOLKITtrce" + bytes([4, 0]) + struct.pack("<QQ", size, head))
    put(buf, head, struct.pack("<QIBBHQQ", head + 0x20, n, szt, 0, 0, spec["t0"], spec["t1"]))
    for k in range(n):
        put(buf, head + 0x20 + k * szt,
            struct.pack("<IIQQ", index[k], 0, at[k], at[k] + len(lines[k])).ljust(szt, b"\0"))
        put(buf, at[k], lines[k])
    return bytes(buf) + b"trace.db"


def write(path, spec):
    os.mkdir(path)
    for name, fn in (("meta.db", meta), ("profile.db", profile), ("trace.db", trace)):
        with open(os.path.join(path, name), "wb") as f:
            f.write(fn(spec))
    return path


def remove(path):
    for f in os.listdir(path):
        os.unlink(os.path.join(path, f))
    os.rmdir(path)


# -- what has to be loaded --------------------------------------------------


def tree(spec):
    """{node context: parent node context or None}, {context: its node}"""
    by = {c[0]: c for c in spec["ctxs"]}
    nodes, of = {}, {}
    for c in spec["ctxs"]:  # parents come first
        if c[1] is None:
            nodes[c[0]], of[c[0]] = None, c[0]
        elif c[2] in (0, 1):
            nodes[c[0]], of[c[0]] = of[c[1]], c[0]
        else:
            of[c[0]] = of[c[1]]
    return nodes, of, by


def places(spec):
    """{context: (name, file, line as shown, module)} of every context"""
    S = spec["strings"]
    src, out = {}, {}
    entries = {c[0] for c in spec["ctxs"] if c[1] is None}
    for c in spec["ctxs"]:
        i, parent, lex, rel, fun, loc, pt, name = c
        if parent is None:
            src[i] = (None, None, None)
            out[i] = (S[name], "", -1, "")
            continue
        file, line = (None, None) if loc is None else loc
        mod = None if pt is None else pt[0]
        if lex == 0:
            if fun is not None and parent in entries:
                f = spec["functions"][fun]
                file, line, mod = f[3], f[4], f[1]
            else:
                p = src[parent]
                file = p[0] if file is None else file
                line = p[1] if line is None else line
                mod = p[2] if mod is None else mod
        src[i] = (file, line, mod)
        if lex == 1:
            fname = "loop"
        elif fun is not None and spec["functions"][fun][0] is not None:
            fname = S[spec["functions"][fun][0]]
        else:
            fname = "<unkown function>"
        out[i] = (fname, "" if file is None else S[spec["files"][file]], -1 if line is None else str(line),
                  "" if mod is None else S[spec["modules"][mod]])
    return out


def path_of(nodes, n):
    out = []
    while n is not None:
        out.append(n)
        n = nodes[n]
    return out[::-1]


def expected(spec):
    """per thread: [[time, type, node context]]"""
    nodes, of, by = tree(spec)
    out = []
    for th in spec["threads"]:
        rows, cur = [], []

        def emit(t, kind, n):
            rows.append([t, ("Loop " if by[n][1] is not None and by[n][2] == 1 else "") + kind, n])

        for t, c in th["samples"]:
            new = [] if c == 0 else path_of(nodes, of[c])
            k = 0
            while k < min(len(cur), len(new)) and cur[k] == new[k]:
                k += 1
            for n in reversed(cur[k:]):
                emit(t - spec["t0"], "Leave", n)
            for n in new[k:]:
                emit(t - spec["t0"], "Enter", n)
            cur = new
        for n in reversed(cur):
            emit(spec["t1"] - spec["t0"], "Leave", n)
        out.append(rows)
    return out


# -- generation -------------------------------------------------------------

WORDS = ["main", "main thread", "foo", "bar<int>(double, char)", "MPI_Send", "loop", "", "/usr/lib/libm.so.6", "src/a.c",
         "src/b c.cpp", "fünktion", "名前", "<gpu kernel>", "x" * 300, "a::b::~b()", "application thread",
         " main", "main ", "tab\t", "Main", "None", "nan", "1", "1.0", "line\n"]


def database(rng, i, tier, cover=False, deep=False, scale=False):
    from vlib import gen

    # now and then more of everything than a byte counts, or more samples than 16 bits count
    many = gen.many_of(rng, i, 0.012, ["threads", "tables", "ctxs"]) if scale and not deep else None
    large = scale and (i == 45 or i % 5000 == 4999)
    tab = rng.choice([130, 257, 300]) if many == "tables" else 0
    strings = [rng.choice(WORDS) if rng.random() < 0.7 else "s%d" % k for k in range(tab or rng.randint(4, 14))]

    def some(n):
        return [rng.randrange(len(strings)) for _ in range(n)]

    modules, files = some(tab or rng.randint(1, 4)), some(tab or rng.randint(1, 5))
    line = lambda: rng.choice([0, 1, 17, 255, 256, 65535, 65536, 70000, 2**31])  # noqa: E731
    functions = []
    for _ in range(tab or rng.randint(1, 8)):
        functions.append([rng.randrange(len(strings)) if rng.random() < 0.85 else None,
                          rng.randrange(len(modules)) if rng.random() < 0.8 else None, rng.choice([0, 4096, 2**40]),
                          rng.randrange(len(files)) if rng.random() < 0.8 else None, line()])
        if functions[-1][0] is None and functions[-1][1] is None:
            functions[-1][3] = 0
    n = rng.randint(1, 60) if not cover else rng.randint(1, 30)
    if many == "ctxs":
        n = rng.choice([200, 400, 1000])
    elif tab:
        n = 300
    ids = rng.sample(range(1, 4 * n + 40), n + 3)
    if rng.random() < 0.2:
        ids[0] = 2**32 - 1
    ctxs = []
    for k in range(rng.randint(1, 3)):
        ctxs.append([ids.pop(), None, None, 0, None, None, None, rng.randrange(len(strings))])
    shape = rng.choice(["chain", "bushy", "any", "real"])
    depth = 700 if deep else 0

    def ctx(parent, lex):
        fun = rng.randrange(len(functions)) if rng.random() < 0.85 else None
        loc = [rng.randrange(len(files)), line()] if rng.random() < (0.9 if lex in (1, 2) else 0.2) else None
        pt = [rng.randrange(len(modules)), rng.choice([0, 64, 2**33])] if rng.random() < (0.9 if lex == 3 else 0.2) else None
        ctxs.append([ids.pop(), parent, lex, rng.choice([1, 1, 2]) if lex == 0 else 0, fun if lex == 0 or rng.random() < 0.1
                     else None, loc, pt, None])

    if deep:
        have = {c[0] for c in ctxs} | set(ids)
        ids += [x for x in range(5 * n + 100, 5 * n + 100 + depth + 10) if x not in have]
        parent = ctxs[0][0]
        for k in range(depth):
            ctx(parent, [0, 2, 3][k % 3] if rng.random() < 0.9 else 1)
            parent = ctxs[-1][0]
    while len(ids) > 1 and len(ctxs) < n + depth:
        if shape == "chain":
            parent = ctxs[-1][0]
        elif shape == "bushy":
            parent = rng.choice(ctxs[:4])[0]
        else:
            parent = rng.choice(ctxs)[0]
        if shape == "real":
            up = [c for c in ctxs if c[0] == parent][0]
            lex = 0 if up[1] is None else rng.choice([1, 2]) if up[2] in (0, 1) else rng.choice([0, 0, 3]) if up[2] == 2 else 0
        else:
            lex = rng.choice([0, 0, 0, 1, 2, 3])
        ctx(parent, lex)
    t0 = rng.choice([0, 1000, 1663000000 * 10**9])
    allc = [c[0] for c in ctxs]
    threads = []
    nr, nt = rng.randint(1, 3), rng.randint(1, 3)
    ranked, threaded = rng.random() < 0.85, rng.random() < 0.7
    if not ranked:
        nr = 1
    if not threaded:
        nt = 1
    if many == "threads":
        nr, nt = (rng.choice([130, 260]), 1) if ranked and rng.random() < 0.5 or not threaded else (1, rng.choice([130, 260]))
        if nr > 1 and not ranked:
            nr = 1
    noded, cored = rng.random() < 0.8, rng.random() < 0.4
    for r in range(nr):
        for t in range(nt):
            d = {}
            if noded:
                d["NODE"] = rng.choice([7, 2**40 + 3])
            if ranked:
                d["RANK"] = r
            if cored:
                d["CORE"] = rng.randrange(64)
            if threaded:
                d["THREAD"] = t
            ks = list(d)
            if rng.random() < 0.2:
                rng.shuffle(ks)
            d = {k: d[k] for k in ks}
            s, tt = [], t0 + rng.choice([0, 0, 5])
            todo = list(allc) if cover and not threads else []
            if deep:
                todo.reverse()  # down the chain
            else:
                rng.shuffle(todo)
            m = max(len(todo), rng.randint(0, 4 + min(i, 200) // 5)) if not deep else max(len(todo), 6)
            if large:
                m = 30000 // (nr * nt)
            last = None
            for k in range(m):
                if todo:
                    c = todo.pop()
                else:
                    c = 0 if last and rng.random() < 0.12 else last if last and rng.random() < 0.15 else rng.choice(allc)
                    if deep and rng.random() < 0.7:
                        c = rng.choice(allc[-80:])
                s.append([tt, c])
                last = c
                tt += rng.choice([1, 1, 3, 1000, 0])
            threads.append({"ids": d, "samples": s})
    if rng.random() < 0.3:
        rng.shuffle(threads)
    if not any(th["samples"] for th in threads):
        threads[0]["samples"] = [[t0, allc[-1]]]
    ts = [s[0] for th in threads for s in th["samples"]]
    t0 = min(ts)
    return {"layout": rng.randrange(10**6), "strings": strings, "modules": modules, "files": files,
            "functions": functions, "ctxs": ctxs, "threads": threads, "t0": t0,
            "t1": max(ts) + rng.choice([0, 1, 50])}
