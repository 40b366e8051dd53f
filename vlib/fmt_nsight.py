"""Nsight Systems range reports (nvtx_pushpop_trace CSV).

spec: {"ranges": [[start, end, name, pid, tid, extra]], "order": columns or None, "quote": bool, "bom": bool, "crlf": bool,
       "more": {column: [value or None for every range]}}
"""
import csv

HEAD = ["Start (ns)", "End (ns)", "Duration (ns)", "Name", "PID", "TID", "RangeId", "Style"]


def write(path, spec):
    with open(path, "w", encoding="utf-8-sig" if spec.get("bom") else "utf-8", newline="") as f:
        w = csv.writer(f, quoting=csv.QUOTE_NONNUMERIC if spec.get("quote") else csv.QUOTE_MINIMAL, lineterminator="\r\n" if spec.get("crlf") else "\n")
        more = spec.get("more", {})
        head = HEAD + list(more)
        cols = spec.get("order") or list(range(len(head)))
        w.writerow([head[c] for c in cols])
        for k, (s, e, n, p, t, x) in enumerate(spec["ranges"]):
            row = [s, e, e - s, n, p, t, k, x] + [v[k] for v in more.values()]
            w.writerow([row[c] for c in cols])


def nest(rng, names, n, start, style):
    """ranges of one thread: [[start, end, name]], properly nested unless style is overlap,
    outer ranges first"""
    out, stack, t = [], [], start
    depth = rng.choice([1, 2, 4, 9])
    step = rng.choice([lambda: 0 if rng.random() < 0.6 else 1, lambda: rng.randint(0, 3), lambda: rng.randint(1, 10**6)])
    for _ in range(n):
        while stack and (len(stack) >= depth or rng.random() < 0.4):
            t += step()
            out[stack.pop()][1] = t
        t += step()
        out.append([t, None, rng.choice(names)])
        stack.append(len(out) - 1)
    while stack:
        t += step()
        k = stack.pop(rng.randrange(len(stack)) if style == "overlap" else -1)
        out[k][1] = t
    return out
