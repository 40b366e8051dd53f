"""Writer of the CSV format read by pipit, from a trace spec and layout options."""
import csv
import gzip
import io


def write(path, spec, opts):
    ev = spec["ev"]
    cols = ["ts", "type", "name", "proc"] + (["thread"] if spec["thread"] else [])
    cols += list(spec.get("cols", {}))
    cols = [cols[k] for k in opts["order"]] if opts.get("order") else cols
    head = {"ts": "Timestamp (s)" if opts["seconds"] else "Timestamp (ns)", "type": "Event Type", "name": "Name",
            "proc": "Process", "thread": "Thread"}
    rows = opts.get("rows") or list(range(len(ev)))
    buf = io.StringIO()
    w = csv.writer(buf, quoting=csv.QUOTE_ALL if opts.get("quote") else csv.QUOTE_MINIMAL, lineterminator="\n")
    w.writerow([head.get(c, c) for c in cols])
    for k in rows:
        e = ev[k]
        ts = repr(e[0] / 1e9) if opts["seconds"] else repr(e[0])
        d = {"ts": ts, "type": e[1], "name": e[2], "proc": e[3], "thread": e[4]}
        w.writerow([d[c] if c in d else spec["cols"][c][k] for c in cols])
    text = buf.getvalue()
    if opts.get("spaces") and not opts.get("quote") and '"' not in text:
        text = text.replace(",", ", ")
    if opts.get("crlf"):
        text = text.replace("\n", "\r\n")
    if opts.get("open_end"):
        text = text.rstrip("\r\n")
    data = text.encode("utf-8-sig" if opts.get("bom") else "utf-8")
    with gzip.open(path, "wb") if path.endswith(".gz") else open(path, "wb") as f:
        f.write(data)
