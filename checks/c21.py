import os

from vlib import fmt_hpct
from vlib.core import check

ID = "C21"
LEVEL = "exploration"
TECH = "round-trip monitor: context trees and strings written to meta.db against the loaded tree and names"
RULE = ("random HPCToolkit databases: 1-3 entry points, 1-30 contexts (some chains of 700) of all lexical types in any nesting, "
        "shared, empty, long and non-ASCII strings, anonymous functions, missing modules and files, sections, tables and "
        "child arrays in random places with random gaps and strides; every context is sampled; non-trivial = five nodes and "
        "a line or instruction context")
ASSUME = ["databases follow format version 4.0 (FORMATS.md)", "strings do not overlap",
          "modules are compared where the reader's context lookup is available"]
N = {"quick": 3500, "thorough": 16000}
CAP = {"quick": 40, "thorough": 500}
MIN = {"nodes": 5000, "folded": 2000, "names": 5000, "non_ascii": 100, "inherited": 300}


def make(rng, i, tier):
    return {"spec": fmt_hpct.database(rng, i, tier, cover=True, deep=i % 97 == 50, scale=True)}


def run(case, obs):
    from pipit import Trace
    from pipit.readers import hpctoolkit_reader

    spec = case["spec"]
    path = os.path.join(obs.scratch, "t")
    fmt_hpct.write(path, spec)
    lookup = None
    try:
        t = obs.call("from_hpctoolkit", Trace.from_hpctoolkit, path)
        try:
            lookup = hpctoolkit_reader.HPCToolkitReader(path).meta_reader.get_information_from_context_id
        except AttributeError:
            pass
    finally:
        fmt_hpct.remove(path)
    nodes, of, by = fmt_hpct.tree(spec)
    info = fmt_hpct.places(spec)
    df = t.events
    check(t.cct is not None, "no tree")
    # shape: the tree is walked once from the roots; links agree with it
    all_, todo, ids = {}, [(r, None, 0) for r in t.cct.roots], set()
    while todo:
        x, up, level = todo.pop()
        check(id(x) not in all_, "a node is reached twice", x._pipit_nid)
        all_[id(x)] = x
        check(x.parent is up, "parent of node", x._pipit_nid)
        check(x.get_level() == level, "level of node", x._pipit_nid, x.get_level(), level)
        check(x._pipit_nid not in ids, "identifier of a node is used twice", x._pipit_nid)
        ids.add(x._pipit_nid)
        todo += [(c, x, level + 1) for c in x.children]
    check(len(all_) == len(nodes), "number of nodes", len(all_), "contexts", len(nodes))
    entries = [c for c in nodes if nodes[c] is None]
    check(len(t.cct.roots) == len(entries), "number of roots", len(t.cct.roots), "entry points", len(entries))
    cols = {c: df[c].tolist() for c in df.columns}
    n = len(df)
    none = [None] * n
    node_of = {}
    for k in range(n):
        c = int(cols["Calling Context ID"][k])
        x = cols["Node"][k]
        check(c in nodes, "an event for a context that is not a node", c)
        check(id(x) in all_, "the node of an event is not in the tree", c)
        check(node_of.setdefault(c, x) is x, "two nodes for one context", c)
        name, file, line, mod = info[c]
        check(cols["Name"][k] == name, "name of context", c, cols["Name"][k], "stored", name)
        g = cols.get("Source File Name", none)[k]
        check(g == file, "source file of context", c, g, "stored", file)
        g = cols.get("Source File Line Number", none)[k]
        check(str(g) == str(line), "line of context", c, g, "stored", line)
        obs.count("names")
        obs.count("non_ascii", not (name + file).isascii())
    check(set(node_of) == set(nodes), "contexts without events although sampled",
          sorted(set(nodes) - set(node_of))[:5])
    check(len({id(x) for x in node_of.values()}) == len(nodes), "contexts share a node")
    for c, up in nodes.items():
        p = node_of[c].parent
        check(p is (None if up is None else node_of[up]), "parent of context", c, "recorded", up)
    if lookup is not None:
        for c in sorted(nodes):
            try:
                d = lookup(c)
                got = d["module"], d["file"], d["function"], d["line"]
            except (KeyError, TypeError, AttributeError):
                break
            name, file, line, mod = info[c]
            check(got[0] == mod, "module of context", c, got[0], "stored", mod)
            check(got[1] == file and got[2] == name and str(got[3]) == str(line), "lookup of context", c, got, info[c])
            obs.count("modules", mod != "")
    obs.count("inherited", sum(by[c][2] == 0 and by[c][5] is None and info[c][1] != "" for c in nodes if nodes[c] is not None))
    obs.count("nodes", len(nodes))
    obs.count("folded", len(spec["ctxs"]) - len(nodes))
    obs.state(tuple(sorted(len(x.children) for x in all_.values())), len(spec["ctxs"]))
    obs.nontrivial = len(nodes) >= 5 and len(spec["ctxs"]) > len(nodes)


