from vlib import gen, model
from vlib.core import check

ID = "C05"
LEVEL = "exploration"
TECH = "structural invariant monitor of the calling-context tree against a path-set model"
RULE = ("random call histories, names containing path separators, shared paths across processes and threads; "
        "non-trivial = a context reached from two calls and a tree with two or more levels")
ASSUME = ["rows ordered by time, row labels 0..n-1, as every reader produces",
          "calls never left stay open to the end of their location"]
N = {"quick": 5000, "thorough": 50000}
CAP = {"quick": 40, "thorough": 500}
MIN = {"calls_in_tree": 1000, "nodes": 500, "shared_contexts": 100}
STYLES = ("nested", "nested", "open", "orphan", "overlap", "chaos")


def make(rng, i, tier):
    # now and then deeper than 16 bits count
    spec = gen.trace(rng, i, tier, STYLES, wide=0.01, large=True, depth=33000 if i == 40 or i % 4000 == 3999 else None,
                     max_procs=1 if i == 40 else 4)
    return {"spec": spec, "pre": rng.choice(["", "", "exc", "twice"])}


def check_tree(graph, ctx, nodes, obs, name_of=None):
    """ctx: {row: context}, nodes: {row: node}. Every context has exactly one node,
    and the tree consists of exactly these nodes."""
    node_of, ctx_of = {}, {}
    for i, c in ctx.items():
        n = nodes[i]
        check(n is not None and not isinstance(n, float), "call at row %d has no tree node" % i)
        if c in node_of:
            check(node_of[c] is n, "the same calling context has two nodes", c)
        else:
            check(id(n) not in ctx_of, "two calling contexts share a node", c, ctx_of.get(id(n)))
            node_of[c] = n
            ctx_of[id(n)] = c
    seen = {}
    todo = [(r, None, 0) for r in graph.roots]
    while todo:
        n, par, lvl = todo.pop()
        check(id(n) not in seen, "node reachable twice in the tree", str(n))
        seen[id(n)] = n
        check(id(n) in ctx_of, "tree node no call refers to", str(n))
        c = ctx_of[id(n)]
        want_par = None if c[0] is None else node_of[c[0]]
        check(par is want_par, "node hangs under the wrong caller", c)
        check(n.parent is par, "parent link disagrees with the tree", c)
        check(n.get_level() == lvl, "level of node", c, n.get_level(), "expected", lvl)
        todo += [(k, n, lvl + 1) for k in n.children]
    check(len(seen) == len(node_of), "contexts missing from the tree", len(seen), len(node_of))
    ids = [n._pipit_nid for n in seen.values()]
    check(len(set(ids)) == len(ids), "node identifiers are not unique", sorted(ids)[:50])
    obs.count("calls_in_tree", len(ctx))
    obs.count("nodes", len(seen))
    obs.count("shared_contexts", len(ctx) - len(node_of))
    return node_of


def run(case, obs):
    spec = case["spec"]
    ev, th = spec["ev"], spec["thread"]
    t = obs.call("Trace", gen.build, spec)
    if case["pre"] == "exc":
        obs.call("calc_exc_metrics", t.calc_exc_metrics)
    obs.call("create_cct", t.create_cct)
    if case["pre"] == "twice":
        obs.call("create_cct", t.create_cct)
    check(len(t.events) == len(ev), "number of rows changed")
    ctx = model.contexts(ev, th)
    nodes = dict(enumerate(t.events["Graph_Node"].tolist()))
    node_of = check_tree(t.cct, ctx, nodes, obs)
    for i, e in enumerate(ev):
        if e[1] not in ("Enter", "Leave"):
            check(model.isnull(nodes[i]), "row %d (%s) is no call but has a node" % (i, e[1]))
    obs.state(tuple(sorted(map(model.path, list(node_of)[:500]))))
    obs.nontrivial = len(ctx) > len(node_of) and any(c[0] is not None for c in node_of)
