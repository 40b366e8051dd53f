from vlib import gen
from vlib.core import check

ID = "C26"
LEVEL = "exploration"
TECH = "oracle monitor on tree queries against ancestor lists, with a before and after snapshot of the tree"
RULE = ("random forests of 1-4 trees with 1-60 nodes, chains of up to 1500, identifiers in any order, levels given or computed, "
        "built node by node, and call trees created from random traces; all or 150 random pairs and all level bounds are "
        "queried; non-trivial = a pair whose intersection is neither of the two nodes")
ASSUME = ["identifiers of nodes are unique within a forest"]
N = {"quick": 6000, "thorough": 16000}
CAP = {"quick": 40, "thorough": 300}
MIN = {"pairs": 20000, "proper_intersections": 3000, "no_intersection": 3000, "paths": 8000, "deep": 3}


def make(rng, i, tier):
    if rng.random() < 0.25:
        return {"trace": gen.trace(rng, i, tier, ("nested", "open", "orphan")), "q": rng.randrange(10**6)}
    n = rng.randint(1, 3 + min(i, 300) // 5)
    shape = rng.choice(["any", "chain", "bushy", "comb"])
    if i % 67 == 40:
        n, shape = rng.choice([400, 1500]), "chain"
    roots = rng.randint(1, min(n, 4 if rng.random() < 0.9 else 40))
    parents = [None] * roots
    for k in range(roots, n):
        parents.append({"any": lambda: rng.randrange(k), "chain": lambda: k - roots,
                        "bushy": lambda: rng.randrange(max(1, k // 4)),
                        "comb": lambda: k - 1 if rng.random() < 0.5 else max(0, k - 3)}[shape]())
    ids = list(range(n))
    if rng.random() < 0.6:
        ids = rng.sample(range(3 * n + 5), n)
    return {"parents": parents, "ids": ids, "levels": rng.random() < 0.5, "q": rng.randrange(10**6)}


def snapshot(roots):
    out, todo = [], [(r, None) for r in roots]
    while todo:
        x, up = todo.pop()
        out.append((id(x), x._pipit_nid, x.get_level(), None if x.parent is None else id(x.parent),
                    tuple(id(c) for c in x.children)))
        todo += [(c, x) for c in x.children]
    return sorted(out)


def run(case, obs):
    import random

    from pipit.graph import Graph, Node

    if "trace" in case:
        t = gen.build(case["trace"])
        obs.call("create_cct", t.create_cct)
        graph = t.cct
        nodes, above, todo = [], [], [(r, []) for r in graph.roots]
        while todo:
            x, up = todo.pop()
            nodes.append(x)
            above.append(up + [x])
            todo += [(c, up + [x]) for c in x.children]
        if not nodes:
            return
    else:
        graph = Graph()
        nodes, above = [], []
        for k, p in enumerate(case["parents"]):
            up = None if p is None else nodes[p]
            depth = 0 if p is None else len(above[p])
            if case["levels"]:
                x = obs.call("Node", Node, case["ids"][k], up, depth)
            else:
                x = obs.call("Node", Node, case["ids"][k], up)
            if up is None:
                graph.add_root(x)
            else:
                up.add_child(x)
            nodes.append(x)
            above.append(([] if p is None else above[p]) + [x])
        for k, p in enumerate(case["parents"]):
            kids = [nodes[j] for j, q in enumerate(case["parents"]) if q == k]
            check([id(x) for x in nodes[k].children] == [id(x) for x in kids], "children of node %d" % case["ids"][k])
        roots = [nodes[j] for j, q in enumerate(case["parents"]) if q is None]
        check([id(x) for x in graph.roots] == [id(x) for x in roots], "roots of the graph")
    before = snapshot(graph.roots)
    text = obs.call("text of the graph", str, graph)
    check(isinstance(text, str) and all(str(r) in text for r in graph.roots), "text of the graph", str(text)[:300])
    rng = random.Random(case["q"])
    n = len(nodes)
    for k in range(n):
        check(nodes[k].get_level() == len(above[k]) - 1, "level", nodes[k].get_level(), "distance to the root",
              len(above[k]) - 1)
        text = obs.call("str", str, nodes[k])
        check(str(nodes[k]._pipit_nid) in text and str(len(above[k]) - 1) in text, "text of node %d at level %d"
              % (nodes[k]._pipit_nid, len(above[k]) - 1), text)
    pairs = [(a, b) for a in range(n) for b in range(n)] if n <= 12 else \
        [(rng.randrange(n), rng.randrange(n)) for _ in range(150)]
    for a, b in pairs:
        g = obs.call("get_intersection", nodes[a].get_intersection, nodes[b])
        want = None
        for x, y in zip(above[a], above[b]):
            if x is not y:
                break
            want = x
        check(g is want, "intersection of %s and %s" % (nodes[a]._pipit_nid, nodes[b]._pipit_nid),
              None if g is None else g._pipit_nid, "deepest common", None if want is None else want._pipit_nid)
        obs.count("pairs")
        obs.count("no_intersection", want is None)
        proper = want is not None and want is not nodes[a] and want is not nodes[b]
        obs.count("proper_intersections", proper)
        if proper:
            obs.nontrivial = True
    g = obs.call("get_intersection(None)", nodes[0].get_intersection, None)
    check(g is None, "intersection with nothing", g)
    for k in (range(n) if n <= 12 else [rng.randrange(n) for _ in range(20)] + [n - 1]):
        d = len(above[k])
        for low in (range(-2, d + 2) if d < 15 else [-1, 0, 1, d // 2, d - 2, d - 1, d]):
            g = obs.call("get_node_list(%d)" % low, nodes[k].get_node_list, low)
            want = [x for lv, x in enumerate(above[k]) if lv > low][::-1]
            check(len(g) == len(want) and all(x is y for x, y in zip(g, want)), "path above level %d" % low,
                  [x._pipit_nid for x in g][:20], "expected", [x._pipit_nid for x in want][:20])
            obs.count("paths")
        obs.count("deep", d > 300)
    check(snapshot(graph.roots) == before, "the queries changed the tree")
    obs.state(n, len(graph.roots), max(len(a) for a in above))
