"""Setup: nothing to compile (pipit is pure Python and is imported from the working
tree by every check); makes sure the parts the checks need are there, and that the
monitors can tell right from wrong on tiny hand-made executions."""
import importlib
import os
import sys

from vlib import core, model


def models():
    ev = [[0, "Enter", "a", 0, 0], [1, "Enter", "b", 0, 0], [2, "Enter", "b", 0, 0], [3, "Leave", "b", 0, 0],
          [4, "Leave", "c", 0, 0], [5, "Leave", "b", 0, 0], [6, "Enter", "d", 1, 0], [7, "Leave", "a", 0, 0]]
    m = model.match(ev, False)
    assert m == [7, 5, 3, 2, None, 1, None, 0], m
    parent, depth, children = model.nest(ev, False, m)
    assert parent == {0: None, 1: 0, 2: 1} and depth == {0: 0, 1: 1, 2: 2} and children == {0: [1], 1: [2]}
    inc = model.inclusive([e[0] for e in ev], ev, m)
    assert inc == {0: 7, 1: 4, 2: 1} and model.exclusive(inc, children) == {0: 3, 1: 3, 2: 1}
    ctx = model.contexts(ev, False)
    assert {i: model.path(c) for i, c in ctx.items()} == {
        0: ("a",), 1: ("a", "b"), 2: ("a", "b", "b"), 6: ("d",)}


def main():
    sys.path.insert(0, core.REPO)
    for m in ("numpy", "pandas", "otf2", "pipit"):
        importlib.import_module(m)
    models()
    n = 0
    for f in sorted(os.listdir(os.path.join(core.VERIF, "checks"))):
        if f.startswith("c") and f.endswith(".py"):
            mod = core.load(f[:-3])
            assert mod.ID == f[:-3].upper()
            mod.make(core.case_rng(1, mod.ID, 0), 0, "quick")
            n += 1
    print("setup: %d checks, pipit from %s" % (n, core.REPO))
    return 0
