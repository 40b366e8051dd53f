"""Reference models: small sequential definitions of what pipit's analyses mean,
written over plain lists of events and sharing no code with pipit."""

import math


def loc_of(e, thread):
    return (e[3], e[4]) if thread else (e[3],)


def by_location(ev, thread):
    out = {}
    for i, e in enumerate(ev):
        out.setdefault(loc_of(e, thread), []).append(i)
    return out


def match(ev, thread):
    """enter <-> leave: a leave closes the most recent call of that function which is
    still open on the same process and thread; None when there is none."""
    m = [None] * len(ev)
    for idx in by_location(ev, thread).values():
        open_ = {}
        for i in idx:
            typ, name = ev[i][1], ev[i][2]
            if typ == "Enter":
                open_.setdefault(name, []).append(i)
            elif typ == "Leave" and open_.get(name):
                j = open_[name].pop()
                m[i], m[j] = j, i
    return m


def nest(ev, thread, m=None):
    """(parent, depth, children) of every matched call, by row of its enter event:
    the caller is the most recently entered call still open."""
    m = match(ev, thread) if m is None else m
    parent, depth = {}, {}
    children = {}
    for idx in by_location(ev, thread).values():
        open_ = []
        for i in idx:
            if m[i] is None:
                continue
            if ev[i][1] == "Enter":
                parent[i] = open_[-1] if open_ else None
                depth[i] = len(open_)
                if open_:
                    children.setdefault(open_[-1], []).append(i)
                open_.append(i)
            elif open_[-1] == m[i]:
                open_.pop()
            else:
                open_.remove(m[i])
    return parent, depth, children


def inclusive(values, ev, m):
    return {
        i: values[m[i]] - values[i]
        for i in range(len(ev))
        if ev[i][1] == "Enter" and m[i] is not None
    }


def exclusive(inc, children):
    return {i: v - sum(inc[c] for c in children.get(i, [])) for i, v in inc.items()}


class Context:
    """A caller's context and a name. There is only one object for each."""

    __slots__ = ("caller", "name")

    def __init__(self, caller, name):
        self.caller, self.name = caller, name

    def __getitem__(self, k):
        return (self.caller, self.name)[k]

    def __repr__(self):
        return repr(path(self))


def contexts(ev, thread):
    """calling context of every enter: tuple of function names from the outermost
    open call. Calls that are never left stay open; leaves of functions that are not
    open are ignored. Returns {row: context key} where a context is (caller's context,
    name)."""
    ctx, known = {}, {}
    for idx in by_location(ev, thread).values():
        open_ = []
        for i in idx:
            typ, name = ev[i][1], ev[i][2]
            if typ == "Enter":
                caller = ctx[open_[-1]] if open_ else None
                ctx[i] = known.get((id(caller), name))
                if ctx[i] is None:
                    ctx[i] = known[id(caller), name] = Context(caller, name)
                open_.append(i)
            elif typ == "Leave":
                for k in range(len(open_) - 1, -1, -1):
                    if ev[open_[k]][2] == name:
                        del open_[k]
                        break
    return ctx


def path(ctx):
    out = []
    while ctx is not None:
        out.append(ctx[1])
        ctx = ctx[0]
    return tuple(reversed(out))


def close(a, b, scale=1.0, rel=1e-9, abs_=1e-9):
    """numeric equality up to floating point rounding of terms of the given scale"""
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b)) + 1e-12 * abs(scale)


def isnull(x):
    if x is None:
        return True
    try:
        import pandas as pd

        r = pd.isna(x)
        return bool(r) if isinstance(r, (bool,)) or getattr(r, "shape", ()) == () else False
    except (TypeError, ValueError):
        return False
