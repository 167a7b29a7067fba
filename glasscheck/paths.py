"""Enumeration of the paths of a program of known structure.

Each path is one choice of truth values for the conditions that are not constant, in the order in
which they are met; the same condition on the same values is decided once.  Nothing is solved: whether
a path can be taken is not asked, properties are stated about the conditions met on it.
"""

from __future__ import annotations

from .known import Case


class Path:
    def __init__(self, case, trace, cut):
        self.case = case
        self.trace = trace      # [(condition, truth)]
        self.cut = cut          # gave up before the end

    def decided(self, pred):
        return [(c, t) for c, t in self.trace if pred(c)]


def paths(make, bind, depth=12, limit=4000, prefer=None, force=None):
    """All paths with at most `depth` decisions.  make() gives a fresh Case on a shared graph.

    force(it, c, trace, options) gives the outcome of a decision that follows from earlier ones, or None.
    """
    stack = [()]
    n = 0
    while stack:
        if n >= limit:
            return
        n += 1
        prefix = stack.pop()
        trace, wide = [], []
        state = {"cut": False}

        def oracle(it, c, options=2):
            f = force(it, c, trace, options) if force else None
            if f is not None:
                return f
            k = len(trace)
            if k >= depth:
                state["cut"] = True
                return None
            v = prefix[k] if k < len(prefix) else (prefer(c) if prefer else False) if options == 2 and not choice(c) else 0
            trace.append((c, v))
            wide.append(options)
            return v
        z = make()
        z.oracle = oracle
        z.run(**bind(z))
        for k in range(len(trace) - 1, len(prefix) - 1, -1):
            for v in [not trace[k][1]] if isinstance(trace[k][1], bool) else [v for v in range(wide[k]) if v != trace[k][1]]:
                stack.append(tuple(t for _, t in trace[:k]) + (v,))
        yield Path(z, trace, state["cut"])


def choice(c):
    return c.op == "call" and c.data[0].startswith("choice:")


def fresh(*args, **kw):
    """Factory of cases sharing one graph."""
    from .ir import Graph
    g = Graph()
    return lambda: Case(*args, graph=g, **kw)
