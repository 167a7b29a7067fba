"""What a value is computed from."""

from __future__ import annotations


def outermost(n, pred, stop=lambda x: False):
    """Nodes satisfying pred that n is computed from, not through another of them."""
    out, seen, stack = {}, set(), [n]
    while stack:
        x = stack.pop()
        if x.id in seen or stop(x):
            continue
        seen.add(x.id)
        if pred(x):
            out[x.id] = x
            continue
        stack.extend(x.args)
    return out


def reaches(n, pred):
    """Some node satisfying pred that n is computed from."""
    seen, stack = set(), [n]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if pred(x):
            return x
        stack.extend(x.args)
    return None


def calls(*names):
    return lambda x: x.op == "call" and x.data[0] in names


def atoms(c, t):
    """Elementary comparisons known from a decided condition, as (condition, truth)."""
    if c.op == "not":
        return atoms(c.args[0], not t)
    if c.op == "and" and t or c.op == "or" and not t:
        return [x for a in c.args for x in atoms(a, t)]
    return [(c, t)]
