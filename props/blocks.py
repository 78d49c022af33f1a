"""Shared scenario: generation with the colouring step left uninterpreted."""
from vg import arr as A, node as N
from vg.chk import Broken, loc
from vg.interp import ExtFn, Obj
from vg.scn import *


def find_rf(it, g):
    out = [v for v in g.attrs.values() if isinstance(v, Obj) and any(c.name == "GaussianRandomField" for c in v.cls.mro() if hasattr(c, "name"))]
    if len(out) != 1:
        raise Broken("the generator holds %d random fields" % len(out))
    return out[0]


class Tape:
    """Replaces the colouring transform: call n returns the uninterpreted array W(n, i, j, k, c)."""

    def __init__(self, it, g):
        self.noise = []
        rf = find_rf(it, g)
        if "Correlate" not in rf.attrs:
            raise Broken("the random field has no sampling transform")

        def impl(it_, a, k):
            x = a[0] if a else list(k.values())[0]
            n = len(self.noise)
            self.noise.append(A.Arr("np", x.shape, x.reader(), "f"))
            return A.Arr("np", x.shape, lambda i, n=n: N.app("W", N.const(n), *i), "f")

        rf.attrs["Correlate"] = ExtFn("Correlate", impl)


def source_cell(e):
    """The W cell a field element is taken from (outside the block-wide normalisation)."""
    ws = []
    seen = set()
    stack = [e]
    while stack:
        n = stack.pop()
        if n.id in seen or n.op == "reduce":
            continue
        seen.add(n.id)
        if n.op == "app" and n.attr == "W":
            ws.append(n)
            continue
        stack.extend(n.args)
    return ws


def sizes(v, g, it):
    return None


def live_cells(v, e):
    """Evaluated W cells that element e reads directly in valuation v (live branches only)."""
    out, seen, stack = set(), set(), [e]
    while stack:
        n = stack.pop()
        if n.id in seen or n.op == "reduce":
            continue
        seen.add(n.id)
        if n.op == "app" and n.attr == "W":
            out.add(tuple(int(v.ev(a)) for a in n.args))
            continue
        if n.op == "ite":
            stack.append(n.args[1] if v.truth(n.args[0], {}) else n.args[2])
            continue
        stack.extend(n.args)
    return out


def nodes_per_axis(a):
    return N.add(N.power(N.const(2), nat("lev%d" % a)), N.const(1))
