"""Figures: panels have an identity, however the program reaches them (grid, row, flat, current axes)."""
import numpy as _np

from .arr import AbsRaise, Sl
from .interp import Opaque, Dict, List, ExtFn

PLT = "matplotlib.pyplot."
# what matplotlib.pyplot forwards to the current panel, and under which name
FORWARD = {n: n for n in "plot loglog semilogx semilogy scatter imshow pcolormesh contour contourf legend grid text bar hist errorbar fill_between axhline axvline annotate axis".split()}
FORWARD.update({n: "set_" + n for n in "title xlabel ylabel".split()}, xscale="set_xscale", yscale="set_yscale", xlim="set_xlim", ylim="set_ylim")


class Figure(Opaque):
    def __init__(self, it, name="figure"):
        n = it.state["figures"] = it.state.get("figures", 0) + 1
        Opaque.__init__(self, PLT + "%s#%d" % (name, n))
        self.panels = []

    def panel(self, it, place=None):
        p = Panel(self.path + ".axes[%s]" % ("%dx%d:%d" % place if place else "#%d" % len(self.panels)))
        p.place = place
        self.panels.append(p)
        it.state["gca"] = p
        return p

    def oattr(self, it, name):
        if name == "axes":
            return List(list(self.panels))
        if name == "subplots":
            return ExtFn("Figure.subplots", lambda it, a, k: grid(it, self, a, k))
        if name in ("add_subplot", "gca", "add_axes"):
            def f(it, a, k):
                if name == "gca" and self.panels:
                    return self.panels[-1]
                return self.at(it, [it.resolve(x) for x in a] if name == "add_subplot" else [])
            return ExtFn("Figure." + name, f)
        return Opaque(self.path + "." + name)

    def at(self, it, a):
        """add_subplot / subplot: the same place gives the same panel."""
        if len(a) == 1 and isinstance(a[0], int) and 100 <= a[0] <= 999:
            a = [int(c) for c in str(a[0])]
        key = tuple(a) if len(a) == 3 and all(isinstance(x, int) for x in a) else None
        if key and not 1 <= key[2] <= key[0] * key[1]:
            raise AbsRaise("ValueError", "num must be an integer with 1 <= num <= %d, not %d" % (key[0] * key[1], key[2]), it.where())
        for p in self.panels:
            if key and getattr(p, "place", None) == key:
                it.state["gca"] = p
                return p
        return self.panel(it, key)


class Panel(Opaque):
    def ogetitem(self, it, i):
        raise AbsRaise("TypeError", "'Axes' object is not subscriptable", it.where())

    def oiter(self, it):
        raise AbsRaise("TypeError", "'Axes' object is not iterable", it.where())

    def oattr(self, it, name):
        if name in ("flat", "flatten", "ravel", "shape", "size", "T"):
            raise AbsRaise("AttributeError", "'Axes' object has no attribute '%s'" % name, it.where())
        return Opaque(self.path + "." + name)


class Grid(Opaque):
    """An array of panels."""

    def __init__(self, path, arr):
        Opaque.__init__(self, path)
        self.arr = arr

    def wrap(self, x):
        return Grid(self.path, x) if isinstance(x, _np.ndarray) else x

    def ogetitem(self, it, i):
        def one(x):
            if isinstance(x, Sl):
                b = [None if q is None else q if isinstance(q, int) else it.as_index(q) if hasattr(it, "as_index") else q for q in (x.a, x.b, x.c)]
                return slice(*b)
            if isinstance(x, List):
                return [one(it.resolve(q)) for q in x.items]
            return x

        i = tuple(one(it.resolve(x)) for x in i) if isinstance(i, tuple) else one(i)
        for x in i if isinstance(i, tuple) else (i,):
            if not (isinstance(x, (int, slice, list)) or x is Ellipsis or x is None):
                return Opaque(self.path + "[…]")
        try:
            return self.wrap(self.arr[i])
        except IndexError as e:
            raise AbsRaise("IndexError", str(e), it.where())

    def oiter(self, it):
        return [self.wrap(x) for x in self.arr]

    def oattr(self, it, name):
        a = self.arr
        if name == "flat":
            return Grid(self.path, a.reshape(-1))
        if name in ("flatten", "ravel", "copy", "tolist", "transpose", "squeeze"):
            return ExtFn(name, lambda it, a_, k: nested(a.tolist()) if name == "tolist" else self.wrap(getattr(a, name)()) if name != "squeeze" else self.wrap(a.squeeze() if a.squeeze().ndim else a.squeeze().item()))
        if name == "reshape":
            def f(it, a_, k):
                s = [it.resolve(x) for x in (a_ if not isinstance(it.resolve(a_[0]), (tuple, List)) else it.iterate(a_[0]))]
                try:
                    return self.wrap(a.reshape(s))
                except ValueError as e:
                    raise AbsRaise("ValueError", str(e), it.where())
            return ExtFn(name, f)
        if name == "item":
            return ExtFn(name, lambda it, a_, k: a.reshape(-1)[it.resolve(a_[0]) if a_ else 0])
        if name in ("shape", "size", "ndim"):
            return getattr(a, name)
        if name == "T":
            return self.wrap(a.T)
        raise AbsRaise("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % name, it.where())

    def olen(self, it):
        return len(self.arr)


def nested(x):
    return List([nested(y) for y in x]) if isinstance(x, list) else x


def grid(it, fig, args, kwargs):
    d = [it.resolve(kwargs.get(n, args[i] if len(args) > i else 1)) for i, n in enumerate(("nrows", "ncols"))]
    if not all(isinstance(x, int) for x in d):
        return Opaque(fig.path + ".axes")
    if min(d) < 1:
        raise AbsRaise("ValueError", "Number of rows and columns must be positive integers, not %s" % (tuple(d),), it.where())
    a = _np.empty(tuple(d), object)
    for r in range(d[0]):
        for c in range(d[1]):
            a[r, c] = fig.panel(it, (d[0], d[1], r * d[1] + c + 1))
    if it.resolve(kwargs.get("squeeze", args[4] if len(args) > 4 else True)) is False:
        return Grid(fig.path + ".axes", a)
    a = a.squeeze()
    return Grid(fig.path + ".axes", a) if a.ndim else a.item()


def call(it, path, args, kwargs):
    """The result of a plotting call that makes, selects or forwards to panels; None if it is none of these."""
    if path == PLT + "subplots":
        f = it.state["gcf"] = Figure(it)
        return f, grid(it, f, args, {k: v for k, v in kwargs.items()})
    if path == PLT + "figure":
        known = it.resolve(args[0]) if args else None
        if isinstance(known, Opaque):  # an existing figure, by its number or itself
            return known
        f = it.state["gcf"] = Figure(it)
        return f
    if path in (PLT + "gcf", PLT + "gca", PLT + "subplot"):
        f = it.state.get("gcf")
        if f is None:
            f = it.state["gcf"] = Figure(it)
        if path.endswith("gcf"):
            return f
        if path.endswith("subplot"):
            return f.at(it, [it.resolve(x) for x in args])
        return current(it)
    if path in (PLT + "sca", PLT + "axes") and args and isinstance(it.resolve(args[0]), Panel):
        it.state["gca"] = it.resolve(args[0])
        return it.state["gca"]
    return None


def current(it):
    p = it.state.get("gca")
    if p is None:
        f = it.state.get("gcf")
        if f is None:
            f = it.state["gcf"] = Figure(it)
        p = f.panel(it)
    return p


def forwarded(it, path):
    """The panel method a pyplot-level drawing call stands for."""
    n = path[len(PLT) :] if path.startswith(PLT) else ""
    if n in FORWARD:
        return current(it).path + "." + FORWARD[n]
    return path


def numpy_on(f, args):
    """numpy's reshaping helpers applied to panels."""
    x = args[0] if args else None
    if not isinstance(x, (Grid, Panel)) or f.name not in ("numpy.ravel", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.asarray", "numpy.array", "numpy.squeeze", "numpy.transpose"):
        return None
    a = x.arr if isinstance(x, Grid) else _np.array(x, dtype=object)
    if not isinstance(a, _np.ndarray):
        b = _np.empty((), object)
        b[()] = a
        a = b
    r = getattr(_np, f.name.split(".")[1])(a)
    return Grid(x.path, r) if getattr(r, "ndim", 0) else x
