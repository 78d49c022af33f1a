"""Library descriptions, part 8: indexing helpers and the remaining structural functions, stated in terms of the ones described before."""
import math

from .ext_more import *  # noqa: F401,F403
from .ext_more import ALL, B, TM, tm, EXT, E, P, L, N, A, Arr, ExtFn, Sl, tt, toarr, reduction, axes_arg, conc_int, U, ew, nd, ite, cmp, and_, fn, add, mul, sub, div, is_scalar, List
from .ext_std import named
from .ext_np import UFunc, ext, at1, cumsum, seqlist
from .interp import NT, unN, RangeV
from .lib import post
from .ext import bi, BUILTINS, R


def conc(it, v):
    """A concrete list of integers, or None."""
    v = it.resolve(v)
    if is_scalar(v) or isinstance(v, int):
        return None
    return [conc_int(it, x) for x in it.iterate(v)]


# ---- keys written as indexing expressions
class KeyV:
    """np.s_: indexing returns the key."""

    def vgetitem(self, it, i):
        return i


class JoinV:
    """np.r_ / np.c_."""

    def __init__(self, col):
        self.col = col

    def vgetitem(self, it, i):
        i = i if isinstance(i, tuple) else (i,)
        xs = []
        for x in i:
            x = it.resolve(x)
            if isinstance(x, str):
                U("np.r_ directive")
            xs.append(at1(toarr(it, span(it, x) if isinstance(x, Sl) else x)))
        if self.col:
            return it.call(EXT["numpy.column_stack"], [List(xs)], {})
        return A.concat(xs, 0)


def span(it, s):
    c = it.resolve(s.c)
    if isinstance(c, N.Node) and c.op == "const" and isinstance(c.attr, complex) or (isinstance(c, N.Node) and c.op not in ("const", "sym")):
        n = complex_count(c)
        if n is not None:
            return it.call(EXT["numpy.linspace"], [0 if s.a is None else s.a, s.b, n], {})
    return it.call(EXT["numpy.arange"], [0 if s.a is None else s.a, s.b, 1 if c is None else c], {})


def complex_count(c):
    try:
        from .evalr import Valuation

        z = complex(Valuation(1).ev(c))
    except Exception:
        return None
    return int(abs(z)) if z.imag and not z.real else None


class GridV:
    """np.mgrid / np.ogrid."""

    def __init__(self, dense):
        self.dense = dense

    def vgetitem(self, it, i):
        if not isinstance(i, tuple):
            return toarr(it, span(it, i))
        xs = [toarr(it, span(it, s)) for s in i]
        r = it.iterate(it.call(EXT["numpy.meshgrid"], xs, {"indexing": "ij", "sparse": not self.dense}))
        return it.call(EXT["numpy.stack"], [List(list(r))], {}) if self.dense else List(list(r))


EXT["numpy.s_"] = EXT["numpy.index_exp"] = KeyV()
EXT["numpy.r_"], EXT["numpy.c_"] = JoinV(False), JoinV(True)
EXT["numpy.mgrid"], EXT["numpy.ogrid"] = GridV(True), GridV(False)


@ext("numpy.ix_")
def _ix(it, a, k):
    n = len(a)
    out = []
    for j, v in enumerate(a):
        x = toarr(it, v)
        if x.dtype == "b":
            U("np.ix_ with a mask")
        out.append(A.reshape(x, [1] * j + [x.shape[0]] + [1] * (n - j - 1)))
    return tuple(out)


# ---- splitting
def pieces(it, x, cuts, ax):
    out, c = [], [0] + cuts + [None]
    for lo, hi in zip(c, c[1:]):
        items = [ALL] * x.ndim
        items[ax] = Sl(lo, hi, None)
        out.append(A.basic_view(x, items))
    return out


def splitter(strict, axis0):
    base = EXT["numpy.split"]

    def f(it, a, k):
        x = toarr(it, a[0])
        n = a[1] if len(a) > 1 else k.get("indices_or_sections", k.get("tensor_indices_or_sections"))
        ax = a[2] if len(a) > 2 else k.get("axis", k.get("dim", axis0))
        ax = A.norm_axis(conc_int(it, ax(x) if callable(ax) else ax), x.ndim)
        cuts = conc(it, n)
        if cuts is None:
            w = unN(nd(x.shape[ax]))
            if not isinstance(w, int):
                return it.call(base, [x, n, ax], {})
            n = conc_int(it, n)
            if strict and w % n:
                R("ValueError", "array split does not result in an equal division")
            q, e = divmod(w, n)
            cuts = [q * j + min(j, e) for j in range(1, n)]
        return List(pieces(it, x, cuts, ax))

    return f


_s = splitter(True, 0), splitter(False, 0)
for _n, _f in {
    "numpy.split": _s[0], "numpy.array_split": _s[1], "numpy.hsplit": splitter(True, lambda x: 1 if x.ndim > 1 else 0), "numpy.vsplit": splitter(True, 0),
    "numpy.dsplit": splitter(True, 2), "torch.tensor_split": _s[1], "torch.hsplit": splitter(True, lambda x: 1 if x.ndim > 1 else 0), "torch.vsplit": splitter(True, 0),
}.items():
    EXT[_n] = ExtFn(_n, (lambda f, t: lambda it, a, k: tuple(post(it, v, [it.resolve(a[0])]) for v in f(it, a, k).items) if t else f(it, a, k))(_f, _n.startswith("torch")))


# ---- padding
def padded(it, x, w, mode, value):
    """w: per axis (before, after)."""
    rd = x.reader()
    sh = tuple(add(add(nd(n), p), q) for n, (p, q) in zip(x.shape, w))

    def get(idx):
        inside, src = [], []
        for i, n, (p, q) in zip(idx, x.shape, w):
            j = sub(i, p)
            if p or q:
                ok = and_(cmp("ge", j, 0), cmp("lt", j, nd(n)))
                last = sub(nd(n), 1)
                if mode == "constant":
                    inside.append(ok)
                    alt = N.ZERO
                elif mode == "edge":
                    alt = ite(cmp("lt", j, 0), N.ZERO, last)
                elif mode == "wrap":
                    alt = N.fn("mod", j, nd(n))
                elif mode == "reflect":
                    alt = ite(cmp("lt", j, 0), N.neg(j), sub(mul(2, last), j))
                else:
                    alt = ite(cmp("lt", j, 0), sub(N.neg(j), 1), sub(sub(mul(2, nd(n)), 1), j))
                j = ite(ok, j, alt)
            src.append(j)
        v = rd(tuple(src))
        return ite(and_(*inside), v, value) if inside else v

    return Arr(x.kind, tuple(A.dim(s) for s in sh), get, x.dtype)


@ext("numpy.pad", "array pad_width mode='constant' constant_values=0")
def _pad(it, x, w, mode, cv):
    x = toarr(it, x)
    mode = it.resolve(mode)
    if mode not in ("constant", "edge", "wrap", "reflect", "symmetric"):
        U("np.pad mode %s" % mode)
    r = it.resolve(w)
    if is_scalar(r):
        n = conc_int(it, r)
        ws = [(n, n)] * x.ndim
    else:
        rows = [it.resolve(v) for v in it.iterate(r)]
        if all(is_scalar(v) or isinstance(v, int) for v in rows):
            p = [conc_int(it, v) for v in rows]
            ws = [(p[0], p[-1])] * x.ndim
        else:
            ws = [tuple(conc_int(it, q) for q in it.iterate(v)) for v in rows]
            ws = [(p[0], p[-1]) for p in ws]
            if len(ws) == 1:
                ws = ws * x.ndim
    if len(ws) != x.ndim:
        R("ValueError", "operands could not be broadcast together: pad_width")
    return padded(it, x, ws, mode, nd(L.scal(it, cv)))


@ext("torch.nn.functional.pad", "input pad mode='constant' value=None")
def _tpad(it, x, p, mode, v):
    x = tt(it, x)
    p = conc(it, p)
    ws = [(0, 0)] * x.ndim
    for j in range(len(p) // 2):
        ws[x.ndim - 1 - j] = (p[2 * j], p[2 * j + 1])
    mode = {"replicate": "edge", "circular": "wrap"}.get(mode, mode)
    if mode not in ("constant", "edge", "wrap", "reflect") or any(q < 0 for w in ws for q in w):
        U("torch pad")
    return post(it, padded(it, x, ws, mode, N.ZERO if v is None else nd(L.scal(it, v))), [x])


# ---- gathering along an axis
def along(it, x, i, ax):
    x, i = toarr(it, x), toarr(it, i)
    ax = A.norm_axis(conc_int(it, ax), x.ndim)
    rd, ird = x.reader(), i.reader()
    n = nd(x.shape[ax])

    def get(idx):
        j = ird(tuple(idx))
        t = [N.ZERO if d == 1 else q for q, d in zip(idx, x.shape)]
        t[ax] = ite(cmp("lt", j, 0), add(j, n), j)
        return rd(tuple(t))

    return Arr(x.kind, tuple(i.shape[q] if q == ax or x.shape[q] == 1 else x.shape[q] if i.shape[q] == 1 else i.shape[q] for q in range(x.ndim)), get, x.dtype)


E("numpy.take_along_axis", lambda it, x, i, ax: along(it, x, i, ax), "arr indices axis=-1")
tm("gather", "dim index")(lambda it, x, d, i: post(it, along(it, x, i, d), [x]))
tm("take_along_dim", "indices dim")(lambda it, x, i, d: post(it, along(it, x, i, d), [x]))
tm("take", "index")(lambda it, x, i: L.getitem(it, A.ravel(x), i))


def _set_along(add_):
    def f(it, x, a, k):
        d, i, v = P(a, k, "dim index src")
        r = it.resolve(i)
        d = A.norm_axis(conc_int(it, d), x.ndim)
        js = [unN(toarr(it, r).get((N.const(q),))) for q in range(conc_int(it, toarr(it, r).shape[0]))] if toarr(it, r).ndim == 1 else U("scatter along several axes")
        if not all(isinstance(j, int) for j in js):
            U("scatter at unknown places")
        v = it.resolve(v)
        for q, j in enumerate(js):
            key = tuple([ALL] * d + [j])
            w = v if not isinstance(v, Arr) or v.ndim == 0 else L.getitem(it, v, tuple([ALL] * d + [q]))
            L.setitem(it, x, key, B(it, "Add", L.getitem(it, x, key), w) if add_ else w)
        return x

    return f


for _n, _f in {"index_add_": True, "index_copy_": False, "index_fill_": False}.items():
    TM[_n] = _set_along(_f)
for _n, _f in {"scatter_": False, "scatter_add_": True}.items():
    TM[_n] = (lambda f: lambda it, x, a, k: _set_along(f)(it, x, a, k) if x.ndim == 1 else U("scatter"))(_f)
for _n in ("index_add", "index_copy", "index_fill", "scatter", "scatter_add"):
    TM[_n] = (lambda n: lambda it, x, a, k: TM[n + "_"](it, TM["clone"](it, x, [], {}), a, k))(_n)


def _index_put_(it, x, a, k):
    i, v, acc = P(a, k, "indices values accumulate=False")
    if it.truth(acc) is not False:
        U("index_put accumulating")
    L.setitem(it, x, tuple(it.iterate(i)), v)
    return x


TM["index_put_"] = _index_put_
TM["index_put"] = lambda it, x, a, k: _index_put_(it, TM["clone"](it, x, [], {}), a, k)


@ext("numpy.put", "a ind v")
def _put(it, x, i, v):
    if x.ndim != 1:
        U("np.put on several axes")
    L.setitem(it, x, i, v)


@ext("numpy.put_along_axis", "arr indices values axis=-1")
def _put_along(it, x, i, v, ax):
    U("np.put_along_axis")


# ---- insertion, deletion
@ext("numpy.delete", "arr obj axis=None")
def _delete(it, x, i, ax):
    x = toarr(it, x)
    if ax is None:
        x, ax = A.ravel(x), 0
    ax = A.norm_axis(conc_int(it, ax), x.ndim)
    n = unN(nd(x.shape[ax]))
    if not isinstance(n, int):
        i = conc_int(it, i)
        if i not in (0, -1):
            U("np.delete from an unknown length")
        return L.getitem(it, x, tuple([ALL] * ax + [Sl(1, None, None) if i == 0 else Sl(None, -1, None)]))
    js = conc(it, i)
    js = {j % n for j in (js if js is not None else [conc_int(it, i)])}
    return L.getitem(it, x, tuple([ALL] * ax + [List([j for j in range(n) if j not in js])]))


@ext("numpy.insert", "arr obj values axis=None")
def _insert(it, x, i, v, ax):
    x = toarr(it, x)
    if ax is None:
        x, ax = A.ravel(x), 0
    ax = A.norm_axis(conc_int(it, ax), x.ndim)
    i = conc_int(it, i)
    v = toarr(it, v)
    if x.ndim == 1:
        v = at1(v)
    elif v.ndim < x.ndim:
        v = A.broadcast_to(A.reshape(v, list(v.shape[:ax]) + [1] + list(v.shape[ax:])) if v.ndim == x.ndim - 1 else v, [1 if q == ax else d for q, d in enumerate(x.shape)])
    p = pieces(it, x, [i], ax)
    return A.concat([p[0], v, p[1]], ax)


# ---- products, blocks
def kron(it, x, y):
    x, y = toarr(it, x), toarr(it, y)
    if x.ndim != y.ndim:
        U("kron of different dimensions")
    a = A.reshape(x, [d for s in x.shape for d in (s, 1)])
    b = A.reshape(y, [d for s in y.shape for d in (1, s)])
    return A.reshape(B(it, "Mult", a, b), [mul(nd(p), nd(q)) for p, q in zip(x.shape, y.shape)])


E("numpy.kron", lambda it, x, y: kron(it, x, y), "a b")
tm("kron", "other")(lambda it, x, y: post(it, kron(it, x, y), [x, y]))


@ext("numpy.block", "arrays")
def _block(it, xs):
    def go(v, depth):
        v = it.resolve(v)
        if not isinstance(v, List):
            return at1(toarr(it, v)), 0
        parts = [go(q, depth + 1) for q in v.items]
        h = max(p[1] for p in parts)
        ps = [p[0] for p in parts]
        nd_ = max(max(p.ndim for p in ps), h + 1)
        ps = [A.reshape(p, [1] * (nd_ - p.ndim) + list(p.shape)) for p in ps]
        return A.concat(ps, nd_ - 1 - h), h + 1

    return go(xs, 0)[0]


@ext("numpy.apply_along_axis")
def _aaa(it, a, k):
    f, ax, x = a[:3]
    x = toarr(it, x)
    ax = A.norm_axis(conc_int(it, ax), x.ndim)
    if x.ndim != 2:
        U("apply_along_axis")
    n = conc_int(it, x.shape[1 - ax])
    rows = [toarr(it, it.call(f, [L.getitem(it, x, (ALL, j) if ax == 0 else (j, ALL))] + list(a[3:]), k)) for j in range(n)]
    return A.stack(rows, rows[0].ndim if ax == 0 else 0)


@ext("numpy.convolve,scipy.signal.convolve", "a v mode='full'")
def _convolve(it, x, y, mode):
    x, y = toarr(it, x), toarr(it, y)
    n, m = unN(nd(x.shape[0])), unN(nd(y.shape[0]))
    if x.ndim != 1 or y.ndim != 1 or not isinstance(n, int) or not isinstance(m, int):
        U("convolution of unknown lengths")
    rx, ry = x.reader(), y.reader()
    full = []
    for q in range(n + m - 1):
        s = N.ZERO
        for i in range(max(0, q - m + 1), min(n, q + 1)):
            s = add(s, mul(rx((N.const(i),)), ry((N.const(q - i),))))
        full.append(unN(s))
    if mode == "same":
        k = max(n, m)
        lo = (n + m - 1 - k) // 2
        full = full[lo:lo + k]
    elif mode == "valid":
        full = full[min(n, m) - 1:max(n, m)]
    return it.call(EXT["numpy.array"], [List(full)], {})


@ext("numpy.lib.stride_tricks.sliding_window_view", "x window_shape axis=None")
def _swv(it, x, w, ax):
    x = toarr(it, x)
    if x.ndim != 1:
        U("sliding windows over several axes")
    w = w if is_scalar(it.resolve(w)) or isinstance(w, int) else it.iterate(w)[0]
    w = conc_int(it, w)
    rd = x.reader()
    return Arr("np", (A.dim(add(sub(nd(x.shape[0]), w), 1)), w), lambda idx: rd((add(idx[0], idx[1]),)), x.dtype)


E("numpy.unravel_index", lambda it, i, s: unravel(it, i, s), "indices shape")
E("numpy.ravel_multi_index", lambda it, m, d: ravelm(it, m, d), "multi_index dims")


def unravel(it, i, s):
    s = list(it.iterate(s))
    out = []
    for q in range(len(s)):
        w = 1
        for d in s[q + 1:]:
            w = B(it, "Mult", w, d)
        v = B(it, "FloorDiv", i, w)
        out.append(B(it, "Mod", v, s[q]) if q else v)
    return tuple(out)


def ravelm(it, m, d):
    m, d = list(it.iterate(m)), list(it.iterate(d))
    r = m[0]
    for v, n in zip(m[1:], d[1:]):
        r = B(it, "Add", B(it, "Mult", r, n), v)
    return r


EXT["numpy.divmod"] = ExtFn("np.divmod", lambda it, a, k: (B(it, "FloorDiv", *a), B(it, "Mod", *a)))


def search(it, edges, v, right):
    """How many edges lie below (or, from the right, up to) each value; edges are assumed sorted."""
    edges = toarr(it, edges)
    n = unN(nd(edges.shape[0]))
    rd = edges.reader()
    op = "le" if right else "lt"

    def f(x):
        if isinstance(n, int) and n <= 64:
            s = N.ZERO
            for j in range(n):
                s = add(s, ite(cmp(op, rd((N.const(j),)), x), N.ONE, N.ZERO))
            return s
        b = N.bvar("e")
        return N.reduce_("sum", b, nd(edges.shape[0]), ite(cmp(op, rd((b,)), x), N.ONE, N.ZERO))

    return ew(it, f, [v], "i")


E("numpy.searchsorted", lambda it, a, v, side, s: search(it, a, v, it.resolve(side) == "right"), "a v side='left' sorter=None")
E("torch.searchsorted", lambda it, a, v, o, right, side: post(it, search(it, a, v, it.truth(right) is True or it.resolve(side) == "right"), [a]), "sorted_sequence input out_int32=False right=False side=None")
E("torch.bucketize", lambda it, v, a, o, right: post(it, search(it, a, v, it.truth(right) is True), [a]), "input boundaries out_int32=False right=False")
E("numpy.digitize", lambda it, x, bins, right: search(it, bins, x if is_scalar(it.resolve(x)) else toarr(it, x), it.truth(right) is not True), "x bins right=False")


# ---- ufunc methods
_attr0 = UFunc.attr


def _uattr(self, it, name):
    if name == "accumulate" and self.name in ("add", "multiply"):
        return ExtFn("accumulate", lambda it, a, k: cumsum(it, a[0], a[1] if len(a) > 1 else k.get("axis", 0), "sum" if self.name == "add" else "prod"))
    if name == "at":

        def at(it, a, k):
            x, i = it.resolve(a[0]), a[1]
            js = conc(it, i)
            if x.ndim != 1 or (js is None and not isinstance(it.resolve(i), int)):
                U("%s.at" % self.name)
            v = it.resolve(a[2]) if len(a) > 2 else None
            for q, j in enumerate(js if js is not None else [it.resolve(i)]):
                w = [] if v is None else [v if is_scalar(v) or isinstance(v, (int, float)) else L.getitem(it, toarr(it, v), q)]
                L.setitem(it, x, j, self.vcall(it, [L.getitem(it, x, j)] + w, {}))

        return ExtFn("at", at)
    r = _attr0(self, it, name)
    if r is L.MISSING and name in ("accumulate", "reduceat", "nin", "nout", "types"):
        U("%s.%s" % (self.name, name))
    return r


UFunc.attr = _uattr


# ---- torch reductions that return a pair
PAIR = {}


def pair(name, fields=("values", "indices")):
    c = PAIR[name] = named(None, name, fields)
    return lambda v: NT.make(c, list(v)) if type(v) is tuple else v


for _n in ("max", "min"):
    TM[_n] = (lambda g, w: lambda it, x, a, k: w(g(it, x, a, k)))(TM[_n], pair("torch.return_types." + _n))


def _sorted(it, x, a, k):
    d, desc = P(a, k, "dim=-1 descending=False")
    v, i = it.call(EXT["numpy.sort"], [x, d], {}), it.call(EXT["numpy.argsort"], [x, d], {})
    if it.truth(desc) is True:
        v, i = L.flip(it, v, [conc_int(it, d)]), L.flip(it, i, [conc_int(it, d)])
    elif it.truth(desc) is not False:
        U("sort in an unknown order")
    return post(it, v, [x]), i


_pt = pair("torch.return_types.sort")
TM["sort"] = lambda it, x, a, k: _pt(_sorted(it, x, [v for v in a], {q: v for q, v in k.items() if q != "stable"}))
TM["argsort"] = lambda it, x, a, k: _sorted(it, x, [v for v in a], {q: v for q, v in k.items() if q != "stable"})[1]


def _topk(it, x, k, d, largest):
    v, i = _sorted(it, x, [d, largest], {})
    key = tuple([ALL] * A.norm_axis(conc_int(it, d), x.ndim) + [Sl(None, k, None)])
    return _pt((L.getitem(it, v, key), L.getitem(it, i, key)))


tm("topk", "k dim=-1 largest=True sorted=True")(lambda it, x, k, d, lg, s: _topk(it, x, k, d, lg))
tm("fmod", "other")(lambda it, x, y: ew(it, lambda p, q: N.mul(ite(cmp("lt", p, 0), N.const(-1), N.ONE), fn("mod", fn("abs", p), fn("abs", q))), [x, y]))
tm("addmm", "mat1 mat2 beta=1 alpha=1")(lambda it, x, a, b, be, al: B(it, "Add", B(it, "Mult", x, num(it, be)), B(it, "Mult", num(it, al), B(it, "MatMult", a, b))))
tm("addmv", "mat vec beta=1 alpha=1")(lambda it, x, a, b, be, al: B(it, "Add", B(it, "Mult", x, num(it, be)), B(it, "Mult", num(it, al), B(it, "MatMult", a, b))))
tm("baddbmm", "mat1 mat2 beta=1 alpha=1")(lambda it, x, a, b, be, al: B(it, "Add", B(it, "Mult", x, num(it, be)), B(it, "Mult", num(it, al), B(it, "MatMult", a, b))))
for _n, _q in (("var_mean", "var"), ("std_mean", "std")):
    TM[_n] = (lambda q: lambda it, x, a, k: (TM[q](it, x, a, k), TM["mean"](it, x, a[:1], {j: v for j, v in k.items() if j in ("dim", "keepdim")})))(_q)


def _cumtrapz(it, y, x, dx, d):
    y = tt(it, y)
    d = A.norm_axis(conc_int(it, d), y.ndim)
    lo, hi = tuple([ALL] * d + [Sl(None, -1, None)]), tuple([ALL] * d + [Sl(1, None, None)])
    s = B(it, "Div", B(it, "Add", L.getitem(it, y, lo), L.getitem(it, y, hi)), 2)
    if x is None:
        w = num(it, dx)
    else:
        x = tt(it, x)
        w = B(it, "Sub", L.getitem(it, x, Sl(1, None, None)), L.getitem(it, x, Sl(None, -1, None))) if x.ndim == 1 else B(it, "Sub", L.getitem(it, x, hi), L.getitem(it, x, lo))
        if x.ndim == 1 and d != y.ndim - 1:
            w = A.reshape(w, list(w.shape) + [1] * (y.ndim - 1 - d))
    return post(it, cumsum(it, B(it, "Mult", s, w), d), [y])


E("torch.cumulative_trapezoid", _cumtrapz, "y x=None dx=1 dim=-1")


def diag_embed(it, x, off, p, q):
    x = tt(it, x)
    if conc_int(it, off) != 0 or (conc_int(it, p), conc_int(it, q)) not in ((-2, -1), (x.ndim - 1, x.ndim)):
        U("diag_embed elsewhere")
    rd = x.reader()
    return post(it, Arr("t", tuple(x.shape) + (x.shape[-1],), lambda idx: ite(cmp("eq", idx[-1], idx[-2]), rd(tuple(idx[:-1])), N.ZERO), x.dtype), [x])


tm("diag_embed", "offset=0 dim1=-2 dim2=-1")(lambda it, x, o, p, q: diag_embed(it, x, o, p, q))
E("torch.view_as_real", lambda it, x: post(it, A.stack([TM["real"](it, x, [], {}) if "real" in TM else it.getattr(x, "real"), it.getattr(x, "imag")], x.ndim), [x]), "input")
E("torch.view_as_complex", lambda it, x: B(it, "Add", L.getitem(it, x, (Ellipsis, 0)), B(it, "Mult", N.I, L.getitem(it, x, (Ellipsis, 1)))), "input")


def _normalize(it, x, p, d, eps):
    x = tt(it, x)
    n = L.norm_(it, x, axes_arg(it, d), True, p)
    return B(it, "Div", x, ew(it, lambda v: fn("max", v, nd(eps)), [n]))


E("torch.nn.functional.normalize", _normalize, "input p=2.0 dim=1 eps=1e-12")
EXT["torch.fft.fftfreq"] = ExtFn("torch.fft.fftfreq", lambda it, a, k: L.post(it, tensored(it, "numpy.fft.fftfreq", a, k), []))
EXT["torch.fft.rfftfreq"] = ExtFn("torch.fft.rfftfreq", lambda it, a, k: L.post(it, tensored(it, "numpy.fft.rfftfreq", a, k), []))


def tensored(it, name, a, k):
    return it.call(EXT["torch.from_numpy"], [it.call(EXT[name], a, {q: v for q, v in k.items() if q not in ("dtype", "device")})], {})


for _n, _m in {"special.expit": "sigmoid", "special.erf": "erf", "special.erfc": "erfc", "special.log1p": "log1p", "special.expm1": "expm1", "special.logsumexp": "logsumexp", "special.exp2": "exp2", "special.sinc": "sinc", "special.xlogy": "xlogy"}.items():
    if _m in TM and "torch." + _n not in EXT:
        EXT["torch." + _n] = ExtFn(_n, (lambda m: lambda it, a, k: TM[m](it, tt(it, a[0]), list(a[1:]), k))(_m))


# ---- built-ins
_pow = BUILTINS["pow"]
BUILTINS["pow"] = ExtFn("pow", lambda it, a, k: B(it, "Mod", B(it, "Pow", a[0], a[1]), a[2]) if len(a) > 2 else it.call(_pow, a, k))
for _n in ("comb", "gcd", "isqrt", "perm", "lcm"):
    if "math." + _n not in EXT:
        EXT["math." + _n] = ExtFn("math." + _n, (lambda f: lambda it, a, k: f(*[conc_int(it, v) for v in a]))(getattr(math, _n)))
for _n in ("var_mean", "std_mean", "index_add", "index_copy", "index_fill", "scatter", "scatter_add", "index_put", "argsort"):
    EXT["torch." + _n] = ExtFn("torch." + _n, (lambda n: lambda it, a, k: TM[n](it, tt(it, a[0] if a else k["input"]), list(a[1:]), {q: v for q, v in k.items() if q != "input"}))(_n))


# ---- index pairs, small linear algebra and the remaining elementary functions
@ext("numpy.diag_indices")
def _diag_indices(it, a, k):
    n = conc_int(it, a[0])
    d = conc_int(it, a[1]) if len(a) > 1 else 2
    return tuple(it.call(EXT["numpy.arange"], [n], {}) for _ in range(d))


def tri(upper):
    def f(it, a, k):
        n = conc_int(it, a[0])
        off = conc_int(it, a[1] if len(a) > 1 else k.get("k", 0))
        mm = conc_int(it, a[2] if len(a) > 2 else k.get("m", n))
        pr = [(i, j) for i in range(n) for j in range(mm) if (j - i >= off if upper else j - i <= off)]
        return tuple(it.call(EXT["numpy.array"], [List([p[q] for p in pr])], {}) for q in (0, 1))
    return f


EXT["numpy.triu_indices"] = ExtFn("triu_indices", tri(True))
EXT["numpy.tril_indices"] = ExtFn("tril_indices", tri(False))

