"""Library descriptions, part 6: less common numpy and torch functions, stated in terms of the ones described before."""
from .ext_meth import TM, tm
from .ext_torch import EXT, E, P, L, N, A, Arr, ExtFn, Sl, Opaque, tt, tover, tshape, tfill  # noqa: F401
from .ext_np import UFunc
from .lib import U, binop, ew, toarr, reduction, axes_arg, conc_int, as_int, shape_of, scal
from .node import nd, ite, cmp, and_, or_, not_, fn, add, mul, sub, div
from .interp import is_scalar, List

ALL = Sl(None, None, None)


def B(it, op, a, b):
    return binop(it, op, a, b)


def npc(name):
    """The numpy description, for a tensor method of the same meaning."""
    return lambda it, a: L.post(it, it.call(EXT["numpy." + name], a, {}), [v for v in a if isinstance(v, Arr)])


def num(it, v):
    return N.const(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v


# ---- torch, elementwise
tm("addcmul", "tensor1 tensor2 value=1")(lambda it, x, p, q, v: B(it, "Add", x, B(it, "Mult", num(it, v), B(it, "Mult", p, q))))
tm("addcdiv", "tensor1 tensor2 value=1")(lambda it, x, p, q, v: B(it, "Add", x, B(it, "Mult", num(it, v), B(it, "Div", p, q))))
tm("clamp_min", "min")(lambda it, x, m: L_clip(it, x, m, None))
tm("clamp_max", "max")(lambda it, x, m: L_clip(it, x, None, m))
tm("rsub", "other")(lambda it, x, o: B(it, "Sub", o, x))
tm("logical_xor", "other")(lambda it, x, y: ew(it, lambda p, q: or_(and_(A.truth(p), not_(A.truth(q))), and_(not_(A.truth(p)), A.truth(q))), [x, y], "b"))
tm("bitwise_and", "other")(lambda it, x, y: B(it, "BitAnd", x, y))
tm("bitwise_or", "other")(lambda it, x, y: B(it, "BitOr", x, y))
tm("bitwise_xor", "other")(lambda it, x, y: TM["logical_xor"](it, x, [y], {}) if x.dtype == "b" else U("bitwise_xor"))
tm("bitwise_not")(lambda it, x, a, k: ew(it, lambda p: not_(A.truth(p)), [x], "b") if x.dtype == "b" else U("bitwise_not"))
for _n, _o in {"not_equal": "NotEq", "less_equal": "LtE", "greater_equal": "GtE"}.items():
    tm(_n)((lambda o: lambda it, x, a, k: it.compare(o, x, a[0] if a else k["other"]))(_o))
tm("isclose", "other rtol=None atol=None")(lambda it, x, y, r, t: L.isclose(it, x, tt(it, y), r, t))
tm("allclose", "other rtol=None atol=None")(lambda it, x, y, r, t: reduction(it, toarr(it, L.isclose(it, x, tt(it, y), r, t)), "all"))
tm("equal", "other")(lambda it, x, y: it.call(EXT["torch.equal"], [x, y], {}))
tm("logaddexp", "other")(lambda it, x, y: ew(it, lambda p, q: fn("log", add(fn("exp", p), fn("exp", q))), [x, y], "float"))
tm("logsumexp", "dim keepdim=False")(lambda it, x, d, kd: ew(it, lambda v: fn("log", v), [reduction(it, ew(it, lambda v: fn("exp", v), [x], "f"), "sum", axes_arg(it, d), kd)], "f"))
tm("xlogy", "other")(lambda it, x, y: B(it, "Mult", x, ew(it, lambda v: fn("log", v), [y], "float")))
tm("heaviside", "values")(lambda it, x, y: ew(it, lambda p, q: ite(cmp("lt", p, 0), N.ZERO, ite(cmp("eq", p, 0), q, N.ONE)), [x, y]))
tm("copysign", "other")(lambda it, x, y: ew(it, lambda p, q: ite(cmp("lt", q, 0), N.neg(fn("abs", p)), fn("abs", p)), [x, y], "float"))
tm("signbit")(lambda it, x, a, k: ew(it, lambda p: cmp("lt", p, 0), [x], "b"))
tm("sgn")(lambda it, x, a, k: TM["sign"](it, x, [], {}))
tm("deg2rad")(lambda it, x, a, k: B(it, "Mult", x, div(N.PI, 180)))
tm("rad2deg")(lambda it, x, a, k: B(it, "Mult", x, div(180, N.PI)))
tm("isposinf")(lambda it, x, a, k: ew(it, lambda p: and_(fn("isinf", p), cmp("gt", p, 0)), [x], "b"))
tm("isneginf")(lambda it, x, a, k: ew(it, lambda p: and_(fn("isinf", p), cmp("lt", p, 0)), [x], "b"))
tm("isreal")(lambda it, x, a, k: ew(it, lambda p: cmp("eq", fn("imag", p), 0), [x], "b"))
tm("dist", "other p=2")(lambda it, x, y, p: L.norm_(it, B(it, "Sub", x, y), None, False, p))
E("torch.polar", lambda it, r, t: B(it, "Mult", r, ew(it, lambda v: fn("exp", mul(N.I, v)), [t], "c")), "abs angle")
E("torch.scalar_tensor", lambda it, a, k: it.call(EXT["torch.tensor"], a, k))


def L_clip(it, x, lo, hi):
    return TM["clamp"](it, x, [lo, hi], {})


tm("where", "condition other")(lambda it, x, c, o: L.where3(it, tt(it, c), x, o))
TM["where"] = lambda it, x, a, k: (lambda c, o: L.where3(it, tt(it, c), x, o))(*P(a, k, "condition other"))

# ---- torch, structure
tm("fliplr")(lambda it, x, a, k: TM["flip"](it, x, [(1,)], {}))
tm("flipud")(lambda it, x, a, k: TM["flip"](it, x, [(0,)], {}))
tm("diagonal", "offset=0 dim1=0 dim2=1")(lambda it, x, o, p, q: diagonal(it, x, o, p, q))
tm("trace")(lambda it, x, a, k: reduction(it, diagonal(it, x, 0, 0, 1), "sum"))
tm("vdot", "other")(lambda it, x, y: B(it, "MatMult", ew(it, lambda v: fn("conj", v), [x]), y))
tm("tensordot", "other dims=2")(lambda it, x, y, d: L.post(it, it.call(EXT["numpy.tensordot"], [x, y, d], {}), [x, y]))
tm("masked_select", "mask")(lambda it, x, m: L.getitem(it, x, m))
tm("nonzero", "as_tuple=False")(lambda it, x, t: it.call(EXT["torch.where"], [x], {}) if it.truth(t) is True else U("nonzero"))
tm("unflatten", "dim sizes")(lambda it, x, d, s: (lambda d: A.reshape(x, list(x.shape[:d]) + [as_int(it, v) for v in it.iterate(s)] + list(x.shape[d + 1:])))(A.norm_axis(conc_int(it, d), x.ndim)))
tm("adjoint")(lambda it, x, a, k: ew(it, lambda v: fn("conj", v), [TM["transpose"](it, x, [-2, -1], {})]))
for _n, _v in (("new_zeros", "zeros"), ("new_ones", "ones"), ("new_empty", "empty")):
    TM[_n] = (lambda v: lambda it, x, a, k: like(it, x, it.call(EXT["torch." + v], list(a), k), k))(_v)
TM["new_full"] = lambda it, x, a, k: like(it, x, it.call(EXT["torch.full"], list(a), k), k)
TM["new_tensor"] = lambda it, x, a, k: like(it, x, it.call(EXT["torch.tensor"], list(a), k), k)
E("torch.atleast_1d", lambda it, x: A.reshape(tt(it, x), (1,)) if x.ndim == 0 else x, "x")
E("torch.atleast_2d", lambda it, x: A.reshape(tt(it, x), {0: (1, 1), 1: (1,) + tuple(x.shape)}[x.ndim]) if x.ndim < 2 else x, "x")
E("torch.dstack", lambda it, x: L.post(it, it.call(EXT["numpy.dstack"], [x], {}), list(it.iterate(x))), "tensors")
E("torch.broadcast_shapes,numpy.broadcast_shapes", lambda it, a, k: tuple(A.broadcast_shapes([tuple(shape_of(it, v)) for v in a])))
E("torch.linalg.vecdot,numpy.vecdot", lambda it, x, y, d: reduction(it, B(it, "Mult", ew(it, lambda v: fn("conj", v), [x]), y), "sum", axes_arg(it, d)), "x y dim=-1")
E("torch.linalg.matmul,torch.linalg.multi_dot", lambda it, a, k: B(it, "MatMult", *(a if len(a) == 2 else it.iterate(a[0]))))
E("torch.linalg.cross", lambda it, x, y, d: TM["cross"](it, tt(it, x), [y, d], {}), "x y dim=-1")
E("torch.linalg.diagonal", lambda it, x, o, p, q: diagonal(it, tt(it, x), o, p, q), "x offset=0 dim1=-2 dim2=-1")
E("torch.linalg.det,torch.det,numpy.linalg.det", lambda it, x: det(it, x), "x")


def like(it, x, r, k):
    if "dtype" not in k and isinstance(r, Arr):
        r.dtype, r.xdtype = x.dtype, x.xdtype
    return r


def diagonal(it, x, off, p, q):
    x = toarr(it, x)
    p, q = A.norm_axis(conc_int(it, p), x.ndim), A.norm_axis(conc_int(it, q), x.ndim)
    if conc_int(it, off) != 0:
        U("diagonal with an offset")
    rest = [i for i in range(x.ndim) if i not in (p, q)]
    rd = x.reader()

    def get(idx):
        full = [None] * x.ndim
        for j, i in enumerate(rest):
            full[i] = idx[j]
        full[p] = full[q] = idx[-1]
        return rd(tuple(full))

    n = x.shape[p]
    if isinstance(x.shape[q], int) and isinstance(n, int):
        n = min(n, x.shape[q])
    return L.post(it, Arr(x.kind, tuple(x.shape[i] for i in rest) + (n,), get, x.dtype), [x])


def det(it, x):
    x = toarr(it, x)
    if x.ndim < 2 or x.shape[-1] not in (2, 3) or x.shape[-1] != x.shape[-2]:
        U("determinant of this shape")
    e = lambda i, j: L.getitem(it, x, tuple([ALL] * (x.ndim - 2) + [i, j]))
    m = lambda a, b: B(it, "Mult", a, b)
    if x.shape[-1] == 2:
        return B(it, "Sub", m(e(0, 0), e(1, 1)), m(e(0, 1), e(1, 0)))
    c = lambda a, b: B(it, "Sub", m(e(1, a), e(2, b)), m(e(1, b), e(2, a)))
    return B(it, "Add", B(it, "Sub", m(e(0, 0), c(1, 2)), m(e(0, 1), c(0, 2))), m(e(0, 2), c(0, 1)))


def symseq(it, x):
    """The symbolic sequence x is, when its length is symbolic."""
    x = it.resolve(x)
    if isinstance(x, L.List) and x.sym is not None:
        return x.sym
    return x if isinstance(x, L.SymSeq) else None


def joined(name, f):
    """stack / concatenate of a list whose length is symbolic."""
    base = EXT[name]

    def g(it, a, k):
        s = symseq(it, a[0]) if a else None
        if s is None:
            return it.call(base, a, k)
        it.obligation(cmp("gt", nd(s.n), 0), "at least one array in " + name)
        t = name.startswith("torch")
        r = L.np_array(s, it, "t" if t else "np")
        e0 = s.at(N.bvar("z"))
        r = L.post(it, r, [e0] if isinstance(e0, Arr) else [])
        if isinstance(e0, Arr):
            r.xdtype = e0.xdtype
        return f(it, r, a, k)

    EXT[name] = ExtFn(name, g)


def _axis(it, a, k):
    return conc_int(it, a[1] if len(a) > 1 else k.get("dim", k.get("axis", 0)))


def _catsym(it, r, a, k):
    ax = _axis(it, a, k)
    if r.ndim != 2 or ax != 0:
        if ax == 0 and r.ndim > 1:
            return A.reshape(r, [mul(nd(r.shape[0]), nd(r.shape[1]))] + list(r.shape[2:]))
        U("concatenation of a symbolic list along a later axis")
    return A.reshape(r, [mul(nd(r.shape[0]), nd(r.shape[1]))])


for _n in ("torch.stack", "numpy.stack"):
    joined(_n, lambda it, r, a, k: A.moveaxis(r, 0, A.norm_axis(_axis(it, a, k), r.ndim)))
for _n in ("torch.cat", "torch.concat", "torch.concatenate", "numpy.concatenate"):
    joined(_n, _catsym)
for _n in ("torch.vstack", "numpy.vstack"):
    joined(_n, lambda it, r, a, k: r if r.ndim == 2 else U("vstack of a symbolic list"))


# ---- numpy
for _a, _b in {"acos": "arccos", "asin": "arcsin", "atan": "arctan", "atan2": "arctan2", "pow": "power", "concat": "concatenate", "permute_dims": "transpose",
               "cumulative_sum": "cumsum", "cumulative_prod": "cumprod"}.items():
    if "numpy." + _b in EXT:
        EXT.setdefault("numpy." + _a, EXT["numpy." + _b])
EXT["numpy.bitwise_and"] = UFunc("bitwise_and", lambda it, a: B(it, "BitAnd", *a))
EXT["numpy.bitwise_or"] = UFunc("bitwise_or", lambda it, a: B(it, "BitOr", *a))
EXT["numpy.logical_xor"] = EXT["numpy.bitwise_xor"] = UFunc("logical_xor", lambda it, a: ew(it, lambda p, q: or_(and_(A.truth(p), not_(A.truth(q))), and_(not_(A.truth(p)), A.truth(q))), a, "b"))
EXT["numpy.invert"] = EXT["numpy.bitwise_not"] = UFunc("invert", lambda it, a: L.unop(it, "Invert", a[0]))
EXT["numpy.logaddexp"] = UFunc("logaddexp", lambda it, a: ew(it, lambda p, q: fn("log", add(fn("exp", p), fn("exp", q))), a, "float"))
EXT["numpy.signbit"] = UFunc("signbit", lambda it, a: ew(it, lambda p: cmp("lt", p, 0), a, "b"))
EXT["numpy.isposinf"] = UFunc("isposinf", lambda it, a: ew(it, lambda p: and_(fn("isinf", p), cmp("gt", p, 0)), a, "b"))
EXT["numpy.isneginf"] = UFunc("isneginf", lambda it, a: ew(it, lambda p: and_(fn("isinf", p), cmp("lt", p, 0)), a, "b"))
E("numpy.isreal", lambda it, x: ew(it, lambda p: cmp("eq", fn("imag", p), 0), [toarr(it, x)], "b"), "x")
E("numpy.trace", lambda it, x, o, p, q: reduction(it, diagonal(it, x, o, p, q), "sum", (-1,)), "x offset=0 axis1=0 axis2=1")
E("numpy.diagonal", lambda it, x, o, p, q: diagonal(it, x, o, p, q), "x offset=0 axis1=0 axis2=1")
E("numpy.matrix_transpose", lambda it, x: it.call(EXT["numpy.swapaxes"], [x, -1, -2], {}), "x")
E("numpy.unstack", lambda it, x, axis: tuple(L.getitem(it, x, tuple([ALL] * A.norm_axis(conc_int(it, axis), x.ndim) + [i])) for i in range(conc_int(it, x.shape[A.norm_axis(conc_int(it, axis), x.ndim)]))), "x axis=0")
E("numpy.compress,numpy.extract", lambda it, c, x: L.getitem(it, toarr(it, x), toarr(it, c)), "condition a")


def _copyto(it, dst, src, casting, where):
    if where is True or where is None:
        A.store(dst, it.resolve(src))
    else:
        A.store(dst, L.where3(it, where, src, dst.copy()))


E("numpy.copyto", _copyto, "dst src casting='same_kind' where=True")
E("numpy.putmask,numpy.place", lambda it, x, m, v: A.store(x, L.where3(it, m, v, x.copy())) if is_scalar(it.resolve(v)) or (isinstance(it.resolve(v), Arr) and it.resolve(v).ndim == 0) else U("numpy.putmask"), "a mask values")


def _fill_diagonal(it, x, v, wrap):
    v = scal(it, v)
    x.write(lambda idx, old: ite(and_(*[cmp("eq", idx[0], i) for i in idx[1:]]), v, old))


E("numpy.fill_diagonal", _fill_diagonal, "a val wrap=False")


def _take(it, x, i, axis, out, mode):
    x = toarr(it, x)
    i = it.resolve(i)
    if axis is None:
        return L.getitem(it, A.ravel(x), i)
    return L.getitem(it, x, tuple([ALL] * A.norm_axis(conc_int(it, axis), x.ndim) + [i]))


if "numpy.take" not in EXT:
    E("numpy.take", _take, "a indices axis=None out=None mode='raise'")


def _tri(keep):
    def f(it, x, k):
        x = toarr(it, x)
        rd = x.reader()
        o = conc_int(it, k)
        return Arr(x.kind, x.shape, lambda idx: ite(cmp(keep, sub(idx[-1], idx[-2]), o), rd(idx), N.ZERO), x.dtype)

    return f


E("numpy.triu", _tri("ge"), "m k=0")
E("numpy.tril", _tri("le"), "m k=0")
E("torch.triu", lambda it, x, k: L.post(it, _tri("ge")(it, tt(it, x), k), [x]), "input diagonal=0")
E("torch.tril", lambda it, x, k: L.post(it, _tri("le")(it, tt(it, x), k), [x]), "input diagonal=0")
E("numpy.ndenumerate", lambda it, x: [(idx, L.getitem(it, x, idx)) for idx in it.iterate(it.call(EXT["numpy.ndindex"], [tuple(toarr(it, x).shape)], {}))], "x")
E("numpy.fromiter", lambda it, x, d, count: it.call(EXT["numpy.array"], [L.List(list(it.iterate(x)))], {"dtype": d}), "x dtype=None count=-1")
E("numpy.polyval", lambda it, p, x: _horner(it, list(it.iterate(it.resolve(p))), x), "p x")


def _horner(it, cs, x):
    r = cs[0]
    for c in cs[1:]:
        r = B(it, "Add", B(it, "Mult", r, x), c)
    return r


# ---- torch.nn.functional
F = "torch.nn.functional."
for _n in ("softmax",):
    E(F + _n, lambda it, x, dim: TM["softmax"](it, tt(it, x), [dim], {}), "input dim=None")
E(F + "softsign", lambda it, x: B(it, "Div", x, B(it, "Add", 1, TM["abs"](it, tt(it, x), [], {}))), "input")
E(F + "relu6", lambda it, x: TM["clamp"](it, tt(it, x), [0, 6], {}), "input")
E(F + "logsigmoid", lambda it, x: ew(it, lambda v: N.neg(fn("log", add(1, fn("exp", N.neg(v))))), [tt(it, x)], "float"), "input")
E(F + "hardtanh", lambda it, x, lo, hi: TM["clamp"](it, tt(it, x), [lo, hi], {}), "input min_val=-1 max_val=1")
E(F + "tanhshrink", lambda it, x: B(it, "Sub", x, TM["tanh"](it, tt(it, x), [], {})), "input")
E("numpy.iinfo", lambda it, a, k: Opaque("numpy.iinfo"))
E("torch.get_default_device", lambda it, a, k: Opaque("torch.device"))
TM["is_contiguous"] = lambda it, x, a, k: True
TM["data_ptr"] = TM["stride"] = TM["element_size"] = lambda it, x, a, k: Opaque("Tensor.data_ptr")


# ---- concurrent.futures: tasks are run when submitted; completion order is the reverse of submission
class FutureV:
    def __init__(self, val=None, exc=None):
        self.val, self.exc = val, exc

    def attr(self, it, name):
        if name == "result":

            def result(it, a, k):
                if self.exc is not None:
                    raise self.exc
                return self.val

            return ExtFn("result", result)
        if name == "exception":
            return ExtFn("exception", lambda it, a, k: None if self.exc is None else Opaque("exception"))
        if name in ("done", "cancelled"):
            return ExtFn(name, lambda it, a, k: name == "done")
        U("Future." + name)


class PoolV:
    def attr(self, it, name):
        if name == "submit":
            return ExtFn("raw:submit", lambda it, a, k: self.run(it, a[0], a[1:], k))
        if name == "map":
            return ExtFn("map", lambda it, a, k: List([self.run(it, a[0], list(x), {}).attr(it, "result").impl(it, [], {}) for x in zip(*[it.iterate(q) for q in a[1:]])]))
        if name == "shutdown":
            return ExtFn("shutdown", lambda it, a, k: None)
        U("Executor." + name)

    def run(self, it, f, a, k):
        try:
            return FutureV(it.call(f, list(a), k))
        except A.AbsRaise as e:
            return FutureV(exc=e)


for _n in ("ProcessPoolExecutor", "ThreadPoolExecutor"):
    EXT["concurrent.futures." + _n] = ExtFn(_n, lambda it, a, k: PoolV())
EXT["concurrent.futures.as_completed"] = ExtFn("as_completed", lambda it, a, k: List(list(it.iterate(a[0]))[::-1]))
