"""Library descriptions, part 3: numpy, scipy, pyfftw, numba, sklearn, pandas."""
from .ext import *  # noqa: F401,F403
from .ext import EXT, E, ext, P, L, N, A, Arr, Node, List, Dict, Opaque, ExtFn, ExtType, Sl, NEWAXIS, MaskWhere, as_sym, symlist, absv, MISSING, Cell
from .lib import U, R, binop, binop_, ew, post, npout, toarr, np_array, reduction, axes_arg, conc_int, as_int, shape_of, filled, scal, dtype_of, cast, operand
from .node import nd, ite, cmp, and_, not_, or_, fn, add, mul, sub, div, power, const
from .interp import Func, Bound, Obj, Class, Choice, unconst, unN, is_scalar, RangeV, SymSeq
import itertools
import math
from .arr import Ctx
from fractions import Fraction

# elementwise functions: name -> (node function, result dtype)
UNARY = {
    "exp": (lambda x: fn("exp", x), "float"), "log": (lambda x: fn("log", x), "float"), "log10": (lambda x: fn("log10", x), "float"),
    "log2": (lambda x: fn("log2", x), "float"), "log1p": (lambda x: fn("log1p", x), "float"), "expm1": (lambda x: fn("expm1", x), "float"),
    "sqrt": (N.sqrt, "float"), "sin": (lambda x: fn("sin", x), "float"), "cos": (lambda x: fn("cos", x), "float"),
    "tan": (lambda x: fn("tan", x), "float"), "tanh": (lambda x: fn("tanh", x), "float"), "sinh": (lambda x: fn("sinh", x), "float"),
    "cosh": (lambda x: fn("cosh", x), "float"), "arctan": (lambda x: fn("arctan", x), "float"), "arcsin": (lambda x: fn("arcsin", x), "float"),
    "arccos": (lambda x: fn("arccos", x), "float"), "square": (lambda x: power(x, 2), "join"), "negative": (N.neg, "join"), "positive": (lambda x: x, "join"),
    "reciprocal": (lambda x: power(x, -1), "float"), "floor": (lambda x: fn("floor", x), "join"), "ceil": (lambda x: fn("ceil", x), "join"),
    "trunc": (lambda x: fn("trunc", x), "join"), "fix": (lambda x: fn("trunc", x), "join"), "rint": (lambda x: fn("round", x), "join"),
    "sign": (lambda x: fn("sign", x), "join"), "isnan": (lambda x: fn("isnan", x), "b"), "isfinite": (lambda x: fn("isfinite", x), "b"),
    "isinf": (lambda x: and_(not_(fn("isnan", x)), not_(fn("isfinite", x))), "b"),
    "deg2rad": (lambda x: mul(x, div(N.PI, 180)), "float"), "radians": (lambda x: mul(x, div(N.PI, 180)), "float"),
    "rad2deg": (lambda x: mul(x, div(180, N.PI)), "float"), "degrees": (lambda x: mul(x, div(180, N.PI)), "float"),
    "conj": (lambda x: fn("conj", x), "join"), "conjugate": (lambda x: fn("conj", x), "join"), "angle": (lambda x: fn("angle", x), "f"),
    "logical_not": (lambda x: not_(A.truth(x)), "b"), "sinc": (lambda x: ite(cmp("eq", x, 0), N.ONE, div(fn("sin", mul(N.PI, x)), mul(N.PI, x))), "float"),
    "cbrt": (lambda x: mul(fn("sign", x), power(fn("abs", x), Fraction(1, 3))), "float"), "exp2": (lambda x: power(2, x), "float"),
}
BINARY = {
    "add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "floor_divide": "FloorDiv", "power": "Pow", "float_power": "Pow",
    "mod": "Mod", "remainder": "Mod",
}
CMPF = {"equal": "Eq", "not_equal": "NotEq", "less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE"}


NIN2 = {"arctan2", "hypot", "copysign", "heaviside", "fmax", "fmin", "maximum", "minimum", "logical_and", "logical_or", "logical_xor", "logaddexp", "bitwise_and", "bitwise_or", "fmod", *BINARY, *CMPF}


class UFunc:
    """A numpy ufunc: callable, with reduce / accumulate / outer / at."""

    def __init__(self, name, impl, red=None):
        self.name, self.impl, self.red = name, impl, red

    def vcall(self, it, a, k):
        a = [it.resolve(x) for x in a]
        for i, x in enumerate(a):
            if isinstance(x, Choice):
                return it.over(x, lambda v: self.vcall(it, a[:i] + [v] + a[i + 1:], k))
        if any(isinstance(x, Opaque) for x in a):
            return Opaque("np." + self.name)
        out = k.get("out")
        if out is None and len(a) == (3 if self.name in NIN2 else 2) and isinstance(a[-1], Arr):
            out = a.pop()
        r = self.impl(it, a)
        if out is not None:
            out = it.resolve(out)
            if isinstance(out, tuple):
                out = out[0]
            w = k.get("where")
            if w is not None:
                L.setitem(it, out, (toarr(it, w),), L.getitem(it, r, toarr(it, w))) if toarr(it, w).ndim == 1 and out.ndim == 1 else _masked_out(it, out, w, r)
            else:
                A.store(out, r)
            return out
        if k.get("dtype") is not None:
            r = cast(r, dtype_of(it, k["dtype"])) if isinstance(r, Arr) else r
        return r

    def attr(self, it, name):
        if name == "reduce":
            def red(it, a, k):
                x = it.resolve(a[0])
                axis = a[1] if len(a) > 1 else k.get("axis", 0)
                if self.red:
                    arr = toarr(it, x)
                    return reduction(it, arr, self.red, axes_arg(it, axis), k.get("keepdims", False))
                U("%s.reduce" % self.name)
            return ExtFn("np.%s.reduce" % self.name, red)
        if name == "outer":
            def outer(it, a, k):
                x, y = toarr(it, a[0]), toarr(it, a[1])
                x2 = A.reshape(x, list(x.shape) + [1] * y.ndim)
                return self.vcall(it, [x2, y], {})
            return ExtFn("outer", outer)
        if name == "__name__":
            return self.name
        return MISSING


def _masked_out(it, out, w, r):
    w = toarr(it, w)
    wr = A.bread(w.reader(), w.shape, out.ndim)
    r = toarr(it, r)
    rr = A.bread(r.reader(), r.shape, out.ndim)
    out.write(lambda idx, old: ite(wr(idx), rr(idx), old))


def un(f, d):
    def impl(it, a):
        if len(a) != 1:
            R("TypeError", "one argument expected")
        x = np_operand(it, a[0])
        return ew(it, f, [x], d)

    return impl


def np_operand(it, x):
    """numpy functions applied to torch tensors convert them to arrays (and fail when they need grad)."""
    x = it.resolve(x)
    if isinstance(x, Arr) and x.kind == "t":
        return to_numpy(it, x)
    return x


def to_numpy(it, x):
    if L.grad_on_any([x]) and not it.nograd:
        R("RuntimeError", "Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
    r = L.tdetach(it, x)
    r.kind = "np"
    r.requires_grad = False
    return r


for _n, (_f, _d) in UNARY.items():
    EXT["numpy." + _n] = UFunc(_n, un(_f, _d))
EXT["numpy.abs"] = EXT["numpy.absolute"] = EXT["numpy.fabs"] = UFunc("absolute", lambda it, a: absv(it, np_operand(it, a[0])))
EXT["numpy.real"] = UFunc("real", lambda it, a: realpart(it, np_operand(it, a[0])))
EXT["numpy.imag"] = UFunc("imag", lambda it, a: imagpart(it, np_operand(it, a[0])))
for _n, _op in BINARY.items():
    EXT["numpy." + _n] = UFunc(_n, (lambda op: lambda it, a: binop(it, op, np_operand(it, a[0]), np_operand(it, a[1])))(_op), {"add": "sum", "multiply": "prod"}.get(_n))
for _n, _op in CMPF.items():
    EXT["numpy." + _n] = UFunc(_n, (lambda op: lambda it, a: it.compare(op, a[0], a[1]))(_op))
for _n, _m in (("maximum", "max"), ("minimum", "min"), ("fmax", "max"), ("fmin", "min")):
    EXT["numpy." + _n] = UFunc(_n, (lambda m: lambda it, a: ew(it, lambda x, y: fn(m, x, y), a))(_m), _m)
EXT["numpy.arctan2"] = UFunc("arctan2", lambda it, a: ew(it, lambda x, y: fn("atan2", x, y), a, "float"))
EXT["numpy.hypot"] = UFunc("hypot", lambda it, a: ew(it, lambda x, y: N.sqrt(add(power(x, 2), power(y, 2))), a, "float"))
EXT["numpy.logical_and"] = UFunc("logical_and", lambda it, a: ew(it, lambda x, y: and_(A.truth(x), A.truth(y)), a, "b"), "all")
EXT["numpy.logical_or"] = UFunc("logical_or", lambda it, a: ew(it, lambda x, y: or_(A.truth(x), A.truth(y)), a, "b"), "any")
EXT["numpy.heaviside"] = UFunc("heaviside", lambda it, a: ew(it, lambda x, y: ite(cmp("lt", x, 0), N.ZERO, ite(cmp("eq", x, 0), y, N.ONE)), a, "float"))
EXT["numpy.copysign"] = UFunc("copysign", lambda it, a: ew(it, lambda x, y: ite(cmp("lt", y, 0), N.neg(fn("abs", x)), fn("abs", x)), a, "float"))


@ext("numpy.ufunc.reduce")
def _ufr(it, a, k):
    return it.call(it.getattr(a[0], "reduce"), a[1:], k)


def realpart(it, x):
    if isinstance(x, Arr):
        if x.dtype in ("f", "i", "b"):
            return x
        rd = x.reader()
        return post(it, x.like(lambda idx: fn("real", rd(idx)), dtype="f"), [x])
    if isinstance(x, int):
        return x
    return ew(it, lambda v: fn("real", v) if L.scalar_dtype(v) != "i" else v, [x], "f")


def imagpart(it, x):
    if isinstance(x, int):
        return 0
    return ew(it, lambda v: fn("imag", v), [x], "f")


# constants, types
EXT.update({"numpy.pi": N.PI, "numpy.inf": N.INF, "numpy.nan": N.NAN, "numpy.NaN": N.NAN, "numpy.e": fn("exp", N.const(Fraction(1))), "numpy.newaxis": NEWAXIS, "numpy.euler_gamma": N.const(0.5772156649015329)})
for _n in ("float16", "float32", "float64", "complex64", "complex128", "int8", "int16", "int32", "int64", "uint8"):
    EXT["numpy." + _n] = ExtType("numpy." + _n, (lambda n: lambda it, a, k: (lambda v: cast(v, L.DTYPES["np." + n]) if not isinstance(v, int) else v)(it.resolve(a[0])) if not isinstance(it.resolve(a[0]), (List, tuple)) else cast(np_array(a[0], it), L.DTYPES["np." + n]))(_n))
EXT["numpy.bool_"] = ExtType("numpy.bool", lambda it, a, k: it.truth(a[0]))
EXT["numpy.bool"] = EXT["numpy.bool_"]
EXT["numpy.complex_"] = EXT["numpy.complex128"]
EXT["numpy.float_"] = EXT["numpy.float64"]
EXT["numpy.double"] = EXT["numpy.float64"]
EXT["numpy.ndarray"] = ExtType("numpy.ndarray")
for _n in ("floating", "integer", "number", "complexfloating", "generic"):
    EXT["numpy." + _n] = ExtType("numpy." + _n)
E("numpy.dtype", lambda it, a, k: dtype_of(it, a[0]))
E("numpy.errstate", lambda it, a, k: Opaque("ctx:errstate"))
E("numpy.seterr,numpy.set_printoptions", lambda it, a, k: None)


def finfo(it, a, k):
    return Info()


class Info:
    eps = N.const(2.220446049250313e-16)
    tiny = N.const(2.2250738585072014e-308)
    max = N.const(1.7976931348623157e308)
    min = N.const(-1.7976931348623157e308)


E("numpy.finfo,torch.finfo", finfo)


def with_dtype(it, r, dt):
    dt = dtype_of(it, dt)
    return r if dt is None else cast(r, dt)


@ext("numpy.array,numpy.asarray,numpy.ascontiguousarray,numpy.asanyarray")
def _array(it, a, k):
    x = it.resolve(a[0])
    if isinstance(x, Opaque):
        return x
    if isinstance(x, Arr) and x.kind == "t":
        x = to_numpy(it, x)
    items = it.iterate(x) if isinstance(x, (List, tuple)) and not (isinstance(x, List) and x.sym is not None) else None
    if items:
        its = [it.resolve(v) for v in items]
        if any(isinstance(v, Opaque) for v in its):
            return Opaque("np.array")
        for v in its:
            if isinstance(v, Choice):
                return it.over(v, lambda w: _array(it, [List([w if q is v else q for q in its])], k))
        if any(isinstance(v, Arr) and v.kind == "t" for v in its):
            its = [to_numpy(it, v) if isinstance(v, Arr) and v.kind == "t" else v for v in its]
            x = List(its)
    r = np_array(x, it)
    dt = a[1] if len(a) > 1 else k.get("dtype")
    return with_dtype(it, r, dt)


@ext("numpy.asarray", "x dtype=None")
def _asarray(it, x, dt):
    x = it.resolve(x)
    if isinstance(x, Arr) and x.kind == "np" and (dt is None or dtype_of(it, dt).kind == x.dtype):
        return x
    return _array(it, [x], {"dtype": dt})


EXT["numpy.ascontiguousarray"] = EXT["numpy.asanyarray"] = EXT["numpy.asarray"]
E("numpy.copy", lambda it, x: toarr(it, np_operand(it, x)).copy(), "x")
E("numpy.atleast_1d", lambda it, x: (lambda a: A.reshape(a, (1,)) if a.ndim == 0 else a)(toarr(it, x)), "x")
E("numpy.atleast_2d", lambda it, x: (lambda a: A.reshape(a, (1,) * (2 - a.ndim) + a.shape) if a.ndim < 2 else a)(toarr(it, x)), "x")


def _fill(name, v):
    @ext("numpy." + name, "shape dtype=None")
    def f(it, shape, dt):
        dt = dtype_of(it, dt)
        val = v
        if dt is not None and dt.kind == "b":
            val = bool(v)
        return filled("np", shape_of(it, shape), val, dt.kind if dt else "f", dt.prec if dt else None)

    @ext("numpy.%s_like" % name, "x dtype=None shape=None")
    def g(it, x, dt, shape):
        x = toarr(it, np_operand(it, x))
        dt = dtype_of(it, dt)
        return filled("np", x.shape if shape is None else shape_of(it, shape), v, dt.kind if dt else x.dtype, dt.prec if dt else x.xdtype)


_fill("zeros", 0)
_fill("ones", 1)


def garbage(it, shape, dtype, kind="np", prec=None):
    t = it.fresh("empty")
    r = Arr(kind, shape, lambda idx: N.app(("C:" if dtype == "c" else "") + "uninit:" + t, *idx), dtype)
    r.xdtype = prec
    return r


@ext("numpy.empty", "shape dtype=None")
def _empty(it, shape, dt):
    dt = dtype_of(it, dt)
    return garbage(it, shape_of(it, shape), dt.kind if dt else "f")


@ext("numpy.empty_like", "x dtype=None shape=None")
def _empty_like(it, x, dt, shape):
    x = toarr(it, x)
    dt = dtype_of(it, dt)
    return garbage(it, x.shape if shape is None else shape_of(it, shape), dt.kind if dt else x.dtype)


@ext("numpy.full", "shape value dtype=None")
def _full(it, shape, v, dt):
    dt = dtype_of(it, dt)
    v = it.resolve(v)
    if isinstance(v, (L.List, tuple)):
        v = toarr(it, v)
    if isinstance(v, Arr) and v.ndim:
        return A.broadcast_to(v, shape_of(it, shape)).copy()
    return filled("np", shape_of(it, shape), scal(it, v), dt.kind if dt else L.scalar_dtype(v))


@ext("numpy.full_like", "x value dtype=None")
def _full_like(it, x, v, dt):
    x = toarr(it, x)
    return filled("np", x.shape, scal(it, v), dtype_of(it, dt).kind if dt is not None else x.dtype)


@ext("numpy.eye,numpy.identity", "n m=None k=0 dtype=None")
def _eye(it, n, m, k, dt):
    n = as_int(it, n)
    m = n if m is None else as_int(it, m)
    return Arr("np", (n, m), lambda idx: ite(cmp("eq", add(idx[0], k), idx[1]), N.ONE, N.ZERO), "f")


@ext("numpy.diag", "x k=0")
def _diag(it, x, k):
    x = toarr(it, x)
    rd = x.reader()
    if x.ndim == 1:
        return Arr("np", (x.shape[0], x.shape[0]), lambda i: ite(cmp("eq", i[0], i[1]), rd((i[0],)), N.ZERO), x.dtype)
    return Arr("np", (x.shape[0],), lambda i: rd((i[0], i[0])), x.dtype)


@ext("numpy.arange")
def _arange(it, a, k):
    k = dict(k)
    dt = k.pop("dtype", None)
    lo, hi, st = (0, a[0], k.get("step", 1)) if len(a) == 1 and not ("stop" in k or "start" in k) else P(a, {n: v for n, v in k.items() if n in ("start", "stop", "step")}, "start=0 stop=None step=1", "numpy.arange")
    if hi is None:
        lo, hi = 0, lo
    lo, hi, st = nd(scal(it, lo)), nd(scal(it, hi)), nd(scal(it, st))
    n = fn("ceil", div(sub(hi, lo), st))
    if N.is_intlike(lo) and N.is_intlike(hi) and N.is_const(st) and st.attr == 1:
        n = sub(hi, lo)
    else:
        q = div(sub(hi, lo), st)
        if all(N.is_const(x) for x in (lo, hi, st)):
            import numpy as _np

            exact = max(0, math.ceil(q.attr)) if N.is_const(q) else None
            risky = exact is not None and len(_np.arange(float(lo.attr), float(hi.attr), float(st.attr))) != exact
        else:
            risky = N.FALSE if all(N.is_intlike(x) for x in (lo, hi, st)) else and_(cmp("lt", fn("abs", sub(q, fn("round", q))), N.const(1e-9)), cmp("gt", q, N.const(0.5)))
        if risky not in (False, N.FALSE):
            from .interp import RaiseRec

            it.raises.append(RaiseRec(N.and_(it.pcond(), N.TRUE if risky is True else risky), "RoundingHazard", "the number of values depends on rounding (the stop value is a whole number of steps away)", it.where()))
    if N.sign_of(n) not in ("+", "0+"):
        n = fn("max", n, N.ZERO)
    d = "i" if all(isinstance(x, int) or L.scalar_dtype(x) == "i" for x in a) else "f"
    return with_dtype(it, Arr("np", (A.dim(n),), lambda idx: add(lo, mul(st, idx[0])), d), dt)


@ext("numpy.linspace", "start stop num=50 endpoint=True retstep=False dtype=None axis=0")
def _linspace(it, a, b, n, ep, rs, dt, axis):
    ep = it.truth(ep)
    if not isinstance(ep, bool):
        U("symbolic endpoint flag")
    r = L.linspace(it, a, b, n, ep, "np", dtype_of(it, dt))
    if it.truth(rs) is True:
        return (r, div(sub(scal(it, b), scal(it, a)), sub(nd(as_int(it, n)), 1) if ep else nd(as_int(it, n))))
    return r


@ext("numpy.logspace", "start stop num=50 endpoint=True base=10.0 dtype=None")
def _logspace(it, a, b, n, ep, base, dt):
    r = L.linspace(it, a, b, n, it.truth(ep))
    base = N.const(10) if not isinstance(base, (Node, int)) else nd(base)
    return ew(it, lambda x: power(base, x), [r], "f")


@ext("numpy.geomspace", "start stop num=50 endpoint=True")
def _geomspace(it, a, b, n, ep):
    r = L.linspace(it, fn("log", scal(it, a)), fn("log", scal(it, b)), n, it.truth(ep))
    return ew(it, lambda x: fn("exp", x), [r], "f")


@ext("numpy.meshgrid")
def _meshgrid(it, a, k):
    return List(L.meshgrid(it, a, k.get("indexing", "xy"), "np", it.truth(k.get("sparse", False)) is True))


# reductions


def _red(names, kind, dtype="same"):
    @ext(",".join("numpy." + n for n in names.split(",")), "x axis=None dtype=None out=None keepdims=False")
    def f(it, x, axis, dt, out, kd):
        x = np_operand(it, x)
        if isinstance(x, Opaque):
            return x
        d = dtype
        xa = toarr(it, x)
        if kind in ("sum", "prod") and xa.dtype == "b":
            xa = cast(xa, L.DTYPES["np.int64"])
        r = reduction(it, xa, kind, axes_arg(it, axis), kd, dtype=d)
        return r


_red("sum", "sum")
_red("prod,product", "prod")


def _red2(names, kind, dtype="same"):
    @ext(",".join("numpy." + n for n in names.split(",")), "x axis=None out=None keepdims=False")
    def f(it, x, axis, out, kd):
        x = np_operand(it, x)
        if isinstance(x, Opaque):
            return x
        return reduction(it, x, kind, axes_arg(it, axis), kd, dtype=dtype)


_red2("max,amax", "max")
_red2("min,amin", "min")
_red2("any", "any", "b")
_red2("all", "all", "b")
E("numpy.ptp", lambda it, x: binop(it, "Sub", reduction(it, x, "max"), reduction(it, x, "min")), "x")


@ext("numpy.mean,numpy.average", "x axis=None weights=None dtype=None keepdims=False")
def _mean(it, x, axis, w, dt, kd):
    x = np_operand(it, x)
    if isinstance(x, Opaque):
        return x
    if w is not None:
        w = toarr(it, w)
        return binop(it, "Div", reduction(it, binop(it, "Mult", x, w), "sum", axes_arg(it, axis)), reduction(it, w, "sum", axes_arg(it, axis)))
    return L.mean_(it, x, axes_arg(it, axis), kd)


@ext("numpy.mean", "x axis=None dtype=None out=None keepdims=False")
def _mean2(it, x, axis, dt, out, kd):
    return _mean(it, x, axis, None, dt, kd)


@ext("numpy.var", "x axis=None dtype=None out=None ddof=0 keepdims=False")
def _var(it, x, axis, dt, out, ddof, kd):
    x = np_operand(it, x)
    if isinstance(x, Opaque):
        return x
    return L.var_(it, x, axes_arg(it, axis), kd, ddof)


@ext("numpy.std", "x axis=None dtype=None out=None ddof=0 keepdims=False")
def _std(it, x, axis, dt, out, ddof, kd):
    x = np_operand(it, x)
    if isinstance(x, Opaque):
        return x
    return ew(it, N.sqrt, [L.var_(it, x, axes_arg(it, axis), kd, ddof)], "float")


def _nanred(name, kind):
    @ext("numpy." + name, "x axis=None")
    def f(it, x, axis):
        x = toarr(it, x)
        rd = x.reader()
        fill = {"max": N.neg(N.INF), "min": N.INF, "sum": N.ZERO}[kind]
        y = x.like(lambda idx: ite(fn("isnan", rd(idx)), fill, rd(idx)))
        return reduction(it, y, kind, axes_arg(it, axis))


_nanred("nanmax", "max")
_nanred("nanmin", "min")
_nanred("nansum", "sum")


@ext("numpy.nanmean", "x axis=None")
def _nanmean(it, x, axis):
    x = toarr(it, x)
    rd = x.reader()
    s = reduction(it, x.like(lambda idx: ite(fn("isnan", rd(idx)), N.ZERO, rd(idx))), "sum", axes_arg(it, axis))
    c = reduction(it, x.like(lambda idx: ite(fn("isnan", rd(idx)), N.ZERO, N.ONE)), "sum", axes_arg(it, axis))
    return binop(it, "Div", s, c)


def argred(it, x, kind, axis=None):
    x = toarr(it, x)
    if axis is None:
        x = A.ravel(x)
        ax = 0
    else:
        ax = A.norm_axis(conc_int(it, axis), x.ndim)
    rd = x.reader()
    shape = [s for j, s in enumerate(x.shape) if j != ax]

    def f(idx):
        b = N.bvar("a")
        t = list(idx)
        t.insert(ax, b)
        return N.reduce_(kind, b, nd(x.shape[ax]), rd(tuple(t)))

    return npout(Arr(x.kind, shape, f, "i"))


E("numpy.argmax", lambda it, x, axis: argred(it, x, "argmax", axis), "x axis=None")
E("numpy.argmin", lambda it, x, axis: argred(it, x, "argmin", axis), "x axis=None")


@ext("numpy.count_nonzero", "x axis=None")
def _cnz(it, x, axis):
    x = toarr(it, x)
    rd = x.reader()
    return reduction(it, x.like(lambda idx: ite(A.truth(rd(idx)), N.ONE, N.ZERO), dtype="i"), "sum", axes_arg(it, axis))


def cumsum(it, x, axis=None, kind="sum"):
    x = toarr(it, x)
    if axis is None:
        x, axis = A.ravel(x), 0
    axis = A.norm_axis(conc_int(it, axis), x.ndim)
    rd = x.reader()

    def f(idx):
        b = N.bvar("c")
        t = list(idx)
        t[axis] = b
        return N.reduce_(kind, b, add(idx[axis], 1), rd(tuple(t)))

    return post(it, x.like(f), [x])


E("numpy.cumsum", lambda it, x, axis: cumsum(it, x, axis), "x axis=None")
E("numpy.cumprod", lambda it, x, axis: cumsum(it, x, axis, "prod"), "x axis=None")


# structure

E("numpy.stack", lambda it, x, axis: post(it, A.stack([toarr(it, v) for v in seqlist(it, x)], conc_int(it, axis)), []), "x axis=0")
E("numpy.concatenate", lambda it, x, axis: A.concat([toarr(it, v) for v in seqlist(it, x)], conc_int(it, axis)) if axis is not None else A.concat([A.ravel(toarr(it, v)) for v in seqlist(it, x)], 0), "x axis=0")
E("numpy.hstack", lambda it, x: (lambda xs: A.concat(xs, 0 if xs[0].ndim == 1 else 1))([toarr(it, v) if toarr(it, v).ndim else A.reshape(toarr(it, v), (1,)) for v in seqlist(it, x)]), "x")
E("numpy.vstack,numpy.row_stack", lambda it, x: A.concat([v if v.ndim > 1 else A.reshape(v, (1,) + tuple(v.shape)) for v in map(lambda q: toarr(it, q), seqlist(it, x))], 0), "x")
E("numpy.dstack", lambda it, x: A.concat([v if v.ndim > 2 else A.reshape(v, ((1,) + tuple(v.shape) + (1,)) if v.ndim == 1 else tuple(v.shape) + (1,)) for v in map(lambda q: toarr(it, q), seqlist(it, x))], 2), "x")
E("numpy.column_stack", lambda it, x: A.concat([v if v.ndim > 1 else A.reshape(v, tuple(v.shape) + (1,)) for v in map(lambda q: toarr(it, q), seqlist(it, x))], 1), "x")
E("numpy.append", lambda it, x, v, axis: A.concat([toarr(it, x), toarr(it, v)], conc_int(it, axis)) if axis is not None else A.concat([A.ravel(at1(toarr(it, x))), A.ravel(at1(toarr(it, v)))], 0), "x v axis=None")


def at1(a):
    return A.reshape(a, (1,)) if a.ndim == 0 else a


def seqlist(it, x):
    x = it.resolve(x)
    return it.iterate(x)


@ext("numpy.split,numpy.array_split", "x n axis=0")
def _split(it, x, n, axis):
    n, axis = conc_int(it, n), conc_int(it, axis)
    out = []
    for j in range(n):
        items = [Sl(None, None, None)] * x.ndim
        w = fn("floordiv", nd(x.shape[axis]), n)
        items[axis] = Sl(unN(mul(w, j)), unN(mul(w, j + 1)), None)
        out.append(A.basic_view(x, items))
    return List(out)


E("numpy.moveaxis", lambda it, x, s, d: A.moveaxis(toarr(it, x), axes_arg(it, s), axes_arg(it, d)), "x s d")
E("numpy.swapaxes", lambda it, x, s, d: swapaxes(toarr(it, x), conc_int(it, s), conc_int(it, d)), "x s d")
E("numpy.transpose", lambda it, x, axes: A.permute(toarr(it, x), [A.norm_axis(v, toarr(it, x).ndim) for v in axes_arg(it, axes)] if axes is not None else range(toarr(it, x).ndim)[::-1]), "x axes=None")
E("numpy.rollaxis", lambda it, x, s, d: A.moveaxis(toarr(it, x), conc_int(it, s), conc_int(it, d)), "x s d=0")


def swapaxes(x, a, b):
    o = list(range(x.ndim))
    a, b = A.norm_axis(a, x.ndim), A.norm_axis(b, x.ndim)
    o[a], o[b] = o[b], o[a]
    return A.permute(x, o)


E("numpy.reshape", lambda it, x, s, o: L.reshape_o(it, toarr(it, x), shape_of(it, s), o), "x shape order=None")
E("numpy.ravel", lambda it, x, o: L.ravel_o(it, at1(toarr(it, x)), o), "x order=None")
E("numpy.squeeze", lambda it, x, axis: npout(L.squeeze(it, toarr(it, x), axes_arg(it, axis))), "x axis=None")
E("numpy.expand_dims", lambda it, x, axis: L.expand_dims(toarr(it, x), axes_arg(it, axis)), "x axis")
E("numpy.broadcast_to", lambda it, x, s: A.broadcast_to(toarr(it, x), shape_of(it, s)), "x s")
E("numpy.broadcast_arrays", lambda it, a, k: (lambda xs: List([A.broadcast_to(x, A.broadcast_shapes([y.shape for y in xs])) for x in xs]))([toarr(it, v) for v in a]))
E("numpy.tile", lambda it, x, r: L.tile(it, x, r), "x r")
E("numpy.repeat", lambda it, x, r, axis: L.repeat(it, x, r, None if axis is None else conc_int(it, axis)), "x r axis=None")
E("numpy.flip", lambda it, x, axis: L.flip(it, x, axes_arg(it, axis)), "x axis=None")
E("numpy.flipud", lambda it, x: L.flip(it, x, [0]), "x")
E("numpy.fliplr", lambda it, x: L.flip(it, x, [1]), "x")


@ext("numpy.roll", "x shift axis=None")
def _roll(it, x, sh, axis):
    x = toarr(it, x)
    if axis is None:
        if x.ndim == 1:
            return A.roll(x, as_int(it, sh), 0)
        return A.reshape(A.roll(A.ravel(x), as_int(it, sh), 0), x.shape)
    ax = axes_arg(it, axis)
    shs = [as_int(it, s) for s in it.iterate(sh)] if isinstance(it.resolve(sh), (List, tuple)) else [as_int(it, sh)] * len(ax)
    for s, a in zip(shs, ax):
        x = A.roll(x, s, a)
    return x


@ext("numpy.pad")
def _pad(it, a, k):
    U("np.pad")


@ext("numpy.where")
def _where(it, a, k):
    if len(a) == 1:
        m = toarr(it, a[0])
        rd = m.reader()
        return MaskWhere(m if m.dtype == "b" else m.like(lambda idx: A.truth(rd(idx)), dtype="b"))
    return npout(L.where3(it, a[0], np_operand(it, a[1]), np_operand(it, a[2])))


E("numpy.nonzero", lambda it, a, k: _where(it, a, k))
E("numpy.flatnonzero", lambda it, x: L.getitem_other(it, _where(it, [A.ravel(at1(toarr(it, x)))], {}), 0), "a")


@ext("numpy.select", "conds vals default=0")
def _select(it, cs, vs, d):
    r = d
    for c, v in reversed(list(zip(it.iterate(cs), it.iterate(vs)))):
        r = L.where3(it, c, v, r)
    return r


@ext("numpy.clip", "x lo=None hi=None out=None min=None max=None")
def clip(it, x, lo, hi, out=None, mn=None, mx=None):
    r = x
    lo, hi = (mn if lo is None else lo), (mx if hi is None else hi)
    if lo is not None:
        r = ew(it, lambda p, q: fn("max", p, q), [r, lo])
    if hi is not None:
        r = ew(it, lambda p, q: fn("min", p, q), [r, hi])
    return r


@ext("numpy.nan_to_num", "x copy=True nan=0.0 posinf=None neginf=None")
def _ntn(it, x, copy, nan, pi, ni):
    dflt = not isinstance(nan, (int, Node)) or (isinstance(nan, int) and nan == 0) or (isinstance(nan, Node) and N.is_const(nan) and nan.attr == 0)
    if dflt and pi is None and ni is None:
        r = ew(it, lambda v: fn("nan_to_num", v), [x])
    else:
        nv = N.ZERO if dflt else nd(nan)
        pv = N.const(1.7976931348623157e308) if pi is None else nd(pi)
        mv = N.const(-1.7976931348623157e308) if ni is None else nd(ni)
        r = ew(it, lambda v: ite(fn("isnan", v), nv, ite(fn("isfinite", v), v, ite(cmp("lt", 0, v), pv, mv))), [x])
    if it.truth(copy) is False and isinstance(it.resolve(x), Arr):
        A.store(x, r)
        return x
    return r


E("numpy.einsum", lambda it, a, k: L.einsum(it, a[0], a[1:]))
E("numpy.dot", lambda it, a, b: binop(it, "Mult", a, b) if is_scalar(a) or is_scalar(b) else L.matmul(it, a, b) if toarr(it, b).ndim <= 2 else U("dot"), "a b")
E("numpy.matmul", lambda it, a, b: L.matmul(it, a, b), "a b")
E("numpy.inner,numpy.vdot", lambda it, a, b: L.matmul(it, A.ravel(toarr(it, a)), A.ravel(toarr(it, b))), "a b")
E("numpy.outer", lambda it, a, b: binop(it, "Mult", A.reshape(A.ravel(toarr(it, a)), (A.prod_dims(toarr(it, a).shape), 1)), A.ravel(toarr(it, b))), "a b")


@ext("numpy.tensordot", "a b axes=2")
def _tensordot(it, a, b, axes):
    a, b = toarr(it, a), toarr(it, b)
    axes = it.resolve(axes)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        p = it.iterate(axes)
        ax, bx = [A.norm_axis(v, a.ndim) for v in axes_arg(it, p[0])], [A.norm_axis(v, b.ndim) for v in axes_arg(it, p[1])]
    let = "abcdefghijklmnopqrstuvwxyz"
    sa = list(let[: a.ndim])
    sb = list(let[10: 10 + b.ndim])
    for x, y in zip(ax, bx):
        sb[y] = sa[x]
    out = [c for i, c in enumerate(sa) if i not in ax] + [c for i, c in enumerate(sb) if i not in bx]
    return L.einsum(it, "%s,%s->%s" % ("".join(sa), "".join(sb), "".join(out)), [a, b])


def cross(it, a, b, axis=-1):
    a, b = toarr(it, a), toarr(it, b)
    a, b = A.moveaxis(a, axis, -1), A.moveaxis(b, axis, -1)
    c = lambda x, j: A.basic_view(x, [Sl(None, None, None)] * (x.ndim - 1) + [j])
    e = lambda i, j: binop(it, "Sub", binop(it, "Mult", c(a, i), c(b, j)), binop(it, "Mult", c(a, j), c(b, i)))
    r = A.stack([toarr(it, v) for v in (e(1, 2), e(2, 0), e(0, 1))], -1)
    return A.moveaxis(r, -1, axis)


E("numpy.cross", lambda it, a, b, axisa, axisb, axisc, axis: cross(it, a, b, -1 if axis is None else conc_int(it, axis)), "a b axisa=-1 axisb=-1 axisc=-1 axis=None")


@ext("numpy.gradient")
def _gradient(it, a, k):
    x = toarr(it, a[0])
    axis = k.get("axis")
    sp = list(a[1:])
    axes = range(x.ndim) if axis is None else axes_arg(it, axis)
    if not sp:
        sp = [1] * len(axes)
    elif len(sp) == 1:
        sp = sp * len(axes)
    out = [L.gradient(it, x, h, ax) for h, ax in zip(sp, axes)]
    return out[0] if len(out) == 1 else List(out)


def _npdiff(it, x, n, axis, prepend, append):
    axis = conc_int(it, axis)
    if prepend is not None or append is not None:
        x = toarr(it, x)

        def end(v):
            v = toarr(it, v)
            return v if v.ndim else A.broadcast_to(v, tuple(1 if j == axis % x.ndim else q for j, q in enumerate(x.shape)))

        x = A.concat(([end(prepend)] if prepend is not None else []) + [x] + ([end(append)] if append is not None else []), axis)
    return L.diff(it, x, axis, conc_int(it, n))


E("numpy.diff", _npdiff, "x n=1 axis=-1 prepend=None append=None")
E("numpy.trapz,numpy.trapezoid,scipy.integrate.trapezoid,scipy.integrate.trapz", lambda it, y, x, dx, axis: L.trapz(it, y, x, nd(scal(it, dx)) if not isinstance(dx, float) else 1, conc_int(it, axis)), "y x=None dx=1.0 axis=-1")
E("numpy.isclose", lambda it, a, b, rt, at: L.isclose(it, a, b, *[None if isinstance(v, float) else v for v in (rt, at)]), "a b rtol=1e-5 atol=1e-8")
E("numpy.allclose", lambda it, a, b, rt, at: reduction(it, L.isclose(it, a, b, *[None if isinstance(v, float) else v for v in (rt, at)]), "all"), "a b rtol=1e-5 atol=1e-8")
E("numpy.array_equal", lambda it, a, b: _arreq(it, a, b), "a b")


def _arreq(it, a, b):
    a, b = toarr(it, a), toarr(it, b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not A.same_dim(x, y):
            c = it.truth(cmp("eq", x, y))
            if c is not True:
                if c is False:
                    return False
                U("array_equal of symbolic shapes")
    return reduction(it, it.compare("Eq", a, b), "all")


E("numpy.isscalar", lambda it, x: is_scalar(it.resolve(x)) or isinstance(it.resolve(x), str), "x")
E("numpy.ndim", lambda it, x: toarr(it, x).ndim, "x")
E("numpy.shape", lambda it, x: tuple(toarr(it, x).shape), "x")
E("numpy.size", lambda it, x, axis: unN(nd(A.prod_dims(toarr(it, x).shape))) if axis is None else toarr(it, x).shape[conc_int(it, axis)], "x axis=None")
E("numpy.iscomplexobj", lambda it, x: toarr(it, x).dtype == "c", "x")
E("numpy.isrealobj", lambda it, x: toarr(it, x).dtype != "c", "x")
E("numpy.round,numpy.around", lambda it, x, d: EXTround(it, x, d), "x decimals=0")


def EXTround(it, x, d):
    from .ext import _round

    return _round(it, x, d)


@ext("numpy.sort", "x axis=-1")
def _sort(it, x, axis):
    x = toarr(it, x)
    ax = A.norm_axis(conc_int(it, axis), x.ndim)
    rd = x.reader()

    def f(idx):
        b = N.bvar("k")
        t = list(idx)
        t[ax] = b
        return N.reduce_("kth", b, nd(x.shape[ax]), rd(tuple(t)), idx[ax])

    return x.like(f)


def kth_mean(it, x, axis, lower=False):
    x = toarr(it, x)
    if axis is None:
        x = toarr(it, it.call(it.getattr(x, "reshape"), [-1], {}))
        axis = 0
    ax = A.norm_axis(conc_int(it, axis), x.ndim)
    rd = x.reader()
    n = nd(x.shape[ax])

    def at(idx, k):
        b = N.bvar("k")
        return N.reduce_("kth", b, n, rd(idx[:ax] + (b,) + idx[ax:]), k)

    def f(idx):
        lo = at(tuple(idx), fn("floordiv", sub(n, N.const(1)), N.const(2)))
        return lo if lower else div(add(lo, at(tuple(idx), fn("floordiv", n, N.const(2)))), N.const(2))

    if x.ndim == 1:
        return f(())
    return A.Arr(x.kind, x.shape[:ax] + x.shape[ax + 1 :], f, "f")


@ext("numpy.median", "x axis=None")
def _median(it, x, axis):
    return kth_mean(it, x, axis)


@ext("numpy.argsort", "x axis=-1")
def _argsort(it, x, axis):
    x = toarr(it, x)
    ax = A.norm_axis(conc_int(it, axis), x.ndim)
    rd = x.reader()

    def f(idx):
        b = N.bvar("k")
        t = list(idx)
        t[ax] = b
        return N.reduce_("argkth", b, nd(x.shape[ax]), rd(tuple(t)), idx[ax])

    return x.like(f, dtype="i")


@ext("numpy.unique", "x return_index=False return_inverse=False return_counts=False")
def _unique(it, x, ri, rv, rc):
    x = A.ravel(toarr(it, x))
    rd = x.reader()
    b = N.bvar("u")
    n = nd(x.shape[0])
    body = rd((b,))
    cnt = N.reduce_("ucount", b, n, body)
    if any(it.truth(v) is True for v in (ri, rv, rc)):
        U("np.unique with indices")
    return Arr("np", (A.dim(cnt),), lambda idx: N.reduce_("ukth", b, n, body, idx[0]), x.dtype)


@ext("numpy.interp", "x xp fp left=None right=None")
def _interp(it, x, xp, fp, l, r):
    tok = [L.fingerprint(toarr(it, xp)), L.fingerprint(toarr(it, fp))]
    return ew(it, lambda v: N.app("np_interp", v, *tok), [x], "f")


E("numpy.vectorize", lambda it, a, k: VecV(a[0]))


class VecV:
    def __init__(self, f):
        self.f = f

    def vcall(self, it, a, k):
        arrs = [toarr(it, x) for x in a]
        shape = A.broadcast_shapes([x.shape for x in arrs])
        qs = [N.bvar("v") for _ in arrs]
        body = scal(it, it.call(self.f, list(qs), k))
        rds = [A.bread(x.reader(), x.shape, len(shape)) for x in arrs]
        return npout(Arr("np", shape, lambda idx: N.subst(body, {q: r(idx) for q, r in zip(qs, rds)}), "f"))


E("numpy.piecewise,numpy.apply_along_axis,numpy.histogram,numpy.polyfit,numpy.convolve,numpy.corrcoef,numpy.cov", lambda it, a, k: U("unmodelled numpy function"))
E("numpy.save,numpy.savez,numpy.savetxt,numpy.savez_compressed", lambda it, a, k: it.effects.append(("write", str(a[0]), "", it.pcond(), it.where())))
E("numpy.load,numpy.loadtxt,numpy.genfromtxt", lambda it, a, k: Opaque("np.load"))
E("numpy.ix_", lambda it, a, k: U("np.ix_"))
E("numpy.triu_indices,numpy.tril_indices", lambda it, a, k: U("np.triu_indices"))
E("numpy.may_share_memory,numpy.shares_memory", lambda it, a, b: a.st is b.st, "a b")


@ext("numpy.ndindex")
def _ndindex(it, a, k):
    import itertools

    sh = shape_of(it, a[0]) if len(a) == 1 and not isinstance(a[0], int) else [as_int(it, x) for x in a]
    if all(isinstance(s, int) for s in sh):
        return List([t for t in itertools.product(*[range(s) for s in sh])])
    sh = [nd(s) for s in sh]
    return symlist(nd(A.prod_dims(sh)), lambda i: tuple(A.unflatten(i, sh)))


@ext("numpy.indices", "dims sparse=False")
def _indices(it, d, sp):
    sh = shape_of(it, d)
    n = len(sh)
    return Arr("np", (n,) + tuple(sh), lambda idx: A.select_list([idx[j + 1] for j in range(n)], idx[0]), "i")


@ext("numpy.fromfunction")
def _fromfunction(it, a, k):
    idx = _indices(it, a[1], False)
    return it.call(a[0], [A.basic_view(idx, [j] + [Sl(None, None, None)] * (idx.ndim - 1)) for j in range(idx.shape[0])])


# linalg
E("numpy.linalg.norm", lambda it, x, o, axis, kd: L.norm_(it, toarr(it, x), axes_arg(it, axis), kd, it.resolve(o)), "x ord=None axis=None keepdims=False")
E("numpy.linalg.inv,numpy.linalg.solve,numpy.linalg.det,numpy.linalg.eig,numpy.linalg.eigh,numpy.linalg.svd,numpy.linalg.cholesky", lambda it, a, k: U("linear algebra"))


# random
class Rnd:
    pass


EXT["numpy.random.RandomState"] = ExtType("numpy.random.RandomState", lambda it, a, k: L.RNG(it, L.seed_token(it, a[0] if a else k.get("seed"))))
EXT["numpy.random.default_rng"] = ExtFn("numpy.random.default_rng", lambda it, a, k: it.resolve(a[0]) if a and isinstance(it.resolve(a[0]), L.RNG) else L.RNG(it, N.app("T:pcg", L.seed_token(it, a[0] if a else k.get("seed"))), "Generator"))
EXT["numpy.random.Generator"] = ExtType("numpy.random.Generator", lambda it, a, k: L.RNG(it, N.app("T:gen", L.seed_token(it, a[0])), "Generator"))
EXT["numpy.random.SeedSequence"] = ExtFn("SeedSequence", lambda it, a, k: L.SeedSeq(N.app("T:seq", L.seed_token(it, a[0] if a else k.get("entropy")))))
for _n in ("PCG64", "MT19937", "Philox"):
    EXT["numpy.random." + _n] = ExtFn(_n, (lambda n: lambda it, a, k: L.SeedSeq(N.app("T:" + n, L.seed_token(it, a[0] if a else None))))(_n))


def _grng(name):
    return ExtFn("numpy.random." + name, lambda it, a, k: it.call(L.rng_attr(it, it.globals_rng, name), a, k))


for _n in ("normal", "standard_normal", "randn", "rand", "random", "random_sample", "uniform", "randint", "seed", "get_state", "set_state"):
    EXT["numpy.random." + _n] = _grng(_n)


# fft
def _fftn(name, kind, real_in=False):
    @ext("numpy.fft.%s,scipy.fft.%s,scipy.fftpack.%s" % (name, name, name))
    def f(it, a, k):
        x = toarr(it, a[0])
        one = name in ("fft", "ifft", "rfft")
        two = name in ("fft2", "ifft2", "rfft2")
        if one:
            axis = conc_int(it, a[2] if len(a) > 2 else k.get("axis", -1))
            axes = [axis]
            n = a[1] if len(a) > 1 else k.get("n")
        else:
            axes = a[2] if len(a) > 2 else k.get("axes")
            n = a[1] if len(a) > 1 else k.get("s", k.get("shape"))
            axes = ([-2, -1] if two else list(range(x.ndim))) if axes is None else axes_arg(it, axes)
        if n is not None:
            ns = shape_of(it, n)
            for ax, s in zip(axes, ns):
                A.oblige_eq(x.shape[A.norm_axis(ax, x.ndim)], s, "transform length")
        norm = it.resolve(k.get("norm"))
        r = L.fft_axes(kind, x, axes, half=real_in)
        if norm not in (None, "backward"):
            cnt = nd(A.prod_dims([x.shape[A.norm_axis(ax, x.ndim)] for ax in axes]))
            if norm == "ortho":
                s = power(cnt, Fraction(1, 2) if kind == "ifft" else Fraction(-1, 2))
            elif norm == "forward":
                s = cnt if kind == "ifft" else power(cnt, -1)
            else:
                R("ValueError", "Invalid norm value")
            rd = r.reader()
            r = r.like(lambda idx: mul(s, rd(idx)))
        return r


for _n, _k in (("fft", "fft"), ("ifft", "ifft"), ("fft2", "fft"), ("ifft2", "ifft"), ("fftn", "fft"), ("ifftn", "ifft")):
    _fftn(_n, _k)
for _n in ("rfft", "rfft2", "rfftn"):
    _fftn(_n, "fft", True)


@ext("numpy.fft.irfft,numpy.fft.irfft2,numpy.fft.irfftn,scipy.fft.irfftn,scipy.fft.irfft,scipy.fft.irfft2")
def _irfftn(it, a, k):
    x = toarr(it, a[0])
    s = a[1] if len(a) > 1 else k.get("s", k.get("n"))
    axes = a[2] if len(a) > 2 else k.get("axes", k.get("axis"))
    axes = list(range(x.ndim)) if axes is None else axes_arg(it, axes)
    if s is None:
        nlast = unN(mul(2, sub(nd(x.shape[axes[-1]]), 1)))
    else:
        nlast = shape_of(it, s)[-1]
    return L.irfft_axes(x, axes, nlast)


E("numpy.fft.fftfreq,scipy.fft.fftfreq,scipy.fftpack.fftfreq", lambda it, n, d: L.fftfreq(as_int(it, n), 1 if isinstance(d, float) else scal(it, d)), "n d=1.0")
E("numpy.fft.rfftfreq,scipy.fft.rfftfreq", lambda it, n, d: L.rfftfreq(as_int(it, n), 1 if isinstance(d, float) else scal(it, d)), "n d=1.0")


def _shift(sgn):
    def f(it, x, axes):
        x = toarr(it, x)
        for ax in range(x.ndim) if axes is None else axes_arg(it, axes):
            n = nd(x.shape[ax])
            h = fn("floordiv", n, 2)
            x = A.roll(x, h if sgn > 0 else sub(n, h), ax)
        return x

    return f


E("numpy.fft.fftshift,scipy.fft.fftshift,scipy.fftpack.fftshift", _shift(1), "x axes=None")
E("numpy.fft.ifftshift,scipy.fft.ifftshift,scipy.fftpack.ifftshift", _shift(-1), "x axes=None")
for _n in ("dst", "dct", "idst", "idct"):
    E("scipy.fftpack.%s,scipy.fft.%s" % (_n, _n), (lambda kk: lambda it, x, t, n, axis, norm: L.dxt(kk[-3:], toarr(it, x), conc_int(it, axis), nd(conc_int(it, t) * (1 if len(kk) == 3 else -1) if norm is None else 100 + conc_int(it, t))))(_n), "x type=2 n=None axis=-1 norm=None")


def _dxtn(kk):
    def f(it, x, t, shape, axes, norm):
        if shape is not None:
            U("%sn with a shape" % kk)
        x = toarr(it, x)
        for ax in range(x.ndim) if axes is None else axes_arg(it, axes):
            x = it.call(EXT["scipy.fft." + kk], [x], {"type": t, "axis": ax, "norm": norm})
        return x

    return f


for _n in ("dst", "dct"):
    E("scipy.fft.%sn,scipy.fftpack.%sn" % (_n, _n), _dxtn(_n), "x type=2 shape=None axes=None norm=None")

# scipy
EXT["scipy.special.hyp2f1"] = UFunc("hyp2f1", lambda it, a: ew(it, lambda p, q, r, z: fn("hyp2f1", p, q, r, z), [np_operand(it, x) for x in a], "f"))
EXT["scipy.special.gamma"] = UFunc("gamma", lambda it, a: ew(it, lambda x: fn("gamma", x), a, "f"))
EXT["scipy.special.erf"] = UFunc("erf", lambda it, a: ew(it, lambda x: fn("erf", x), a, "f"))


@ext("scipy.integrate.quad")
def _quad(it, a, k):
    f, lo, hi = a[0], a[1], a[2]
    args = a[3] if len(a) > 3 else k.get("args", ())
    args = it.resolve(args)
    if not isinstance(args, (tuple, List)):
        args = (args,)
    for kk in k:
        if kk not in ("args", "full_output", "epsabs", "epsrel", "limit", "points", "weight", "wvar", "wopts", "maxp1", "limlst", "complex_func"):
            R("TypeError", "quad() got an unexpected keyword argument '%s'" % kk)
    b = N.bvar("x")
    body = scal(it, it.call(f, [b] + list(it.iterate(args))))
    v = N.reduce_("quad", b, N.ONE, body, scal(it, lo), scal(it, hi))
    return (v, N.const(Fraction(1, 10**9)))


@ext("scipy.integrate.dblquad")
def _dblquad(it, a, k):
    U("dblquad")


class Interpolator:
    """RegularGridInterpolator / RectBivariateSpline ...: an uninterpreted function of the query point, the
    grid and the values."""

    def __init__(self, name, axes, vals, opts):
        self.name, self.axes, self.vals, self.opts = name, axes, vals, opts

    def vcall(self, it, a, k):
        n = len(self.axes)
        if len(a) == 1:
            pt = it.resolve(a[0])
            if isinstance(pt, (tuple, List)):
                xs = it.iterate(pt)
                if len(xs) == n and any(isinstance(x, Arr) and x.ndim > 0 for x in xs):
                    comps = [toarr(it, x) for x in xs]
                else:
                    arr = np_array(pt, it)
                    comps = None
            else:
                arr = toarr(it, pt)
                comps = None
            if comps is None:
                A.oblige_eq(arr.shape[-1], n, "interpolation points")
                comps = [A.basic_view(arr, [Sl(None, None, None)] * (arr.ndim - 1) + [j]) for j in range(n)]
        else:
            comps = [toarr(it, x) for x in a[:n]]
        if self.opts[0] == "linear":
            f = self.linear
            if self.opts[1] is not False and self.opts[1] != 0:
                self.bounds(it, comps)
        else:
            tok = [L.fingerprint(x) for x in self.axes] + [L.fingerprint(self.vals)]

            def f(*q):
                return N.app("interp:%s" % (self.opts[0],), *q, *tok)

        r = ew(it, f, comps, "f")
        return toarr(it, r) if any(c.ndim for c in comps) else r

    def outside(self, q):
        return N.or_(*[N.or_(N.cmp("lt", x, ax.get((N.ZERO,))), N.cmp("lt", ax.get((N.sub(N.nd(ax.shape[0]), N.ONE),)), x)) for x, ax in zip(q, self.axes)])

    def bounds(self, it, comps):
        from .interp import RaiseRec

        shape = A.broadcast_shapes([c.shape for c in comps])
        rds = [(c.reader(), c.shape) for c in comps]
        bs = [N.bvar("q") for _ in shape]
        body = self.outside([A.bread(rd, sh, len(shape))(tuple(bs)) for rd, sh in rds])
        for b, n in zip(reversed(bs), reversed(shape)):
            body = N.reduce_("any", b, N.nd(n), body)
        it.raises.append(RaiseRec(N.and_(it.pcond(), body), "ValueError", "interpolation outside the grid", it.where()))

    def linear(self, *q):
        idx, w = [], []
        for x, ax in zip(q, self.axes):
            n = N.nd(ax.shape[0])
            b = N.bvar("g")
            cnt = N.reduce_("sum", b, n, N.ite(N.cmp("le", ax.get((b,)), x), N.ONE, N.ZERO))
            i = fn("min", fn("max", N.sub(cnt, N.ONE), N.ZERO), N.sub(n, N.const(2)))
            lo, hi = ax.get((i,)), ax.get((N.add(i, N.ONE),))
            idx.append(i)
            w.append(N.div(N.sub(x, lo), N.sub(hi, lo)))
        terms = []
        for corner in itertools.product((0, 1), repeat=len(q)):
            t = [w[j] if c_ else N.sub(N.ONE, w[j]) for j, c_ in enumerate(corner)]
            p = tuple(N.add(idx[j], N.const(c_)) for j, c_ in enumerate(corner))
            terms.append(N.mul(*t, self.vals.get(p)))
        r = N.add(*terms)
        fv = self.opts[2]
        if fv is None:
            return r
        return N.ite(self.outside(q), N.nd(fv), r)


@ext("scipy.interpolate.RegularGridInterpolator", "points values method='linear' bounds_error=True fill_value=None")
def _rgi(it, pts, vals, method, be, fv):
    axes = [toarr(it, x) for x in it.iterate(pts)]
    vals = toarr(it, vals)
    for j, x in enumerate(axes):
        A.oblige_eq(x.shape[0], vals.shape[j], "interpolation grid")
    bes = it.truth(be)
    it.calllog.append(("RegularGridInterpolator", [axes, vals, method, be, fv], {}, it.pcond(), it.where()))
    fv = it.resolve(fv)
    if fv is not None and not isinstance(fv, (int, Fraction, N.Node)):
        fv = scal(it, fv)
    return Interpolator("rgi", [x.copy() for x in axes], vals.copy(), (it.resolve(method), it.resolve(be), fv))


# pyfftw
class PlanV:
    def __init__(self, it, src, dst, axes, direction, flags):
        self.src, self.dst, self.axes, self.direction = src, dst, axes, direction
        self.flags = flags

    def run(self, it, normalise=True):
        x, y = self.src, self.dst
        axes = [A.norm_axis(v, x.ndim) for v in self.axes]
        if self.direction == "FFTW_FORWARD":
            half = x.dtype == "f"
            r = L.fft_axes("fft", x, axes, half=half)
            A.store(y, r)
        else:
            if y.dtype == "f":
                r = L.irfft_axes(x, axes, y.shape[axes[-1]])
                # multi-dimensional c2r destroys its input
                t = it.fresh("destroyed")
                cnt = nd(A.prod_dims([y.shape[v] for v in axes]))
            else:
                r = L.fft_axes("ifft", x, axes)
                t = None
                cnt = nd(A.prod_dims([x.shape[v] for v in axes]))
            if not normalise:
                rd = r.reader()
                r = r.like(lambda idx: mul(cnt, rd(idx)))
            A.store(y, r)
            if t and x.ndim > 1:
                x.write(lambda idx, old: N.app("C:uninit:" + t, *idx))
        return y

    def vcall(self, it, a, k):
        k = dict(k)
        if a or "input_array" in k or "output_array" in k:
            src = a[0] if a else k.get("input_array")
            if src is not None:
                A.store(self.src, src)
            dst = a[1] if len(a) > 1 else k.get("output_array")
            if dst is not None:
                self.dst = dst
        ni = it.truth(k.get("normalise_idft", True))
        if k.get("ortho") is not None and it.truth(k.get("ortho")) is True:
            U("ortho plan")
        return self.run(it, ni is not False)

    def attr(self, it, name):
        if name == "execute":
            return ExtFn("execute", lambda it, a, k: (self.run(it, False), None)[1])
        if name == "__call__":
            return ExtFn("plan", lambda it, a, k: self.vcall(it, a, k))
        if name == "input_array":
            return self.src
        if name == "output_array":
            return self.dst
        if name == "N":
            return unN(nd(A.prod_dims([self.src.shape[A.norm_axis(v, self.src.ndim)] for v in self.axes])))
        return Opaque("plan." + name)


def _pya(name, v=None):
    @ext("pyfftw." + name, "shape dtype='float64' order=None n=None")
    def f(it, shape, dt, order, n):
        dt = dtype_of(it, dt)
        if v is None:
            return garbage(it, shape_of(it, shape), dt.kind)
        return filled("np", shape_of(it, shape), v, dt.kind)


_pya("empty_aligned")
_pya("zeros_aligned", 0)
_pya("ones_aligned", 1)


@ext("pyfftw.FFTW", "input_array output_array axes=(-1,) direction='FFTW_FORWARD' flags=('FFTW_MEASURE',) threads=1 planning_timelimit=None normalise_idft=True ortho=False")
def _fftw(it, x, y, axes, direction, flags, threads, ptl, ni, ortho):
    axes = axes_arg(it, axes)
    nx = [A.norm_axis(v, x.ndim) for v in axes]
    direction = it.resolve(direction)
    if not isinstance(direction, str) or direction not in ("FFTW_FORWARD", "FFTW_BACKWARD"):
        R("ValueError", "Invalid direction")
    big, small = (x, y) if direction == "FFTW_FORWARD" else (y, x)
    for j in range(x.ndim):
        if x.dtype == y.dtype or j != nx[-1]:
            A.oblige_eq(x.shape[j], y.shape[j], "FFTW plan arrays")
        else:
            A.oblige_eq(small.shape[j], unN(add(fn("floordiv", nd(big.shape[j]), 2), 1)), "FFTW half-complex length")
    return PlanV(it, x, y, axes, direction, flags)


E("pyfftw.interfaces.cache.enable", lambda it, a, k: None)
E("pyfftw.byte_align", lambda it, a, k: a[0])

# numba
for _n in ("njit", "jit", "vectorize", "guvectorize"):
    E("numba." + _n, lambda it, a, k: a[0] if a and isinstance(a[0], (Func, Bound)) else ExtFn("numba", lambda it, b, kk: b[0]))
from .ext import BUILTINS  # noqa: E402

EXT["numba.prange"] = BUILTINS["range"]
E("numba.set_num_threads", lambda it, a, k: None)


# sklearn
class LinReg:
    def __init__(self):
        self.coef = self.intercept = None

    def attr(self, it, name):
        if name == "fit":
            def fit(it, a, k):
                X, y = toarr(it, np_operand(it, a[0])), toarr(it, np_operand(it, a[1]))
                if X.ndim != 2 or not (isinstance(X.shape[1], int) and X.shape[1] == 1):
                    if X.ndim != 2:
                        R("ValueError", "Expected 2D array, got 1D array instead")
                    U("multivariate regression")
                A.oblige_eq(X.shape[0], y.shape[0], "regression samples")
                x = A.basic_view(X, [Sl(None, None, None), 0])
                y1 = A.ravel(y)
                xm, ym = L.mean_(it, x), L.mean_(it, y1)
                dx = binop(it, "Sub", x, xm)
                dy = binop(it, "Sub", y1, ym)
                b = binop(it, "Div", reduction(it, binop(it, "Mult", dx, dy), "sum"), reduction(it, binop(it, "Mult", dx, dx), "sum"))
                b = nd(scal(it, b))
                i = sub(scal(it, ym), mul(b, scal(it, xm)))
                self.coef = Arr("np", (1,), lambda idx: b, "f") if y.ndim == 1 else Arr("np", (1, 1), lambda idx: b, "f")
                self.intercept = i if y.ndim == 1 else Arr("np", (1,), lambda idx: i, "f")
                return self
            return ExtFn("fit", fit)
        if name == "coef_" and self.coef is not None:
            return self.coef
        if name == "intercept_" and self.coef is not None:
            return self.intercept
        if name == "predict":
            def predict(it, a, k):
                X = toarr(it, np_operand(it, a[0]))
                x = A.basic_view(X, [Sl(None, None, None), 0])
                b = nd(self.coef.get((N.ZERO,) * self.coef.ndim))
                i = nd(scal(it, self.intercept))
                r = ew(it, lambda v: add(mul(b, v), i), [x], "f")
                return r if self.coef.ndim == 1 else A.reshape(r, (r.shape[0], 1))
            return ExtFn("predict", predict)
        if name == "score":
            return ExtFn("score", lambda it, a, k: Opaque("r2"))
        return MISSING


E("sklearn.linear_model.LinearRegression", lambda it, a, k: LinReg())


# pandas (small concrete tables with symbolic cells)
class TableV:
    """rows: list of dict column -> value"""

    def __init__(self, cols, rows, index=None):
        self.cols, self.rows = list(cols), rows
        self.index = list(range(len(rows))) if index is None else index

    def getitem(self, it, i):
        i = it.resolve(i)
        if isinstance(i, str):
            if i not in self.cols:
                R("KeyError", i)
            return ColV([r[i] for r in self.rows], self.index, i)
        if isinstance(i, List):
            return TableV(i.items, self.rows, self.index)
        if isinstance(i, ColV):
            keep = []
            for j, v in enumerate(i.vals):
                t = it.truth(v)
                if not isinstance(t, bool):
                    U("symbolic row filter")
                if t:
                    keep.append(j)
            return TableV(self.cols, [self.rows[j] for j in keep], [self.index[j] for j in keep])
        U("table index")

    def vlen(self, it):
        return len(self.rows)

    def attr(self, it, name):
        def m(f):
            return ExtFn("DataFrame." + name, f)

        if name == "columns":
            return ColV(list(self.cols), list(range(len(self.cols))), None)
        if name == "shape":
            return (len(self.rows), len(self.cols))
        if name == "groupby":
            return m(lambda it, a, k: GroupV(self, a[0]))
        if name == "iterrows":
            return m(lambda it, a, k: List([(ix, RowV(r)) for ix, r in zip(self.index, self.rows)]))
        if name == "itertuples":
            return m(lambda it, a, k: List([RowV(r) for r in self.rows]))
        if name == "sort_values":
            def sv(it, a, k):
                by = it.resolve(a[0] if a else k.get("by"))
                by = [by] if isinstance(by, str) else it.iterate(by)
                from .ext import _sorted

                order = _sorted(it, [List(range(len(self.rows)))], {"key": ExtFn("k", lambda it, b, kk: tuple(self.rows[b[0]][c] for c in by))})
                return TableV(self.cols, [self.rows[j] for j in order.items], [self.index[j] for j in order.items])
            return m(sv)
        if name in ("reset_index", "copy", "dropna"):
            return m(lambda it, a, k: TableV(self.cols, self.rows, self.index if name != "reset_index" else None))
        if name in ("values", "to_numpy"):
            arr = np_array(List([List([r[c] for c in self.cols]) for r in self.rows]), it)
            return arr if name == "values" else m(lambda it, a, k: arr)
        if name == "empty":
            return not self.rows
        if name == "pivot":
            def pv(it, a, k):
                return PivotV.make(it, self, k["index"], k["columns"], k["values"])
            return m(pv)
        if name == "pivot_table":
            return m(lambda it, a, k: PivotV.make(it, self, k["index"], k["columns"], k["values"]))
        if name in ("head", "describe", "info"):
            return m(lambda it, a, k: Opaque("df." + name))
        if name in self.cols:
            return self.getitem(it, name)
        return MISSING


class PivotV:
    @staticmethod
    def make(it, t, index, columns, values):
        ri = sorted({it.key(r[index]) for r in t.rows})
        ci = sorted({it.key(r[columns]) for r in t.rows})
        def cell(i, j):
            for r in t.rows:
                if it.key(r[index]) == i and it.key(r[columns]) == j:
                    return r[values]
            return N.NAN
        return TableV([c for c in ci], [{c: cell(i, c) for c in ci} for i in ri], ri)


class RowV:
    def __init__(self, r):
        self.r = r

    def vgetitem(self, it, i):
        if i not in self.r:
            R("KeyError", str(i))
        return self.r[i]

    def attr(self, it, name):
        return self.r.get(name, MISSING)


class GroupV:
    def __init__(self, t, by, col=None):
        self.t, self.by, self.col = t, by, col

    def groups(self, it):
        by = it.resolve(self.by)
        g = {}
        for j, r in enumerate(self.t.rows):
            key = it.key(r[by]) if isinstance(by, str) else tuple(it.key(r[c]) for c in it.iterate(by))
            if isinstance(key, Node):
                U("group by a symbolic column")
            g.setdefault(key, []).append(j)
        return dict(sorted(g.items()))

    def getitem(self, it, i):
        return GroupV(self.t, self.by, it.resolve(i))

    def attr(self, it, name):
        if name in ("first", "last", "mean", "min", "max"):
            def f(it, a, k):
                g = self.groups(it)
                if not isinstance(self.col, str):
                    U("group aggregation over several columns")
                vals = []
                for js in g.values():
                    cs = [self.t.rows[j][self.col] for j in js]
                    if name == "first":
                        vals.append(cs[0])
                    elif name == "last":
                        vals.append(cs[-1])
                    elif name == "mean":
                        vals.append(L.mean_(it, np_array(List(cs), it)))
                    else:
                        vals.append(reduction(it, np_array(List(cs), it), name))
                return ColV(vals, list(g.keys()), self.col)
            return ExtFn("groupby." + name, f)
        if name == "ngroups":
            return len(self.groups(it))
        return MISSING


class ColV:
    def __init__(self, vals, index, name):
        self.vals, self.index, self.name = vals, index, name

    def getitem(self, it, i):
        i = it.key(i)
        if i in self.index:
            return self.vals[self.index.index(i)]
        R("KeyError", str(i))

    def vlen(self, it):
        return len(self.vals)

    def attr(self, it, name):
        def m(f):
            return ExtFn("Series." + name, f)

        if name == "values":
            return np_array(List(self.vals), it)
        if name in ("to_numpy",):
            return m(lambda it, a, k: np_array(List(self.vals), it))
        if name in ("tolist", "to_list"):
            return m(lambda it, a, k: List(self.vals))
        if name == "index":
            return IndexV(self.index)
        if name == "unique":
            return m(lambda it, a, k: np_array(List(list(dict.fromkeys(it.key(v) for v in self.vals))), it))
        if name == "nunique":
            return m(lambda it, a, k: len(dict.fromkeys(it.key(v) for v in self.vals)))
        if name == "sort_index":
            o = sorted(range(len(self.vals)), key=lambda j: self.index[j])
            return m(lambda it, a, k: ColV([self.vals[j] for j in o], [self.index[j] for j in o], self.name))
        if name == "to_dict":
            return m(lambda it, a, k: Dict(dict(zip(self.index, self.vals))))
        if name == "items":
            return m(lambda it, a, k: List(list(zip(self.index, self.vals))))
        if name == "map":
            def mp(it, a, k):
                f = it.resolve(a[0])
                if isinstance(f, ColV):
                    return ColV([f.getitem(it, v) for v in self.vals], self.index, self.name)
                if isinstance(f, Dict):
                    return ColV([it.getitem(f, v) for v in self.vals], self.index, self.name)
                return ColV([it.call(f, [v]) for v in self.vals], self.index, self.name)
            return m(mp)
        if name in ("min", "max", "sum", "mean"):
            return m(lambda it, a, k: reduction(it, np_array(List(self.vals), it), name) if name != "mean" else L.mean_(it, np_array(List(self.vals), it)))
        if name in ("astype", "reset_index", "copy"):
            return m(lambda it, a, k: self)
        if name in ("iloc",):
            return np_array(List(self.vals), it)
        return MISSING


class IndexV:
    def __init__(self, ix):
        self.ix = list(ix)

    def vlen(self, it):
        return len(self.ix)

    def attr(self, it, name):
        if name == "get_loc":
            def gl(it, a, k):
                key = it.key(a[0])
                if key not in self.ix:
                    R("KeyError", str(key))
                return self.ix.index(key)
            return ExtFn("Index.get_loc", gl)
        if name == "values":
            return np_array(List(self.ix), it)
        if name in ("tolist", "to_list"):
            return ExtFn("tolist", lambda it, a, k: List(self.ix))
        if name == "get_indexer":
            return ExtFn("gi", lambda it, a, k: np_array(List([self.ix.index(it.key(v)) if it.key(v) in self.ix else -1 for v in it.iterate(a[0])]), it))
        return MISSING


@ext("pandas.read_csv,pandas.read_table")
def _read_csv(it, a, k):
    t = it.state.get("table")
    if t is None:
        return Opaque("pd.read_csv")
    it.calllog.append(("pandas.read_csv", a, k, it.pcond(), it.where()))
    return TableV(t.cols, [dict(r) for r in t.rows])


# exported to lib
L.TableV, L.GroupV, L.ColV = TableV, GroupV, ColV
