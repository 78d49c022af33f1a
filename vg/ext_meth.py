"""Library descriptions, part 5: array and tensor methods (shared by numpy arrays and torch tensors)."""
from .ext_torch import *  # noqa: F401,F403
from .ext_torch import (
    EXT, E, ext, P, L, N, A, Arr, Node, List, Dict, Opaque, ExtFn, ExtType, Sl, MISSING, Cell, UNARY, absv, cumsum, argred, cross, swapaxes, IGN,
    realpart, imagpart, to_numpy, tt, mkt, floatdef, tshape, RangeV, clip,
)
from .lib import U, R, binop, ew, post, toarr, reduction, axes_arg, conc_int, as_int, shape_of, scal, dtype_of, cast
from .node import nd, ite, cmp, and_, or_, not_, fn, add, mul, sub, div, power
from .interp import Choice, unN, unconst, is_scalar, Func

TM = {}  # tensor methods
NM = {}  # ndarray methods


LONG = {
    "transpose": {"dim0": "a", "dim1": "b"}, "swapaxes": {"axis0": "a", "axis1": "b"}, "swapdims": {"dim0": "a", "dim1": "b"},
    "movedim": {"source": "a", "destination": "b"}, "moveaxis": {"source": "a", "destination": "b"},
    "split": {"split_size_or_sections": "size", "split_size": "size"}, "chunk": {"chunks": "n"},
    "repeat_interleave": {"repeats": "r"}, "outer": {"vec2": "o"}, "ger": {"vec2": "o"}, "expand_as": {"other": "o"}, "diag": {"diagonal": "k"},
}
KWONLY = {"reshape": "shape", "view": "size dtype shape", "permute": "dims", "flip": "dims", "expand": "size", "broadcast_to": "size", "repeat": "repeats", "tile": "dims"}


def tkeys(n, a, k, spec):
    """The keywords of a tensor operation, by the names of its description."""
    k = {{"axis": "dim", "keepdims": "keepdim"}.get(x, x): v for x, v in k.items()}
    k = {LONG.get(n, {}).get(x, x): v for x, v in k.items()}
    if spec is None:
        if n in KWONLY and any(x not in KWONLY[n].split() for x in k) or "rounding_mode" in k:
            U("%s with %s=" % (n, sorted(k)[0]))
        return k
    own = [w.split("=")[0] for w in spec.split()]
    odd = [x for x in k if x not in own and x not in IGN]
    if odd:
        U("%s with %s=" % (n, odd[0]))
    return k


def tm(name, spec=None, fnc=True):
    def deco(f):
        def make(n):
            def impl(it, x, a, k):
                if k:
                    k = tkeys(n, a, k, spec)
                return f(it, x, *P(a, k, spec, n)) if spec is not None else f(it, x, a, k)

            return impl

        for n in name.split(","):
            TM[n] = make(n)
            if fnc and "torch." + n not in EXT:

                def g(it, a, k, n=n):
                    a, k = list(a), dict(k)
                    if not a and "input" in k:
                        a = [k.pop("input")]
                    if not a:
                        U("torch.%s without its tensor" % n)
                    x = tt(it, a[0])
                    if isinstance(x, Opaque):
                        return Opaque("torch." + n)
                    return TM[n](it, x, a[1:], k)

                EXT["torch." + n] = ExtFn("torch." + n, g)
        return f

    return deco


def nm(name, spec=None):
    def deco(f):
        def impl(it, x, a, k):
            return f(it, x, *P(a, k, spec, name)) if spec is not None else f(it, x, a, k)

        for n in name.split(","):
            NM[n] = impl
        return f

    return deco


# ---- elementwise
TUN = dict(UNARY)
for _a, _b in {"atan": "arctan", "asin": "arcsin", "acos": "arccos", "neg": "negative", "resolve_conj": "positive"}.items():
    TUN[_a] = UNARY[_b]
TUN["relu"] = (lambda x: fn("max", x, N.ZERO), "join")
TUN["sigmoid"] = (lambda x: power(add(1, fn("exp", N.neg(x))), -1), "float")
TUN["rsqrt"] = (lambda x: power(x, N.const(-0.5)), "float")
TUN["erf"] = (lambda x: fn("erf", x), "float")
TUN["round"] = (lambda x: fn("round", x), "join")
for _n, (_f, _d) in TUN.items():
    if _n in ("deg2rad", "rad2deg", "fix", "rint", "cbrt", "degrees", "radians", "conjugate"):
        continue
    tm(_n)((lambda f, d: lambda it, x, a, k: ew(it, f, [x], d))(_f, _d))
tm("abs,absolute")(lambda it, x, a, k: absv(it, x))
TM["conj_physical"] = TM["conj"]


def tbin(name, op):
    def f(it, x, a, k):
        if not a and not ("other" in k or "exponent" in k):
            U("a tensor operation with %s=" % "=, ".join(k))
        y = it.resolve(a[0] if a else k.get("other", k.get("exponent")))
        if isinstance(y, Arr) and y.kind == "np" and y.ndim:
            R("TypeError", "argument 'other' must be Tensor, not numpy.ndarray")
        if isinstance(y, Choice):
            return it.over(y, lambda v: f(it, x, [v], k))
        al = k.get("alpha")
        if al is not None:
            y = binop(it, "Mult", y, al)
        return binop(it, op, x, y)

    tm(name)(f)


for _n, _o in {"add": "Add", "sub,subtract": "Sub", "mul,multiply": "Mult", "div,divide,true_divide": "Div", "pow,float_power": "Pow", "remainder": "Mod", "floor_divide": "FloorDiv", "matmul,mm,mv,bmm,dot,inner": "MatMult"}.items():
    tbin(_n, _o)
EXT["torch.pow"] = ExtFn("torch.pow", lambda it, a, k: binop(it, "Pow", *P(a, k, "input exponent")))
EXT["torch.mul"] = EXT["torch.multiply"] = ExtFn("torch.mul", lambda it, a, k: binop(it, "Mult", tt(it, a[0]), P(a, k, "input other")[1]))
for _n, _o in {"eq": "Eq", "ne": "NotEq", "lt,less": "Lt", "le": "LtE", "gt,greater": "Gt", "ge": "GtE"}.items():
    tm(_n)((lambda o: lambda it, x, a, k: it.compare(o, x, a[0] if a else k["other"]))(_o))
for _n, _m in {"maximum,fmax": "max", "minimum,fmin": "min"}.items():
    tm(_n, "other")((lambda m: lambda it, x, y: ew(it, lambda p, q: fn(m, p, q), [x, tt(it, y)]))(_m))
tm("atan2,arctan2", "other")(lambda it, x, y: ew(it, lambda p, q: fn("atan2", p, q), [x, y], "float"))
tm("hypot", "other")(lambda it, x, y: ew(it, lambda p, q: N.sqrt(add(power(p, 2), power(q, 2))), [x, y], "float"))
tm("logical_and", "other")(lambda it, x, y: ew(it, lambda p, q: and_(A.truth(p), A.truth(q)), [x, y], "b"))
tm("logical_or", "other")(lambda it, x, y: ew(it, lambda p, q: or_(A.truth(p), A.truth(q)), [x, y], "b"))
tm("clamp,clip", "min=None max=None")(lambda it, x, lo, hi: clip(it, x, lo, hi))
tm("nan_to_num", "nan=0.0 posinf=None neginf=None")(lambda it, x, nan, p, n: ew(it, lambda v: fn("nan_to_num", v), [x]))
tm("lerp", "end weight")(lambda it, x, e, w: binop(it, "Add", x, binop(it, "Mult", w, binop(it, "Sub", e, x))))
tm("masked_fill", "mask value")(lambda it, x, m, v: L.where3(it, m, v, x))
tm("softmax", "dim")(lambda it, x, d: (lambda e: binop(it, "Div", e, reduction(it, e, "sum", axes_arg(it, d), True)))(ew(it, lambda v: fn("exp", v), [x], "f")))


# ---- reductions
def keep(it, k):
    return it.truth(k) is True


@tm("sum", "dim=None keepdim=False dtype=None")
def _tsum(it, x, d, kd, dt):
    if x.dtype == "b":
        x = cast(x, L.DTYPES["torch.int64"])
    return tfix(x, reduction(it, x, "sum", axes_arg(it, d), kd))


def tfix(x, r):
    if isinstance(r, Arr):
        r.xdtype = x.xdtype
    return r


tm("prod", "dim=None keepdim=False")(lambda it, x, d, kd: tfix(x, reduction(it, x, "prod", axes_arg(it, d), kd)))
tm("mean", "dim=None keepdim=False dtype=None")(lambda it, x, d, kd, dt: tfix(x, L.mean_(it, x, axes_arg(it, d), kd)))
tm("nanmean", "dim=None keepdim=False")(lambda it, x, d, kd: U("nanmean"))
tm("nansum", "dim=None keepdim=False")(lambda it, x, d, kd: reduction(it, ew(it, lambda v: ite(fn("isnan", v), N.ZERO, v), [x]), "sum", axes_arg(it, d), kd))
tm("any", "dim=None keepdim=False")(lambda it, x, d, kd: reduction(it, x, "any", axes_arg(it, d), kd, dtype="b"))
tm("all", "dim=None keepdim=False")(lambda it, x, d, kd: reduction(it, x, "all", axes_arg(it, d), kd, dtype="b"))
tm("var", "dim=None unbiased=True keepdim=False correction=None")(lambda it, x, d, ub, kd, c: tfix(x, L.var_(it, x, axes_arg(it, d), kd, (1 if it.truth(ub) is True else 0) if c is None else c)))
tm("std", "dim=None unbiased=True keepdim=False correction=None")(lambda it, x, d, ub, kd, c: ew(it, N.sqrt, [tfix(x, L.var_(it, x, axes_arg(it, d), kd, (1 if it.truth(ub) is True else 0) if c is None else c))], "f"))
tm("amax", "dim=None keepdim=False")(lambda it, x, d, kd: tfix(x, reduction(it, x, "max", axes_arg(it, d), kd)))
tm("amin", "dim=None keepdim=False")(lambda it, x, d, kd: tfix(x, reduction(it, x, "min", axes_arg(it, d), kd)))
tm("argmax", "dim=None keepdim=False")(lambda it, x, d, kd: argt(it, x, "argmax", d))
tm("argmin", "dim=None keepdim=False")(lambda it, x, d, kd: argt(it, x, "argmin", d))
tm("count_nonzero", "dim=None")(lambda it, x, d: reduction(it, ew(it, lambda v: ite(A.truth(v), N.ONE, N.ZERO), [x], "i"), "sum", axes_arg(it, d)))


def argt(it, x, kind, d):
    r = argred(it, x, kind, d)
    if not isinstance(r, Arr):
        r = L.np_array(r, it, "t")
    r.kind = "t"
    return r


def tmm(kind):
    def f(it, x, a, k):
        if a and isinstance(it.resolve(a[0]), Arr):
            return ew(it, lambda p, q: fn(kind, p, q), [x, a[0]])
        if not a and not k:
            return tfix(x, reduction(it, x, kind))
        d, kd = P(a, k, "dim keepdim=False")
        return (tfix(x, reduction(it, x, kind, axes_arg(it, d), kd)), argt(it, x, "arg" + kind, d))

    return f


tm("max")(tmm("max"))
tm("min")(tmm("min"))
tm("cumsum", "dim")(lambda it, x, d: cumsum(it, x, d))
tm("cumprod", "dim")(lambda it, x, d: cumsum(it, x, d, "prod"))


@tm("norm", "p='fro' dim=None keepdim=False dtype=None")
def _tnorm(it, x, p, d, kd, dt):
    return tfix(x, L.norm_(it, x, axes_arg(it, d), keep(it, kd), None if isinstance(p, str) and p == "fro" else p))


EXT["torch.linalg.norm"] = EXT["torch.linalg.vector_norm"] = ExtFn("torch.linalg.norm", lambda it, a, k: (lambda x, o, d, kd, dt: tfix(x, L.norm_(it, tt(it, x), axes_arg(it, d), keep(it, kd), o)))(*P(a, k, "x ord=None dim=None keepdim=False dtype=None")))
tm("diff", "n=1 dim=-1")(lambda it, x, n, d: tfix(x, L.diff(it, x, conc_int(it, d), conc_int(it, n))))
tm("flip")(lambda it, x, a, k: post(it, L.flip(it, x, axes_arg(it, k["dims"] if "dims" in k else (a[0] if len(a) == 1 else tuple(a)))), [x]))
tm("cross", "other dim=-1")(lambda it, x, y, d: post(it, cross(it, x, y, conc_int(it, d)), [x, y]))
tm("roll", "shifts dims=None")(lambda it, x, s, d: it.call(EXT["numpy.roll"], [x, s, d], {}))


# ---- structure (views keep the gradient flag of their base)
def shp(it, a, k, key):
    return a if a else [k[key]]


tm("reshape,view")(lambda it, x, a, k: x if a and isinstance(a[0], L.DType) else A.reshape(x, neg1(it, x, tshape_neg(it, shp(it, a, k, "shape" if "shape" in k else "size")))))
tm("view_as,reshape_as", "other")(lambda it, x, o: A.reshape(x, o.shape))


def tshape_neg(it, a):
    if len(a) == 1 and not is_scalar(it.resolve(a[0])):
        a = it.iterate(it.resolve(a[0]))
    return [as_int(it, v) for v in a]


def neg1(it, x, shape):
    return shape


@tm("permute")
def _permute(it, x, a, k):
    a = shp(it, a, k, "dims")
    if len(a) == 1 and not is_scalar(it.resolve(a[0])):
        a = it.iterate(it.resolve(a[0]))
    return A.permute(x, [A.norm_axis(conc_int(it, v), x.ndim) for v in a])


tm("transpose,swapaxes,swapdims", "a b")(lambda it, x, i, j: swapaxes(x, conc_int(it, i), conc_int(it, j)))
tm("movedim,moveaxis", "a b")(lambda it, x, i, j: A.moveaxis(x, conc_int(it, i), conc_int(it, j)))
tm("t", "")(lambda it, x: x if x.ndim < 2 else swapaxes(x, 0, 1))
tm("unsqueeze", "dim")(lambda it, x, d: L.expand_dims(x, [conc_int(it, d)]))
tm("squeeze", "dim=None")(lambda it, x, d: L.squeeze(it, x, axes_arg(it, d)))
tm("flatten,ravel", "start_dim=0 end_dim=-1")(lambda it, x, s, e: A.ravel(x) if conc_int(it, s) == 0 else A.reshape(x, tuple(x.shape[: conc_int(it, s)]) + (A.prod_dims(x.shape[conc_int(it, s):]),)))


def _expand(it, x, a, k):
    s = tshape_neg(it, shp(it, a, k, "size"))
    n = len(s) - x.ndim
    return A.broadcast_to(x, [x.shape[i - n] if isinstance(v, int) and v == -1 else v for i, v in enumerate(s)])


tm("expand")(_expand)
tm("broadcast_to")(_expand)
tm("expand_as", "o")(lambda it, x, o: A.broadcast_to(x, o.shape))
tm("repeat")(lambda it, x, a, k: post(it, L.tile(it, x, tuple(tshape_neg(it, shp(it, a, k, "repeats")))), [x]))
tm("tile")(lambda it, x, a, k: post(it, L.tile(it, x, tuple(tshape_neg(it, shp(it, a, k, "dims")))), [x]))
tm("repeat_interleave", "r dim=None")(lambda it, x, r, d: post(it, L.repeat(it, x, r, d), [x]))


def tsplit(it, x, sz, dim):
    dim = A.norm_axis(conc_int(it, dim), x.ndim)
    sz = it.resolve(sz)
    n = x.shape[dim]
    if isinstance(sz, (List, tuple)):
        sizes = [as_int(it, v) for v in it.iterate(sz)]
    else:
        w = conc_int(it, sz)
        if not isinstance(n, int):
            U("split of a symbolic dimension")
        sizes = [w] * (n // w) + ([n % w] if n % w else [])
    out, p = [], N.ZERO
    for s in sizes:
        items = [Sl(None, None, None)] * x.ndim
        items[dim] = Sl(unN(p), unN(add(p, nd(s))), None)
        out.append(A.basic_view(x, items))
        p = add(p, nd(s))
    return tuple(out)


tm("split", "size dim=0")(tsplit)
tm("chunk", "n dim=0")(lambda it, x, n, d: tsplit(it, x, -(-conc_int(it, x.shape[conc_int(it, d)]) // conc_int(it, n)), d))
tm("unbind", "dim=0")(lambda it, x, d: tuple(L.getitem(it, A.moveaxis(x, conc_int(it, d), 0), i) for i in range(conc_int(it, x.shape[conc_int(it, d)]))))
tm("select", "dim index")(lambda it, x, d, i: L.getitem(it, A.moveaxis(x, conc_int(it, d), 0), as_int(it, i)))
tm("narrow", "dim start length")(lambda it, x, d, s, n: A.basic_view(x, [Sl(None, None, None) if j != A.norm_axis(conc_int(it, d), x.ndim) else Sl(as_int(it, s), unN(add(nd(as_int(it, s)), nd(as_int(it, n)))), None) for j in range(x.ndim)]))
tm("index_select", "dim index")(lambda it, x, d, i: A.getitem(x, tuple([Sl(None, None, None)] * A.norm_axis(conc_int(it, d), x.ndim) + [i])))
tm("real")(lambda it, x, a, k: realpart(it, x))
tm("imag")(lambda it, x, a, k: imagpart(it, x))
tm("sort", "dim=-1 descending=False")(lambda it, x, d, desc: (it.call(EXT["numpy.sort"], [x, d], {}), it.call(EXT["numpy.argsort"], [x, d], {})))
tm("outer,ger", "o")(lambda it, x, o: binop(it, "Mult", A.reshape(x, tuple(x.shape) + (1,)), o))
tm("diag", "k=0")(lambda it, x, k: it.call(EXT["numpy.diag"], [x], {}))
tm("dim,ndimension", "")(lambda it, x: x.ndim)
tm("numel,nelement", "")(lambda it, x: unN(nd(A.prod_dims(x.shape))))


@tm("size", "dim=None", False)
def _size(it, x, d):
    return tuple(x.shape) if d is None else x.shape[conc_int(it, d)]


# ---- conversions and autograd
@tm("item", "", False)
def _item(it, x):
    for s in x.shape:
        if isinstance(s, int) and s != 1:
            R("RuntimeError", "a Tensor with %s elements cannot be converted to Scalar" % (x.shape,))
    v = x.get(tuple(N.ZERO for _ in x.shape))
    return unN(L.detach_node(v)) if L.grad_on_any([x]) else unN(v)


tm("tolist", "", False)(lambda it, x: tolist(it, x))


def tolist(it, x):
    x = L.detach_arr(x) if L.grad_on_any([x]) else x
    if x.ndim == 0:
        return unN(x.get(()))
    if not isinstance(x.shape[0], int):
        rd = x.reader()
        if x.ndim > 1:
            U("tolist of a symbolic nested array")
        r = List()
        r.sym = L.SymSeq(nd(x.shape[0]), lambda i: unN(rd((nd(i),))))
        return r
    return List([tolist(it, L.getitem(it, x, i)) if x.ndim > 1 else unN(x.get((nd(i),))) for i in range(x.shape[0])])


def tdetach(it, x):
    if not L.grad_on_any([x]):
        r = x.view(x.shape, lambda i: i, lambda b: (N.TRUE, b))
    else:
        r = DetachedView(x)
    r.requires_grad = False
    r.xdtype = x.xdtype
    return r


L.tdetach = tdetach


class DetachedView(Arr):
    """x.detach(): shares storage, blocks gradients."""

    def __init__(self, x):
        Arr.__init__(self, "t", x.shape, None, x.dtype, st=x.st, fwd=x.fwd, inv=x.inv)
        self.src = x

    def get(self, idx):
        return L.detach_node(self.src.get(idx))

    def reader(self):
        rd = self.src.reader()
        return lambda idx: L.detach_node(rd(idx))

    def view(self, shape, fwd, inv):
        r = DetachedView(self.src.view(shape, fwd, inv))
        r.kind = self.kind
        return r

    def write(self, g):
        self.src.write(g)


tm("detach,data", "", False)(tdetach)
EXT["torch.detach"] = ExtFn("torch.detach", lambda it, a, k: tdetach(it, tt(it, a[0])))
tm("numpy", "force=False", False)(lambda it, x, f: to_numpy(it, tdetach(it, x) if it.truth(f) is True else x))
tm("cpu,cuda,contiguous", None, False)(lambda it, x, a, k: x)


@tm("clone")
def _clone(it, x, a, k):
    r = x.copy()
    r.requires_grad = (x.requires_grad or x.is_param) and not it.nograd
    return r


def tcast(it, x, dt):
    if dt is None:
        return x
    r = cast(x, dt)
    r.kind = "t"
    r.requires_grad = (x.requires_grad or x.is_param) and not it.nograd
    return r


@tm("to,type", None, False)
def _to(it, x, a, k):
    for v in list(a) + [k.get("dtype"), k.get("other")]:
        v = it.resolve(v)
        if isinstance(v, L.DType):
            return tcast(it, x, v)
        if isinstance(v, Arr):
            if v.xdtype is None and x.xdtype is not None:
                return x
            r = tcast(it, x, L.DType("as", v.dtype, v.xdtype))
            return r
    return x


tm("type_as", "o", False)(lambda it, x, o: _to(it, x, [o], {}))
for _a, _b in {"float": "float32", "double": "float64", "long": "int64", "int": "int32", "bool": "bool", "half": "float16"}.items():
    TM[_a] = (lambda d: lambda it, x, a, k: tcast(it, x, L.DTYPES["torch." + d]))(_b)


@tm("requires_grad_", "flag=True", False)
def _rg(it, x, f):
    f = it.truth(f) is True
    if x.tag == "param":
        x.is_param = f
    x.requires_grad = f
    return x


@tm("backward", None, False)
def _backward(it, x, a, k):
    if not L.grad_on_any([x]):
        R("RuntimeError", "element 0 of tensors does not require grad and does not have a grad_fn")
    v = x.get(tuple(N.ZERO for _ in x.shape))
    it.backward_roots.append((v, it.pcond(), it.where()))
    it.effects.append(("backward", len(it.state.get("groots", ())), "", it.pcond(), it.where()))
    it.state["nback"] = it.state.get("nback", 0) + 1
    it.state["groots"] = it.state.get("groots", ()) + (v,)


tm("retain_grad,register_hook", None, False)(lambda it, x, a, k: None)
tm("is_floating_point")(lambda it, x, a, k: x.dtype == "f")
tm("is_complex")(lambda it, x, a, k: x.dtype == "c")


# ---- in-place methods
def inplace(it, x, r):
    if x.is_param and not it.nograd:
        R("RuntimeError", "a leaf Variable that requires grad is being used in an in-place operation.")
    if isinstance(r, Arr) and L.grad_on(it, [r]):
        x.requires_grad = True
    A.store(x, r)
    return x


for _n in ("add", "sub", "mul", "div", "pow", "abs", "exp", "log", "sqrt", "neg", "clamp", "relu", "masked_fill", "sign", "floor", "ceil", "round", "sin", "cos", "tanh", "sigmoid", "square", "lerp", "nan_to_num", "cumsum", "remainder", "maximum", "minimum"):
    TM[_n + "_"] = (lambda n: lambda it, x, a, k: inplace(it, x, TM[n](it, x, a, k)))(_n)
TM["zero_"] = lambda it, x, a, k: inplace(it, x, 0)
TM["fill_"] = lambda it, x, a, k: inplace(it, x, a[0])
TM["copy_"] = lambda it, x, a, k: inplace(it, x, a[0])


def _randn_(dist):
    def f(it, x, a, k):
        z = it.torch_rng.draw(it, dist, tuple(x.shape)) if x.ndim else L.np_array(it.torch_rng.draw(it, dist, None), it)
        z.kind = "t"
        lo, hi = (list(a) + [None, None])[:2]
        if dist == "normal":
            m = k.get("mean", lo) if (lo is not None or "mean" in k) else 0
            s = k.get("std", hi) if (hi is not None or "std" in k) else 1
            z = binop(it, "Add", binop(it, "Mult", z, s), m)
        elif lo is not None and hi is not None:
            z = binop(it, "Add", lo, binop(it, "Mult", binop(it, "Sub", hi, lo), z))
        return inplace(it, x, z)

    return f


TM["normal_"] = _randn_("normal")
TM["uniform_"] = _randn_("uniform")
TM["requires_grad_"] = TM["requires_grad_"]
TM["unsqueeze_"] = TM["unsqueeze"]
TM["detach_"] = TM["detach"]
