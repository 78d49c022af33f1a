"""Library descriptions, part 4: torch tensors, functions, autograd bookkeeping."""
from .ext_np import *  # noqa: F401,F403
from .ext_np import (
    EXT, E, ext, P, L, N, A, Arr, Node, List, Dict, Opaque, ExtFn, ExtType, Sl, MISSING, Cell, UNARY, absv, garbage, cumsum, argred, cross,
    swapaxes, realpart, imagpart, to_numpy, BUILTINS, RangeV, SymSeq,
)
from .lib import U, R, binop, ew, post, toarr, np_array, reduction, axes_arg, conc_int, as_int, shape_of, filled, scal, dtype_of, cast
from .node import nd, ite, cmp, and_, not_, fn, add, mul, sub, div, power
from .interp import Obj, Class, Choice, unN, is_scalar

for _n in ("float16", "float32", "float64", "complex64", "complex128", "int8", "int16", "int32", "int64", "uint8", "bool"):
    EXT["torch." + _n] = L.DTYPES["torch." + _n]
for _a, _b in {"float": "float32", "double": "float64", "half": "float16", "long": "int64", "int": "int32", "cfloat": "complex64", "cdouble": "complex128"}.items():
    EXT["torch." + _a] = L.DTYPES["torch." + _b]
EXT.update({"torch.pi": N.PI, "torch.inf": N.INF, "torch.nan": N.NAN, "torch.e": fn("exp", N.const(1))})
for _n in ("Tensor", "FloatTensor", "DoubleTensor", "LongTensor", "cuda.FloatTensor", "cuda.DoubleTensor", "cuda.LongTensor"):
    EXT["torch." + _n] = ExtType("torch." + _n, lambda it, a, k: _tensor(it, a, k))
EXT["torch.Size"] = ExtType("torch.Size", lambda it, a, k: tuple(it.iterate(a[0])) if a else ())
EXT["torch.dtype"] = ExtType("torch.dtype")
E("torch.get_default_dtype", lambda it, a, k: it.default_dtype)
E("torch.device", lambda it, a, k: Opaque("torch.device"))


@ext("torch.set_default_dtype,torch.set_default_tensor_type", "d")
def _sdd(it, d):
    it.effects.append(("global", "torch.default_dtype", repr(d), it.pcond(), it.where()))
    if isinstance(d, L.DType):
        it.default_dtype = d
    elif isinstance(d, (ExtType, str)):
        n = d if isinstance(d, str) else d.name
        it.default_dtype = L.DTYPES["torch.float64" if "Double" in n else "torch.float32"]


E("torch.set_default_device,torch.set_num_threads,torch.use_deterministic_algorithms,torch.set_printoptions", lambda it, a, k: None)
E("torch.cuda.is_available", lambda it, a, k: False)
E("torch.cuda.device_count", lambda it, a, k: 0)
E("torch.cuda.empty_cache", lambda it, a, k: None)
E("torch.no_grad,torch.inference_mode", lambda it, a, k: Opaque("@nograd"))
E("torch.enable_grad,torch.autograd.set_detect_anomaly", lambda it, a, k: Opaque("ctx:grad"))
E("torch.set_grad_enabled", lambda it, a, k: Opaque("@nograd" if a and it.truth(a[0]) is False else "ctx:grad"))
E("torch.is_grad_enabled", lambda it, a, k: not it.nograd)
for _n in ("script", "export", "ignore", "unused", "trace"):
    E("torch.jit." + _n, lambda it, a, k: a[0] if a else ExtFn("torch.jit.deco", lambda it, a, k: a[0]))
E("torch.compile", lambda it, a, k: a[0] if a else ExtFn("torch.compile", lambda it, a, k: a[0]))
EXT["torch.jit.ScriptModule"] = ExtType("torch.nn.Module")


@ext("torch.manual_seed,torch.random.manual_seed,torch.cuda.manual_seed_all,torch.cuda.manual_seed", "seed")
def _mseed(it, s):
    it.effects.append(("rng", "torch", "manual_seed", it.pcond(), it.where()))
    it.torch_rng.reseed(it, s)


def tt(it, x):
    """Argument that torch requires to be a Tensor."""
    x = it.resolve(x)
    if isinstance(x, Arr):
        if x.kind != "t":
            R("TypeError", "argument must be Tensor, not numpy.ndarray")
        return x
    if isinstance(x, Opaque):
        return x
    if x is None or is_scalar(x) or isinstance(x, (str, List, tuple, Dict)):
        R("TypeError", "argument must be Tensor, not %s" % type(x).__name__)
    U("tensor argument %r" % (x,))


def floatdef(it, a):
    if a.dtype == "f" and a.xdtype is None:
        a.xdtype = it.default_dtype.prec if it.default_dtype else None
    return a


def mkt(it, x, dt=None, rg=False, copy=True):
    x = it.resolve(x)
    src = None
    if isinstance(x, Opaque):
        return x
    if isinstance(x, Choice):
        return it.over(x, lambda v: mkt(it, v, dt, rg, copy))
    if isinstance(x, Arr):
        src = x
        r = x.copy()
        r.kind = "t"
        if x.kind == "np":
            r.xdtype = x.xdtype or ("f64" if x.dtype in ("f", "c") else None)
        elif copy and L.grad_on_any([x]):
            r = L.detach_arr(r)  # torch.tensor(t) detaches
    else:
        if x is None:
            R("RuntimeError", "Could not infer dtype of NoneType")
        if isinstance(x, (List, tuple)):
            its = [it.resolve(v) for v in it.iterate(x)] if not (isinstance(x, List) and x.sym is not None) else []
            if any(isinstance(v, Opaque) for v in its):
                return Opaque("torch.tensor")
            for v in its:
                if isinstance(v, Choice):
                    return it.over(v, lambda w: mkt(it, List([w if q is v else q for q in its]), dt, rg, copy))
                if isinstance(v, str):
                    R("TypeError", "new(): invalid data type 'str'")
                if isinstance(v, Arr) and v.kind == "t" and v.ndim and copy:
                    if not (all(isinstance(s, int) and s == 1 for s in v.shape)):
                        R("ValueError", "only one element tensors can be converted to Python scalars")
            if any(isinstance(v, Arr) and L.grad_on_any([v]) for v in its):
                its = [L.detach_arr(v) if isinstance(v, Arr) else v for v in its]
                x = List(its)
        elif isinstance(x, str):
            R("TypeError", "new(): invalid data type 'str'")
        r = np_array(x, it, "t")
        if r.dtype == "o":
            R("TypeError", "can't convert object to tensor")
        floatdef(it, r)
    dt = dtype_of(it, dt)
    if dt is not None:
        r = cast(r, dt)
        r.kind = "t"
        r.requires_grad = False
        if dt is L.DTYPES["torch.default"]:
            r.xdtype = it.default_dtype.prec
    if it.truth(rg) is True:
        r.requires_grad = True
    if src is not None and src.kind == "t" and not copy:
        r.requires_grad = src.requires_grad or src.is_param
    return r


@ext("torch.tensor")
def _tensor(it, a, k):
    data, dt, dev, rg, pm = P(a, k, "data dtype=None device=None requires_grad=False pin_memory=False", "torch.tensor")
    return mkt(it, data, dt, rg)


@ext("torch.as_tensor,torch.asarray", "data dtype=None device=None")
def _as_tensor(it, x, dt, dev):
    x = it.resolve(x)
    if isinstance(x, Arr):
        d = None if dt is None else dtype_of(it, dt)
        have = x.xdtype or ("f64" if x.kind == "np" and x.dtype in ("f", "c") else None)
        want = None if d is None else (it.default_dtype.prec if d is L.DTYPES["torch.default"] else d.prec)
        if d is None or (d.kind == x.dtype and want == have):
            return x if x.kind == "t" else from_np(it, x)
    return mkt(it, x, dt, copy=False)


def from_np(it, x):
    r = x.view(x.shape, lambda i: i, lambda b: (N.TRUE, b))
    r.kind = "t"
    r.xdtype = x.xdtype or ("f64" if x.dtype in ("f", "c") else None)
    return r


@ext("torch.from_numpy", "x")
def _from_numpy(it, x):
    x = it.resolve(x)
    if not isinstance(x, Arr) or x.kind != "np":
        R("TypeError", "expected np.ndarray")
    return from_np(it, x)


def tshape(it, a):
    if len(a) == 1 and not is_scalar(it.resolve(a[0])):
        return shape_of(it, a[0])
    return shape_of(it, tuple(a))


def tfill(name, v):
    def f(it, a, k):
        a = list(a)
        if "size" in k:
            a = [k["size"]]
        dt = dtype_of(it, k.get("dtype"))
        if v is None:
            return garbage(it, tshape(it, a), dt.kind if dt else "f", "t", dt.prec if dt else it.default_dtype.prec)
        r = filled("t", tshape(it, a), (bool(v) if dt and dt.kind == "b" else v), dt.kind if dt else "f", dt.prec if dt else it.default_dtype.prec)
        r.requires_grad = it.truth(k.get("requires_grad", False)) is True
        return r

    E("torch." + name, f)

    def g(it, a, k):
        x = tt(it, a[0])
        dt = dtype_of(it, k.get("dtype"))
        if v is None:
            return garbage(it, x.shape, dt.kind if dt else x.dtype, "t", dt.prec if dt else x.xdtype)
        return filled("t", x.shape, v, dt.kind if dt else x.dtype, dt.prec if dt else x.xdtype)

    E("torch.%s_like" % name, g)


tfill("zeros", 0)
tfill("ones", 1)
tfill("empty", None)


@ext("torch.full", "size fill_value dtype=None device=None requires_grad=False")
def _tfull(it, size, v, dt, dev, rg):
    dt = dtype_of(it, dt)
    return floatdef(it, filled("t", shape_of(it, size), scal(it, v), dt.kind if dt else L.scalar_dtype(it.resolve(v)), dt.prec if dt else None))


@ext("torch.full_like", "x fill_value dtype=None")
def _tfull_like(it, x, v, dt):
    x = tt(it, x)
    return filled("t", x.shape, scal(it, v), x.dtype, x.xdtype)


@ext("torch.eye", "n m=None dtype=None")
def _teye(it, n, m, dt):
    n = as_int(it, n)
    m = n if m is None else as_int(it, m)
    return floatdef(it, Arr("t", (n, m), lambda idx: ite(cmp("eq", idx[0], idx[1]), N.ONE, N.ZERO), "f"))


def trand(dist):
    def f(it, a, k):
        dt = dtype_of(it, k.get("dtype"))
        if "size" in k:
            a = [k["size"]]
        r = it.torch_rng.draw(it, dist, tuple(tshape(it, a)))
        if not isinstance(r, Arr):
            r = np_array(r, it)
        r.kind = "t"
        r.xdtype = dt.prec if dt else it.default_dtype.prec
        return r

    return f


E("torch.randn", trand("normal"))
E("torch.rand", trand("uniform"))
E("torch.randn_like", lambda it, a, k: trand("normal")(it, [tuple(tt(it, a[0]).shape)], k))
E("torch.rand_like", lambda it, a, k: trand("uniform")(it, [tuple(tt(it, a[0]).shape)], k))


@ext("torch.normal", "mean std size=None")
def _tnormal(it, m, s, size):
    z = trand("normal")(it, [size if size is not None else (m.shape if isinstance(m, Arr) else s.shape)], {})
    return binop(it, "Add", binop(it, "Mult", z, s), m)


def nscal(it, x):
    x = it.resolve(x)
    return scal(it, x)


@ext("torch.linspace", "start end steps dtype=None device=None requires_grad=False")
def _tlin(it, a, b, n, dt, dev, rg):
    r = L.linspace(it, a, b, n, True, "t", dtype_of(it, dt))
    return floatdef(it, r)


@ext("torch.logspace", "start end steps base=10.0 dtype=None device=None requires_grad=False")
def _tlog(it, a, b, n, base, dt, dev, rg):
    r = L.linspace(it, a, b, n, True, "t", None)
    base = N.const(10) if isinstance(base, float) else nd(scal(it, base))
    r = ew(it, lambda x: power(base, x), [r], "f")
    dt = dtype_of(it, dt)
    r.xdtype = dt.prec if dt else None
    return floatdef(it, r)


@ext("torch.arange")
def _tarange(it, a, k):
    k = {{"end": "stop"}.get(x, x): y for x, y in k.items() if x in ("dtype", "step", "start", "end")}
    r = it.call(EXT["numpy.arange"], a, k)
    r.kind = "t"
    return floatdef(it, r)


@ext("torch.meshgrid")
def _tmesh(it, a, k):
    if len(a) == 1 and isinstance(it.resolve(a[0]), (List, tuple)):
        a = it.iterate(a[0])
    for x in a:
        tt(it, x)
    return tuple(L.meshgrid(it, a, k.get("indexing", "ij"), "t"))


def tseq(it, x):
    xs = [it.resolve(v) for v in it.iterate(it.resolve(x))]
    return xs


def tover(it, xs, f):
    for v in xs:
        if isinstance(v, Choice):
            return it.over(v, lambda w: tover(it, [w if q is v else q for q in xs], f))
    if any(isinstance(v, Opaque) for v in xs):
        return Opaque("torch")
    xs = [tt(it, v) for v in xs]
    r = post(it, f(xs), xs)
    ps = {v.xdtype for v in xs}
    if isinstance(r, Arr) and len(ps) == 1:
        r.xdtype = ps.pop()
    return r


E("torch.stack", lambda it, x, dim: tover(it, tseq(it, x), lambda xs: A.stack(xs, conc_int(it, dim))), "tensors dim=0")
E("torch.cat,torch.concat,torch.concatenate", lambda it, x, dim: tover(it, tseq(it, x), lambda xs: A.concat(xs, conc_int(it, dim))), "tensors dim=0")
E("torch.hstack", lambda it, x: tover(it, tseq(it, x), lambda xs: A.concat([v if v.ndim else A.reshape(v, (1,)) for v in xs], 0 if xs[0].ndim <= 1 else 1)), "tensors")
E("torch.vstack,torch.row_stack", lambda it, x: tover(it, tseq(it, x), lambda xs: A.concat([v if v.ndim > 1 else A.reshape(v, (1,) + tuple(v.shape)) for v in xs], 0)), "tensors")
E("torch.column_stack", lambda it, x: tover(it, tseq(it, x), lambda xs: A.concat([v if v.ndim > 1 else A.reshape(v, tuple(v.shape) + (1,)) for v in xs], 1)), "tensors")


@ext("torch.where")
def _twhere(it, a, k):
    if len(a) == 1 and not ("input" in k or "other" in k):
        return L.MaskWhere(tt(it, a[0])) if tt(it, a[0]).ndim > 1 else (L.getitem_other(it, L.MaskWhere(tt(it, a[0])), 0),)
    c, x, y = P(a, k, "condition input other", "torch.where")
    tt(it, c)
    return L.where3(it, c, x, y)


E("torch.is_tensor", lambda it, x: isinstance(x, Arr) and x.kind == "t", "x")
E("torch.numel", lambda it, x: unN(nd(A.prod_dims(x.shape))), "x")
E("torch.trapz,torch.trapezoid", lambda it, y, x, dx, dim: tover(it, [y] + ([x] if x is not None else []), lambda xs: L.trapz(it, xs[0], xs[1] if len(xs) > 1 else None, dx, conc_int(it, dim))), "y x=None dx=1 dim=-1")
E("torch.einsum", lambda it, a, k: tover(it, [it.resolve(x) for x in (a[1:] if not isinstance(it.resolve(a[1]), (List, tuple)) else it.iterate(a[1]))], lambda xs: L.einsum(it, a[0], xs)))
E("torch.broadcast_tensors", lambda it, a, k: (lambda xs: tuple(A.broadcast_to(x, A.broadcast_shapes([y.shape for y in xs])) for x in xs))([tt(it, x) for x in a]))
E("torch.autograd.grad", lambda it, a, k: U("torch.autograd.grad"))
E("torch.isclose", lambda it, a, b, rtol, atol: L.isclose(it, tt(it, a), tt(it, b), rtol, atol), "a b rtol=None atol=None")
E("torch.allclose", lambda it, a, b, rtol, atol: L.reduction(it, toarr(it, L.isclose(it, tt(it, a), tt(it, b), rtol, atol)), "all"), "a b rtol=None atol=None")
E("torch.equal", lambda it, a, b: L.reduction(it, toarr(it, it.compare("Eq", a, b)), "all"), "a b")
E("torch.complex", lambda it, a, b: binop(it, "Add", a, binop(it, "Mult", N.I, b)), "a b")
EXT["torch.special.gammaln"] = ExtFn("gammaln", lambda it, a, k: U("gammaln"))
