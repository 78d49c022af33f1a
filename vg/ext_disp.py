"""Library descriptions, part 7: attribute dispatch of library values."""
from . import ext as X
from .ext_nn import *  # noqa: F401,F403
from .ext_nn import (
    EXT, L, N, A, Arr, Node, List, Dict, Opaque, ExtFn, ExtType, MISSING, TM, NM, BUILTINS, children, ext_attr, ext_class_attr, ext_init, ext_setattr,
    call_obj, super_attr, is_module_obj, seq_attr, dict_attr, str_attr, set_attr, path_attr, PathV, FileV, UnpicklerV, IterV, Info, FieldInfo, fs_load, absv,
    realpart, imagpart, tolist, swapaxes, P, fs_store, VecV,
)
from .lib import U, R, toarr, axes_arg, conc_int, as_int, cast, dtype_of, rng_attr
from .node import nd, fn
from .interp import Obj, ExtMod, ExcV, FStr, SetV, SymSeq, RangeV, Func, Bound, unN, is_scalar, StaticM, Choice, Module
from .arr import Sl, MaskWhere

from . import ext_more  # noqa: E402,F401
from . import ext_std  # noqa: E402,F401
from . import ext_idx  # noqa: E402,F401

_prefixes = set()
for _k in EXT:
    _p = _k.split(".")
    for _i in range(1, len(_p)):
        _prefixes.add(".".join(_p[:_i]))
ALIAS = {"torch.nn.modules": "torch.nn", "scipy.fft": "scipy.fft", "matplotlib.pyplot": "matplotlib.pyplot", "numpy.core": "numpy"}


def ext_module(it, dotted):
    m = it.mods.get(dotted)
    if m is None:
        m = it.mods[dotted] = ExtMod(dotted)
    return m


def mod_attr(it, o, name):
    d = o.name + "." + name
    if d in EXT:
        return EXT[d]
    if name == "__name__":
        return o.name
    if o.name in ("builtins",):
        return BUILTINS.get(name, MISSING)
    if d in _prefixes:
        return ext_module(it, d)
    if o.name == "numpy.random":
        return rng_attr(it, it.globals_rng, name)
    if o.name == "torch" and name in TM and not name.startswith("_"):
        return MISSING
    return Opaque(d)


NPF = """diagonal compress sum mean std var max min prod any all argmax argmin cumsum cumprod repeat squeeze round clip trace dot ptp nonzero searchsorted argsort take""".split()


def np_attr(it, x, name):
    if name == "shape":
        return tuple(x.shape)
    if name == "ndim":
        return x.ndim
    if name == "size":
        return unN(nd(A.prod_dims(x.shape)))
    if name == "dtype":
        return L.DTYPES[{"f": "np.float32" if x.xdtype == "f32" else "np.float64", "c": "np.complex128", "i": "np.int64", "b": "np.bool", "o": "np.object"}.get(x.dtype, "np.float64")]
    if name == "T":
        return A.permute(x, list(range(x.ndim))[::-1])
    if name == "real":
        if x.dtype == "c":
            return RealView(x)
        return x
    if name == "imag":
        return imagpart(it, x)
    if name == "flat":
        return A.ravel(x)
    if name in ("nbytes", "itemsize", "strides", "flags", "base", "data", "ctypes"):
        return Opaque("ndarray." + name)

    def m(f):
        return ExtFn("ndarray." + name, f)

    if name in NPF:
        f = EXT.get("numpy." + name)
        if f is not None:
            return m(lambda it, a, k: it.call(f, [x] + a, k))
    if name == "reshape":
        return m(lambda it, a, k: L.reshape_o(it, x, [as_int(it, v) for v in (it.iterate(it.resolve(a[0])) if len(a) == 1 and not is_scalar(it.resolve(a[0])) else a or it.iterate(k["shape"]))], k.get("order")))
    if name == "resize":
        U("ndarray.resize")
    if name == "ravel":
        return m(lambda it, a, k: L.ravel_o(it, x, a[0] if a else k.get("order")))
    if name == "flatten":
        return m(lambda it, a, k: L.ravel_o(it, x.copy(), a[0] if a else k.get("order")))
    if name == "transpose":
        def tr(it, a, k):
            if not a or a[0] is None:
                return A.permute(x, list(range(x.ndim))[::-1])
            ax = it.iterate(it.resolve(a[0])) if len(a) == 1 else a
            return A.permute(x, [A.norm_axis(conc_int(it, v), x.ndim) for v in ax])
        return m(tr)
    if name == "swapaxes":
        return m(lambda it, a, k: swapaxes(x, conc_int(it, a[0]), conc_int(it, a[1])))
    if name in ("copy", "__copy__", "__deepcopy__"):
        return m(lambda it, a, k: x.copy())
    if name == "astype":
        return m(lambda it, a, k: cast(x, dtype_of(it, a[0] if a else k["dtype"])))
    if name in ("conj", "conjugate"):
        return m(lambda it, a, k: L.ew(it, lambda v: fn("conj", v), [x]))
    if name == "item":
        def item(it, a, k):
            if not a:
                return TM["item"](it, x, [], {})
            i = [conc_int(it, v) for v in (it.iterate(a[0]) if isinstance(it.resolve(a[0]), (tuple, List)) else a)]
            if len(i) == 1:
                return it.getitem(A.ravel(x), i[0])
            return it.getitem(x, tuple(i))
        return m(item)
    if name in ("put", "partition", "itemset", "byteswap", "choose", "compress", "setflags", "tofile", "dump", "dumps", "newbyteorder", "getfield", "setfield", "resize"):
        return m(lambda it, a, k: U("ndarray." + name))
    if name == "tolist":
        return m(lambda it, a, k: tolist(it, x))
    if name == "fill":
        return m(lambda it, a, k: A.store(x, it.resolve(a[0])))
    if name == "view":
        def view(it, a, k):
            d = a[0] if a else k.get("dtype")
            if d is not None and cast(x, dtype_of(it, d)).dtype != x.dtype:
                U("ndarray.view as another type")
            return x
        return m(view)
    if name in ("setflags", "tofile", "dump"):
        return m(lambda it, a, k: None)
    if name == "sort":
        return m(lambda it, a, k: A.store(x, it.call(EXT["numpy.sort"], [x] + a, k)))
    if name in ("tobytes", "__array_interface__"):
        return Opaque("ndarray." + name)
    if name == "__len__":
        return m(lambda it, a, k: x.shape[0])
    if name == "__getitem__":
        return m(lambda it, a, k: L.getitem(it, x, a[0]))
    if name == "diagonal":
        return m(lambda it, a, k: it.call(EXT["numpy.diag"], [x], {}))
    return MISSING


class RealView(Arr):
    """a.real of a complex array; reads the real part (stores are not supported)."""

    def __init__(self, x):
        Arr.__init__(self, x.kind, x.shape, None, "f", st=x.st, fwd=x.fwd, inv=None)
        self.src = x

    def get(self, idx):
        return fn("real", self.src.get(idx))

    def reader(self):
        rd = self.src.reader()
        return lambda idx: fn("real", rd(idx))

    def view(self, shape, fwd, inv):
        return RealView(self.src.view(shape, fwd, inv))

    def write(self, g):
        U("store into .real")


def t_attr(it, x, name):
    if name == "shape":
        return tuple(x.shape)
    if name == "ndim":
        return x.ndim
    if name == "T" or name == "mT":
        return A.permute(x, list(range(x.ndim))[::-1]) if name == "T" else swapaxes(x, -1, -2)
    if name == "dtype":
        if x.dtype == "f":
            return {"f32": L.DTYPES["torch.float32"], "f64": L.DTYPES["torch.float64"]}.get(x.xdtype, L.DTYPES["torch.default"])
        return L.DTYPES[{"c": "torch.complex128", "i": "torch.int64", "b": "torch.bool"}.get(x.dtype, "torch.default")]
    if name == "requires_grad":
        return bool(x.requires_grad or x.is_param)
    if name == "is_leaf":
        return bool(x.is_param or not x.requires_grad)
    if name == "device":
        return Opaque("torch.device")
    if name == "is_cuda":
        return False
    if name == "grad":
        return L.grad_of(it, x) if x.is_param else None
    if name == "grad_fn":
        return Opaque("grad_fn")
    if name == "real":
        return realpart(it, x)
    if name == "imag":
        return L.ew(it, lambda v: fn("imag", v), [x], "f")
    if name == "data":
        return TM["detach"](it, x, [], {})
    if name in TM:
        f = TM[name]
        return ExtFn("Tensor." + name, lambda it, a, k: f(it, x, a, k))
    if name == "__len__":
        return ExtFn("len", lambda it, a, k: x.shape[0])
    if name in ("__array__",):
        return ExtFn("__array__", lambda it, a, k: TM["numpy"](it, x, [], {}))
    if name.startswith("__") or not name.isidentifier():
        return MISSING
    if ("torch." + name) in EXT and isinstance(EXT["torch." + name], ExtFn):
        f = EXT["torch." + name]
        return ExtFn("Tensor." + name, lambda it, a, k: it.call(f, [x] + a, k))
    import_names = KNOWN_TENSOR
    if import_names is not None and name not in import_names:
        return MISSING
    U("Tensor.%s" % name)


KNOWN_TENSOR = None


def scalar_attr(it, x, name):
    """Attributes of Python / numpy scalars."""
    if name in ("real",):
        return realpart(it, x)
    if name == "imag":
        return 0 if isinstance(x, int) else fn("imag", nd(x))
    if name == "shape":
        return () if isinstance(x, Node) else MISSING
    if name in ("ndim", "size") and isinstance(x, Node):
        return 0 if name == "ndim" else 1
    if name in ("conjugate", "conj"):
        return ExtFn("conj", lambda it, a, k: fn("conj", nd(x)))
    if name == "is_integer":
        return ExtFn("is_integer", lambda it, a, k: L.cmp("eq", fn("floor", nd(x)), nd(x)))
    if name == "item" and not isinstance(x, Node):
        return ExtFn("item", lambda it, a, k: x)  # a numpy integer
    if isinstance(x, Node):
        if name == "item":
            return ExtFn("item", lambda it, a, k: x)
        if name == "dtype":
            return L.DTYPES[{"i": "np.int64", "b": "np.bool", "c": "np.complex128"}.get(L.scalar_dtype(x), "np.float64")]
        if name in ("sum", "mean", "max", "min", "astype", "copy", "squeeze", "round", "any", "all", "reshape", "ravel", "flatten", "item", "tolist", "std"):
            return np_attr(it, L.np_array(x, it), name)
    return MISSING


def file_attr(it, o, name):
    if name == "read":
        return ExtFn("file.read", lambda it, a, k: X.BytesV(f=o))
    if name == "write":
        return ExtFn("file.write", lambda it, a, k: X.write_bytes(it, o.path, it.resolve(a[0])))
    if name in ("read", "readlines", "readline"):
        return ExtFn("file." + name, lambda it, a, k: Opaque("file:%s" % o.path))
    if name in ("write", "writelines"):
        return ExtFn("file.write", lambda it, a, k: it.effects.append(("write", o.path, "data", it.pcond(), it.where())))
    if name in ("close", "flush", "__exit__", "seek"):
        return ExtFn("file." + name, lambda it, a, k: None)
    if name == "__enter__":
        return ExtFn("file.enter", lambda it, a, k: o)
    if name == "name":
        return o.path
    return Opaque("file." + name)


def value_attr(it, o, name):
    if isinstance(o, ExtMod):
        return mod_attr(it, o, name)
    if isinstance(o, Arr):
        return np_attr(it, o, name) if o.kind == "np" else t_attr(it, o, name)
    if isinstance(o, (bool, int, Node)):
        if isinstance(o, Node) and o.op == "none":
            return MISSING
        return scalar_attr(it, o, name)
    if isinstance(o, (str, FStr, List, tuple, SymSeq, Dict, SetV)):
        if name == "__len__":
            return ExtFn("len", lambda it, a, k: it.call(BUILTINS["len"], [o], {}))
        if name in ("__getitem__", "__contains__"):
            return ExtFn(name, lambda it, a, k: it.getitem(o, a[0]) if name == "__getitem__" else it.contains(o, a[0]))
    if isinstance(o, (str, FStr)):
        return str_attr(it, o, name)
    if isinstance(o, (List, tuple, SymSeq)):
        return seq_attr(it, o, name)
    if isinstance(o, Dict):
        return dict_attr(it, o, name)
    if isinstance(o, SetV):
        return set_attr(it, o, name)
    if isinstance(o, L.RNG):
        return rng_attr(it, o, name)
    if isinstance(o, L.SeedSeq):
        if name == "spawn":
            def spawn(it, a, k):
                n = conc_int(it, a[0])
                r = List([L.SeedSeq(N.app("T:spawn", o.tok, N.const(o.n + i))) for i in range(n)])
                o.n += n
                return r
            return ExtFn("spawn", spawn)
        if name == "generate_state":
            return ExtFn("generate_state", lambda it, a, k: Arr("np", (as_int(it, a[0]),), lambda i: N.app("N:state", o.tok, *i), "i"))
        return MISSING
    if isinstance(o, PathV):
        return path_attr(it, o, name)
    if isinstance(o, FileV):
        return file_attr(it, o, name)
    if isinstance(o, UnpicklerV):
        if name == "load":
            return ExtFn("Unpickler.load", lambda it, a, k: fs_load(it, o.f))
        return MISSING
    if isinstance(o, ExcV):
        if name == "args":
            return o.args
        if name in ("with_traceback", "add_note"):
            return ExtFn(name, lambda it, a, k: o)
        return MISSING
    if isinstance(o, L.DType):
        if name in ("name", "kind", "type", "itemsize"):
            return {"name": o.name.split(".")[-1], "kind": o.kind, "itemsize": 8, "type": o}[name]
        if name in ("is_complex", "is_floating_point"):
            return o.kind == ("c" if name == "is_complex" else "f")
        return MISSING
    if isinstance(o, Sl):
        return {"start": o.a, "stop": o.b, "step": o.c}.get(name, MISSING)
    if isinstance(o, (ExtType, ExtFn)):
        n = o.name
        if name in ("__name__", "__qualname__"):
            return n.split(".")[-1]
        if n + "." + name in EXT:
            return EXT[n + "." + name]
        if name == "__init__" and isinstance(o, ExtType):
            return ExtFn("object.__init__", lambda it, a, k: None)
        if n in ("dict", "str", "list", "tuple", "set"):
            return ExtFn(n + "." + name, lambda it, a, k: it.call(it.getattr(a[0], name), a[1:], k) if name != "fromkeys" else Dict({it.key(q): (a[1] if len(a) > 1 else None) for q in it.iterate(a[0])}))
        if n == "object" and name == "__setattr__":
            return ExtFn("object.__setattr__", lambda it, a, k: it.set(a[0], a[1], a[2]))
        if n == "object" and name == "__new__":
            return ExtFn("object.__new__", lambda it, a, k: Obj(a[0]))
        if n in ("numpy.ndarray", "torch.Tensor"):
            return ExtFn(n + "." + name, lambda it, a, k: it.call(it.getattr(a[0], name), a[1:], k))
        return Opaque(n + "." + name)
    f = getattr(o, "attr", None)
    if callable(f):
        return f(it, name)
    if isinstance(o, (RangeV,)):
        return {"start": o.a, "stop": o.b, "step": o.c}.get(name, MISSING)
    if isinstance(o, (Info, FieldInfo)):
        return getattr(o, name, MISSING)
    if isinstance(o, (Func, Bound, StaticM)):
        if name in ("cache_clear", "clear_cache"):
            def clr(it, a, k):
                g = o.func if isinstance(o, Bound) else o
                g = g.f if isinstance(g, StaticM) else g
                if isinstance(g, Func) and g.memo is not None:
                    g.memo.clear()
            return ExtFn("cache_clear", clr)
        if name in ("__doc__", "__module__", "__wrapped__"):
            return o if name == "__wrapped__" else Opaque(name)
        if name in ("py_func",):
            return o
        return MISSING
    if o is None:
        return MISSING
    if isinstance(o, MaskWhere) or o is Ellipsis:
        return MISSING
    if isinstance(o, IterV):
        return MISSING
    v = getattr(o, name, MISSING)
    if v is not MISSING and not callable(v):
        return v
    return MISSING


def value_setattr(it, o, name, v):
    if isinstance(o, Arr):
        if name == "shape":
            s = [as_int(it, q) for q in it.iterate(it.resolve(v))]
            r = A.reshape(o, s)
            o.shape, o.fwd, o.inv = r.shape, r.fwd, r.inv
            return True
        if name == "requires_grad":
            TM["requires_grad_"](it, o, [v], {})
            return True
        if name == "data":
            A.store(o, L.detach_arr(v) if isinstance(v, Arr) and L.grad_on_any([v]) else v)
            return True
        if name == "flat":
            x = toarr(it, v)
            if x.ndim:
                x = A.reshape(A.ravel(x), o.shape)
            A.store(o, x)
            return True
        if name in ("real", "imag"):
            x = toarr(it, v)
            rd = A.bread(x.reader(), x.shape, o.ndim)
            if name == "real":
                o.write(lambda idx, old: N.add(rd(idx), N.mul(N.I, fn("imag", old))))
            else:
                o.write(lambda idx, old: N.add(fn("real", old), N.mul(N.I, rd(idx))))
            return True
        if name == "grad":
            if v is None:
                it.state["groots"] = ()
            return True
        return False
    if isinstance(o, (ExtType, ExtMod, ExtFn)):
        it.effects.append(("global", "%s.%s" % (o.name, name), "set", it.pcond(), it.where()))
        return True
    f = getattr(o, "setattr", None)
    if callable(f):
        f(it, name, v)
        return True
    return False


def iter_obj(it, o):
    if isinstance(o, Obj) and "_list" in o.attrs:
        return list(o.attrs["_list"].items)
    f = getattr(o, "viter", None)
    if callable(f):
        return f(it)
    if isinstance(o, IterV):
        xs = list(o.items)[o.pos:]
        it.set(o, None, len(o.items))
        return xs
    return None


L.ext_module, L.BUILTINS, L.call_obj, L.ext_init, L.ext_attr, L.ext_class_attr = ext_module, BUILTINS, call_obj, ext_init, ext_attr, ext_class_attr
L.ext_setattr, L.super_attr, L.value_attr, L.value_setattr, L.iter_obj, L.PathV = ext_setattr, super_attr, value_attr, value_setattr, iter_obj, PathV


DUNDER = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "floordiv": "FloorDiv", "mod": "Mod", "pow": "Pow", "matmul": "MatMult"}
DUNCMP = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}


def dunder(it, o, op):
    """The operator methods of built-in values."""
    if not (is_scalar(o) or isinstance(o, (int, float, str, tuple, bool, A.Arr, L.List, L.Dict))):
        return None
    if op in DUNDER:
        return ExtFn(op, lambda it, a, k: it.binop(DUNDER[op], o, a[0]))
    if op[:1] == "r" and op[1:] in DUNDER:
        return ExtFn(op, lambda it, a, k: it.binop(DUNDER[op[1:]], a[0], o))
    if op in DUNCMP:
        return ExtFn(op, lambda it, a, k: it.compare(DUNCMP[op], o, a[0]))
    if op == "neg":
        return ExtFn(op, lambda it, a, k: L.unop(it, "USub", o))
    if op == "getitem":
        return ExtFn(op, lambda it, a, k: it.getitem(o, a[0]))
    if op == "contains":
        return ExtFn(op, lambda it, a, k: it.contains(o, a[0]))
    return None


L.dunder = dunder
