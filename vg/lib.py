"""Transfer functions of the libraries the analysed code calls.

Each library function is described by what it does to abstract values (shapes, element functions,
storage, random streams).  A function without a description yields an Opaque value; the analysis
refuses (Unmodelled) to compute with one where a number is needed.
"""
import re
from fractions import Fraction

from . import node as N
from . import arr as A
from .arr import AbsRaise, Arr, Ctx, Sl, NEWAXIS, MaskWhere
from .evalr import Unmodelled
from .node import Node, nd, ite, cmp, and_, not_, or_, TRUE, FALSE, fn, add, mul, sub, div, power, const

from .interp import (  # noqa: E402  (interp imports lib lazily)
    MISSING, Opaque, Choice, Cell, List, Dict, SetV, SymSeq, RangeV, Obj, Class, Func, Bound, StaticM, Prop,
    ExtFn, ExtType, ExtMod, EnumVal, ExcV, FieldV, FStr, StrHole, Module, SuperV, RaiseRec, is_scalar, unconst, unN,
    ClassM,
)

EXC_PARENT = {
    "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "FloatingPointError": "ArithmeticError", "LookupError": "Exception", "IndexError": "LookupError",
    "KeyError": "LookupError", "ValueError": "Exception", "TypeError": "Exception", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError", "NameError": "Exception",
    "UnboundLocalError": "NameError", "AttributeError": "Exception", "AssertionError": "Exception",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "OSError": "Exception",
    "FileNotFoundError": "OSError", "PermissionError": "OSError", "StopIteration": "Exception",
    "Exception": "BaseException", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
    "Warning": "Exception", "UserWarning": "Warning", "RuntimeWarning": "Warning", "DeprecationWarning": "Warning",
    "FutureWarning": "Warning", "UnicodeDecodeError": "ValueError", "EOFError": "Exception", "IOError": "Exception",
    "LinAlgError": "ValueError", "IsADirectoryError": "OSError", "NotADirectoryError": "OSError", "FileExistsError": "OSError",
}
EXC_NAMES = set(EXC_PARENT) | {"BaseException"}


def setup(it):
    it.params_made = 0
    it.grads = {}
    it.rngs = []
    it.globals_rng = RNG(it, N.sym("GLOBAL_RNG", "str"), "numpy.random")
    it.torch_rng = RNG(it, N.sym("GLOBAL_TORCH_RNG", "str"), "torch")
    it.effects = []
    it.backward_roots = []
    it.default_dtype = DTYPES["torch.default"]
    it.mods = {}


# ---------------------------------------------------------------------------------------
# small helpers


def U(what):
    it = Ctx.interp
    raise Unmodelled("%s at %s" % (what, it.where() if it else "?"))


def R(exc, msg):
    it = Ctx.interp
    raise AbsRaise(exc, msg, it.where() if it else None)


def conc_int(it, x):
    x = as_int(it, x)
    if isinstance(x, int):
        return x
    raise Unmodelled("a constant integer is needed at %s" % it.where())


def as_int(it, x):
    x = it.resolve(x)
    if isinstance(x, bool):
        return int(x)
    if x is None or isinstance(x, int):
        return x
    if isinstance(x, Arr):
        if all(isinstance(s, int) and s == 1 for s in x.shape):
            x = x.get(tuple(N.ZERO for _ in x.shape))
        else:
            R("TypeError", "only integer scalar arrays can be converted to a scalar index")
    if isinstance(x, Node):
        if N.is_const(x):
            if x.attr.denominator == 1:
                return int(x.attr)
            R("TypeError", "float used as an index")
        if x.op == "true":
            return 1
        if x.op == "false":
            return 0
        return x
    if isinstance(x, str):
        R("TypeError", "string used as an index")
    if isinstance(x, Choice):
        return it.over(x, lambda v: as_int(it, v))
    raise Unmodelled("integer from %r at %s" % (x, it.where()))


class DType:
    def __init__(self, name, kind, prec=None):
        self.name, self.kind, self.prec = name, kind, prec

    def __repr__(self):
        return self.name


DTYPES = {}


def _dt(name, kind, prec=None):
    DTYPES[name] = DType(name, kind, prec)
    return DTYPES[name]


for _n, _k, _p in [
    ("float16", "f", "f16"), ("float32", "f", "f32"), ("float64", "f", "f64"), ("complex64", "c", "f32"), ("complex128", "c", "f64"),
    ("int8", "i", None), ("int16", "i", None), ("int32", "i", None), ("int64", "i", None), ("uint8", "i", None), ("bool", "b", None),
]:
    _dt("np." + _n, _k, _p)
    _dt("torch." + _n, _k, _p)
_dt("torch.default", "f", None)
_dt("np.object", "o")


def dtype_of(it, d, kind="np"):
    d = it.resolve(d)
    if d is None:
        return None
    if isinstance(d, DType):
        return d
    if isinstance(d, ExtType):
        n = d.name.split(".")[-1]
        return {
            "float": DTYPES["np.float64"], "int": DTYPES["np.int64"], "bool": DTYPES["np.bool"], "complex": DTYPES["np.complex128"],
            "object": DTYPES["np.object"],
        }.get(n) or DTYPES.get("np." + n) or U("dtype %s" % n)
    if isinstance(d, str):
        m = {"float": "float64", "int": "int64", "complex": "complex128", "f8": "float64", "f4": "float32", "c16": "complex128", "d": "float64", "f": "float32"}
        n = m.get(d, d)
        if "np." + n in DTYPES:
            return DTYPES["np." + n]
    if isinstance(d, Opaque):
        return None
    U("dtype %r" % (d,))


def cast(a, dt):
    """Elementwise conversion to a dtype (a copy)."""
    if dt is None:
        return a
    if isinstance(a, Arr):
        k = dt.kind
        rd = a.reader()
        src = a.dtype
        if k == "i" and src not in ("i", "b"):
            f = lambda idx: fn("trunc", rd(idx))
        elif k == "i" and src == "b":
            f = lambda idx: ite(rd(idx), N.ONE, N.ZERO)
        elif k in ("f",) and src == "c":
            f = lambda idx: fn("real", rd(idx))
        elif k in ("f", "c") and src == "b":
            f = lambda idx: ite(rd(idx), N.ONE, N.ZERO)
        elif k == "b" and src != "b":
            f = lambda idx: A.truth(rd(idx))
        else:
            f = rd
        r = Arr(a.kind, a.shape, f, k)
        r.xdtype = dt.prec
        r.requires_grad = a.requires_grad or a.is_param
        return r
    x = nd(a)
    if dt.kind == "i":
        return x if N.is_intlike(x) else fn("trunc", x)
    if dt.kind == "b":
        return A.truth(x)
    return x


def is_t(x):
    return isinstance(x, Arr) and x.kind == "t"


def grad_on(it, ops):
    return (not it.nograd) and any(isinstance(o, Arr) and (o.requires_grad or o.is_param) for o in ops)


def detach_node(n):
    if n.op in ("c", "true", "false", "detach", "pi", "nan", "inf", "str", "none", "bvar"):
        return n
    return N.mk("detach", (n,))


def detach_arr(a, view=False):
    rd = a.reader()
    r = Arr(a.kind, a.shape, lambda idx: detach_node(rd(idx)), a.dtype)
    r.xdtype = a.xdtype
    return r


def post(it, r, ops):
    """Finish a result: gradient bookkeeping, numpy scalars."""
    if not isinstance(r, Arr):
        return r
    if r.kind == "t":
        if it.nograd:
            r = detach_arr(r)
        elif grad_on(it, ops):
            r.requires_grad = True
        return r
    return npout(r)


def npout(r):
    if isinstance(r, Arr) and r.kind == "np" and r.ndim == 0:
        return unN(unconst(r.get(())))
    return r


def np_array(x, it=None, kind="np"):
    """np.array of nested sequences / scalars / arrays (always a fresh array)."""
    it = it or Ctx.interp
    x = it.resolve(x)
    if isinstance(x, Arr):
        r = x.copy()
        r.kind = kind
        return r
    if isinstance(x, (bool, int, Node)):
        n = nd(x)
        return Arr(kind, (), lambda idx: n, scalar_dtype(x))
    if isinstance(x, str):
        n = nd(x)
        return Arr(kind, (), lambda idx: n, "o")
    if isinstance(x, RangeV):
        n = cmp_len(x)
        a, c = nd(x.a), nd(x.c)
        return Arr(kind, (n,), lambda idx: add(a, mul(c, idx[0])), "i")
    if isinstance(x, List) and x.sym is not None:
        x = x.sym
    if isinstance(x, SymSeq):
        e0 = x.at(N.bvar("z"))
        at = x.at
        if isinstance(e0, Arr) or isinstance(e0, (tuple, List)):
            e0 = np_array(e0, it) if not isinstance(e0, Arr) else e0

            def f(idx):
                v = at(idx[0])
                v = v if isinstance(v, Arr) else np_array(v, it)
                return v.get(idx[1:])

            return Arr(kind, (x.n,) + tuple(e0.shape), f, e0.dtype)
        return Arr(kind, (x.n,), lambda idx: nd(at(idx[0])), scalar_dtype(e0))
    if isinstance(x, Choice):
        return it.over(x, lambda v: np_array(v, it, kind))
    if isinstance(x, Opaque):
        U("array of opaque %s" % x.path)
    if isinstance(x, (tuple, List, list, range)):
        items = it.iterate(x)
        if not items:
            return Arr(kind, (0,), lambda idx: N.NAN, "f")
        es = [np_array(e, it, kind) for e in items]
        return A.stack(es, 0)
    if x is None:
        n = nd(None)
        return Arr(kind, (), lambda idx: n, "o")
    U("array of %r" % (x,))


def cmp_len(r):
    """Number of elements of a RangeV."""
    c = r.c if isinstance(r.c, int) else (int(r.c.attr) if N.is_const(r.c) else None)
    if c is None:
        U("symbolic range step")
    n = sub(nd(r.b), nd(r.a)) if c > 0 else sub(nd(r.a), nd(r.b))
    if abs(c) != 1:
        n = fn("ceil", mul(Fraction(1, abs(c)), n))
    if N.sign_of(n) not in ("+", "0+"):
        n = fn("max", n, N.ZERO)
    return A.dim(n)


def scalar_dtype(x):
    if isinstance(x, bool):
        return "b"
    if isinstance(x, int):
        return "i"
    if isinstance(x, Node):
        if x.op in ("true", "false", "eq", "lt", "le", "and", "not"):
            return "b"
        if x.op == "sym" and x.attr[1] == "bool":
            return "b"
        if N.is_intlike(x):
            # a literal such as 1.0 is folded to 1: keep it a float unless built from integers
            return "i" if x.op != "c" else "f"
        if has_I(x):
            return "c"
        return "f"
    return None


def has_I(n):
    if n.op == "I":
        return True
    if n.op in ("add", "mul", "pow", "ite"):
        return any(has_I(a) for a in n.args)
    if n.op == "fn" and n.attr in ("exp",):
        return any(has_I(a) for a in n.args)
    return False


def toarr(it, x, kind=None):
    x = it.resolve(x)
    if isinstance(x, Arr):
        return x
    a = np_array(x, it)
    if kind:
        a.kind = kind
    return a


def operand(it, x):
    """Operand of an elementwise op: Arr or scalar node."""
    x = it.resolve(x)
    if isinstance(x, Arr):
        return x
    if isinstance(x, (bool, int, Node)):
        return x
    if isinstance(x, (List, tuple, range, RangeV, SymSeq)):
        return np_array(x, it)
    if isinstance(x, Opaque):
        raise OpaqueOperand(x)
    if x is None:
        R("TypeError", "unsupported operand type NoneType")
    if isinstance(x, str):
        R("TypeError", "unsupported operand type str")
    if isinstance(x, MaskWhere):
        U("arithmetic on where() result")
    U("operand %r" % (x,))


class OpaqueOperand(Exception):
    def __init__(self, o):
        self.o = o


def ew(it, f, ops, dtype="join", kind=None):
    ops = [operand(it, o) for o in ops]
    arrs = [o for o in ops if isinstance(o, Arr)]
    if not arrs:
        return unconst(f(*[nd(o) for o in ops]))
    k = kind or ("t" if any(o.kind == "t" for o in arrs) else "np")
    if dtype == "join":
        dtype = join_ops(ops)
    elif dtype == "float":
        d = join_ops(ops)
        dtype = "c" if d == "c" else "f"
    r = A.elementwise(f, ops, k, dtype)
    fs = [o for o in arrs if o.dtype in ("f", "c", None) and o.ndim > 0]
    if k == "t" and fs:
        r.xdtype = "f64" if any(o.xdtype == "f64" for o in fs) else fs[0].xdtype
    cs = [A.compressed(o) for o in arrs if o.ndim > 0]
    if cs and all(c is not None for c in cs) and all(c[2] == cs[0][2] and A.same_mask(c[0], c[1], cs[0][0], cs[0][1]) for c in cs):
        first = [o for o in arrs if o.ndim > 0]
        if all(o.ndim == first[0].ndim for o in first):
            rs = [A.compressed(o)[3] if isinstance(o, Arr) and o.ndim > 0 else None for o in ops]
            ss = [None if q is not None else (o.reader()(()) if isinstance(o, Arr) else nd(o)) for q, o in zip(rs, ops)]
            r.comp = (first[0].comp[0], cs[0][0], cs[0][2], lambda idx: nd(f(*[q(idx) if q is not None else x for q, x in zip(rs, ss)])), r.st.content)
    return post(it, r, ops)


def join_ops(ops):
    ds = []
    for o in ops:
        ds.append(o.dtype if isinstance(o, Arr) else scalar_dtype(o))
    # integer arrays combined with literals like 2 stay integer
    return A.join_dtype(ds)


# ---------------------------------------------------------------------------------------
# operators


def binop(it, op, a, b):
    try:
        return binop_(it, op, a, b)
    except OpaqueOperand as e:
        return Opaque("(%s)" % e.o.path)


DUNDER = {
    "Add": ("__add__", "__radd__"), "Sub": ("__sub__", "__rsub__"), "Mult": ("__mul__", "__rmul__"), "Div": ("__truediv__", "__rtruediv__"),
    "Pow": ("__pow__", "__rpow__"), "MatMult": ("__matmul__", "__rmatmul__"), "FloorDiv": ("__floordiv__", "__rfloordiv__"), "Mod": ("__mod__", "__rmod__"),
    "BitAnd": ("__and__", "__rand__"), "BitOr": ("__or__", "__ror__"),
}


def binop_(it, op, a, b):
    # typing unions
    if op == "BitOr" and (isinstance(a, (ExtType, Class, ExtFn)) or isinstance(b, (ExtType, Class, ExtFn)) or (isinstance(a, Opaque) and (b is None or isinstance(b, (Opaque, ExtType))))):
        return TupleType([a, b])
    if op == "BitOr" and isinstance(a, TupleType):
        return TupleType(a.ts + [b])
    for x, y, k in ((a, b, 0), (b, a, 1)):
        if isinstance(x, Obj) and op in DUNDER:
            m, _ = x.cls.lookup(DUNDER[op][k])
            if m is not MISSING:
                return it.call(m, [x, y])
    if isinstance(a, (str, FStr)) or isinstance(b, (str, FStr)):
        return str_binop(it, op, a, b)
    if isinstance(a, List) and isinstance(b, List) and op == "Add":
        if a.sym is None and b.sym is None:
            return List(a.items + b.items)
        U("concatenation of symbolic lists")
    if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
        return a + b
    if op == "Add" and isinstance(a, (List, tuple)) and isinstance(b, (List, tuple)) and type(a) is not type(b):
        R("TypeError", "can only concatenate list (not tuple) to list")
    if op == "Mult" and (isinstance(a, (List, tuple)) or isinstance(b, (List, tuple))):
        s, n = (a, b) if isinstance(a, (List, tuple)) else (b, a)
        if isinstance(n, int) or (isinstance(n, Node) and not isinstance(n, Arr)):
            n = as_int(it, n)
            if isinstance(s, List) and s.sym is not None:
                U("repeat of a symbolic list")
            xs = list(s) if isinstance(s, tuple) else s.items
            if isinstance(n, int):
                r = xs * n
                return tuple(r) if isinstance(s, tuple) else List(r)
            if len(xs) == 1:
                r = List()
                r.sym = SymSeq(n, lambda i: xs[0])
                return r
            U("symbolic repeat")
    if isinstance(a, PathV) and op == "Div":
        return a.join(it, b)
    if isinstance(b, PathV) and op == "Div" and isinstance(a, str):
        return PathV(a).join(it, b)
    if isinstance(a, Dict) and isinstance(b, Dict) and op == "BitOr":
        return Dict({**a.d, **b.d})
    if isinstance(a, SetV) and isinstance(b, SetV):
        if op == "BitOr":
            return SetV(a.items + b.items)
        if op == "BitAnd":
            return SetV([x for x in a.items if x in b.items])
        if op == "Sub":
            return SetV([x for x in a.items if x not in b.items])
    # concrete integers
    if isinstance(a, int) and isinstance(b, int) and not (op == "MatMult"):
        a, b = int(a), int(b)
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "FloorDiv":
            if b == 0:
                R("ZeroDivisionError", "integer division by zero")
            return a // b
        if op == "Mod":
            if b == 0:
                R("ZeroDivisionError", "modulo by zero")
            return a % b
        if op == "Pow":
            return a**b if b >= 0 else N.const(Fraction(1) / Fraction(a) ** (-b)) if a != 0 else R("ZeroDivisionError", "0 to a negative power")
        if op == "Div":
            if b == 0:
                R("ZeroDivisionError", "division by zero")
            return N.const(Fraction(a, b))
        if op == "BitAnd":
            return a & b
        if op == "BitOr":
            return a | b
        if op == "BitXor":
            return a ^ b
        if op == "LShift":
            return a << b
        if op == "RShift":
            return a >> b
    if op == "MatMult":
        return matmul(it, a, b)
    if op == "Add":
        return ew(it, lambda x, y: add(x, y), [a, b])
    if op == "Sub":
        return ew(it, lambda x, y: sub(x, y), [a, b])
    if op == "Mult":
        return ew(it, lambda x, y: mul(x, y), [a, b])
    if op == "Div":
        return ew(it, lambda x, y: div(x, y), [a, b], "float")
    if op == "Pow":
        ops = [operand(it, a), operand(it, b)]
        d = "join"
        if any(isinstance(o, Arr) for o in ops):
            da = ops[0].dtype if isinstance(ops[0], Arr) else scalar_dtype(ops[0])
            db = ops[1].dtype if isinstance(ops[1], Arr) else scalar_dtype(ops[1])
            if da == "i" and isinstance(ops[1], int) and ops[1] < 0 and isinstance(ops[0], Arr):
                R("ValueError", "Integers to negative integer powers are not allowed.")
            d = A.join_dtype([da, db])
            if isinstance(ops[1], Node) and N.is_const(ops[1]) and ops[1].attr.denominator != 1:
                d = A.join_dtype([d, "f"])
        return ew(it, power, ops, d)
    if op == "FloorDiv":
        return ew(it, lambda x, y: floordiv(x, y), [a, b])
    if op == "Mod":
        return ew(it, lambda x, y: fn("mod", x, y), [a, b])
    if op == "LShift" and is_scalar(a) and is_scalar(b):
        return unN(mul(nd(a), power(2, nd(b))))
    if op in ("LShift", "RShift") and is_scalar(b):
        two = power(2, nd(b))
        return ew(it, (lambda x: mul(x, two)) if op == "LShift" else (lambda x: floordiv(x, two)), [a])
    if op in ("BitAnd", "BitOr", "BitXor"):
        if integral(a) and not boolish(b) or integral(b) and not boolish(a):
            return ew(it, lambda x, y: intbits(op, x, y), [a, b])
        if op == "BitAnd":
            return ew(it, lambda x, y: and_(A.truth(x), A.truth(y)), [a, b], "b")
        if op == "BitOr":
            return ew(it, lambda x, y: or_(A.truth(x), A.truth(y)), [a, b], "b")
        return ew(it, lambda x, y: not_(cmp("eq", ite(A.truth(x), N.ONE, N.ZERO), ite(A.truth(y), N.ONE, N.ZERO))), [a, b], "b")
    U("operator %s" % op)


def boolish(x):
    """Boolean values and arrays."""
    if isinstance(x, Arr):
        return x.dtype == "b"
    return isinstance(x, bool) or (isinstance(x, Node) and A.truth(x) is x)


def integral(x):
    """Surely integers, not booleans."""
    if isinstance(x, Arr):
        return x.dtype == "i"
    if isinstance(x, int):
        return not isinstance(x, bool) and x not in (0, 1)
    return isinstance(x, Node) and not boolish(x) and N.is_intlike(x) and not (N.is_const(x) and x.attr in (0, 1))


def intbits(op, x, y):
    """Bitwise operations with a constant mask of low bits, as arithmetic."""
    if not N.is_const(y):
        x, y = y, x
    if not N.is_const(y) or y.attr.denominator != 1:
        U("bitwise operation of two unknown integers")
    m = int(y.attr)
    if N.is_const(x) and x.attr.denominator == 1:
        p = int(x.attr)
        return N.const({"BitAnd": p & m, "BitOr": p | m, "BitXor": p ^ m}[op])
    low = m if m >= 0 else ~m
    if low & (low + 1):
        U("bitwise mask %d" % m)
    if op == "BitAnd":
        r = fn("mod", x, N.const(low + 1)) if low else N.ZERO
        return r if m >= 0 else sub(x, r)
    if m == 0:
        return x
    if op == "BitOr" and m > 0:
        return add(sub(x, fn("mod", x, N.const(low + 1))), N.const(low))
    if op == "BitXor" and m == 1:
        return sub(add(x, N.ONE), mul(N.const(2), fn("mod", x, N.const(2))))
    U("bitwise mask %d" % m)


def floordiv(x, y):
    if N.is_const(y) and y.attr == 1 and N.is_intlike(x):
        return x
    return fn("floordiv", x, y)


def percent(it, a, b):
    """'...' % values for plain conversions."""
    b = it.resolve(b)
    if not isinstance(a, str) or isinstance(b, Dict):
        return Opaque("str%")
    vals = [it.resolve(x) for x in b] if isinstance(b, tuple) else [b]
    parts, at = [], 0
    for m in re.finditer(r"%([-#0 +]*)(\d*)(\.\d+)?([a-zA-Z%])", a):
        parts.append(a[at : m.start()])
        at = m.end()
        if m.group(4) == "%":
            parts.append("%")
            continue
        if not vals:
            raise AbsRaise("TypeError", "not enough arguments for format string", it.where())
        v = vals.pop(0)
        if m.group(4) in "dixX" and isinstance(v, (str, tuple, List)) or m.group(4) in "eEfFgG" and isinstance(v, (str, tuple, List)):
            raise AbsRaise("TypeError", "%%%s format: a number is required" % m.group(4), it.where())
        parts.append(m.group(0) % v if isinstance(v, (int, str)) else it.fmt_one(v, None))
    parts.append(a[at:])
    if vals:
        raise AbsRaise("TypeError", "not all arguments converted during string formatting", it.where())
    return "".join(parts) if all(isinstance(x, str) for x in parts) else FStr(parts)


def str_binop(it, op, a, b):
    if isinstance(a, str) and isinstance(b, str):
        if op == "Add":
            return a + b
    if op == "Add" and isinstance(a, (str, FStr)) and isinstance(b, (str, FStr)):
        return FStr((a.parts if isinstance(a, FStr) else [a]) + (b.parts if isinstance(b, FStr) else [b]))
    if op == "Mult" and isinstance(a, str) and isinstance(b, int):
        return a * b
    if op == "Mult" and isinstance(b, str) and isinstance(a, int):
        return b * a
    if op == "Mod":
        return percent(it, a, b)
    if op == "Div" and isinstance(b, PathV):
        return PathV(a).join(it, b)
    if op == "Div" and isinstance(a, PathV):
        return a.join(it, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("str")
    R("TypeError", "unsupported operand types for %s: %s and %s" % (op, type(a).__name__, type(b).__name__))


def unop(it, op, x):
    if isinstance(x, Opaque):
        return x
    if isinstance(x, Obj):
        m, _ = x.cls.lookup({"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
        if m is not MISSING:
            return it.call(m, [x])
    if op == "USub":
        if isinstance(x, int):
            return -int(x)
        return ew(it, N.neg, [x])
    if op == "UAdd":
        return x
    if op == "Invert":
        if isinstance(x, int) and not isinstance(x, bool):
            return ~x
        if integral(x):
            return ew(it, lambda v: sub(N.neg(v), N.ONE), [x])
        return ew(it, lambda v: not_(A.truth(v)), [x], "b")
    U("unary " + op)


OPN = {"Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}


def compare(it, op, a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if op in ("Eq", "NotEq") and isinstance(a, Opaque) and isinstance(b, Opaque) and a.path == b.path:
            return op == "Eq"
        return N.sym("opaque:cmp:%s:%s" % (getattr(a, "path", a), getattr(b, "path", b)), "bool")
    for x, y, swap in ((a, b, False), (b, a, True)):
        if isinstance(x, Obj) and (op in ("Eq", "NotEq")):
            m, _ = x.cls.lookup("__eq__")
            if m is not MISSING:
                r = it.truth(it.call(m, [x, y]))
                return r if op == "Eq" else ((not r) if isinstance(r, bool) else not_(r))
            if isinstance(y, Obj) and x.cls.dataclass and x.cls is y.cls:
                r = TRUE
                for f in x.cls.dataclass[0]:
                    r = and_(r, nd(it.eq(x.attrs.get(f[0]), y.attrs.get(f[0]))))
                r = unconst(r)
                return r if op == "Eq" else ((not r) if isinstance(r, bool) else not_(r))
    if isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return op == "NotEq"
        return ew(it, lambda x, y: cmp(OPN[op], x, y), [a, b], "b")
    if is_scalar(a) and is_scalar(b):
        if isinstance(a, int) and isinstance(b, int):
            return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        return unconst(it.simplify(cmp(OPN[op], a, b)))
    if op in ("Eq", "NotEq"):
        r = eq_(it, a, b)
        return r if op == "Eq" else ((not r) if isinstance(r, bool) else not_(r))
    if isinstance(a, str) and isinstance(b, str):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
    if a is None or b is None:
        R("TypeError", "'%s' not supported between instances" % op)
    if isinstance(a, (tuple, List)) and isinstance(b, (tuple, List)):
        xa, xb = it.iterate(a), it.iterate(b)
        if not xa or not xb:
            return {"Lt": len(xa) < len(xb), "LtE": len(xa) <= len(xb), "Gt": len(xa) > len(xb), "GtE": len(xa) >= len(xb)}[op]
        same = it.eq(xa[0], xb[0])
        if same is True:
            return compare(it, op, tuple(xa[1:]), tuple(xb[1:]))
        first = compare(it, op.replace("E", ""), xa[0], xb[0])
        if same is False:
            return first
        return unconst(it.simplify(or_(nd(first), and_(nd(same), nd(compare(it, op, tuple(xa[1:]), tuple(xb[1:])))))))
    if isinstance(a, (str, FStr)) != isinstance(b, (str, FStr)):
        R("TypeError", "'%s' not supported between instances" % op)
    U("comparison %s of %r and %r" % (op, a, b))


def eq_(it, a, b):
    if a is b:
        return True
    if a is None or b is None:
        return a is b
    if isinstance(a, EnumVal) or isinstance(b, EnumVal):
        return isinstance(a, EnumVal) and isinstance(b, EnumVal) and a.cls is b.cls and a.name == b.name
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str) and isinstance(b, Node) or isinstance(b, str) and isinstance(a, Node):
        return unconst(it.simplify(cmp("eq", a, b)))
    if isinstance(a, FStr) or isinstance(b, FStr):
        if isinstance(a, FStr) and isinstance(b, FStr) and len(a.parts) == len(b.parts):
            U("comparison of symbolic strings")
        return N.sym(it.fresh("streq"), "bool")
    if isinstance(a, (tuple, List)) and isinstance(b, (tuple, List)):
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        xa, xb = it.iterate(a), it.iterate(b)
        if len(xa) != len(xb):
            return False
        r = TRUE
        for x, y in zip(xa, xb):
            r = and_(r, nd(it.eq(x, y)))
        return unconst(it.simplify(r))
    if isinstance(a, Dict) and isinstance(b, Dict):
        if set(a.d) != set(b.d):
            return False
        r = TRUE
        for k in a.d:
            r = and_(r, nd(it.eq(a.d[k], b.d[k])))
        return unconst(r)
    if isinstance(a, DType) and isinstance(b, DType):
        return a.name.split(".")[-1] == b.name.split(".")[-1]
    if isinstance(a, DType) and isinstance(b, (str, ExtType)) or isinstance(b, DType) and isinstance(a, (str, ExtType)):
        x, y = (a, b) if isinstance(a, DType) else (b, a)
        y = dtype_of(it, y)
        return y is not None and x.name.split(".")[-1] == y.name.split(".")[-1]
    if isinstance(a, PathV) and isinstance(b, PathV):
        return eq_(it, a.s, b.s)
    if isinstance(a, ExtType) and isinstance(b, ExtType):
        return a.name == b.name
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.func is b.func and a.selfv is b.selfv
    if isinstance(a, Sl) and isinstance(b, Sl):
        return a == b
    return False


def reduce_any(it, r):
    if isinstance(r, Arr):
        return npout(A.reduce_axes(r, "any", None)) if r.kind == "np" else A.reduce_axes(r, "any", None)
    return r


# ---------------------------------------------------------------------------------------
# indexing


def norm_items(it, i):
    def one(x):
        x = it.resolve(x)
        if x is None:
            return NEWAXIS
        if isinstance(x, (Sl, MaskWhere)) or x is Ellipsis or x is NEWAXIS:
            if isinstance(x, Sl):
                return Sl(*[None if v is None else as_int(it, v) for v in (x.a, x.b, x.c)])
            return x
        if isinstance(x, Arr):
            if x.ndim == 0:
                if x.dtype == "b":
                    U("0-d boolean index")
                return as_int(it, x)
            if x.dtype not in ("i", "b"):
                if x.dtype == "f" and all(isinstance(s, int) for s in x.shape):
                    R("IndexError", "arrays used as indices must be of integer (or boolean) type")
            return x
        if isinstance(x, List):
            return np_array(x, it)
        if isinstance(x, (range, RangeV)):
            return np_array(x, it)
        if isinstance(x, bool):
            U("boolean scalar index")
        if isinstance(x, Node) and N.is_const(x) and x.attr.denominator != 1:
            R("IndexError", "only integers, slices... are valid indices")
        return as_int(it, x)

    i = it.resolve(i)
    if isinstance(i, tuple):
        out = []
        for x in i:
            x = it.resolve(x)
            if isinstance(x, MaskWhere):
                out.append(x)
            elif isinstance(x, tuple):
                out.append(np_array(x, it))
            else:
                out.append(one(x))
        return tuple(out)
    return (one(i),)


def getitem(it, a, i):
    i = norm_items(it, i)
    r = A.getitem(a, i)
    if r.kind == "t":
        if it.nograd and grad_on_any([a]):
            pass
        r.requires_grad = (a.requires_grad or a.is_param) and not it.nograd
        return r
    if r.ndim == 0:
        return unN(unconst(r.get(())))
    return r


def grad_on_any(ops):
    return any(isinstance(o, Arr) and (o.requires_grad or o.is_param) for o in ops)


def setitem(it, a, i, v):
    i = norm_items(it, i)
    v = it.resolve(v)
    if isinstance(v, (List, tuple, range, RangeV, SymSeq)):
        v = np_array(v, it)
    if isinstance(v, Opaque):
        U("store of opaque %s" % v.path)
    if v is None:
        R("TypeError", "float() argument must be a number, not NoneType")
    if isinstance(v, str):
        R("ValueError", "could not convert string to float")
    if is_t(a):
        if a.is_param and not it.nograd:
            R("RuntimeError", "a view of a leaf Variable that requires grad is being used in an in-place operation.")
        if grad_on(it, [v]):
            a.requires_grad = True
        if isinstance(v, Arr) and v.kind == "np" and v.ndim > 0:
            R("TypeError", "can't assign a numpy.ndarray to a torch tensor slice")
    A.setitem(a, i, v)


def getitem_other(it, o, i):
    if isinstance(o, TableV):
        return o.getitem(it, i)
    if isinstance(o, (GroupV, ColV)):
        return o.getitem(it, i)
    if hasattr(o, "vgetitem"):
        return o.vgetitem(it, i)
    if isinstance(o, Obj) and is_module_obj(o):
        if "_list" in o.attrs:
            xs = o.attrs["_list"].items
            if isinstance(i, Sl):
                r = Obj(MODULELIST)
                r.attrs["_list"] = List(xs[slice(*[None if v is None else conc_int(it, v) for v in (i.a, i.b, i.c)])])
                return r
            k = conc_int(it, i)
            if k >= len(xs) or k < -len(xs):
                R("IndexError", "index out of range")
            return xs[k]
    if isinstance(o, MaskWhere):
        m = o.mask
        if m.ndim == 1 and conc_int(it, i) == 0:
            return Arr("np", (A.mask_count(m),), lambda idx: A.mask_nth(m, idx[0]), "i")
        U("where() component")
    if isinstance(o, (TypeAlias, TupleType)):
        return o
    return MISSING


def setitem_other(it, o, i, v):
    if hasattr(o, "vsetitem"):
        o.vsetitem(it, i, v)
        return True
    return False


def list_append(it, l, v):
    it.note(l, None)
    if l.sym is not None:
        n0, at0 = l.sym.n, l.sym.at
        l.sym = SymSeq(add(n0, 1), lambda i: it.merge(cmp("eq", i, n0), v, at0(i)))
        l.items.append(v)
        return
    l.items.append(v)


def list_extend(it, l, v):
    it.note(l, None)
    s = it.symbolic_seq(it.resolve(v))
    if s is not None:
        if l.items or l.sym is not None:
            U("extend by a symbolic sequence")
        a, b, c, at = s
        l.sym = SymSeq(sub(nd(b), nd(a)), lambda i: at(add(nd(a), i)))
        return
    l.items.extend(it.iterate(v))


# ---------------------------------------------------------------------------------------
# typing helpers


class TypeAlias:
    def __init__(self, name):
        self.name = name


class TupleType:
    def __init__(self, ts):
        self.ts = ts


# ---------------------------------------------------------------------------------------
# random streams


class RNG(Cell):
    """A random stream: a seed token and a position.  Drawing is a function of both."""

    def __init__(self, it, seed, name="RandomState"):
        self.seed, self.pos, self.name = seed, N.ZERO, name
        it.rngs.append(self)

    def jget(self, key):
        return (self.seed, self.pos)

    def jset(self, key, v):
        self.seed, self.pos = v

    def reseed(self, it, s):
        it.note(self, None)
        self.seed = seed_token(it, s)
        self.pos = N.ZERO

    def draw(self, it, dist, size, params=()):
        it.effects.append(("rng", self.name, dist, it.pcond(), it.where()))
        seed, pos = self.seed, self.pos
        if size is None:
            it.note(self, None)
            self.pos = add(pos, 1)
            return N.app("rnd_" + dist, seed, pos, *params)
        shape = shape_of(it, size)
        n = nd(A.prod_dims(shape))
        it.note(self, None)
        self.pos = add(pos, n)
        return Arr("np", shape, lambda idx: N.app("rnd_" + dist, seed, add(pos, A.flat_index(idx, shape)), *params), "f")

    def merge(self, it, cond, a, b):
        return (ite(cond, a[0], b[0]), ite(cond, a[1], b[1]))


_ent = [0]


def seed_token(it, s):
    s = it.resolve(s)
    if s is None:
        _ent[0] += 1
        return N.app("T:ENTROPY", N.const(_ent[0]))
    if isinstance(s, (int, Node)):
        return N.app("T:seed", nd(s))
    if isinstance(s, (List, tuple, Arr)):
        xs = [nd(x) for x in it.iterate(s)]
        return N.app("T:seed", *xs)
    if isinstance(s, (Opaque, SeedSeq)):
        return s.tok if isinstance(s, SeedSeq) else N.app("T:opaqueseed", nd(s.path))
    U("seed %r" % (s,))


class SeedSeq:
    def __init__(self, tok):
        self.tok = tok
        self.n = 0


def rng_attr(it, r, name):
    def m(f):
        return ExtFn("rng." + name, f)

    def kw(a, k, names, defaults):
        out = list(defaults)
        for i, v in enumerate(a):
            out[i] = v
        for kk, v in k.items():
            if kk in names:
                out[names.index(kk)] = v
            elif kk in ("dtype", "out"):
                pass
            else:
                R("TypeError", "unexpected keyword %s" % kk)
        return out

    if name == "normal":

        def normal(it, a, k):
            loc, scale, size = kw(a, k, ["loc", "scale", "size"], [0, 1, None])
            z = r.draw(it, "normal", size)
            if isinstance(scale, int) and scale == 1 and isinstance(loc, int) and loc == 0:
                return z
            return binop(it, "Add", binop(it, "Mult", z, scale), loc)

        return m(normal)
    if name == "standard_normal":
        return m(lambda it, a, k: r.draw(it, "normal", kw(a, k, ["size"], [None])[0]))
    if name == "randn":
        return m(lambda it, a, k: r.draw(it, "normal", tuple(a) if a else None))
    if name in ("rand", "random", "random_sample"):
        return m(lambda it, a, k: r.draw(it, "uniform", (tuple(a) if name == "rand" else kw(a, k, ["size"], [None])[0]) if a or k else None))
    if name == "uniform":

        def uniform(it, a, k):
            lo, hi, size = kw(a, k, ["low", "high", "size"], [0, 1, None])
            z = r.draw(it, "uniform", size)
            return binop(it, "Add", lo, binop(it, "Mult", binop(it, "Sub", hi, lo), z))

        return m(uniform)
    if name in ("randint", "integers"):
        return m(lambda it, a, k: Opaque("randint"))
    if name == "seed":
        return m(lambda it, a, k: r.reseed(it, a[0] if a else k.get("seed")))
    if name == "get_state":
        return m(lambda it, a, k: ("rngstate", r.seed, r.pos))
    if name == "set_state":

        def ss(it, a, k):
            it.note(r, None)
            r.seed, r.pos = a[0][1], a[0][2]

        return m(ss)
    return MISSING


# ---------------------------------------------------------------------------------------
# shapes


def shape_of(it, s):
    s = it.resolve(s)
    if isinstance(s, (int, Node)):
        return (A.dim(as_int(it, s)),)
    if isinstance(s, Arr):
        if s.ndim == 0:
            return (A.dim(as_int(it, s)),)
        return tuple(A.dim(as_int(it, getitem(it, s, i))) for i in range(conc_int(it, s.shape[0])))
    if isinstance(s, (tuple, List, range)):
        return tuple(A.dim(as_int(it, x)) for x in it.iterate(s))
    U("shape %r" % (s,))


def dimv(s):
    return s


def filled(kind, shape, v, dtype, prec=None):
    v = nd(v)
    r = Arr(kind, shape, lambda idx: v, dtype)
    r.xdtype = prec
    return r


def axes_arg(it, ax):
    ax = it.resolve(ax)
    if ax is None:
        return None
    if isinstance(ax, (tuple, List)):
        return [conc_int(it, x) for x in it.iterate(ax)]
    if isinstance(ax, Arr) and ax.ndim == 1:
        return [conc_int(it, x) for x in it.iterate(ax)]
    return [conc_int(it, ax)]


def reduction(it, a, kind, axis=None, keepdims=False, dtype="same"):
    a = toarr(it, a)
    keep = it.truth(keepdims) is True
    r = A.reduce_axes(a, kind, axis, keep, dtype=dtype)
    return post(it, r, [a])


def count_axes(a, axis):
    if axis is None:
        return nd(A.prod_dims(a.shape))
    return nd(A.prod_dims([a.shape[A.norm_axis(x, a.ndim)] for x in axis]))


def mean_(it, a, axis=None, keepdims=False):
    a = toarr(it, a)
    s = reduction(it, a, "sum", axis, keepdims)
    r = binop(it, "Div", s, count_axes(a, axis))
    if isinstance(r, Arr) and r.dtype == "i":
        r.dtype = "f"
    return r


def var_(it, a, axis=None, keepdims=False, ddof=0):
    a = toarr(it, a)
    m = mean_(it, a, axis, True)
    d = binop(it, "Sub", a, m)
    n = sub(count_axes(a, axis), nd(ddof))
    return binop(it, "Div", reduction(it, binop(it, "Pow", d, 2), "sum", axis, keepdims), n)


def matmul(it, a, b):
    a, b = toarr(it, a), toarr(it, b)
    kind = "t" if is_t(a) or is_t(b) else "np"
    if kind == "t" and a.kind == b.kind and a.xdtype != b.xdtype and a.dtype == "f" and b.dtype == "f" and "f64" in (a.xdtype, b.xdtype):
        R("RuntimeError", "expected m1 and m2 to have the same dtype")
    if a.ndim == 0 or b.ndim == 0:
        R("ValueError", "matmul: scalar operand")
    ra, rb = a.reader(), b.reader()
    if a.ndim == 1 and b.ndim == 1:
        A.oblige_eq(a.shape[0], b.shape[0], "matmul")
        t = Arr(kind, a.shape, lambda idx: mul(ra(idx), rb(idx)), A.join_dtype([a.dtype, b.dtype]))
        return post(it, A.reduce_axes(t, "sum", None), [a, b])
    if b.ndim == 1:
        A.oblige_eq(a.shape[-1], b.shape[0], "matmul")
        t = Arr(kind, a.shape, lambda idx: mul(ra(idx), rb((idx[-1],))), A.join_dtype([a.dtype, b.dtype]))
        return post(it, A.reduce_axes(t, "sum", [-1]), [a, b])
    if a.ndim == 1:
        A.oblige_eq(a.shape[0], b.shape[-2], "matmul")
        t = Arr(kind, b.shape, lambda idx: mul(ra((idx[-2],)), rb(idx)), A.join_dtype([a.dtype, b.dtype]))
        return post(it, A.reduce_axes(t, "sum", [-2]), [a, b])
    A.oblige_eq(a.shape[-1], b.shape[-2], "matmul")
    bs = A.broadcast_shapes([a.shape[:-2], b.shape[:-2]]) if (a.ndim > 2 or b.ndim > 2) else ()
    nb = len(bs)
    shape = tuple(bs) + (a.shape[-2], b.shape[-1], a.shape[-1])

    def f(idx):
        base = idx[:nb]
        ia = tuple(base[nb - (a.ndim - 2):]) if a.ndim > 2 else ()
        ib = tuple(base[nb - (b.ndim - 2):]) if b.ndim > 2 else ()
        ia = tuple(N.ZERO if isinstance(s, int) and s == 1 else x for x, s in zip(ia, a.shape[:-2]))
        ib = tuple(N.ZERO if isinstance(s, int) and s == 1 else x for x, s in zip(ib, b.shape[:-2]))
        return mul(ra(ia + (idx[nb], idx[nb + 2])), rb(ib + (idx[nb + 2], idx[nb + 1])))

    t = Arr(kind, shape, f, A.join_dtype([a.dtype, b.dtype]))
    t.xdtype = a.xdtype
    return post(it, A.reduce_axes(t, "sum", [-1]), [a, b])


def einsum(it, spec, ops):
    spec = spec.replace(" ", "")
    ops = [toarr(it, o) for o in ops]
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins, out = spec, None
    ins = ins.split(",")
    if len(ins) != len(ops):
        R("ValueError", "einsum: operand count")
    ell = 0
    for s, o in zip(ins, ops):
        if "..." in s:
            ell = max(ell, o.ndim - (len(s) - 3))
    names = ["@%d" % i for i in range(ell)]

    def expand(s, nd_=None):
        res, i = [], 0
        while i < len(s):
            if s[i : i + 3] == "...":
                n = ell if nd_ is None else nd_ - (len(s) - 3)
                res += names[ell - n :] if n else []
                i += 3
            else:
                res.append(s[i])
                i += 1
        return res

    lab = [expand(s, o.ndim) for s, o in zip(ins, ops)]
    for l, o in zip(lab, ops):
        if len(l) != o.ndim:
            R("ValueError", "einsum: operand has wrong number of dimensions")
    if out is None:
        allc = [c for l in lab for c in l]
        outl = names + sorted(c for c in set(allc) if allc.count(c) == 1 and not c.startswith("@"))
    else:
        outl = expand(out)
    dims = {}
    for l, o in zip(lab, ops):
        for c, s in zip(l, o.shape):
            if c in dims and not (isinstance(dims[c], int) and dims[c] == 1):
                if not (isinstance(s, int) and s == 1):
                    A.oblige_eq(dims[c], s, "einsum")
            else:
                dims[c] = s
    summed = [c for c in dims if c not in outl]
    order = outl + summed
    rds = [o.reader() for o in ops]
    kind = "t" if any(o.kind == "t" for o in ops) else "np"

    def f(idx):
        m = dict(zip(order, idx))
        fs = []
        for l, o, r in zip(lab, ops, rds):
            fs.append(r(tuple(N.ZERO if isinstance(s, int) and s == 1 and dims[c] != 1 else m[c] for c, s in zip(l, o.shape))))
        return mul(*fs)

    t = Arr(kind, [dims[c] for c in order], f, A.join_dtype([o.dtype for o in ops]))
    if summed:
        t = A.reduce_axes(t, "sum", list(range(len(outl), len(order))))
    return post(it, t, ops)


def meshgrid(it, xs, indexing, kind, sparse=False):
    xs = [toarr(it, x) for x in xs]
    xs = [x if x.ndim else A.reshape(x, (1,)) for x in xs]
    if any(x.ndim != 1 for x in xs):
        xs = [A.ravel(x) for x in xs]
    n = len(xs)
    axes = list(range(n))
    if indexing == "xy" and n >= 2:
        axes[0], axes[1] = 1, 0
    shape = [None] * n
    for x, ax in zip(xs, axes):
        shape[ax] = x.shape[0]
    out = []
    for x, ax in zip(xs, axes):
        rd = x.reader()
        shp = shape if not sparse else [shape[j] if j == ax else 1 for j in range(n)]
        r = Arr(kind, shp, (lambda rd, ax: lambda idx: rd((idx[ax],)))(rd, ax), x.dtype)
        r.xdtype = x.xdtype
        r.requires_grad = kind == "t" and grad_on(it, [x])
        out.append(r)
    return out


def fftfreq(n, d):
    n, d = nd(n), nd(d)
    half = fn("floordiv", add(n, 1), 2)
    return Arr("np", (A.dim(n),), lambda idx: div(ite(cmp("lt", idx[0], half), idx[0], sub(idx[0], n)), mul(n, d)), "f")


def rfftfreq(n, d):
    n, d = nd(n), nd(d)
    return Arr("np", (A.dim(add(fn("floordiv", n, 2), 1)),), lambda idx: div(idx[0], mul(n, d)), "f")


def fft_axes(kind, a, axes, half=False):
    """Nested transforms over axes (uninterpreted linear functionals of the whole axis)."""
    rd = a.reader()
    shape = list(a.shape)
    axes = [A.norm_axis(x, a.ndim) for x in axes]
    oshape = list(shape)
    if half:
        oshape[axes[-1]] = A.dim(add(fn("floordiv", nd(shape[axes[-1]]), 2), 1))

    def f(idx):
        bs = {ax: N.bvar("f") for ax in axes}
        body = rd(tuple(bs.get(j, idx[j]) for j in range(len(idx))))
        for ax in reversed(axes):
            body = N.reduce_(kind, bs[ax], nd(shape[ax]), body, idx[ax])
        return body

    return Arr("np", oshape, f, "c")


def irfft_axes(a, axes, nlast):
    rd = a.reader()
    axes = [A.norm_axis(x, a.ndim) for x in axes]
    oshape = list(a.shape)
    oshape[axes[-1]] = A.dim(nlast)
    nl = nd(nlast)

    def f(idx):
        bs = {ax: N.bvar("f") for ax in axes}
        body = rd(tuple(bs.get(j, idx[j]) for j in range(len(idx))))
        # leading axes: complex inverse; last axis: real inverse
        for ax in reversed(axes[:-1]):
            body = N.reduce_("ifft", bs[ax], nd(a.shape[ax]), body, idx[ax])
        ax = axes[-1]
        return N.reduce_("irfft", bs[ax], nd(a.shape[ax]), body, idx[ax], nl)

    return Arr("np", oshape, f, "f")


def dxt(kind, a, axis, typ):
    rd = a.reader()
    axis = A.norm_axis(axis, a.ndim)

    def f(idx):
        b = N.bvar("f")
        t = list(idx)
        t[axis] = b
        return N.reduce_(kind, b, nd(a.shape[axis]), rd(tuple(t)), idx[axis], nd(typ))

    return Arr("np", a.shape, f, a.dtype)


def gradient(it, a, h, axis):
    a = toarr(it, a)
    axis = A.norm_axis(axis, a.ndim)
    n = nd(a.shape[axis])
    rd = a.reader()
    if isinstance(h, Arr):
        if h.ndim == 0:
            h = h.get(())
        else:
            U("gradient with coordinate arrays")
    h = nd(h)

    def f(idx):
        i = idx[axis]

        def at(j):
            t = list(idx)
            t[axis] = j
            return rd(tuple(t))

        inner = div(sub(at(add(i, 1)), at(sub(i, 1))), mul(2, h))
        first = div(sub(at(const(1)), at(const(0))), h)
        last = div(sub(at(sub(n, 1)), at(sub(n, 2))), h)
        return ite(cmp("eq", i, 0), first, ite(cmp("eq", i, sub(n, 1)), last, inner))

    r = Arr(a.kind, a.shape, f, "f")
    return post(it, r, [a])


def trapz(it, y, x=None, dx=1, axis=-1):
    y = toarr(it, y)
    axis = A.norm_axis(axis, y.ndim)
    n = y.shape[axis]

    def sl(a, ax, lo, hi):
        items = [Sl(None, None, None)] * a.ndim
        items[ax] = Sl(lo, hi, None)
        return A.basic_view(a, items)

    ys = binop(it, "Add", sl(y, axis, 1, None), sl(y, axis, None, -1))
    if x is not None:
        x = toarr(it, x)
        if x.ndim == 1:
            d = binop(it, "Sub", sl(x, 0, 1, None), sl(x, 0, None, -1))
            shape = [1] * y.ndim
            shape[axis] = d.shape[0]
            d = A.reshape(d, shape)
        else:
            xax = axis - y.ndim + x.ndim
            d = binop(it, "Sub", sl(x, xax, 1, None), sl(x, xax, None, -1))
        prod = binop(it, "Mult", d, ys)
    else:
        prod = binop(it, "Mult", ys, dx)
    s = reduction(it, prod, "sum", [axis])
    return binop(it, "Mult", s, N.const(Fraction(1, 2)))


def norm_(it, a, dim=None, keepdim=False, ord=None):
    a = toarr(it, a)
    if ord is not None and ord not in (2, "fro"):
        if isinstance(ord, Node) and N.is_const(ord) and ord.attr == 2:
            pass
        elif (a.ndim if dim is None else len(axes_arg(it, dim) or ())) != 1 and a.kind == "np":
            U("matrix norm of order %r" % (ord,))
        elif ord == 1:
            return reduction(it, ew(it, lambda x: fn("abs", x), [a]), "sum", dim, keepdim)
        elif isinstance(ord, Node) and ord in (N.INF, N.neg(N.INF)):
            return reduction(it, ew(it, lambda x: fn("abs", x), [a]), "max" if ord is N.INF else "min", dim, keepdim)
        else:
            U("norm of order %r" % (ord,))
    sq = ew(it, lambda x: power(fn("abs", x), 2) if a.dtype == "c" else power(x, 2), [a])
    s = reduction(it, sq, "sum", dim, keepdim)
    return ew(it, N.sqrt, [s], "float")


def diff(it, a, axis=-1, n=1):
    a = toarr(it, a)
    for _ in range(n):
        axis_ = A.norm_axis(axis, a.ndim)
        lo, hi = [Sl(None, None, None)] * a.ndim, [Sl(None, None, None)] * a.ndim
        lo[axis_], hi[axis_] = Sl(1, None, None), Sl(None, -1, None)
        a = binop(it, "Sub", A.basic_view(a, lo), A.basic_view(a, hi))
    return a


def flip(it, a, axes):
    a = toarr(it, a)
    axes = range(a.ndim) if axes is None else [A.norm_axis(x, a.ndim) for x in axes]
    items = [Sl(None, None, None)] * a.ndim
    for x in axes:
        items[x] = Sl(None, None, -1)
    v = A.basic_view(a, items)
    if a.kind == "t":
        v = v.copy()
        v.requires_grad = grad_on(it, [a])
    return v


def tile(it, a, reps):
    a = toarr(it, a)
    reps = [as_int(it, r) for r in (it.iterate(reps) if isinstance(it.resolve(reps), (tuple, List, Arr)) else [reps])]
    n = max(len(reps), a.ndim)
    reps = [1] * (n - len(reps)) + reps
    shp = [1] * (n - a.ndim) + list(a.shape)
    rd = a.reader()
    k = n - a.ndim

    def f(idx):
        out = []
        for j in range(a.ndim):
            s, r = shp[j + k], reps[j + k]
            i = idx[j + k]
            if isinstance(r, int) and r == 1:
                out.append(i)
            elif isinstance(s, int) and s == 1:
                out.append(N.ZERO)
            else:
                out.append(fn("mod", i, nd(s)))
        return rd(tuple(out))

    return Arr(a.kind, [A.dim(mul(nd(s), nd(r))) for s, r in zip(shp, reps)], f, a.dtype)


def repeat(it, a, reps, axis):
    a = toarr(it, a)
    if axis is None:
        a, axis = A.ravel(a), 0
    axis = A.norm_axis(axis, a.ndim)
    reps = as_int(it, reps)
    rd = a.reader()
    shape = list(a.shape)
    shape[axis] = A.dim(mul(nd(shape[axis]), nd(reps)))

    def f(idx):
        t = list(idx)
        t[axis] = fn("floordiv", idx[axis], nd(reps))
        return rd(tuple(t))

    return Arr(a.kind, shape, f, a.dtype)


def linspace(it, a, b, n, endpoint=True, kind="np", dt=None):
    a, b = scal(it, a), scal(it, b)
    n = as_int(it, n)
    step = div(sub(b, a), nd(n) if not endpoint else sub(nd(n), 1))
    if endpoint and isinstance(n, int) and n == 1:
        step = N.ZERO
    if endpoint and not isinstance(n, int):
        step = ite(cmp("eq", n, 1), N.ZERO, step)
    r = Arr(kind, (A.dim(n),), lambda idx: add(a, mul(idx[0], step)), "f")
    if dt is not None:
        k = r.kind
        if dt.kind == "i":
            rd = r.reader()
            r = Arr(k, r.shape, lambda idx: fn("floor", rd(idx)), "i")
        else:
            r = cast(r, dt)
    return r


def scal(it, x):
    x = it.resolve(x)
    if isinstance(x, Arr):
        if all(isinstance(s, int) and s == 1 for s in x.shape):
            return x.get(tuple(N.ZERO for _ in x.shape))
        U("scalar expected")
    if isinstance(x, (bool, int, Node)):
        return nd(x)
    if x is None:
        R("TypeError", "a number is required, not None")
    if isinstance(x, Opaque):
        U("scalar from opaque %s" % x.path)
    U("scalar from %r" % (x,))


def where3(it, c, a, b):
    c = it.resolve(c)
    if not isinstance(c, Arr):
        c = np_array(c, it)
    a, b = operand(it, a), operand(it, b)
    r = ew(it, lambda x, y, z: ite(A.truth(x), y, z), [c, a, b], join_ops([a, b]))
    return r


def squeeze(it, a, axis=None):
    if axis is None:
        shape = [s for s in a.shape if not (isinstance(s, int) and s == 1)]
    else:
        axis = [A.norm_axis(x, a.ndim) for x in axis]
        for x in axis:
            if isinstance(a.shape[x], int) and a.shape[x] != 1:
                if a.kind == "t":
                    axis = [y for y in axis if y != x]
                else:
                    R("ValueError", "cannot select an axis to squeeze out which has size not equal to one")
        shape = [s for i, s in enumerate(a.shape) if i not in axis]
    return A.reshape(a, shape)


def expand_dims(a, axis):
    n = a.ndim + len(axis)
    axis = sorted(A.norm_axis(x, n) for x in axis)
    shape = list(a.shape)
    for x in axis:
        shape.insert(x, 1)
    return A.reshape(a, shape)


def isclose(it, a, b, rtol=None, atol=None):
    rtol = N.const(1e-5) if rtol is None else rtol
    atol = N.const(1e-8) if atol is None else atol
    return ew(it, lambda x, y, r, t: cmp("le", fn("abs", sub(x, y)), add(t, mul(r, fn("abs", y)))), [a, b, rtol, atol], "b")


def nan_to_num(x):
    return fn("nan_to_num", x)


def fingerprint(a):
    """A scalar standing for the whole content of an array."""
    rd = a.reader()
    bs = [N.bvar("p") for _ in a.shape]
    body = rd(tuple(bs))
    for b, s in reversed(list(zip(bs, a.shape))):
        body = N.reduce_("fp", b, nd(s), body)
    return body


def order_of(it, o):
    """Index order of a reshape: "C" or "F" (row-major memory is assumed for "A" and "K")."""
    o = it.resolve(o)
    if o in (None, "C", "A", "K"):
        return "C"
    if o == "F":
        return "F"
    U("index order %r" % (o,))


def rev(x):
    return A.permute(x, list(range(x.ndim))[::-1])


def reshape_o(it, x, shape, o):
    if order_of(it, o) == "F":
        return rev(A.reshape(rev(x), list(shape)[::-1]))
    return A.reshape(x, shape)


def ravel_o(it, x, o):
    return A.ravel(rev(x) if order_of(it, o) == "F" else x)
