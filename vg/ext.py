"""Library descriptions, part 2: argument binding, Python builtins and the standard library."""
import string
import ast as _ast
import functools as _ft

from . import node as N
from . import arr as A
from .lib import *  # noqa: F401,F403
from .lib import Arr, Node, AbsRaise, Unmodelled, Fraction
from .interp import (
    MISSING, Opaque, Choice, Cell, List, Dict, SetV, SymSeq, RangeV, Obj, Class, Func, Bound, StaticM, Prop,
    ExtFn, ExtType, ExtMod, EnumVal, ExcV, FieldV, FStr, StrHole, Module, SuperV, is_scalar, unconst, unN, ClassM, AttrDict, NT, CtxV,
)
from .arr import Sl, NEWAXIS, MaskWhere, Ctx
from .node import nd, ite, cmp, and_, not_, or_, TRUE, FALSE, fn, add, mul, sub, div, power, const
from . import lib as L
from .sigs import SIGS

EXT = {}  # dotted name -> value


@_ft.lru_cache(None)
def _spec(s):
    out = []
    for w in s.split():
        if "=" in w:
            n, d = w.split("=", 1)
            out.append((n, _ast.literal_eval(d), True))
        else:
            out.append((w, None, False))
    return out


def real_names(k, sp, fname):
    """Keywords under the names of the description, given under those of the library."""
    own = {n for n, _, _ in sp}
    if fname.startswith("torch."):
        k = {n if n in own else {"axis": "dim", "keepdims": "keepdim"}.get(n, n): v for n, v in k.items()}
    odd = [n for n in k if n not in own and n not in IGN]
    if not odd:
        return k
    lib = SIGS.get(fname.split(",")[0])
    if lib is None:
        if fname.startswith(("numpy.", "torch.", "scipy.")):
            raise Unmodelled("%s with %s=" % (fname, odd[0]))
        return k
    lib, k = lib.split(), dict(k)
    for n in odd:
        if n in lib:
            i = lib.index(n)
            if i < len(sp) and sp[i][0] not in lib and sp[i][0] not in k:
                k[sp[i][0]] = k.pop(n)
            else:
                raise Unmodelled("%s with %s=" % (fname, n))
    return k


def P(a, k, spec, fname="function"):
    sp = _spec(spec)
    vals, used = [], set()
    if k:
        k = real_names(k, sp, fname)
    if len(sp) < len(a) <= len(SIGS.get(fname.split(",")[0], "").split()):
        raise Unmodelled("%s with %d arguments" % (fname, len(a)))
    if len(a) > len(sp):
        R("TypeError", "%s() takes %d positional arguments but %d were given" % (fname, len(sp), len(a)))
    for i, (n, d, has) in enumerate(sp):
        if i < len(a):
            vals.append(a[i])
        elif n in k:
            vals.append(k[n])
            used.add(n)
        elif has:
            vals.append(d)
        else:
            R("TypeError", "%s() missing argument '%s'" % (fname, n))
    for n in k:
        if n not in used and n not in IGN:
            R("TypeError", "%s() got an unexpected keyword argument '%s'" % (fname, n))
    return vals


IGN = {"order", "copy", "like", "casting", "where", "device", "layout", "pin_memory", "memory_format", "non_blocking", "generator", "initial", "subok", "workers", "overwrite_x", "flush", "file", "end", "sep", "stacklevel", "out"}


def ext(name, spec=None):
    def deco(f):
        if spec is None:
            impl = f
            if name.startswith(("numpy.", "torch.")):

                def impl(it, a, k):
                    out = it.resolve(k["out"]) if k.get("out") is not None else None
                    if not isinstance(out, A.Arr):
                        return f(it, a, k)
                    r = f(it, a, {n: x for n, x in k.items() if n != "out"})
                    A.store(out, r)
                    return out
        else:
            keys = {n for n, _, _ in _spec(spec)}
            num = name.startswith(("numpy.", "torch."))

            def impl(it, a, k):
                if num and k:
                    return numeric(it, f, a, k, spec, name, keys)
                return f(it, *P(a, k, spec, name))

        for n in name.split(","):
            EXT[n] = ExtFn(n, impl)
        return f

    return deco


REDID = {"sum": 0, "prod": 1, "any": False, "all": True, "max": None, "amax": None, "min": None, "amin": None}


def numeric(it, f, a, k, spec, name, keys):
    """A library call with out=, where= or initial=."""
    k = dict(k)
    out = it.resolve(k.pop("out", None))
    short = name.split(",")[0].rsplit(".", 1)[-1]
    w, init = (it.resolve(k.pop(n, None)) if n not in keys else None for n in ("where", "initial"))
    if w is True:
        w = None
    if (w is not None or init is not None) and short not in REDID:
        raise Unmodelled("%s with where= or initial=" % name)
    if w is not None:
        e = REDID[short] if init is None or short not in ("max", "min", "amax", "amin") else init
        if e is None:
            R("ValueError", "%s with where= needs initial=" % short)
        a = [it.call(EXT["numpy.where"], [w, a[0], e], {})] + list(a[1:])
    r = f(it, *P(a, k, spec, name))
    if init is not None:
        if short in ("any", "all"):
            raise Unmodelled("%s with initial=" % name)
        op = {"sum": "numpy.add", "prod": "numpy.multiply", "max": "numpy.maximum", "amax": "numpy.maximum", "min": "numpy.minimum", "amin": "numpy.minimum"}[short]
        r = it.call(EXT[op], [r, init], {})
    if isinstance(out, A.Arr) and isinstance(r, (A.Arr, Node, int, float)):
        A.store(out, r)
        return out
    return r


def E(name, f, spec=None):
    ext(name, spec)(f)


# ---------------------------------------------------------------------------------------
# builtins

BUILTINS = {}


def bi(name, spec=None, typ=False):
    def deco(f):
        if spec is None:
            impl = f
        else:

            def impl(it, a, k):
                return f(it, *P(a, k, spec, name))

        BUILTINS[name] = ExtType(name, impl) if typ else ExtFn(name, impl)
        return f

    return deco


for _e in L.EXC_NAMES:
    BUILTINS[_e] = ExtType(_e, (lambda n: lambda it, a, k: ExcV(n, tuple(a)))(_e))
BUILTINS["NotImplemented"] = Opaque("NotImplemented")
BUILTINS["Ellipsis"] = Ellipsis
BUILTINS["__name__"] = "builtins"
BUILTINS["__file__"] = "<file>"
BUILTINS["__debug__"] = True
BUILTINS["__doc__"] = None


def length(it, x):
    if isinstance(x, (tuple, str)):
        return len(x)
    if isinstance(x, List):
        return unN(nd(x.sym.n)) if x.sym is not None else len(x.items)
    if isinstance(x, (Dict,)):
        return len(x.d)
    if isinstance(x, SetV):
        return len(x.items)
    if isinstance(x, Arr):
        if x.ndim == 0:
            R("TypeError", "len() of unsized object")
        return x.shape[0]
    if isinstance(x, RangeV):
        return L.cmp_len(x)
    if isinstance(x, range):
        return len(x)
    if isinstance(x, SymSeq):
        return unN(nd(x.n))
    if isinstance(x, Obj):
        m, _ = x.cls.lookup("__len__")
        if m is not MISSING:
            return it.call(m, [x])
        if "_list" in x.attrs:
            return len(x.attrs["_list"].items)
    if isinstance(x, Class) and x.enum:
        return len(it.iterate(x))
    if hasattr(x, "olen"):
        return x.olen(it)
    if isinstance(x, Opaque):
        return Opaque("len(%s)" % x.path)
    if hasattr(x, "vlen"):
        return x.vlen(it)
    if x is None or is_scalar(x):
        R("TypeError", "object has no len()")
    U("len of %r" % (x,))


bi("len", "x")(length)


@bi("range")
def _range(it, a, k):
    a = [L.as_int(it, x) for x in a]
    if any(isinstance(x, Opaque) for x in a):
        U("range of opaque")
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if all(isinstance(x, int) for x in (lo, hi, st)):
        return range(lo, hi, st)
    return RangeV(lo, hi, st)


def as_sym(it, x):
    """A SymSeq when the length is symbolic, else None."""
    s = it.symbolic_seq(it.resolve(x))
    if s is None:
        return None
    a, b, c, at = s
    if not (c == 1 or (isinstance(c, Node) and N.is_const(c) and c.attr == 1)):
        n = L.cmp_len(RangeV(a, b, c))
        return SymSeq(n, lambda i: at(add(nd(a), mul(nd(c), nd(i)))))
    n = sub(nd(b), nd(a))
    if N.sign_of(n) not in ("+", "0+"):
        n = fn("max", n, N.ZERO)
    return SymSeq(n, lambda i: at(add(nd(a), nd(i))))


def symlist(n, at):
    r = List()
    r.sym = SymSeq(n, at)
    return r


@bi("enumerate", "x start=0")
def _enumerate(it, x, start):
    s = as_sym(it, x)
    if s is None:
        return List([(binop(it, "Add", start, i) if not isinstance(start, int) else start + i, v) for i, v in enumerate(it.iterate(x))])
    return symlist(s.n, lambda i: (add(nd(start), i), s.at(i)))


@bi("zip")
def _zip(it, a, k):
    if not a:
        return List()
    a = [it.resolve(x) for x in a]
    if any(isinstance(x, InfV) for x in a):
        fin = [x for x in a if not isinstance(x, InfV)]
        if not fin:
            U("zip of endless iterators")
        z = _zip(it, fin, {})
        if z.sym is not None:
            fs = {id(x): x.rest(it) for x in a if isinstance(x, InfV)}
            if not all(isinstance(x, InfV) and x.sym_ok for x in a if isinstance(x, InfV)):
                U("zip of an endless iterator and a symbolic sequence")

            def at(i):
                t = iter(z.sym.at(i))
                return tuple(fs[id(x)](i) if isinstance(x, InfV) else next(t) for x in a)

            return symlist(z.sym.n, at)
        cols = {id(x): x.take(it, len(z.items)) for x in a if isinstance(x, InfV)}
        out = []
        for i, t in enumerate(z.items):
            t = iter(t)
            out.append(tuple(cols[id(x)][i] if isinstance(x, InfV) else next(t) for x in a))
        return List(out)
    known = [x for x in a if not isinstance(x, Opaque) or hasattr(x, "oiter")]
    if known and len(known) < len(a) and all(as_sym(it, x) is None for x in known):
        # an uninterpreted sequence is taken to be as long as the others
        known = {id(x): it.iterate(x) for x in known}
        n = min(len(x) for x in known.values())
        cols = [known[id(x)][:n] if id(x) in known else [Opaque("%s[%d]" % (x.path, i)) for i in range(n)] for x in a]
        return List([tuple(t) for t in zip(*cols)])
    ss = [as_sym(it, x) for x in a]
    if all(s is None for s in ss):
        return List([tuple(t) for t in zip(*[it.iterate(x) for x in a])])
    n, ats = None, []
    for s, x in zip(ss, a):
        if s is None:
            xs = it.iterate(x)
            m, at = nd(len(xs)), (lambda xs: lambda i: it.pick(xs, i))(xs)
        else:
            m, at = nd(s.n), s.at
        n = m if n is None else (n if n is m else fn("min", n, m))
        ats.append(at)
    return symlist(n, lambda i: tuple(at(i) for at in ats))


def to_list(it, x):
    x = it.resolve(x)
    s = as_sym(it, x)
    if s is not None:
        return symlist(s.n, s.at)
    return List(it.iterate(x))


@bi("list", typ=True)
def _list(it, a, k):
    return to_list(it, a[0]) if a else List()


@bi("tuple", typ=True)
def _tuple(it, a, k):
    if not a:
        return ()
    x = it.resolve(a[0])
    if as_sym(it, x) is not None:
        return to_list(it, x)
    return tuple(it.iterate(x))


@bi("dict", typ=True)
def _dict(it, a, k):
    d = Dict()
    if a:
        x = it.resolve(a[0])
        if isinstance(x, Dict):
            d.d.update(x.d)
        else:
            for p in it.iterate(x):
                kk, v = it.seq_n(p, 2)
                d.d[it.key(kk)] = v
    d.d.update(k)
    return d


@bi("set", typ=True)
def _set(it, a, k):
    return SetV([it.key(x) for x in it.iterate(a[0])]) if a else SetV()


BUILTINS["frozenset"] = BUILTINS["set"]


def minmax(name):
    def impl(it, a, k):
        key = k.get("key")
        if len(a) == 1:
            x = it.resolve(a[0])
            s = as_sym(it, x)
            if s is not None:
                if key is not None:
                    U("%s with key" % name)
                b = N.bvar("m")
                return N.reduce_(name, b, nd(s.n), nd(L.scal(it, s.at(b))))
            if isinstance(x, Opaque):
                return x
            xs = it.iterate(x)
        else:
            xs = list(a)
        if not xs:
            if "default" in k:
                return k["default"]
            R("ValueError", "%s() arg is an empty sequence" % name)
        if any(isinstance(it.resolve(x), Opaque) for x in xs):
            return Opaque(name)
        best = xs[0]
        if key is not None or any(isinstance(it.resolve(x), (tuple, List)) for x in xs):
            kb = best if key is None else it.call(key, [best])
            for x in xs[1:]:
                kx = x if key is None else it.call(key, [x])
                c = it.truth(it.compare("Gt" if name == "max" else "Lt", kx, kb))
                if c is True:
                    best, kb = x, kx
                elif c is not False:
                    best, kb = it.merge(c, x, best), it.merge(c, kx, kb)
            return best
        for x in xs[1:]:
            if isinstance(x, int) and isinstance(best, int):
                best = (max if name == "max" else min)(best, x)
            elif isinstance(x, str) and isinstance(best, str):
                best = (max if name == "max" else min)(best, x)
            else:
                best = L.ew(it, lambda p, q: fn(name, p, q), [best, x]) if not (is_scalar(x) and is_scalar(best)) else unN(fn(name, nd(best), nd(x)))
        return best

    return impl


bi("max")(minmax("max"))
bi("min")(minmax("min"))


@bi("sum", "x start=0")
def _sum(it, x, start):
    x = it.resolve(x)
    s = as_sym(it, x)
    if s is not None:
        b = N.bvar("s")
        e = s.at(b)
        if isinstance(e, Arr) and e.ndim:
            a = L.np_array(s, it, e.kind)
            return binop(it, "Add", L.reduction(it, a, "sum", [0]), start)
        return add(nd(start), N.reduce_("sum", b, nd(s.n), L.scal(it, e)))
    r = start
    for v in it.iterate(x):
        if isinstance(v, bool):
            v = int(v)
        elif isinstance(v, Node) and L.scalar_dtype(v) == "b":
            v = ite(v, N.ONE, N.ZERO)
        r = it.binop("Add", r, v)
    return r


def absv(it, x):
    if isinstance(x, int):
        return abs(int(x))
    return L.ew(it, lambda v: fn("abs", v), [x], "f" if isinstance(x, Arr) and x.dtype == "c" else "join")


bi("abs", "x")(lambda it, x: Opaque("abs") if isinstance(x, Opaque) else absv(it, x))


@bi("round", "x ndigits=None")
def _round(it, x, n):
    if isinstance(x, Opaque):
        return x
    if isinstance(x, int):
        return x
    if n is None or n == 0:
        return L.ew(it, lambda v: fn("round", v), [x])
    p = N.const(Fraction(10) ** L.conc_int(it, n))
    return L.ew(it, lambda v: div(fn("round", mul(v, p)), p), [x])


def opaque_num(o, dom="real"):
    return N.sym("opaque:" + o.path, "nat", (1, 8)) if dom == "nat" else N.sym("opaque:" + o.path, "pos")


@bi("int", typ=True)
def _int(it, a, k):
    if not a:
        return 0
    x = it.resolve(a[0])
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            R("ValueError", "invalid literal for int()")
    if isinstance(x, Opaque):
        return opaque_num(x, "nat")
    if x is None:
        R("TypeError", "int() argument must be a number, not 'NoneType'")
    v = L.scal(it, x)
    if v.op in ("true", "false"):
        return 1 if v.op == "true" else 0
    if L.scalar_dtype(v) == "b":
        return ite(v, N.ONE, N.ZERO)
    if N.is_intlike(v):
        return unN(v)
    if N.is_const(v):
        return int(v.attr)
    if v.op in ("nan", "inf"):
        R("ValueError", "cannot convert float NaN to integer")
    return fn("trunc", v)


@bi("float", typ=True)
def _float(it, a, k):
    if not a:
        return N.ZERO
    x = it.resolve(a[0])
    if isinstance(x, str):
        if x.lower() in ("inf", "infinity", "+inf"):
            return N.INF
        if x.lower() == "-inf":
            return N.neg(N.INF)
        if x.lower() == "nan":
            return N.NAN
        try:
            return N.const(float(x))
        except ValueError:
            R("ValueError", "could not convert string to float")
    if isinstance(x, Opaque):
        return opaque_num(x)
    if x is None:
        R("TypeError", "float() argument must be a string or a real number, not 'NoneType'")
    if L.is_t(x):
        return L.detach_node(L.scal(it, x))
    v = L.scal(it, x)
    if L.scalar_dtype(v) == "b":
        return ite(v, N.ONE, N.ZERO)
    return v


@bi("complex", typ=True)
def _complex(it, a, k):
    re = L.scal(it, a[0]) if a else N.ZERO
    im = L.scal(it, a[1]) if len(a) > 1 else N.ZERO
    return add(re, mul(N.I, im))


@bi("bool", typ=True)
def _bool(it, a, k):
    return it.truth(a[0]) if a else False


def tostr(it, x):
    x = it.resolve(x)
    if isinstance(x, (str, FStr)):
        return x
    if isinstance(x, (bool, int)) or x is None:
        return str(x)
    if isinstance(x, EnumVal):
        return repr(x)
    if isinstance(x, PathV):
        return x.s
    if isinstance(x, Obj):
        for n in ("__str__", "__repr__"):
            m, _ = x.cls.lookup(n)
            if m is not MISSING:
                return it.call(m, [x])
    if isinstance(x, Node) and N.is_const(x):
        return str(float(x.attr))
    return FStr([StrHole(x)])


bi("str", typ=True)(lambda it, a, k: tostr(it, a[0]) if a else "")
bi("repr", "x")(lambda it, x: tostr(it, x))
bi("bytes", typ=True)(lambda it, a, k: Opaque("bytes"))
bi("format")(lambda it, a, k: tostr(it, a[0]))
bi("object", typ=True)(lambda it, a, k: Opaque("object()"))
bi("id", "x")(lambda it, x: N.sym("id:%d" % id(x), "pos"))
bi("hash", "x")(lambda it, x: N.sym("hash:%d" % id(x), "pos"))
bi("callable", "x")(lambda it, x: isinstance(x, (Func, Bound, ExtFn, ExtType, Class)) or (isinstance(x, Obj) and (x.cls.lookup("__call__")[0] is not MISSING or L.is_module_obj(x))))


@bi("print")
def _print(it, a, k):
    it.calllog.append(("print", list(a), {}, it.pcond(), it.where()))


def tnames(it, t):
    t = it.resolve(t)
    if isinstance(t, (tuple, List)):
        return [x for y in it.iterate(t) for x in tnames(it, y)]
    if isinstance(t, L.TupleType):
        return [x for y in t.ts for x in tnames(it, y)]
    return [t]


def is_numpy_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def isinst(it, x, t):
    x = it.resolve(x)
    if isinstance(x, Choice):
        return unconst(it.simplify(ite(x.cond, nd(isinst(it, x.a, t)), nd(isinst(it, x.b, t)))))
    return any(isinst1(it, x, y) for y in tnames(it, t))


def isinst1(it, x, t):
    if t is None:
        return x is None
    if isinstance(t, Class):
        if isinstance(x, Obj):
            return x.cls.issub(t) or _protocol(t, x)
        if isinstance(x, (EnumVal, NT)):
            return x.cls.issub(t)
        return False
    n = t.name if isinstance(t, (ExtType, ExtFn)) else (t.path if isinstance(t, Opaque) else None)
    if n is None:
        if isinstance(t, L.DType):
            n = t.name
        else:
            U("isinstance against %r" % (t,))
    s = n.split(".")[-1]
    if isinstance(x, Obj):
        if s == "object":
            return True
        if s in ("Iterable",):
            return x.cls.lookup("__iter__")[0] is not MISSING
        if s == "Callable":
            return x.cls.lookup("__call__")[0] is not MISSING or L.is_module_obj(x)
        return any(getattr(b, "name", None) == n for b in x.cls.ext_bases()) or (s == "Module" and L.is_module_obj(x)) or any(
            isinstance(b, Class) and b.name == s for b in x.cls.mro()
        )
    if s == "object":
        return True
    if isinstance(x, bool):
        return s in ("bool", "int", "Number", "Integral", "Real", "bool_")
    if isinstance(x, int):
        return s in ("int", "Number", "Integral", "Real", "integer", "int64")
    if isinstance(x, Node):
        if x.op == "none":
            return s == "NoneType"
        d = L.scalar_dtype(x)
        if d == "b":
            return s in ("bool", "bool_", "int")
        if d == "i":
            return s in ("int", "Number", "Integral", "Real", "integer", "int64")
        if d == "c":
            return s in ("complex", "complexfloating", "complex128", "Number")
        return s in ("float", "Number", "Real", "floating", "float64", "number")
    if isinstance(x, (str, FStr)):
        return s in ("str", "Sequence", "Iterable", "Hashable")
    if isinstance(x, tuple):
        return s in ("tuple", "Tuple", "Sequence", "Iterable", "Size", "Collection")
    if isinstance(x, (List, SymSeq)):
        return s in ("list", "List", "Sequence", "MutableSequence", "Iterable", "Collection")
    if isinstance(x, (range, RangeV)):
        return s in ("range", "Sequence", "Iterable")
    if isinstance(x, Dict):
        return s in ("dict", "Dict", "Mapping", "MutableMapping", "Iterable", "OrderedDict")
    if isinstance(x, SetV):
        return s in ("set", "Set", "Iterable")
    if isinstance(x, Arr):
        if x.kind == "np":
            return s in ("ndarray", "Iterable")
        return s in ("Tensor", "Iterable") or (s == "Parameter" and x.tag == "param")
    if isinstance(x, (Func, Bound, ExtFn)):
        return s in ("Callable", "FunctionType")
    if isinstance(x, (Class, ExtType)):
        return s in ("type", "Callable")
    if isinstance(x, PathV):
        return s in ("Path", "PathLike", "PurePath")
    if isinstance(x, Sl):
        return s == "slice"
    if isinstance(x, ExcV):
        return it.exc_matches(x.name, s)
    if isinstance(x, L.RNG):
        return s in ("RandomState", "Generator")
    if x is None:
        return s == "NoneType"
    if isinstance(x, Opaque):
        return N.sym("opaque:isinstance:%s:%s" % (x.path, n), "bool")
    if isinstance(x, L.DType):
        return s == "dtype"
    return False


def _protocol(t, x):
    return False


bi("isinstance", "x t")(lambda it, x, t: isinst(it, x, t))


@bi("issubclass", "c t")
def _issub(it, c, t):
    for y in tnames(it, t):
        if isinstance(c, Class) and c.issub(y):
            return True
        if isinstance(c, ExtType) and isinstance(y, ExtType) and (c.name == y.name or y.name == "object" or (c.name, y.name) == ("bool", "int") or it.exc_matches(c.name, y.name)):
            return True
    return False


bi("hasattr", "o n")(lambda it, o, n: it.hasattr(o, n))
BUILTINS["getattr"] = ExtFn("getattr", lambda it, a, k: it.getattr(a[0], a[1], a[2] if len(a) > 2 else MISSING))
bi("setattr", "o n v")(lambda it, o, n, v: it.setattr(o, n, v))


@bi("delattr", "o n")
def _delattr(it, o, n):
    it.note(o, n)
    o.attrs.pop(n, None)


def anyall(name):
    def impl(it, x):
        x = it.resolve(x)
        s = as_sym(it, x)
        if s is not None:
            b = N.bvar("q")
            return unconst(it.simplify(N.reduce_(name, b, nd(s.n), nd(it.truth(s.at(b))))))
        r = []
        for v in it.iterate(x):
            t = it.truth(v)
            if t is (name == "any"):
                return t
            if not isinstance(t, bool):
                r.append(t)
        return unconst(it.simplify((or_ if name == "any" else and_)(*r))) if r else name == "all"

    return impl


bi("any", "x")(anyall("any"))
bi("all", "x")(anyall("all"))


@bi("map")
def _map(it, a, k):
    f, xs = a[0], [it.resolve(x) for x in a[1:]]
    if any(isinstance(x, InfV) for x in xs):
        z = _zip(it, list(xs), {})
        return symlist(z.sym.n, lambda i: it.call(f, list(z.sym.at(i)))) if z.sym is not None else List([it.call(f, list(t)) for t in z.items])
    ss = [as_sym(it, x) for x in xs]
    if any(s is not None for s in ss):
        z = _zip(it, list(xs), {})
        return symlist(z.sym.n, lambda i: it.call(f, list(z.sym.at(i))))
    return List([it.call(f, list(t)) for t in zip(*[it.iterate(x) for x in xs])])


@bi("filter", "f x")
def _filter(it, f, x):
    out = []
    for v in it.iterate(x):
        t = it.truth(v if f is None else it.call(f, [v]))
        if not isinstance(t, bool):
            U("filter on a symbolic condition")
        if t:
            out.append(v)
    return List(out)


@bi("sorted")
def _sorted(it, a, k):
    x = a[0]
    key, rev = k.get("key"), it.truth(k.get("reverse", False))
    s = as_sym(it, x)
    if s is not None:
        if key is not None or rev:
            U("sorted of a symbolic sequence with key")
        b = N.bvar("k")
        body = L.scal(it, s.at(b))
        return symlist(s.n, lambda i: N.reduce_("kth", b, nd(s.n), body, i))
    xs = it.iterate(x)
    ks = [it.call(key, [v]) for v in xs] if key is not None else xs

    def conc(v):
        v = it.resolve(v)
        if isinstance(v, (int, str)):
            return v
        if isinstance(v, Node) and N.is_const(v):
            return v.attr
        if isinstance(v, tuple):
            return tuple(conc(y) for y in v)
        if isinstance(v, FStr) or isinstance(v, PathV):
            return str(v)
        raise Unmodelled("sort key")

    try:
        order = sorted(range(len(xs)), key=lambda i: conc(ks[i]), reverse=rev is True)
        return List([xs[i] for i in order])
    except Unmodelled:
        if key is None and all(is_scalar(v) for v in xs):
            arr = L.np_array(List(xs), it)
            rd = arr.reader()
            b = N.bvar("k")
            n = len(xs)
            out = [N.reduce_("kth", b, nd(n), rd((b,)), nd(i)) for i in range(n)]
            return List(out[::-1] if rev is True else out)
        if key is not None and all(is_scalar(v) for v in ks):
            karr = L.np_array(List(ks), it)
            rd = karr.reader()
            b = N.bvar("k")
            n = len(xs)
            out = [it.pick(xs, N.reduce_("argkth", b, nd(n), rd((b,)), nd(i))) for i in range(n)]
            return List(out[::-1] if rev is True else out)
        raise


@bi("reversed", "x")
def _reversed(it, x):
    s = as_sym(it, x)
    if s is not None:
        return symlist(s.n, lambda i: s.at(sub(sub(nd(s.n), 1), i)))
    return List(it.iterate(x)[::-1])


@bi("type", typ=True)
def _type(it, a, k):
    x = it.resolve(a[0])
    if isinstance(x, Obj):
        return x.cls
    if isinstance(x, EnumVal):
        return x.cls
    for n in ("bool", "int", "str", "tuple", "list", "dict", "float", "complex"):
        if isinst1(it, x, BUILTINS[n]):
            return BUILTINS[n]
    if isinstance(x, Arr):
        return EXT["numpy.ndarray" if x.kind == "np" else "torch.Tensor"]
    if x is None:
        return ExtType("NoneType")
    return Opaque("type")


for _n in ("staticmethod", "classmethod", "property"):
    BUILTINS[_n] = ExtType(_n, {"staticmethod": lambda it, a, k: StaticM(a[0]), "classmethod": lambda it, a, k: ClassM(a[0]), "property": lambda it, a, k: Prop(a[0], a[1] if len(a) > 1 else k.get("fset"))}[_n])
BUILTINS["slice"] = ExtType("slice", lambda it, a, k: Sl(None, L.as_int(it, a[0]), None) if len(a) == 1 else Sl(*[L.as_int(it, x) for x in (list(a) + [None])[:3]]))


class IterV(Cell):
    def __init__(self, items):
        self.items, self.pos = items, 0

    def jget(self, key):
        return self.pos

    def jset(self, key, v):
        self.pos = v


bi("iter", "x")(lambda it, x: x if isinstance(x, IterV) else IterV(it.iterate(x)))


class InfV(Cell):
    """An endless iterator: at(i) is its i-th value."""

    def __init__(self, at, sym_ok):
        self.at, self.sym_ok, self.pos = at, sym_ok, 0

    def jget(self, key):
        return self.pos

    def jset(self, key, v):
        self.pos = v

    def take(self, it, n):
        p = self.pos
        it.set(self, None, p + n)
        return [self.at(p + i) for i in range(n)]

    def rest(self, it):
        p = self.pos
        return lambda i: self.at(add(p, i))


@bi("next")
def _next(it, a, k):
    x = a[0]
    if isinstance(x, InfV):
        return x.take(it, 1)[0]
    if isinstance(x, List):
        if x.sym is not None:
            U("next on a symbolic sequence")
        if x.items:
            it.note(x, None)
            return x.items.pop(0)
    elif isinstance(x, IterV):
        if x.pos < len(x.items):
            it.note(x, None)
            x.pos += 1
            return x.items[x.pos - 1]
    else:
        U("next on %r" % (x,))
    if len(a) > 1:
        return a[1]
    R("StopIteration", "")


bi("divmod", "a b")(lambda it, a, b: (binop(it, "FloorDiv", a, b), binop(it, "Mod", a, b)))
bi("pow")(lambda it, a, k: binop(it, "Pow", a[0], a[1]))
bi("locals")(lambda it, a, k: Dict())
bi("vars")(lambda it, a, k: AttrDict(a[0]) if a and isinstance(a[0], Obj) else Dict())
bi("globals")(lambda it, a, k: Dict())
bi("input")(lambda it, a, k: Opaque("input"))
bi("super")(lambda it, a, k: SuperV(a[0], a[1]))
bi("ord", "c")(lambda it, c: ord(c))
bi("chr", "c")(lambda it, c: chr(c))
bi("dir")(lambda it, a, k: List())
BUILTINS["memoryview"] = Opaque("memoryview")


# ---------------------------------------------------------------------------------------
# files and paths


class PathV:
    def __init__(self, s):
        self.s = s

    def join(self, it, b):
        b = b.s if isinstance(b, PathV) else b
        if isinstance(self.s, str) and isinstance(b, str):
            if b.startswith("/"):
                return PathV(b)
            if self.s in ("", "."):
                return PathV(b)
            return PathV(self.s.rstrip("/") + "/" + b)
        return PathV(cat(self.s, "/", b))

    def __repr__(self):
        return "Path(%s)" % (pathkey(self),)


def cat(*xs):
    parts = []
    for x in xs:
        if isinstance(x, FStr):
            parts += x.parts
        elif isinstance(x, str):
            parts.append(x)
        else:
            parts.append(StrHole(x))
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    return FStr(parts)


def pathkey(p):
    """A hashable name for a path value."""
    if isinstance(p, PathV):
        p = p.s
    if isinstance(p, str):
        return p.replace("//", "/")
    if isinstance(p, FStr):
        out = []
        for x in p.parts:
            if isinstance(x, str):
                out.append(x)
            else:
                v = x.v
                out.append("{%s}" % (pathkey(v) if isinstance(v, (PathV, FStr, str)) else ("n%d" % v.id if isinstance(v, Node) else getattr(v, "path", None) or "%s@%d" % (type(v).__name__, id(v)))))
        return "".join(out).replace("//", "/")
    if isinstance(p, Opaque):
        return "{%s}" % p.path
    return "{?%d}" % id(p)


class FileV:
    def __init__(self, path, mode):
        self.path, self.mode = path, mode
        self.loaded = 0


def do_open(it, a, k):
    p, mode = a[0], (a[1] if len(a) > 1 else k.get("mode", "r"))
    if p is None:
        R("TypeError", "expected str, bytes or os.PathLike object, not NoneType")
    if isinstance(mode, str) and any(c in mode for c in "wax+"):
        it.effects.append(("write", pathkey(p), mode, it.pcond(), it.where()))
    return FileV(pathkey(p), mode)


BUILTINS["open"] = ExtFn("open", do_open)
EXT["io.open"] = BUILTINS["open"]


def path_attr(it, p, name):
    def m(f):
        return ExtFn("Path." + name, f)

    s = p.s
    if name in ("resolve", "absolute", "expanduser"):
        return m(lambda it, a, k: p if s not in ("", ".") else PathV("<cwd>"))
    if name == "joinpath":
        def jp(it, a, k):
            q = p
            for x in a:
                q = q.join(it, x)
            return q
        return m(jp)
    if name in ("exists", "is_dir", "is_file"):
        return m(lambda it, a, k: N.sym("fs:%s:%s" % (name, pathkey(p)), "bool"))
    if name in ("mkdir", "touch", "unlink", "rmdir"):
        return m(lambda it, a, k: it.effects.append((name, pathkey(p), "", it.pcond(), it.where())))
    if name == "open":
        return m(lambda it, a, k: do_open(it, [p] + a, k))
    if name in ("as_posix", "__str__", "__fspath__"):
        return m(lambda it, a, k: s)
    if name in ("glob", "iterdir", "rglob"):
        def listing(it, a, k):
            if "os.listdir" not in EXT or name == "rglob" or name == "glob" and a[:1] != ["*"]:
                return Opaque("glob")
            return List([p.join(it, x) for x in it.iterate(it.call(EXT["os.listdir"], [p]))])
        return m(listing)
    if name == "read_bytes":
        return m(lambda it, a, k: BytesV(f=FileV(pathkey(p), "rb")))
    if name in ("write_bytes", "write_text"):
        return m(lambda it, a, k: write_bytes(it, pathkey(p), it.resolve(a[0])))
    if isinstance(s, str):
        import pathlib

        q = pathlib.PurePosixPath(s)
        if name == "name":
            return q.name
        if name == "stem":
            return q.stem
        if name == "suffix":
            return q.suffix
        if name == "parent":
            return PathV(str(q.parent))
        if name == "parts":
            return tuple(q.parts)
        if name == "with_suffix":
            return m(lambda it, a, k: PathV(str(q.with_suffix(a[0]))))
        if name == "with_name":
            return m(lambda it, a, k: PathV(str(q.with_name(a[0]))))
    if name in ("name", "stem", "suffix", "parent"):
        return Opaque("path." + name)
    return Opaque("Path." + name)


EXT["pathlib.Path"] = ExtType("pathlib.Path", lambda it, a, k: PathV("") if not a else _ft.reduce(lambda p, x: p.join(it, x), a[1:], a[0] if isinstance(a[0], PathV) else PathV(a[0])))
EXT["pathlib.PurePath"] = EXT["pathlib.Path"]
EXT["os.PathLike"] = ExtType("os.PathLike")


@ext("os.path.join")
def _osjoin(it, a, k):
    q = PathV(a[0].s if isinstance(a[0], PathV) else a[0])
    for x in a[1:]:
        q = q.join(it, x)
    return q.s


class DirEntryV:
    def __init__(self, it, d, name):
        self.name, self.path = name, PathV(d.s if isinstance(d, PathV) else d).join(it, name).s


def scandir(it, a, k):
    if "os.listdir" not in EXT:
        return Opaque("scandir")
    d = a[0] if a else "."
    return List([DirEntryV(it, d, x) for x in it.iterate(it.call(EXT["os.listdir"], [d]))])


def globbed(it, a, k):
    q = a[0].s if isinstance(a[0], PathV) else a[0]
    if "os.listdir" not in EXT or not isinstance(q, str) or not q.endswith("/*"):
        return Opaque("glob")
    return List([PathV(q[:-2]).join(it, x).s for x in it.iterate(it.call(EXT["os.listdir"], [q[:-2]]))])


EXT["os.scandir"] = ExtFn("os.scandir", scandir)
EXT["glob.glob"] = EXT["glob.iglob"] = ExtFn("glob.glob", globbed)

E("os.path.exists,os.path.isdir,os.path.isfile", lambda it, a, k: N.sym("fs:exists:%s" % pathkey(a[0]), "bool"))
E("os.makedirs,os.mkdir", lambda it, a, k: it.effects.append(("mkdir", pathkey(a[0]), "", it.pcond(), it.where())))
E("os.path.dirname", lambda it, a, k: Opaque("dirname"))
E("os.path.basename", lambda it, a, k: a[0].rstrip("/").split("/")[-1] if isinstance(a[0], str) else Opaque("basename"))
E("os.path.abspath,os.path.expanduser,os.fspath", lambda it, a, k: a[0].s if isinstance(a[0], PathV) else a[0])
E("os.getcwd", lambda it, a, k: "<cwd>")
E("os.environ.get,os.getenv", lambda it, a, k: Opaque("env:%s" % (a[0],)))
E("os.cpu_count", lambda it, a, k: N.sym("opaque:cpu_count", "nat", (1, 8)))


def reach(it, v, memo=None):
    """Structural copy (pickle / deepcopy): fresh storage, same values."""
    memo = {} if memo is None else memo
    v = it.resolve(v)
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Arr):
        r = v.copy()
        r.requires_grad, r.is_param, r.tag = v.requires_grad, v.is_param, v.tag
    elif isinstance(v, List):
        r = List()
        memo[id(v)] = r
        r.items = [reach(it, x, memo) for x in v.items]
        r.sym = v.sym
    elif isinstance(v, tuple):
        r = tuple(reach(it, x, memo) for x in v)
    elif isinstance(v, Dict):
        r = Dict()
        memo[id(v)] = r
        r.d = {k: reach(it, x, memo) for k, x in v.d.items()}
    elif isinstance(v, Obj):
        r = Obj(v.cls)
        r.name = v.name
        memo[id(v)] = r
        r.attrs = {k: reach(it, x, memo) for k, x in v.attrs.items()}
    elif isinstance(v, Choice):
        r = Choice(v.cond, reach(it, v.a, memo) if v.a is not MISSING else MISSING, reach(it, v.b, memo) if v.b is not MISSING else MISSING)
    elif isinstance(v, L.RNG):
        r = L.RNG(it, v.seed, v.name)
        r.pos = v.pos
    else:
        r = v
    memo[id(v)] = r
    return r


E("copy.deepcopy", lambda it, a, k: reach(it, a[0]))


@ext("copy.copy", "x")
def _copy(it, x):
    if isinstance(x, Arr):
        return x.copy()
    if isinstance(x, List):
        r = List(x.items)
        r.sym = x.sym
        return r
    if isinstance(x, Dict):
        return Dict(x.d)
    if isinstance(x, Obj):
        r = Obj(x.cls)
        r.attrs = dict(x.attrs)
        return r
    return x


def fs_store(it, path, v):
    cell = it.state.setdefault("fs", Dict())
    it.note(cell, None)
    cell.d[path] = v


def fs_load(it, f):
    cell = it.state.setdefault("fs", Dict())
    p = f.path if isinstance(f, FileV) else pathkey(f)
    v = cell.d.get(p, MISSING)
    if v is MISSING:
        R("FileNotFoundError", p)
    return reach(it, v)


def binfile(it, f, use):
    """A file object opened for binary `use` ("r" or "w")."""
    f = it.resolve(f)
    if f is None or isinstance(f, (str, FStr, PathV, Node, int, float)):
        R("TypeError", "file must have a %s" % ("'write' attribute" if use == "w" else "'read' and 'readline' attributes"))
    if isinstance(f, FileV) and isinstance(f.mode, str):
        if (use == "w") != any(c in f.mode for c in "wax") and "+" not in f.mode:
            R("UnsupportedOperation", "not writable" if use == "w" else "not readable")
        if "b" not in f.mode:
            R("TypeError", "a text file carries no pickle")
    return f


def pdump(it, a, k):
    f = binfile(it, a[1] if len(a) > 1 else k["file"], "w")
    return fs_store(it, f.path if isinstance(f, FileV) else pathkey(f), reach(it, a[0] if a else k["obj"]))


E("pickle.dump", pdump)
E("torch.save", lambda it, a, k: fs_store(it, a[1].path if isinstance(a[1], FileV) else pathkey(a[1]), reach(it, a[0])))
E("pickle.load", lambda it, a, k: fs_load(it, binfile(it, a[0], "r")))
EXT["pickle.Unpickler"] = ExtType("pickle.Unpickler", lambda it, a, k: UnpicklerV(binfile(it, a[0], "r")))
EXT["pickle.HIGHEST_PROTOCOL"] = 5


class BytesV(Opaque):
    """Serialised data: of a value (dumps) or of a file's content (read)."""

    def __init__(self, v=MISSING, f=None):
        Opaque.__init__(self, "bytes")
        self.v, self.f = v, f


def loads(it, b):
    if isinstance(b, BytesV):
        return fs_load(it, b.f) if b.v is MISSING else reach(it, b.v)
    if hasattr(b, "buf"):
        return loads(it, b.buf)
    return Opaque("pickle.loads")


E("pickle.dumps", lambda it, a, k: BytesV(reach(it, a[0])))
E("pickle.loads", lambda it, a, k: loads(it, it.resolve(a[0])))


def write_bytes(it, path, v, mode="w"):
    it.effects.append(("write", path, "data", it.pcond(), it.where()))
    if isinstance(v, BytesV):
        fs_store(it, path, fs_load(it, v.f) if v.v is MISSING else v.v)


class UnpicklerV:
    def __init__(self, f):
        self.f = f


# ---------------------------------------------------------------------------------------
# small standard modules

E("math.ceil", lambda it, x: _mathint(it, x, "ceil"), "x")
E("math.floor", lambda it, x: _mathint(it, x, "floor"), "x")
E("math.trunc", lambda it, x: _mathint(it, x, "trunc"), "x")


def _mathint(it, x, f):
    if isinstance(x, int):
        return x
    return unN(fn(f, L.scal(it, x)))


for _n, _f in {"sqrt": N.sqrt, "exp": lambda x: fn("exp", x), "log": lambda x: fn("log", x), "log10": lambda x: fn("log10", x), "log2": lambda x: fn("log2", x), "sin": lambda x: fn("sin", x), "cos": lambda x: fn("cos", x),
               "tan": lambda x: fn("tan", x), "atan": lambda x: fn("arctan", x), "fabs": lambda x: fn("abs", x), "tanh": lambda x: fn("tanh", x), "sinh": lambda x: fn("sinh", x), "cosh": lambda x: fn("cosh", x), "gamma": lambda x: fn("gamma", x),
               "radians": lambda x: mul(x, div(N.PI, 180)), "degrees": lambda x: mul(x, div(180, N.PI)), "erf": lambda x: fn("erf", x),
               "isnan": lambda x: fn("isnan", x), "isfinite": lambda x: fn("isfinite", x), "isinf": lambda x: and_(not_(fn("isnan", x)), not_(fn("isfinite", x))),
               "asin": lambda x: fn("arcsin", x), "acos": lambda x: fn("arccos", x)}.items():
    E("math." + _n, (lambda f: lambda it, a, k: f(L.scal(it, a[0])) if len(a) == 1 else div(f(L.scal(it, a[0])), f(L.scal(it, a[1]))))(_f))
E("math.pow", lambda it, a, b: power(L.scal(it, a), L.scal(it, b)), "a b")
E("math.atan2", lambda it, a, b: fn("atan2", L.scal(it, a), L.scal(it, b)), "a b")
E("math.hypot", lambda it, a, k: N.sqrt(add(*[power(L.scal(it, x), 2) for x in a])))
E("math.prod", lambda it, a, k: _ft.reduce(lambda x, y: it.binop("Mult", x, y), it.iterate(a[0]), 1))
E("math.fsum", lambda it, a, k: _sum(it, a[0], 0))
E("math.fmod", lambda it, a, b: fn("mod", L.scal(it, a), L.scal(it, b)), "a b")
E("math.isclose", lambda it, a, k: unconst(nd(L.isclose(it, a[0], a[1], k.get("rel_tol", N.const(1e-9)), k.get("abs_tol", 0)))))
EXT.update({"math.pi": N.PI, "math.e": fn("exp", N.const(Fraction(1))), "math.inf": N.INF, "math.nan": N.NAN, "math.tau": mul(2, N.PI)})

for _n in ("time", "perf_counter", "monotonic", "process_time", "sleep", "strftime", "ctime"):
    E("time." + _n, lambda it, a, k: Opaque("time"))
E("warnings.warn", lambda it, a, k: it.warnings.append((a, it.pcond(), it.where())))
E("warnings.filterwarnings,warnings.simplefilter", lambda it, a, k: None)
E("warnings.catch_warnings", lambda it, a, k: Opaque("ctx"))

EXT["dataclasses.dataclass"] = ExtFn("dataclasses.dataclass", lambda it, a, k: a[0] if a else ExtFn("dc", lambda it, a, k: a[0]))


@ext("dataclasses.field")
def _field(it, a, k):
    return FieldV(k.get("default", MISSING), k.get("default_factory", MISSING), it.truth(k.get("init", True)) is not False)


E("dataclasses.astuple", lambda it, o: tuple(it.getattr(o, f[0]) for f in o.cls.dataclass[0] if not f[3]), "o")
E("dataclasses.asdict", lambda it, o: Dict({f[0]: reach(it, it.getattr(o, f[0])) for f in o.cls.dataclass[0] if not f[3]}), "o")


@ext("dataclasses.replace")
def _replace(it, a, k):
    o = a[0]
    kw = {f[0]: it.getattr(o, f[0]) for f in o.cls.dataclass[0] if f[4] and not f[3]}
    kw.update(k)
    return it.construct(o.cls, [], kw)


class FieldInfo:
    def __init__(self, name, default):
        self.name, self.default = name, default


E("dataclasses.fields", lambda it, o: tuple(FieldInfo(f[0], f[1]) for f in (o if isinstance(o, Class) else o.cls).dataclass[0]), "o")


def enum_ctor(it, a, k):
    c = Class(a[0], [EXT["enum.Enum"]], None)
    c.enum = True
    names = it.resolve(a[1] if len(a) > 1 else k["names"])
    if isinstance(names, str):
        names = List(names.replace(",", " ").split())
    if isinstance(names, Dict):
        for n, v in names.d.items():
            c.attrs[n] = EnumVal(c, n, v)
    else:
        for i, n in enumerate(it.iterate(names)):
            if isinstance(n, tuple):
                c.attrs[n[0]] = EnumVal(c, n[0], n[1])
            else:
                c.attrs[n] = EnumVal(c, n, i + 1)
    return c


for _n in ("Enum", "IntEnum", "StrEnum", "Flag"):
    EXT["enum." + _n] = ExtType("enum." + _n, enum_ctor)
E("enum.auto", lambda it, a, k: _auto(it))
E("enum.unique", lambda it, a, k: a[0])


def _auto(it):
    it.state["auto"] = it.state.get("auto", 0) + 1
    return it.state["auto"]


EXT["abc.ABC"] = ExtType("abc.ABC")
EXT["abc.ABCMeta"] = ExtType("abc.ABCMeta")
E("abc.abstractmethod", lambda it, a, k: a[0])
for _n in ("Iterable", "Callable", "Sequence", "Mapping", "Iterator", "Generator", "Hashable", "Sized", "Collection", "MutableMapping", "MutableSequence"):
    EXT["collections.abc." + _n] = ExtType("collections.abc." + _n)
EXT["collections.OrderedDict"] = BUILTINS["dict"]


for _n in ("Number", "Integral", "Real", "Complex"):
    EXT["numbers." + _n] = ExtType("numbers." + _n)


class PartialV:
    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k

    def vcall(self, it, a, k):
        return it.call(self.f, list(self.a) + list(a), {**self.k, **k})


E("functools.partial", lambda it, a, k: PartialV(a[0], a[1:], k))
E("functools.wraps", lambda it, a, k: ExtFn("wraps", lambda it, a, k: a[0]))
E("functools.lru_cache", lambda it, a, k: _memoize(a[0]) if a and isinstance(a[0], Func) else ExtFn("functools.lru_cache", lambda it, a, k: _memoize(a[0])))
E("functools.cache", lambda it, a, k: _memoize(a[0]))
EXT["functools.cached_property"] = ExtType("functools.cached_property", lambda it, a, k: Prop(a[0], None, True))


def _memoize(f):
    if isinstance(f, Func):
        f.memo = {}
        f.memo_cell = Dict()
    return f


@ext("functools.reduce")
def _reduce(it, a, k):
    xs = it.iterate(a[1])
    r = a[2] if len(a) > 2 else xs.pop(0)
    for x in xs:
        r = it.call(a[0], [r, x])
    return r


import itertools as _itt  # noqa: E402

E("itertools.product", lambda it, a, k: List([tuple(t) for t in _itt.product(*[it.iterate(x) for x in a], repeat=L.conc_int(it, k.get("repeat", 1)))]))
E("itertools.chain", lambda it, a, k: List([v for x in a for v in it.iterate(x)]))
E("itertools.chain.from_iterable", lambda it, a, k: List([v for x in it.iterate(a[0]) for v in it.iterate(x)]))
E("itertools.combinations", lambda it, a, k: List([tuple(t) for t in _itt.combinations(it.iterate(a[0]), L.conc_int(it, a[1]))]))
E("itertools.permutations", lambda it, a, k: List([tuple(t) for t in _itt.permutations(it.iterate(a[0]), *([L.conc_int(it, a[1])] if len(a) > 1 else []))]))
E("itertools.combinations_with_replacement", lambda it, a, k: List([tuple(t) for t in _itt.combinations_with_replacement(it.iterate(a[0]), L.conc_int(it, a[1]))]))
E("itertools.repeat", lambda it, a, k: List([a[0]] * L.conc_int(it, a[1])) if len(a) > 1 else InfV(lambda i: a[0], True))
E("itertools.count", lambda it, start, step: InfV(lambda i: binop(it, "Add", start, binop(it, "Mult", step, i)), True), "start=0 step=1")


@ext("itertools.cycle", "x")
def _cycle(it, x):
    xs = it.iterate(x)
    return InfV(lambda i: xs[i % len(xs)], False)


def _islice(it, a, k):
    x = it.resolve(a[0])
    s = slice(*[None if v is None else L.conc_int(it, v) for v in a[1:]])
    if isinstance(x, InfV):
        if s.stop is None:
            U("endless slice")
        return List(x.take(it, s.stop)[s])
    if isinstance(x, IterV):
        if s.stop is None or (s.step or 1) != 1:
            xs = it.iterate(x)
            return List(xs[s])
        xs = list(x.items)[x.pos:]
        it.set(x, None, min(len(x.items), x.pos + s.stop))
        return List(xs[s])
    return List(it.iterate(x)[s])


E("itertools.islice", _islice)


def _pred(it, f, x):
    t = it.truth(x if f is None else it.call(f, [x]))
    if not isinstance(t, bool):
        U("a symbolic condition in itertools")
    return t


@ext("itertools.takewhile", "f x")
def _takewhile(it, f, x):
    return List(list(_itt.takewhile(lambda v: _pred(it, f, v), it.iterate(x))))


@ext("itertools.dropwhile", "f x")
def _dropwhile(it, f, x):
    return List(list(_itt.dropwhile(lambda v: _pred(it, f, v), it.iterate(x))))


@ext("itertools.filterfalse", "f x")
def _filterfalse(it, f, x):
    return List([v for v in it.iterate(x) if not _pred(it, f, v)])


@ext("itertools.compress", "x sel")
def _compress(it, x, sel):
    return List([v for v, s in zip(it.iterate(x), it.iterate(sel)) if _pred(it, None, s)])


E("itertools.tee", lambda it, x, n: (lambda xs: tuple(IterV(list(xs)) for _ in range(L.conc_int(it, n))))(it.iterate(x)), "x n=2")
E("itertools.batched", lambda it, x, n: (lambda xs, n: List([tuple(xs[i : i + n]) for i in range(0, len(xs), n)]))(it.iterate(x), L.conc_int(it, n)), "x n")


@ext("itertools.groupby", "x key=None")
def _groupby(it, x, key):
    out, last = [], None
    for v in it.iterate(x):
        g = v if key is None else it.call(key, [v])
        same = out and it.eq(g, last)
        if same not in (True, False, []):
            U("groupby on a symbolic key")
        if out and same is True:
            out[-1][1].items.append(v)
        else:
            out.append((g, List([v])))
        last = g
    return List(out)


E("itertools.starmap", lambda it, a, k: List([it.call(a[0], it.iterate(t)) for t in it.iterate(a[1])]))
E("itertools.zip_longest", lambda it, a, k: List([tuple(t) for t in _itt.zip_longest(*[it.iterate(x) for x in a], fillvalue=k.get("fillvalue"))]))
E("itertools.pairwise", lambda it, a, k: List(list(zip(it.iterate(a[0]), it.iterate(a[0])[1:]))))


@ext("itertools.accumulate")
def _acc(it, a, k):
    xs, out = it.iterate(a[0]), []
    for x in xs:
        out.append(x if not out else (it.call(a[1], [out[-1], x]) if len(a) > 1 else it.binop("Add", out[-1], x)))
    return List(out)


for _n, _op in {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "floordiv": "FloorDiv", "mod": "Mod", "pow": "Pow", "matmul": "MatMult", "and_": "BitAnd", "or_": "BitOr"}.items():
    E("operator." + _n, (lambda op: lambda it, a, k: it.binop(op, a[0], a[1]))(_op))
for _n, _op in {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}.items():
    E("operator." + _n, (lambda op: lambda it, a, k: it.compare(op, a[0], a[1]))(_op))
E("operator.neg", lambda it, a, k: L.unop(it, "USub", a[0]))
E("operator.itemgetter", lambda it, a, k: ExtFn("ig", lambda it, b, kk: it.getitem(b[0], a[0]) if len(a) == 1 else tuple(it.getitem(b[0], i) for i in a)))


def _attrpath(it, o, path):
    for n in path.split("."):
        o = it.getattr(o, n)
    return o


E("operator.attrgetter", lambda it, a, k: ExtFn("ag", lambda it, b, kk: _attrpath(it, b[0], a[0]) if len(a) == 1 else tuple(_attrpath(it, b[0], n) for n in a)))


# ---------------------------------------------------------------------------------------
# Python containers and strings


def seq_attr(it, o, name):
    def m(f):
        return ExtFn("list." + name, f)

    xs = o if isinstance(o, tuple) else o.items
    if name == "index":
        def index(it, a, k):
            for j, x in enumerate(xs):
                r = it.eq(x, a[0])
                if r is True:
                    return j
                if r is not False:
                    U("index with a symbolic match")
            R("ValueError", "not in list")
        return m(index)
    if name == "count":
        return m(lambda it, a, k: sum(1 for x in xs if it.eq(x, a[0]) is True))
    if isinstance(o, tuple):
        if name == "numel":
            return m(lambda it, a, k: unN(nd(A.prod_dims(o))))
        return MISSING
    if name == "append":
        return m(lambda it, a, k: L.list_append(it, o, a[0]))
    if name == "extend":
        return m(lambda it, a, k: L.list_extend(it, o, a[0]))
    if name == "copy":
        return m(lambda it, a, k: _copy(it, o))
    if name in ("__next__",):
        return m(lambda it, a, k: _next(it, [o], {}))
    if name == "clear":
        def clear(it, a, k):
            it.note(o, None)
            o.items, o.sym = [], None
        return m(clear)
    if o.sym is not None:
        U("method %s of a symbolic list" % name)
    if name == "pop":
        def pop(it, a, k):
            it.note(o, None)
            if not o.items:
                R("IndexError", "pop from empty list")
            return o.items.pop(*[L.conc_int(it, x) for x in a])
        return m(pop)
    if name == "insert":
        def insert(it, a, k):
            it.note(o, None)
            o.items.insert(L.conc_int(it, a[0]), a[1])
        return m(insert)
    if name == "popleft":
        return m(lambda it, a, k: it.call(seq_attr(it, o, "pop"), [0], {}))
    if name == "appendleft":
        return m(lambda it, a, k: it.call(seq_attr(it, o, "insert"), [0, a[0]], {}))
    if name == "remove":
        def remove(it, a, k):
            it.note(o, None)
            for j, x in enumerate(o.items):
                if it.eq(x, a[0]) is True:
                    del o.items[j]
                    return
            R("ValueError", "list.remove(x): x not in list")
        return m(remove)
    if name == "reverse":
        def rev(it, a, k):
            it.note(o, None)
            o.items.reverse()
        return m(rev)
    if name == "sort":
        def srt(it, a, k):
            it.note(o, None)
            o.items = _sorted(it, [o], k).items
        return m(srt)
    return MISSING


def dict_attr(it, o, name):
    def m(f):
        return ExtFn("dict." + name, f)

    if name == "get":
        def get(it, a, k):
            key = it.key(a[0])
            v = o.d.get(key, MISSING)
            d = a[1] if len(a) > 1 else k.get("default")
            if v is MISSING:
                if isinstance(key, Node) and not (N.is_const(key) and not any(isinstance(x, Node) for x in o.d)):
                    U("dict.get with a symbolic key")
                return d
            v = it.resolve(v)
            if isinstance(v, Choice) and (v.a is MISSING or v.b is MISSING):
                return it.merge(v.cond, d if v.a is MISSING else v.a, d if v.b is MISSING else v.b)
            return v
        return m(get)
    if name == "keys":
        return m(lambda it, a, k: List(o.d.keys()))
    if name == "values":
        return m(lambda it, a, k: List(o.d.values()))
    if name == "items":
        return m(lambda it, a, k: List([(x, v) for x, v in o.d.items()]))
    if name == "copy":
        return m(lambda it, a, k: Dict(o.d))
    if name == "update":
        def upd(it, a, k):
            it.note(o, None)
            if a:
                o.d.update(_dict(it, a, {}).d)
            o.d.update(k)
        return m(upd)
    if name == "pop":
        def pop(it, a, k):
            key = it.key(a[0])
            it.note(o, None)
            if key in o.d:
                return o.d.pop(key)
            if len(a) > 1:
                return a[1]
            R("KeyError", str(key))
        return m(pop)
    if name == "setdefault":
        def sd(it, a, k):
            key = it.key(a[0])
            if key not in o.d:
                it.note(o, None)
                o.d[key] = a[1] if len(a) > 1 else None
            return o.d[key]
        return m(sd)
    if name == "clear":
        def clear(it, a, k):
            it.note(o, None)
            o.d.clear()
        return m(clear)
    return MISSING


STRM = {"lower", "upper", "strip", "split", "replace", "startswith", "endswith", "format", "join", "title", "capitalize", "lstrip", "rstrip", "find", "isdigit", "count", "zfill", "ljust", "rjust", "center", "casefold", "removesuffix", "removeprefix", "encode", "index", "rsplit", "partition", "rpartition", "isidentifier", "isalpha"}


def str_attr(it, o, name):
    def m(it, a, k):
        a = [it.resolve(x) for x in a]
        if name == "join":
            xs = it.iterate(a[0])
            if all(isinstance(x, str) for x in xs):
                return o.join(xs)
            return FStr([StrHole(a[0])])
        if name == "format":
            if not isinstance(o, str):
                return FStr([o] + [StrHole(x) for x in a])
            parts, nxt = [], 0
            for lit, fld, spec, conv in string.Formatter().parse(o):
                parts.append(lit)
                if fld is None:
                    continue
                if fld == "" or fld.isdigit():
                    i, nxt = (nxt, nxt + 1) if fld == "" else (int(fld), nxt)
                    if i >= len(a):
                        raise AbsRaise("IndexError", "Replacement index %d out of range for positional args tuple" % i, it.where())
                    v = a[i]
                elif fld.isidentifier():
                    if fld not in k:
                        raise AbsRaise("KeyError", fld, it.where())
                    v = it.resolve(k[fld])
                else:
                    v = Opaque("format field " + fld)
                parts.append(it.fmt_one(v, spec or None) if "{" not in (spec or "") else StrHole(v))
            return "".join(parts) if all(isinstance(x, str) for x in parts) else FStr(parts)
        if name == "encode":
            return o
        if isinstance(o, str) and all(isinstance(x, (str, int, tuple)) or x is None for x in a):
            r = getattr(o, name)(*a)
            if isinstance(r, list):
                return List(r)
            return r
        if name in ("startswith", "endswith", "isdigit"):
            return N.sym(it.fresh("str"), "bool")
        return FStr([StrHole(o)])

    if name in STRM:
        return ExtFn("str." + name, m)
    return MISSING


def set_attr(it, o, name):
    if name in ("add", "discard", "remove"):
        def f(it, a, k):
            it.note(o, None)
            key = it.key(a[0])
            if name == "add":
                if key not in o.items:
                    o.items.append(key)
            elif key in o.items:
                o.items.remove(key)
        return ExtFn(name, f)
    ops = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub"}
    if name in ops:
        return ExtFn(name, lambda it, a, k: binop(it, ops[name], o, SetV(it.iterate(a[0]))))
    if name == "issubset":
        return ExtFn(name, lambda it, a, k: all(x in it.iterate(a[0]) for x in o.items))
    return MISSING
