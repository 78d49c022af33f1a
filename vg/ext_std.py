"""Library descriptions, part 7: the rest of the standard library that numerical Python code is written with."""
from . import ext as X
from .interp import ctx_factory
from .ext import *  # noqa: F401,F403
from .ext import EXT, E, ext, L, N, U, R, List, Dict, Class, ExtType, ExtFn, NT, CtxV, Obj, Opaque, MISSING, Func, binop, fn, add, mul, div, power, nd, unN, BUILTINS

NTBASE = ExtType("typing.NamedTuple", lambda it, a, k: named(it, a[0], [(it.iterate(f)[0]) for f in it.iterate(a[1])]))
EXT["typing.NamedTuple"] = NTBASE


def named(it, name, fields, defaults=()):
    c = Class(name, [NTBASE], None)
    d = [MISSING] * (len(fields) - len(defaults)) + list(defaults)
    c.dataclass = ([(f, v, MISSING, False, True, False) for f, v in zip(fields, d)], {})
    return c


def nt_fields(o):
    return [f[0] for f in next(x for x in o.cls.mro() if isinstance(x, Class) and x.dataclass).dataclass[0]]


def nt_attr(it, o, name):
    names = nt_fields(o)
    if name == "_fields":
        return tuple(names)
    if name == "_asdict":
        return ExtFn("_asdict", lambda it, a, k: Dict(dict(zip(names, o))))
    if name == "_replace":
        def rep(it, a, k):
            for n in k:
                if n not in names:
                    R("ValueError", "unexpected field %s" % n)
            return NT.make(o.cls, [k.get(n, v) for n, v in zip(names, o)])
        return ExtFn("_replace", rep)
    return MISSING


@ext("collections.namedtuple")
def _namedtuple(it, a, k):
    f = it.resolve(a[1] if len(a) > 1 else k["field_names"])
    f = f.replace(",", " ").split() if isinstance(f, str) else it.iterate(f)
    d = k.get("defaults")
    return named(it, a[0], f, () if d is None else it.iterate(d))


E("contextlib.suppress", lambda it, a, k: CtxV("suppress", None, list(a), {}))
E("contextlib.nullcontext", lambda it, a, k: CtxV("null", None, list(a) or list(k.values()), {}))
E("contextlib.contextmanager", lambda it, a, k: ctx_factory(a[0]))
E("typing.cast", lambda it, t, x: x, "typ val")
EXT["os.sep"] = "/"

SNS = Class("SimpleNamespace", [], None)


@ext("types.SimpleNamespace")
def _sns(it, a, k):
    o = Obj(SNS)
    o.attrs.update(k)
    return o


class DefaultDict(Dict):
    factory = None


@ext("collections.defaultdict")
def _defaultdict(it, a, k):
    r = DefaultDict()
    r.factory = a[0] if a else None
    if len(a) > 1 or k:
        r.d.update(it.call(BUILTINS["dict"], list(a[1:]), k).d)
    return r


@ext("collections.deque")
def _deque(it, a, k):
    if len(a) > 1 or k.get("maxlen") is not None:
        U("deque with maxlen")
    return List(it.iterate(a[0]) if a else [])


@ext("collections.Counter")
def _counter(it, a, k):
    U("Counter")


@ext("collections.ChainMap")
def _chainmap(it, a, k):
    d = {}
    for m in reversed(a):
        d.update(it.resolve(m).d)
    return Dict(d)


E("operator.methodcaller", lambda it, a, k: ExtFn("mc", lambda it, b, kk: it.call(it.getattr(b[0], a[0]), list(a[1:]), k)))
E("operator.getitem", lambda it, a, b: it.getitem(a, b), "a b")
E("operator.contains", lambda it, a, b: it.contains(a, b), "a b")
E("operator.not_", lambda it, a: it.call(BUILTINS["bool"], [a], {}) is False if isinstance(it.truth(a), bool) else U("not of a symbolic value"), "a")
E("operator.abs", lambda it, a: X.absv(it, a), "a")
for _n in ("add", "sub", "mul", "truediv", "pow"):
    if "operator.i" + _n not in EXT:
        E("operator.i" + _n, (lambda n: lambda it, a, k: it.call(EXT["operator." + n], a, k) if not isinstance(a[0], (L.Arr, List)) else U("in-place operator"))(_n))

# numbers
_S = L.scal
E("math.cbrt", lambda it, x: it.call(EXT["numpy.cbrt"], [_S(it, x)], {}), "x")
E("math.exp2", lambda it, x: power(N.const(2), _S(it, x)), "x")
E("math.log1p", lambda it, x: fn("log", add(1, _S(it, x))), "x")
E("math.expm1", lambda it, x: add(fn("exp", _S(it, x)), -1), "x")
E("math.dist", lambda it, p, q: N.sqrt(add(*[power(add(_S(it, x), mul(-1, _S(it, y))), 2) for x, y in zip(it.iterate(p), it.iterate(q))])), "p q")
E("math.sumprod", lambda it, p, q: add(*[mul(_S(it, x), _S(it, y)) for x, y in zip(it.iterate(p), it.iterate(q))]), "p q")
E("math.copysign", lambda it, a, k: it.call(EXT["numpy.copysign"], [_S(it, v) for v in a], {}))


def _mean(it, x):
    xs = it.iterate(x)
    if not xs:
        R("StatisticsError", "no data")
    return div(nd(it.call(BUILTINS["sum"], [List(xs)], {})), len(xs))


def _var(it, x, mu, ddof):
    xs = it.iterate(x)
    if len(xs) <= ddof:
        R("StatisticsError", "not enough data")
    m = _mean(it, List(xs)) if mu is None else _S(it, mu)
    return div(add(*[power(add(_S(it, v), mul(-1, m)), 2) for v in xs]), len(xs) - ddof)


E("statistics.mean", _mean, "data")
E("statistics.fmean", _mean, "data")
E("statistics.pvariance", lambda it, x, mu: _var(it, x, mu, 0), "data mu=None")
E("statistics.variance", lambda it, x, mu: _var(it, x, mu, 1), "data xbar=None")
E("statistics.pstdev", lambda it, x, mu: N.sqrt(_var(it, x, mu, 0)), "data mu=None")
E("statistics.stdev", lambda it, x, mu: N.sqrt(_var(it, x, mu, 1)), "data xbar=None")
E("statistics.median", lambda it, x: it.call(EXT["numpy.median"], [it.call(EXT["numpy.array"], [List(it.iterate(x))], {})], {}), "data")
L.EXC_PARENT.setdefault("StatisticsError", "ValueError")
L.NTBASE, L.nt_fields, L.nt_attr = NTBASE, nt_fields, nt_attr
