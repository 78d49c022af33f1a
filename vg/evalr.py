"""Random interpretation of value graphs.

Value numbers are compared in the style of Gulwani and Necula's random interpretation: two
value graphs are assigned numbers under the same random valuation of their free symbols
(sizes, indices, physical parameters, opaque inputs); equal graphs always get equal numbers,
different ones differ with probability close to one.  What is evaluated here is the analyser's
own algebra over graph nodes; the analysed program is never imported or executed.
"""
import cmath
import hashlib
import math
import random
import time
from fractions import Fraction

from . import node as N

NAN = float("nan")
INF = float("inf")


class Unmodelled(Exception):
    """The analysis met a construct it has no transfer function for."""


class Reject(Exception):
    """The valuation is outside the assumed domain."""


def h64(*parts):
    d = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return int.from_bytes(d, "big")


def hunit(*parts):
    return h64(*parts) / 2.0**64


def norm_num(v):
    """Discrete representative of a number when it is (nearly) an integer."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return v.numerator if v.denominator == 1 else v
    if isinstance(v, float):
        if v == v and abs(v) < 1e12 and abs(v - round(v)) < 1e-9:
            return int(round(v))
        return v
    if isinstance(v, complex):
        if abs(v.imag) < 1e-12 * max(1.0, abs(v.real)):
            return norm_num(v.real)
        return v
    return v


def tofloat(v):
    if isinstance(v, (bool, int)):
        try:
            return float(v)
        except OverflowError:
            return INF if v > 0 else -INF
    if isinstance(v, Fraction):
        try:
            return v.numerator / v.denominator
        except OverflowError:
            return INF if v > 0 else -INF
    return v


def exact(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool)


def _b2i(v):
    return int(v) if isinstance(v, bool) else v


def n_add(a, b):
    a, b = _b2i(a), _b2i(b)
    if exact(a) and exact(b):
        return _trim(a + b)
    a, b = tofloat(a), tofloat(b)
    try:
        return a + b
    except OverflowError:
        return INF


def n_mul(a, b):
    a, b = _b2i(a), _b2i(b)
    if exact(a) and exact(b):
        return _trim(a * b)
    a, b = tofloat(a), tofloat(b)
    try:
        return a * b
    except OverflowError:
        return INF


def _trim(v):
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return v.numerator
        if v.denominator.bit_length() > 400 or v.numerator.bit_length() > 400:
            return tofloat(v)
    return v


def n_pow(a, b):
    a, b = _b2i(a), _b2i(b)
    if isinstance(b, Fraction) and b.denominator == 1:
        b = b.numerator
    if exact(a) and isinstance(b, int) and abs(b) <= 256:
        if a == 0 and b < 0:
            return INF
        if b < 0:
            return _trim(Fraction(1) / (Fraction(a) ** (-b)))
        return _trim(a**b)
    if exact(b) and b == Fraction(1, 2) and exact(a) and a >= 0:
        f = Fraction(a)
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return _trim(Fraction(n, d))
    bi = b
    a, b = tofloat(a), tofloat(b)
    if isinstance(a, complex) or isinstance(b, complex):
        if a == 0:
            return 0.0 if tofloat(b).real > 0 else complex(NAN, NAN)
        try:
            if isinstance(bi, int):
                return a**bi
            return a**b
        except (OverflowError, ZeroDivisionError):
            return complex(NAN, NAN)
    if a != a or b != b:
        return 1.0 if b == 0 else NAN
    try:
        if a == 0.0:
            if b < 0:
                return INF
            return 1.0 if b == 0 else 0.0
        if a < 0 and b != int(b) if abs(b) < 1e15 else False:
            return NAN
        r = a**b
        return r if not isinstance(r, complex) else NAN
    except (OverflowError, ValueError):
        if abs(a) == INF or b == INF or b == -INF:
            return NAN
        return INF


def n_div(a, b):
    a, b = _b2i(a), _b2i(b)
    if exact(a) and exact(b):
        if b == 0:
            return NAN if a == 0 else (INF if a > 0 else -INF)
        return _trim(Fraction(a) / Fraction(b))
    a, b = tofloat(a), tofloat(b)
    if b == 0:
        if isinstance(a, complex) or isinstance(b, complex):
            return complex(NAN, NAN)
        return NAN if (a == 0 or a != a) else (INF if a > 0 else -INF)
    return a / b


EPS = 1e-9


def n_eq(a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return type(a) == type(b) and a == b
    if isinstance(a, tuple) or isinstance(b, tuple):
        return a == b
    a, b = _b2i(a), _b2i(b)
    if exact(a) and exact(b):
        return a == b
    a, b = tofloat(a), tofloat(b)
    if a != a or b != b:
        return False
    if a == b:
        return True
    m = max(abs(a), abs(b))
    if m == INF:
        return False
    return abs(a - b) <= 1e-11 * m


def n_lt(a, b):
    a, b = _b2i(a), _b2i(b)
    if isinstance(a, str) and isinstance(b, str):
        return a < b
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        raise Reject("ordering of non-numbers")
    if exact(a) and exact(b):
        return a < b
    a, b = tofloat(a), tofloat(b)
    if isinstance(a, complex):
        a = a.real
    if isinstance(b, complex):
        b = b.real
    if n_eq(a, b):
        return False
    return a < b


def n_le(a, b):
    return n_eq(a, b) or n_lt(a, b)


def n_floor(a):
    a = _b2i(a)
    if isinstance(a, int):
        return a
    if isinstance(a, Fraction):
        return a.numerator // a.denominator
    if a != a or abs(a) == INF:
        raise Reject("floor of nan")
    r = round(a)
    if abs(a - r) <= 1e-9 * max(1.0, abs(a)):
        return int(r)
    return math.floor(a)


def n_ceil(a):
    return -n_floor(n_mul(-1, a))


def _real1(f):
    def g(a):
        a = tofloat(_b2i(a))
        if isinstance(a, complex):
            return f[1](a) if f[1] else NAN
        if a != a:
            return NAN
        try:
            return f[0](a)
        except (ValueError, OverflowError):
            return NAN

    return g


def _log(x):
    if x == 0:
        return -INF
    if x < 0:
        return NAN
    return math.log(x) if x != INF else INF


def _exp(x):
    if x == -INF:
        return 0.0
    try:
        return math.exp(x)
    except OverflowError:
        return INF


FN1 = {
    "exp": _real1((_exp, cmath.exp)),
    "log": _real1((_log, cmath.log)),
    "log2": _real1((lambda x: _log(x) / math.log(2), None)),
    "log10": _real1((lambda x: _log(x) / math.log(10), None)),
    "log1p": _real1((lambda x: _log(1 + x), None)),
    "expm1": _real1((lambda x: _exp(x) - 1, None)),
    "sin": _real1((math.sin, cmath.sin)),
    "cos": _real1((math.cos, cmath.cos)),
    "tan": _real1((math.tan, cmath.tan)),
    "tanh": _real1((math.tanh, cmath.tanh)),
    "sinh": _real1((math.sinh, cmath.sinh)),
    "cosh": _real1((math.cosh, cmath.cosh)),
    "arctan": _real1((math.atan, None)),
    "arcsin": _real1((math.asin, None)),
    "arccos": _real1((math.acos, None)),
    "erf": _real1((math.erf, None)),
    "sigmoid": _real1((lambda x: 1 / (1 + _exp(-x)) if x > -700 else 0.0, None)),
    "gamma": _real1((math.gamma, None)),
}

_BIG = 1.7976931348623157e308


def f_abs(a):
    a = _b2i(a)
    return abs(a)


def f_sign(a):
    a = _b2i(a)
    if a != a:
        return NAN
    return (a > 0) - (a < 0)


def f_nan_to_num(a):
    a = _b2i(a)
    if exact(a):
        return a
    if isinstance(a, complex):
        return complex(f_nan_to_num(a.real), f_nan_to_num(a.imag))
    if a != a:
        return 0
    if a == INF:
        return _BIG
    if a == -INF:
        return -_BIG
    return a


def f_real(a):
    return a.real if isinstance(a, complex) else _b2i(a)


def f_imag(a):
    return a.imag if isinstance(a, complex) else 0


def f_conj(a):
    return a.conjugate() if isinstance(a, complex) else _b2i(a)


def f_max(*xs):
    xs = [_b2i(x) for x in xs]
    r = xs[0]
    for x in xs[1:]:
        if x != x or (r == r and n_lt(r, x)):  # undefined values propagate
            r = x
    return r


def f_min(*xs):
    xs = [_b2i(x) for x in xs]
    r = xs[0]
    for x in xs[1:]:
        if x != x or (r == r and n_lt(x, r)):  # undefined values propagate
            r = x
    return r


def f_isnan(a):
    if isinstance(a, complex):
        return a.real != a.real or a.imag != a.imag
    return a != a


def f_isfinite(a):
    a = _b2i(a)
    if exact(a):
        return True
    if isinstance(a, complex):
        return math.isfinite(a.real) and math.isfinite(a.imag)
    return math.isfinite(a)


def f_mod(a, b):
    a, b = _b2i(a), _b2i(b)
    if b == 0:
        return NAN
    if exact(a) and exact(b):
        return _trim(a - b * n_floor(Fraction(a) / Fraction(b)))
    a, b = tofloat(a), tofloat(b)
    return a - b * n_floor(a / b)


def f_floordiv(a, b):
    a, b = _b2i(a), _b2i(b)
    if b == 0:
        return NAN
    if exact(a) and exact(b):
        return n_floor(Fraction(a) / Fraction(b))
    return n_floor(tofloat(a) / tofloat(b))


def f_atan2(a, b):
    a, b = tofloat(_b2i(a)), tofloat(_b2i(b))
    if a != a or b != b:
        return NAN
    return math.atan2(a, b)


def f_hyp2f1(a, b, c, z):
    from scipy.special import hyp2f1

    z = tofloat(z)
    if isinstance(z, complex) or z != z:
        return NAN
    return float(hyp2f1(tofloat(a), tofloat(b), tofloat(c), z))


def f_round(a):
    a = _b2i(a)
    if exact(a):
        return round(Fraction(a))
    return float(round(a)) if math.isfinite(a) else a


def f_trunc(a):
    a = _b2i(a)
    if isinstance(a, complex):
        raise Reject("int of complex")
    if exact(a):
        return math.trunc(Fraction(a))
    if a != a or abs(a) == INF:
        raise Reject("int of nan")
    r = round(a)
    if abs(a - r) <= 1e-9 * max(1.0, abs(a)):
        return int(r)
    return math.trunc(a)


FNN = {
    "abs": f_abs, "sign": f_sign, "nan_to_num": f_nan_to_num, "real": f_real, "imag": f_imag, "conj": f_conj,
    "max": f_max, "min": f_min, "isnan": f_isnan, "isfinite": f_isfinite, "mod": f_mod, "floordiv": f_floordiv,
    "atan2": f_atan2, "floor": n_floor, "ceil": n_ceil, "hyp2f1": f_hyp2f1, "round": f_round, "trunc": f_trunc,
    "complexify": lambda a: a,
    "angle": lambda a: cmath.phase(complex(tofloat(a))),
}


def smooth(salt, name, args):
    """A pseudo-random function of its arguments: integers, strings and booleans are hashed,
    other reals enter smoothly (so that rounding noise stays rounding noise)."""
    disc, cont = [], []
    for a in args:
        a = norm_num(a)
        if isinstance(a, (int, str)) or a is None or isinstance(a, tuple):
            disc.append(a)
            cont.append(None)
        else:
            disc.append("~")
            cont.append(tofloat(a))
    base = hunit(salt, name, tuple(disc))
    if all(c is None for c in cont):
        return base, 0.0
    ph = 0.0
    for i, c in enumerate(cont):
        if c is None:
            continue
        if isinstance(c, complex):
            ph += (1.1 + hunit(salt, name, "a", i)) * c.real + (0.7 + hunit(salt, name, "b", i)) * c.imag
        else:
            if c != c or abs(c) == INF:
                return NAN, 0.0
            ph += (1.1 + 1.3 * hunit(salt, name, "a", i)) * (c if abs(c) < 50 else math.copysign(50 + math.log(abs(c) - 49), c))
    return base, ph


class Valuation:
    def __init__(self, seed, pinned=None, zero_bias=0.3, salt=None, sizes_hi=None):
        self.seed = seed
        self.rng = random.Random(seed)
        self.salt = ("v", seed) if salt is None else salt
        self.syms = {}
        self.memo = {}
        self.pinned = pinned or {}
        self.zero_bias = zero_bias
        self.frozen = None  # another Valuation used under detach nodes
        self.log = []
        self.exact_dft = False
        self.grow = 0  # sizes beyond the small ones used by default
        self.cov = None  # branch conditions: bit 1 = seen false, bit 2 = seen true
        self.roots = {}
        self.deadline = None
        self.narrow = ()
        self.wide = 0.0  # magnitudes of positive and real unknowns spread over 10**(+-wide)

    def fork(self, pinned):
        """The same valuation with other pinned symbols."""
        w = Valuation(self.seed, pinned=pinned, zero_bias=self.zero_bias, salt=self.salt)
        w.wide, w.grow, w.narrow, w.deadline, w.cov = self.wide, self.grow, self.narrow, self.deadline, self.cov
        w.exact_dft = self.exact_dft
        return w

    def widen(self, name):
        return Fraction(int(10 ** (self.wide * (2 * hunit(self.salt, "wide", name) - 1)) * 512) + 1, 512)

    # -- free symbols -------------------------------------------------------------------
    def sym(self, n):
        if n.id in self.syms:
            return self.syms[n.id]
        name, dom, bound = n.attr
        if name in self.pinned:
            v = self.pinned[name]
            if callable(v):
                v = v(self)
        else:
            r = random.Random(h64(self.salt, "sym", name))
            if dom == "real" or dom == "param":
                v = Fraction(r.randint(-180, 180), r.choice([61, 67, 71, 73]))
                if v == 0:
                    v = Fraction(1, 7)
            elif dom == "pos":
                v = Fraction(r.randint(20, 190), r.choice([61, 67, 71, 73]))
                if self.wide and name not in self.narrow:
                    v *= self.widen(name)
            elif dom == "nat":
                lo, hi = bound or (1, 3)
                if self.grow and lo >= 2:
                    hi = hi * (1 + 6 * self.grow)
                elif self.grow and name.startswith("lev"):
                    hi += self.grow
                v = r.randint(lo, hi)
            elif dom == "idx":
                b = self.ev(n.args[0])
                b = norm_num(b)
                if not isinstance(b, int) or b <= 0:
                    raise Reject("empty index range")
                v = 0 if r.random() < self.zero_bias else r.randint(0, b - 1)
            elif dom == "bool":
                v = r.random() < 0.5
            elif dom.startswith("sel:"):
                v = r.choice(dom[4:].split("|"))
            elif dom == "str":
                v = "str:" + name
            else:
                raise Unmodelled("symbol domain " + dom)
        self.syms[n.id] = v
        return v

    # -- evaluation ---------------------------------------------------------------------
    def ev(self, n, env=None):
        if env is None:
            env = {}
            if self.cov is not None:
                self.roots[n.id] = n
        b = n.bound
        key = (n.id,) if not b else (n.id,) + tuple(env[i] for i in sorted(b))
        memo = self.memo
        if key in memo:
            return memo[key]
        r = self._ev(n, env)
        memo[key] = r
        return r

    def _ev(self, n, env):
        op = n.op
        if op == "c":
            v = n.attr
            return v.numerator if v.denominator == 1 else v
        if op == "sym":
            return self.sym(n)
        if op == "bvar":
            return env[n.id]
        if op == "add":
            r = 0
            for a in n.args:
                r = n_add(r, self.ev(a, env))
            return r
        if op == "mul":
            # 0 * finite stays exact zero; inf/nan propagate
            r = 1
            num, den = 1, 1
            vals = []
            for a in n.args:
                if a.op == "pow" and N.is_const(a.args[1]) and a.args[1].attr < 0:
                    base = self.ev(a.args[0], env)
                    d = n_pow(base, -a.args[1].attr)
                    if d == 0 or (isinstance(d, float) and abs(d) == INF):
                        vals.append(n_div(1, d) if d != 0 else ("z", d))
                        continue
                vals.append(self.ev(a, env))
            zero_div = False
            for v in vals:
                if isinstance(v, tuple):
                    zero_div = True
                else:
                    r = n_mul(r, v)
            if zero_div:
                return n_div(tofloat(r), 0.0)
            return r
        if op == "pow":
            a, b = self.ev(n.args[0], env), self.ev(n.args[1], env)
            if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
                raise Reject("power of non-number")
            return n_pow(a, b)
        if op == "fn":
            return self.fn(n, env)
        if op == "ite":
            t = self.truth(n.args[0], env)
            if self.cov is not None:
                i = n.args[0].id
                self.cov[i] = self.cov.get(i, 0) | (2 if t else 1)
            return self.ev(n.args[1] if t else n.args[2], env)
        if op == "not":
            return not self.truth(n.args[0], env)
        if op == "and":
            for a in n.args:
                if not self.truth(a, env):
                    return False
            return True
        if op == "eq":
            return n_eq(self.ev(n.args[0], env), self.ev(n.args[1], env))
        if op == "lt":
            return n_lt(self.ev(n.args[0], env), self.ev(n.args[1], env))
        if op == "le":
            return n_le(self.ev(n.args[0], env), self.ev(n.args[1], env))
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "pi":
            return math.pi
        if op == "I":
            return 1j
        if op == "nan":
            return NAN
        if op == "inf":
            return INF
        if op == "none":
            return None
        if op == "str":
            return n.attr
        if op == "app":
            return self.app(n, env)
        if op == "reduce":
            return self.reduce(n, env)
        if op == "detach":
            if self.frozen is not None:
                return self.frozen.ev(n.args[0], env)
            return self.ev(n.args[0], env)
        raise Unmodelled("node op " + op)

    def truth(self, n, env):
        v = self.ev(n, env)
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        if v is None:
            return False
        return bool(v)

    def fn(self, n, env):
        name = n.attr
        vals = [self.ev(a, env) for a in n.args]
        if any(isinstance(v, (str, type(None))) for v in vals):
            raise Reject("numeric function %s of a non-number" % name)
        f = FN1.get(name)
        if f is not None:
            return f(vals[0])
        f = FNN.get(name)
        if f is None:
            raise Unmodelled("function " + str(name))
        try:
            return f(*vals)
        except OverflowError:
            return INF

    def app(self, n, env):
        name = n.attr
        if name.startswith("O:"):
            raise Unmodelled("value of unmodelled operation " + name[2:])
        vals = [self.ev(a, env) for a in n.args]
        u, ph = smooth(self.salt, name, vals)
        if u != u:
            return NAN
        k = name[:2]
        if name == "rnd_uniform":
            return u
        if k == "P:":  # positive
            return 0.3 + 1.4 * (0.5 * u + 0.5 * (0.5 + 0.5 * math.sin(ph + 6.28 * u)) if ph else u)
        if k == "M:":  # strictly increasing positive sequence in its last (index) argument
            i = norm_num(vals[-1])
            if not isinstance(i, int):
                raise Unmodelled("monotone sequence at a non-integer index")
            return Fraction(1, 5) + Fraction(37, 100) * i + Fraction(int(200 * u), 1000)
        if k == "N:":  # positive integer
            return 1 + int(u * 3)
        if k == "B:":
            return (u + (math.sin(ph) if ph else 0)) > 0.5
        if k == "T:":  # opaque token (exact, hashed)
            return ("tok", h64(self.salt, name, tuple(str(norm_num(v)) for v in vals)))
        if k == "C:":  # complex
            u2, _ = smooth(self.salt, name + "'", vals)
            return complex(2 * u - 1 + 0.3 * math.sin(ph), 2 * u2 - 1 + 0.3 * math.cos(ph))
        return 2.6 * u - 1.3 + (math.sin(ph + 6.28 * u) if ph else 0.0)

    # -- reductions ---------------------------------------------------------------------
    def _size(self, node, env):
        s = norm_num(self.ev(node, env))
        if not isinstance(s, int):
            raise Reject("non-integer size")
        return max(s, 0)

    def reduce(self, n, env):
        kind = n.attr
        if self.deadline is not None and time.time() > self.deadline:
            raise Reject("evaluation budget")
        b, size, body = n.args[:3]
        extra = n.args[3:]
        if kind == "quad":
            return self.quad(b, body, self.ev(extra[0], env), self.ev(extra[1], env), env)
        s = self._size(size, env)

        def at(i, node=body):
            e = dict(env)
            e[b.id] = i
            return self.ev(node, e)

        if kind in ("fft", "ifft", "irfft", "dst", "dct"):
            if s == 0:
                raise Reject("empty transform")
            k = norm_num(self.ev(extra[0], env))
            more = tuple(norm_num(self.ev(x, env)) for x in extra[1:])
            if kind in ("fft", "ifft"):
                k = k % s
            if self.exact_dft:
                return self.dft(kind, s, k, more, at)
            pts = sorted({h64(self.salt, "pt", s, m) % s for m in range(2)})
            r = 0
            for p in pts:
                w = complex(2 * hunit(self.salt, "w", kind, s, k, p, more) - 1, 2 * hunit(self.salt, "w'", kind, s, k, p, more) - 1)
                v = at(p)
                if kind == "irfft":
                    v = complex(tofloat(v))
                    r = n_add(r, (v * w).real)
                elif kind in ("dst", "dct"):
                    r = n_add(r, n_mul(w.real, v))
                else:
                    r = n_add(r, n_mul(w, v))
            return r
        if kind == "sum":
            if s > 4000:
                raise Reject("too large")
            r = 0
            for i in range(s):
                r = n_add(r, at(i))
            return r
        if kind == "prod":
            r = 1
            for i in range(s):
                r = n_mul(r, at(i))
            return r
        if kind in ("max", "min"):
            if s == 0:
                raise Reject("empty max")
            vs = [at(i) for i in range(s)]
            if any(isinstance(v, float) and v != v for v in vs):
                return NAN
            return (f_max if kind == "max" else f_min)(*vs)
        if kind == "any":
            return any(self._t(at(i)) for i in range(s))
        if kind == "all":
            return all(self._t(at(i)) for i in range(s))
        if kind == "nth":  # index of the i-th true element
            want = norm_num(self.ev(extra[0], env))
            c = 0
            for i in range(s):
                if self._t(at(i)):
                    if c == want:
                        return i
                    c += 1
            raise Reject("nth out of range")
        if kind in ("kth", "ukth", "argkth", "ucount"):
            vals = [at(i) for i in range(s)]
            if any(isinstance(v, complex) for v in vals):
                raise Reject("sort of complex")
            order = sorted(range(s), key=lambda i: tofloat(_b2i(vals[i])))
            if kind == "ucount" or kind == "ukth":
                u = []
                for i in order:
                    if not u or not n_eq(u[-1], vals[i]):
                        u.append(vals[i])
                if kind == "ucount":
                    return len(u)
                w = norm_num(self.ev(extra[0], env))
                if w >= len(u):
                    raise Reject("unique index")
                return u[w]
            w = norm_num(self.ev(extra[0], env))
            if w >= s:
                raise Reject("sort index")
            return order[w] if kind == "argkth" else vals[order[w]]
        if kind == "argmax" or kind == "argmin":
            vals = [at(i) for i in range(s)]
            best = 0
            for i in range(1, s):
                if (n_lt(vals[best], vals[i]) if kind == "argmax" else n_lt(vals[i], vals[best])):
                    best = i
            return best
        if kind == "fp":  # fingerprint of a whole array
            r = 0.0
            for i in range(min(s, 200)):
                v = at(i)
                w = 0.3 + hunit("fp", i)
                if isinstance(v, (str, tuple)) or v is None:
                    r += w * hunit("fps", i, v)
                    continue
                v = tofloat(_b2i(v))
                if isinstance(v, complex):
                    v = v.real + 0.7 * v.imag
                if v != v or abs(v) == INF:
                    v = 0.123
                r += w * math.sin(1.3 * v + i) if abs(v) < 1e6 else w
            return r + 0.01 * s
        raise Unmodelled("reduction " + str(kind))

    def dft(self, kind, s, k, more, at):
        """The defining sum of the transform."""
        if s > 64:
            raise Reject("transform too long")
        vs = [complex(tofloat(at(p))) for p in range(s)]
        if kind in ("fft", "ifft"):
            sg = -1 if kind == "fft" else 1
            r = sum(v * cmath.exp(sg * 2j * math.pi * k * p / s) for p, v in enumerate(vs))
            return r if kind == "fft" else r / s
        if kind == "irfft":
            n = more[0]
            if s != n // 2 + 1:
                raise Reject("half-complex length")
            r = vs[0].real
            for p in range(1, s):
                w = 1.0 if 2 * p == n else 2.0
                z = vs[p] * cmath.exp(2j * math.pi * k * p / n)
                r += vs[p].real * math.cos(math.pi * k) if 2 * p == n else w * z.real
            return r / n
        t = more[0] if more else 2
        pi = math.pi
        cplx = any(v.imag for v in vs)
        x = vs
        n = s
        if kind == "dst":
            f = {
                1: lambda: 2 * sum(x[m] * math.sin(pi * (k + 1) * (m + 1) / (n + 1)) for m in range(n)),
                2: lambda: 2 * sum(x[m] * math.sin(pi * (k + 1) * (2 * m + 1) / (2 * n)) for m in range(n)),
                3: lambda: (-1) ** k * x[n - 1] + 2 * sum(x[m] * math.sin(pi * (2 * k + 1) * (m + 1) / (2 * n)) for m in range(n - 1)),
                4: lambda: 2 * sum(x[m] * math.sin(pi * (2 * k + 1) * (2 * m + 1) / (4 * n)) for m in range(n)),
            }
        else:
            f = {
                1: lambda: x[0] + (-1) ** k * x[n - 1] + 2 * sum(x[m] * math.cos(pi * k * m / (n - 1)) for m in range(1, n - 1)),
                2: lambda: 2 * sum(x[m] * math.cos(pi * k * (2 * m + 1) / (2 * n)) for m in range(n)),
                3: lambda: x[0] + 2 * sum(x[m] * math.cos(pi * (2 * k + 1) * m / (2 * n)) for m in range(1, n)),
                4: lambda: 2 * sum(x[m] * math.cos(pi * (2 * k + 1) * (2 * m + 1) / (4 * n)) for m in range(n)),
            }
        if t not in f:
            raise Unmodelled("transform type %r" % (t,))
        r = f[t]()
        return r if cplx else r.real

    @staticmethod
    def _t(v):
        if isinstance(v, float) and v != v:
            return True
        return bool(v)

    def quad(self, b, body, lo, hi, env):
        lo, hi = tofloat(lo), tofloat(hi)

        def f(x):
            e = dict(env)
            e[b.id] = x
            return tofloat(_b2i(self.ev(body, e)))

        if lo == hi:
            return 0.0
        if lo > hi:
            return -self.quad(b, body, hi, lo, env)
        import numpy as np

        xs, ws = _gl(24)
        pans = []
        if hi == INF and lo == -INF:
            return self.quad(b, body, -INF, 0.0, env) + self.quad(b, body, 0.0, INF, env)
        if hi == INF or lo == -INF:
            # graded over decades away from the finite end: x = org + exp(s)
            tot = 0.0
            sgn = 1.0 if hi == INF else -1.0
            org = lo if hi == INF else hi
            ten = math.log(10.0)
            pans = [(-18.0, -9.0)] + [(d / 2, (d + 1) / 2) for d in range(-18, 10)] + [(float(d), d + 1.0) for d in range(5, 12)]
            xs, ws = _gl(12)
            for a, c in pans:
                a, c = a * ten, c * ten
                for x, w in zip(xs, ws):
                    t = math.exp(0.5 * (c - a) * x + 0.5 * (a + c))
                    v = f(org + sgn * t)
                    if isinstance(v, complex):
                        v = v.real
                    if v == v and abs(v) != INF:
                        tot += 0.5 * (c - a) * w * v * t
            return tot
        mid = [lo] + ([0.0] if lo < 0 < hi else []) + [hi]
        for a0, c0 in zip(mid, mid[1:]):
            # graded towards zero end if present
            k = 24 if a0 == 0.0 or c0 == 0.0 else 10
            if a0 == 0.0:
                pans += [(c0 * (0.5**(k - i)) if i else 0.0, c0 * (0.5 ** (k - i - 1))) for i in range(k)]
            elif c0 == 0.0:
                pans += [(a0 * (0.5 ** (k - i - 1)), a0 * (0.5**(k - i)) if i else 0.0) for i in range(k)]
            else:
                pans += [(a0 + (c0 - a0) * i / k, a0 + (c0 - a0) * (i + 1) / k) for i in range(k)]
        tot = 0.0
        top = max(max(abs(a), abs(c)) for a, c in pans) / 50
        for a, c in pans:
            xs, ws = _gl(24 if max(abs(a), abs(c)) > top else 10)
            for x, w in zip(xs, ws):
                t = 0.5 * (c - a) * x + 0.5 * (a + c)
                v = f(t)
                if isinstance(v, complex):
                    v = v.real
                if v == v and abs(v) != INF:
                    tot += 0.5 * abs(c - a) * w * v
        return tot


_glc = {}


def _gl(n):
    if n not in _glc:
        import numpy as np

        x, w = np.polynomial.legendre.leggauss(n)
        _glc[n] = ([float(v) for v in x], [float(v) for v in w])
    return _glc[n]


def close(a, b, tol=1e-7, scale=0.0):
    """Do two evaluated values agree (NaN agrees with NaN, inf with inf)?"""
    if isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)) or a is None or b is None:
        return type(a) is type(b) and a == b
    a, b = _b2i(a), _b2i(b)
    if exact(a) and exact(b):
        return a == b
    a, b = complex(tofloat(a)), complex(tofloat(b))
    for x, y in ((a.real, b.real), (a.imag, b.imag)):
        if (x != x) != (y != y):
            return False
        if x != x:
            continue
        if abs(x) == INF or abs(y) == INF:
            if x != y:
                return False
            continue
        m = max(abs(a) if math.isfinite(abs(a)) else 0, abs(b) if math.isfinite(abs(b)) else 0, scale)
        if abs(x - y) > tol * m + 1e-300:
            return False
    return True
