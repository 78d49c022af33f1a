"""Hash-consed value-graph nodes.

A node is a scalar value number: an operator applied to value numbers.  Arrays are
functions from index nodes to nodes (see arr.py), so one node describes the generic
element of an array of every size at once.  Nothing here comes from running the analysed
code: nodes are built by the abstract interpreter from the source text.
"""
from fractions import Fraction
import itertools

_table = {}
_ctr = itertools.count()


class Node:
    __slots__ = ("op", "args", "attr", "id", "bound", "_hash")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("symbolic truth value used as a Python bool: %s" % show(self))

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o


def mk(op, args=(), attr=None):
    args = tuple(args)
    key = (op, tuple(a.id for a in args), attr)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.attr = op, args, attr
        n.id = next(_ctr)
        n._hash = n.id
        b = set()
        for a in args:
            b |= a.bound
        if op == "bvar":
            b = {n.id}
        elif op == "reduce":
            # args: binder, size, body, *extra ; binder is bound in body and extra
            b.discard(args[0].id)
        n.bound = frozenset(b)
        _table[key] = n
    return n


def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, float):
        if v != v:
            return NAN
        if v in (float("inf"), float("-inf")):
            return INF if v > 0 else neg(INF)
        v = Fraction(repr(v))
    return mk("c", (), Fraction(v))


TRUE = mk("true")
FALSE = mk("false")
NAN = mk("nan")
INF = mk("inf")
PI = mk("pi")
I = mk("I")
ZERO = const(0)
ONE = const(1)


def is_const(n):
    return n.op == "c"


def cval(n):
    return n.attr


def sym(name, dom="real", bound=None):
    """A free symbol.  dom: real | pos | nat | idx | bool | str | param | any.
    bound: for idx symbols, the exclusive upper bound node; for nat, an (lo, hi) pair."""
    if dom == "idx" and bound is not None:
        bound = nd(bound)
    args = (bound,) if isinstance(bound, Node) else ()
    return mk("sym", args, (name, dom, bound if not isinstance(bound, Node) else None))


def bvar(prefix="b"):
    return mk("bvar", (), (prefix, next(_ctr)))


def nd(x):
    if isinstance(x, Node):
        return x
    if isinstance(x, (bool, int, float, Fraction)):
        return const(x)
    if isinstance(x, complex):
        return add(const(x.real), mul(I, const(x.imag)))
    if x is None:
        return mk("none")
    if isinstance(x, str):
        return mk("str", (), x)
    raise TypeError("not a scalar: %r" % (x,))


def add(*xs):
    out, c = [], Fraction(0)
    for x in xs:
        x = nd(x)
        if x.op == "add":
            for a in x.args:
                if a.op == "c":
                    c += a.attr
                else:
                    out.append(a)
        elif x.op == "c":
            c += x.attr
        else:
            out.append(x)
    if not out:
        return const(c)
    if c != 0:
        out.append(const(c))
    if len(out) == 1:
        return out[0]
    # cancel exact x + (-x)
    if len(out) <= 12:
        ids = {}
        for o in out:
            ids.setdefault(o.id, []).append(o)
        for o in list(out):
            if o.op == "mul" and is_const(o.args[0]) and o.args[0].attr == -1:
                rest = o.args[1] if len(o.args) == 2 else mk("mul", o.args[1:])
                if rest in out and o in out and rest.op in ("sym", "bvar"):
                    out.remove(o)
                    out.remove(rest)
        if not out:
            return ZERO
        if len(out) == 1:
            return out[0]
    return mk("add", sorted(out, key=lambda n: n.id))


def mul(*xs):
    out, c = [], Fraction(1)
    for x in xs:
        x = nd(x)
        if x.op == "mul":
            for a in x.args:
                if a.op == "c":
                    c *= a.attr
                else:
                    out.append(a)
        elif x.op == "c":
            c *= x.attr
        elif x.op in ("true", "false"):
            c *= 1 if x.op == "true" else 0
        else:
            out.append(x)
    if not out:
        return const(c)
    if c == 0:
        # keep NaN semantics: 0*x stays unless x is finite by construction
        if all(o.op in ("sym", "bvar", "pi", "I") for o in out):
            return ZERO
        return mk("mul", [const(0)] + sorted(out, key=lambda n: n.id))
    if c != 1:
        out = [const(c)] + sorted(out, key=lambda n: n.id)
    else:
        out = sorted(out, key=lambda n: n.id)
    if len(out) == 1:
        return out[0]
    if len(out) == 2 and is_const(out[0]) and out[1].op == "add" and all(is_const(a) or a.op in ("sym", "bvar", "mul", "add") for a in out[1].args):
        return add(*[mul(out[0], a) for a in out[1].args])
    return mk("mul", out)


def neg(x):
    return mul(-1, x)


def sub(a, b):
    a, b = nd(a), nd(b)
    if a is b and a.op in ("sym", "bvar", "c"):
        return ZERO
    return add(a, neg(b))


def power(a, b):
    a, b = nd(a), nd(b)
    if is_const(b):
        e = b.attr
        if e == 1:
            return a
        if e == 0:
            return ONE
        if is_const(a) and e.denominator == 1 and abs(e) < 4096:
            if a.attr == 0 and e < 0:
                return mk("pow", (a, b))
            return const(a.attr ** int(e))
    return mk("pow", (a, b))


def div(a, b):
    a, b = nd(a), nd(b)
    if is_const(b) and b.attr != 0:
        return mul(const(1 / b.attr), a)
    if is_const(a) and a.attr == 1:
        return power(b, -1)
    return mul(a, power(b, -1))


def sqrt(a):
    return power(a, Fraction(1, 2))


def fn(name, *args):
    args = [nd(a) for a in args]
    if len(args) == 1 and is_const(args[0]):
        v = args[0].attr
        if name == "abs":
            return const(abs(v))
        if name == "floor":
            return const(v.numerator // v.denominator)
        if name == "ceil":
            return const(-((-v.numerator) // v.denominator))
        if name == "sign":
            return const((v > 0) - (v < 0))
        if name == "exp" and v == 0:
            return ONE
        if name == "log" and v == 1:
            return ZERO
    if len(args) == 2 and is_const(args[0]) and is_const(args[1]):
        a, b = args[0].attr, args[1].attr
        if name == "max":
            return const(max(a, b))
        if name == "min":
            return const(min(a, b))
        if name == "mod" and b != 0:
            return const(a - b * ((a / b).numerator // (a / b).denominator))
        if name == "floordiv" and b != 0:
            q = a / b
            return const(q.numerator // q.denominator)
    if name in ("max", "min"):
        if args[0] is args[1]:
            return args[0]
        args = sorted(args, key=lambda n: n.id)
    if name == "mod" and is_const(args[1]) and args[1].attr == 1 and args[0].op in ("sym", "bvar") :
        return ZERO
    if name in ("real", "imag", "conj"):
        pass
    return mk("fn", args, name)


def app(name, *args):
    return mk("app", [nd(a) for a in args], name)


def ite(c, a, b):
    c, a, b = nd(c), nd(a), nd(b)
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if a is b:
        return a
    if a.op == "true" and b.op == "false":
        return c
    if a.op == "false" and b.op == "true":
        return not_(c)
    # prune a nested test of the same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    return mk("ite", (c, a, b))


def not_(c):
    c = nd(c)
    if c.op == "true":
        return FALSE
    if c.op == "false":
        return TRUE
    if c.op == "not":
        return c.args[0]
    return mk("not", (c,))


def and_(*cs):
    out = []
    for c in cs:
        c = nd(c)
        if c.op == "false":
            return FALSE
        if c.op == "true":
            continue
        if c.op == "and":
            out.extend(x for x in c.args if x not in out)
        elif c not in out:
            out.append(c)
    for c in out:
        if not_(c) in out:
            return FALSE
    for c in out:
        if c.op == "not" and c.args[0].op == "and":  # unit propagation into a negated conjunction
            rest = [x for x in c.args[0].args if x not in out]
            if not rest:
                return FALSE
            if any(not_(x) in out for x in rest):
                return and_(*[x for x in out if x is not c])
            if len(rest) < len(c.args[0].args):
                return and_(*([x for x in out if x is not c] + [not_(and_(*rest))]))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", sorted(out, key=lambda n: n.id))


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


def cmp(op, a, b):
    """op in eq ne lt le gt ge"""
    a, b = nd(a), nd(b)
    if op == "gt":
        return cmp("lt", b, a)
    if op == "ge":
        return cmp("le", b, a)
    if op == "ne":
        return not_(cmp("eq", a, b))
    lits = ("c", "str", "none", "true", "false")
    if op == "eq":
        if a is b and a.op not in ("nan",):
            return TRUE
        if a.op in lits and b.op in lits:
            if {a.op, b.op} <= {"true", "false"}:
                return FALSE
            return FALSE
        if "none" in (a.op, b.op) and (a.op in NONNONE or b.op in NONNONE):
            return FALSE
        if "str" in (a.op, b.op) and (a.op in ("c", "add", "mul", "pow") or b.op in ("c", "add", "mul", "pow")):
            return FALSE
        if a.id > b.id:
            a, b = b, a
        return mk("eq", (a, b))
    if is_const(a) and is_const(b):
        return const(a.attr < b.attr if op == "lt" else a.attr <= b.attr)
    if a is b:
        return FALSE if op == "lt" else TRUE
    # simple sign reasoning for sizes
    s = sign_of(sub(b, a))
    if s == "+":
        return TRUE
    if s == "0+" and op == "le":
        return TRUE
    if s == "-":
        return FALSE
    if s == "0-" and op == "lt":
        return FALSE
    return mk(op, (a, b))


NONNONE = {"c", "add", "mul", "pow", "fn", "app", "reduce", "true", "false", "str", "pi", "I", "bvar", "lt", "le", "eq", "and", "not"}


def sign_of(n, depth=0):
    """Tiny sign analysis (an abstract domain {+,0+,-,0-,?}) used only to fold comparisons."""
    if depth > 12:
        return "?"
    op = n.op
    if op == "c":
        return "+" if n.attr > 0 else ("-" if n.attr < 0 else "0+")
    if op in ("pi", "inf"):
        return "+"
    if op == "sym":
        d = n.attr[1]
        if d == "pos":
            return "+"
        if d == "nat":
            lo = n.attr[2][0] if n.attr[2] else 1
            return "+" if lo > 0 else "0+"
        if d == "idx":
            return "0+"
        return "?"
    if op == "mul":
        s, z = 1, False
        for a in n.args:
            t = sign_of(a, depth + 1)
            if t == "?":
                return "?"
            if t in ("-", "0-"):
                s = -s
            if t in ("0+", "0-"):
                z = True
        return ("0+" if z else "+") if s > 0 else ("0-" if z else "-")
    if op == "add":
        ss = [sign_of(a, depth + 1) for a in n.args]
        if "?" in ss:
            return "?"
        if all(x in ("+", "0+") for x in ss):
            return "+" if "+" in ss else "0+"
        if all(x in ("-", "0-") for x in ss):
            return "-" if "-" in ss else "0-"
        # integer case: pos symbol(s) with lower bound vs constant
        lo = Fraction(0)
        for a, x in zip(n.args, ss):
            if a.op == "c":
                lo += a.attr
            elif a.op == "sym" and a.attr[1] == "nat" and a.attr[2]:
                lo += a.attr[2][0]
            elif x in ("+", "0+"):
                lo += 1 if is_intlike(a) and x == "+" else 0
            else:
                return "?"
        return "+" if lo > 0 else ("0+" if lo == 0 else "?")
    if op == "pow":
        a, b = n.args
        s = sign_of(a, depth + 1)
        if s == "+":
            return "+"
        if is_const(b) and b.attr.denominator == 1 and b.attr.numerator % 2 == 0 and b.attr > 0:
            return "0+"
        return "?"
    if op == "fn":
        if n.attr == "exp":
            return "+"
        if n.attr == "abs":
            return "0+"
        if n.attr == "ceil":
            s = sign_of(n.args[0], depth + 1)
            return s if s in ("+", "0+") else "?"
        if n.attr == "max":
            ss = [sign_of(a, depth + 1) for a in n.args]
            if "+" in ss:
                return "+"
            if "0+" in ss:
                return "0+"
            return "?"
        if n.attr == "min":
            ss = [sign_of(a, depth + 1) for a in n.args]
            if all(x == "+" for x in ss):
                return "+"
            return "?"
        return "?"
    if op == "detach":
        return sign_of(n.args[0], depth + 1)
    if op == "ite":
        a, b = sign_of(n.args[1], depth + 1), sign_of(n.args[2], depth + 1)
        if a == b:
            return a
        if {a, b} == {"+", "0+"}:
            return "0+"
        return "?"
    return "?"


def is_intlike(n, depth=0):
    if depth > 10:
        return False
    if n.op == "c":
        return n.attr.denominator == 1
    if n.op == "sym":
        return n.attr[1] in ("nat", "idx")
    if n.op == "bvar":
        return True
    if n.op in ("add", "mul"):
        return all(is_intlike(a, depth + 1) for a in n.args)
    if n.op == "pow":
        return is_intlike(n.args[0], depth + 1) and is_intlike(n.args[1], depth + 1) and sign_of(n.args[1]) in ("+", "0+")
    if n.op == "fn":
        if n.attr in ("floor", "ceil"):
            return True
        if n.attr in ("max", "min", "abs", "floordiv", "mod"):
            return n.attr == "floordiv" or all(is_intlike(a, depth + 1) for a in n.args)
    if n.op == "ite":
        return is_intlike(n.args[1], depth + 1) and is_intlike(n.args[2], depth + 1)
    return False


def reduce_(kind, binder, size, body, *extra):
    """A linear (or fingerprint) functional of body, seen as a function of binder in [0,size)."""
    return mk("reduce", (binder, nd(size), nd(body)) + tuple(nd(e) for e in extra), kind)


def rebuild(n, args):
    op = n.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "pow":
        return power(*args)
    if op == "fn":
        return fn(n.attr, *args)
    if op == "app":
        return app(n.attr, *args)
    if op == "ite":
        return ite(*args)
    if op == "not":
        return not_(*args)
    if op == "and":
        return and_(*args)
    if op in ("eq", "lt", "le"):
        return cmp(op, *args)
    return mk(op, args, n.attr)


def subst(n, m, memo=None):
    """Replace nodes by nodes (dict Node->Node), hash-consed."""
    if memo is None:
        memo = {}
    r = m.get(n)
    if r is not None:
        return r
    if not n.args:
        return n
    r = memo.get(n.id)
    if r is not None:
        return r
    args = [subst(a, m, memo) for a in n.args]
    if all(x is y for x, y in zip(args, n.args)):
        r = n
    else:
        r = rebuild(n, args)
    memo[n.id] = r
    return r


def contains(n, targets, memo=None):
    """targets: set of Nodes"""
    if memo is None:
        memo = {}
    if n in targets:
        return True
    if n.id in memo:
        return memo[n.id]
    r = any(contains(a, targets, memo) for a in n.args)
    memo[n.id] = r
    return r


def walk(n, seen=None):
    if seen is None:
        seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(x.args)


def show(n, depth=6):
    if depth == 0:
        return "…"
    s = lambda a: show(a, depth - 1)
    op = n.op
    if op == "c":
        return str(n.attr)
    if op == "sym":
        return n.attr[0]
    if op == "bvar":
        return "%s%d" % n.attr
    if op in ("true", "false", "nan", "inf", "pi", "I", "none"):
        return op
    if op == "str":
        return repr(n.attr)
    if op == "add":
        return "(" + " + ".join(s(a) for a in n.args) + ")"
    if op == "mul":
        return "*".join(s(a) for a in n.args)
    if op == "pow":
        return "%s^%s" % (s(n.args[0]), s(n.args[1]))
    if op in ("eq", "lt", "le"):
        return "(%s %s %s)" % (s(n.args[0]), {"eq": "==", "lt": "<", "le": "<="}[op], s(n.args[1]))
    if op == "ite":
        return "ite(%s, %s, %s)" % tuple(s(a) for a in n.args)
    if op == "reduce":
        return "%s[%s<%s](%s)" % (n.attr, s(n.args[0]), s(n.args[1]), ", ".join(s(a) for a in n.args[2:]))
    return "%s(%s)" % (n.attr if n.attr is not None else op, ", ".join(s(a) for a in n.args))
