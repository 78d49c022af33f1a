"""Abstract interpreter over the source text of /repo.

It builds the gated value graph of the code reachable from an entry point: every scalar becomes a
hash-consed node, every array an element function, every `if` on an unknown condition a join
(gated merge of the two abstract heaps), every loop over an unknown range a closed-form summary.
Nothing from /repo is imported or executed.
"""
import ast
import os
from fractions import Fraction

from . import node as N
from . import arr as A
from .arr import AbsRaise, Arr, Ctx, Sl, NEWAXIS
from .evalr import Unmodelled
from .node import Node, nd, ite, cmp, and_, not_, or_, TRUE, FALSE

MISSING = type("Missing", (), {"__repr__": lambda s: "<missing>"})()
ROOT = os.environ.get("VG_REPO", "/repo")
UNROLL = 6


def match_test(p, subj):
    """A pattern as a boolean expression (captures as assignment expressions)."""
    true = ast.Constant(True)
    if isinstance(p, ast.MatchValue):
        return ast.Compare(subj, [ast.Eq()], [p.value])
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)])
    if isinstance(p, ast.MatchOr):
        return ast.BoolOp(ast.Or(), [match_test(q, subj) for q in p.patterns])
    if isinstance(p, ast.MatchAs):
        t = true if p.pattern is None else match_test(p.pattern, subj)
        if p.name is None:
            return t
        cap = ast.List([ast.NamedExpr(ast.Name(p.name, ast.Store()), subj)], ast.Load())
        return cap if p.pattern is None else ast.BoolOp(ast.And(), [t, cap])
    if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
        return ast.Call(ast.Name("isinstance", ast.Load()), [subj, p.cls], [])
    if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
        n = ast.Compare(ast.Call(ast.Name("len", ast.Load()), [subj], []), [ast.Eq()], [ast.Constant(len(p.patterns))])
        return ast.BoolOp(ast.And(), [n] + [match_test(q, ast.Subscript(subj, ast.Constant(i), ast.Load())) for i, q in enumerate(p.patterns)])
    raise Unmodelled("match pattern %s" % type(p).__name__)


class Opaque:
    """A value of an external library the analysis does not interpret (plots, loggers...)."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<opaque %s>" % self.path


class CtxV(Opaque):
    """A context manager the analysis runs: a generator function under contextlib.contextmanager, suppress, nullcontext."""

    def __init__(self, kind, f, args, kwargs):
        self.path = "contextmanager"
        self.kind, self.f, self.args, self.kwargs = kind, f, args, kwargs


def ctx_factory(f):
    r = ExtFn("ctx", lambda it, a, k: CtxV("gen", f, list(a), dict(k)))
    r.method = True
    return r


class NT(tuple):
    """A named tuple: a tuple of values with the class it was built from."""

    cls = None

    @staticmethod
    def make(cls, vals):
        r = NT(vals)
        r.cls = cls
        return r

    @staticmethod
    def like(t, vals):
        return NT.make(t.cls, vals) if isinstance(t, NT) else tuple(vals)


class Choice:
    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return "<choice %r %r>" % (self.a, self.b)


class Cell:
    """Anything journaled."""

    def jget(self, key):
        raise NotImplementedError

    def jset(self, key, v):
        raise NotImplementedError


class Scope(Cell):
    def __init__(self, parent, module, name="", cls=None):
        self.vars = {}
        self.parent, self.module, self.name = parent, module, name
        self.globals_decl, self.nonlocals = set(), set()
        self.cls = cls
        self.selfv = None

    def jget(self, key):
        return self.vars.get(key, MISSING)

    def jset(self, key, v):
        if v is MISSING:
            self.vars.pop(key, None)
        else:
            self.vars[key] = v


class Module(Scope):
    def __init__(self, name, path):
        super().__init__(None, None, name)
        self.module = self
        self.path = path
        self.done = False


class List(Cell):
    def __init__(self, items=()):
        self.items = list(items)
        self.sym = None  # a SymSeq when the length is symbolic

    def jget(self, key):
        return (tuple(self.items), self.sym)

    def jset(self, key, v):
        self.items = list(v[0])
        self.sym = v[1]

    def __repr__(self):
        return "List(%r)" % (self.items if self.sym is None else self.sym)


class Dict(Cell):
    def __init__(self, items=None):
        self.d = dict(items or {})

    def jget(self, key):
        return dict(self.d)

    def jset(self, key, v):
        self.d = dict(v)

    def __repr__(self):
        return "Dict(%r)" % (self.d,)


class AttrDict(Dict):
    """The live attribute dictionary of an object."""

    def __init__(self, o):
        self.o = o

    @property
    def d(self):
        return self.o.attrs

    @d.setter
    def d(self, v):
        v = dict(v)
        self.o.attrs.clear()
        self.o.attrs.update(v)


class SetV(Cell):
    def __init__(self, items=()):
        self.items = list(dict.fromkeys(items))

    def jget(self, key):
        return list(self.items)

    def jset(self, key, v):
        self.items = list(v)


class SymSeq:
    """A sequence of symbolic length: element i is at(i)."""

    def __init__(self, n, at):
        self.n, self.at = n, at


class RangeV:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Obj(Cell):
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.name = None

    def jget(self, key):
        return self.attrs.get(key, MISSING)

    def jset(self, key, v):
        if v is MISSING:
            self.attrs.pop(key, None)
        else:
            self.attrs[key] = v

    def __repr__(self):
        return "<%s object>" % self.cls.name


class Class(Cell):
    def __init__(self, name, bases, module, node=None):
        self.name, self.bases, self.module, self.node = name, bases, module, node
        self.attrs = {}
        self.dataclass = None
        self.enum = False
        self.mro_ = None
        self.abstract = set()

    def jget(self, key):
        return self.attrs.get(key, MISSING)

    def jset(self, key, v):
        if v is MISSING:
            self.attrs.pop(key, None)
        else:
            self.attrs[key] = v

    def mro(self):
        if self.mro_ is None:
            seqs = []
            for b in self.bases:
                seqs.append(list(b.mro()) if isinstance(b, Class) else [b])
            seqs.append(list(self.bases))
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            self.mro_ = out
        return self.mro_

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, Class) and name in c.attrs:
                return c.attrs[name], c
        return MISSING, None

    def ext_bases(self):
        return [c for c in self.mro() if not isinstance(c, Class)]

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "<class %s>" % self.name


class Func:
    def __init__(self, node, scope, module, qual, cls=None):
        self.node, self.scope, self.module, self.qual, self.cls = node, scope, module, qual, cls
        self.defaults, self.kwdefaults = [], {}
        self.memo = None
        self.isgen = False

    def __repr__(self):
        return "<func %s>" % self.qual


class Bound:
    def __init__(self, func, selfv):
        self.func, self.selfv = func, selfv

    def __repr__(self):
        return "<bound %r>" % (self.func,)


class Prop:
    def __init__(self, get=None, set_=None, cached=False):
        self.get, self.set, self.cached = get, set_, cached


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class SuperV:
    def __init__(self, cls, selfv):
        self.cls, self.selfv = cls, selfv


class ExtFn:
    def __init__(self, name, impl):
        self.name, self.impl = name, impl

    def __repr__(self):
        return "<ext %s>" % self.name


class ExtType:
    def __init__(self, name, ctor=None):
        self.name, self.ctor = name, ctor

    def __repr__(self):
        return "<type %s>" % self.name


class ExtMod:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<mod %s>" % self.name


class EnumVal:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return "%s.%s" % (self.cls.name, self.name)


class ExcV:
    """An exception instance."""

    def __init__(self, name, args, cls=None):
        self.name, self.args, self.cls = name, args, cls


class RaiseRec:
    def __init__(self, cond, exc, msg, where):
        self.cond, self.exc, self.msg, self.where = cond, exc, msg, where

    def __repr__(self):
        return "<raise %s at %s when %s>" % (self.exc, self.where, self.cond)


class MergedArr(Arr):
    """One of two arrays depending on an unknown condition; reads are gated, writes reach both."""

    def __init__(self, cond, a, b, shape):
        Arr.__init__(self, a.kind, shape, None, a.dtype if a.dtype == b.dtype else A.join_dtype([a.dtype, b.dtype]), st=a.st)
        self.cond, self.a, self.b = cond, a, b
        self.xdtype = a.xdtype if a.xdtype == b.xdtype else None
        self.requires_grad = a.requires_grad or b.requires_grad

    def get(self, idx):
        return ite(self.cond, self.a.get(idx), self.b.get(idx))

    def reader(self):
        c, ra, rb = self.cond, self.a.reader(), self.b.reader()
        return lambda idx: ite(c, ra(idx), rb(idx))

    def view(self, shape, fwd, inv):
        # shape may differ between the alternatives only in symbolic extent
        return MergedArr(self.cond, self.a.view(shape, fwd, inv), self.b.view(shape, fwd, inv), shape)

    def write(self, g):
        c = self.cond
        self.a.write(lambda idx, old: ite(c, g(idx, old), old))
        self.b.write(lambda idx, old: ite(c, old, g(idx, old)))


SCALAR = (bool, int, Node)


def is_scalar(v):
    return isinstance(v, SCALAR)


def unconst(v):
    """Keep concrete booleans concrete."""
    if isinstance(v, Node):
        if v.op == "true":
            return True
        if v.op == "false":
            return False
    return v


class Outcome:
    """How a block ended: kind -> (guard, value) for ret/brk/cont/exc; fall-through otherwise."""

    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d or {}

    def done(self):
        return or_(*[g for g, _ in self.d.values()]) if self.d else FALSE


NORMAL = Outcome()


class Interp:
    def __init__(self, root=None):
        self.root = root or ROOT
        self.modules = {}
        self.jstack = []
        self.pc = []
        self.raises = []
        self.obligations = []
        self.assumptions = []  # restrictions from bounded unrolling
        self.frames = []
        self.trystack = []
        self.ctxsink = None
        self.calllog = []
        self.warnings = []
        self.analysed = {}
        self.ncalls = 0
        self.nstmts = 0
        self.njoins = 0
        self.nloops = 0
        self.loops_unrolled = []
        self.nograd = 0
        self.hooks = {}
        self.fs = {}
        self.state = {}
        self.globals_rng = None
        self.nb_fresh = 0
        self.transparent = set()
        Ctx.interp = self
        from . import lib, ext_disp  # noqa: F401  (ext_disp completes lib)

        self.lib = lib
        lib.setup(self)

    # ------------------------------------------------------------------ journal
    def note(self, cell, key):
        if self.jstack:
            top = self.jstack[-1]
            k = (id(cell), key)
            if k not in top:
                top[k] = (cell, key, cell.jget(key))

    def note_storage(self, st):
        if self.jstack:
            top = self.jstack[-1]
            k = (id(st), None)
            if k not in top:
                top[k] = (StCell(st), None, st.content)

    def set(self, cell, key, v):
        self.note(cell, key)
        cell.jset(key, v)

    def where(self):
        if not self.frames:
            return "?"
        f = self.frames[-1]
        return "%s:%s in %s" % (f[0], f[2], f[1])

    def fresh(self, prefix="t"):
        self.nb_fresh += 1
        return "%s#%d" % (prefix, self.nb_fresh)

    # ------------------------------------------------------------------ path facts
    def simplify(self, c):
        """Resolve a condition with the facts known at this point."""
        c = nd(c)
        if c.op in ("true", "false"):
            return c
        if not self.pc:
            return c
        facts, negs = set(), set()
        for p in self.pc:
            for q in p.args if p.op == "and" else (p,):
                facts.add(q.id)
                if q.op == "not":
                    inner = q.args[0]
                    negs.add(inner.id)
        return self._simp(c, facts, negs, {})

    def _simp(self, c, facts, negs, memo):
        if c.id in memo:
            return memo[c.id]
        if c.id in facts:
            r = TRUE
        elif c.id in negs:
            r = FALSE
        elif c.op == "not":
            r = not_(self._simp(c.args[0], facts, negs, memo))
        elif c.op == "and":
            r = and_(*[self._simp(a, facts, negs, memo) for a in c.args])
        else:
            r = c
        memo[c.id] = r
        return r

    def pcond(self):
        return and_(*self.pc)

    def assume(self, c):
        if nd(c).op != "true":
            self.pc.append(nd(c))

    def obligation(self, c, text):
        c = self.simplify(c)
        if c.op == "true":
            return
        self.obligations.append((self.pcond(), c, text, self.where()))
        if c.op == "false":
            raise AbsRaise("ValueError", text, self.where())

    # ------------------------------------------------------------------ fork / join
    def run_branch(self, cond, thunk):
        self.jstack.append({})
        npc = len(self.pc)
        nfr = len(self.frames)
        ntry = len(self.trystack)
        self.assume(cond)
        out, raised = None, None
        try:
            out = thunk()
        except AbsRaise as e:
            raised = e
        except BaseException:
            j = self.jstack.pop()
            for cell, key, old in j.values():
                cell.jset(key, old)
            del self.pc[npc:]
            del self.frames[nfr:]
            del self.trystack[ntry:]
            raise
        del self.frames[nfr:]
        del self.trystack[ntry:]
        extra = self.pc[npc + (1 if nd(cond).op != "true" else 0):]
        del self.pc[npc:]
        j = self.jstack.pop()
        fin = {k: (cell, key, cell.jget(key)) for k, (cell, key, old) in j.items()}
        for cell, key, old in j.values():
            cell.jset(key, old)
        return out, raised, fin, extra

    def apply(self, fin):
        for cell, key, v in fin.values():
            self.note_cell(cell, key)
            cell.jset(key, v)

    def note_cell(self, cell, key):
        if isinstance(cell, StCell):
            self.note_storage(cell.st)
        else:
            self.note(cell, key)

    def catchable(self, e):
        """A handler of the same function catches e."""
        if not self.trystack:
            return False
        depth, names = self.trystack[-1]
        if depth != len(self.frames):
            return False
        return any(self.exc_matches(e.exc, n) for n in names)

    def fork(self, cond, ta, tb, merge_out=None):
        """Run ta under cond and tb under its negation; join heaps and results."""
        cond = self.simplify(cond)
        if cond.op == "true":
            return ta()
        if cond.op == "false":
            return tb()
        self.njoins += 1
        merge_out = merge_out or self.merge
        ncond = not_(cond)
        oa, ra, fa, xa = self.run_branch(cond, ta)
        ob, rb, fb, xb = self.run_branch(ncond, tb)
        if merge_out is self.merge_outcome:
            if ra is not None and self.catchable(ra):
                oa, ra = Outcome({"exc": (TRUE, ra)}), None
            if rb is not None and self.catchable(rb):
                ob, rb = Outcome({"exc": (TRUE, rb)}), None
        if ra is not None and rb is not None:
            self.raises.append(RaiseRec(and_(self.pcond(), cond), ra.exc, ra.msg, ra.where or self.where()))
            raise rb
        if ra is not None:
            self.raises.append(RaiseRec(and_(self.pcond(), cond), ra.exc, ra.msg, ra.where or self.where()))
            self.apply(fb)
            self.assume(ncond)
            for x in xb:
                self.assume(x)
            return ob
        if rb is not None:
            self.raises.append(RaiseRec(and_(self.pcond(), ncond), rb.exc, rb.msg, rb.where or self.where()))
            self.apply(fa)
            self.assume(cond)
            for x in xa:
                self.assume(x)
            return oa
        for k in list(fa) + [k for k in fb if k not in fa]:
            cell, key = (fa.get(k) or fb.get(k))[:2]
            cur = cell.jget(key)
            va = fa[k][2] if k in fa else cur
            vb = fb[k][2] if k in fb else cur
            if va is vb:
                v = va
            else:
                v = self.merge_cell(cell, key, cond, va, vb)
            self.note_cell(cell, key)
            cell.jset(key, v)
        for x in xa:
            self.assume(or_(ncond, x))
        for x in xb:
            self.assume(or_(cond, x))
        return merge_out(cond, oa, ob)

    def merge_cell(self, cell, key, cond, va, vb):
        if isinstance(cell, StCell):
            fa, fb = va.read, vb.read
            return A.Content(lambda idx: ite(cond, fa(idx), fb(idx)))
        if isinstance(cell, List):
            (ia, sa), (ib, sb) = va, vb
            if sa is None and sb is None:
                if len(ia) == len(ib):
                    return (tuple(self.merge(cond, x, y) for x, y in zip(ia, ib)), None)
                # lengths differ: a gated sequence
                n = ite(cond, nd(len(ia)), nd(len(ib)))
                L = max(len(ia), len(ib))
                items = []
                for j in range(L):
                    if j < len(ia) and j < len(ib):
                        items.append(self.merge(cond, ia[j], ib[j]))
                    else:
                        items.append(ia[j] if j < len(ia) else ib[j])
                return (tuple(items), SymSeq(n, lambda i: self.pick(items, i)))
            na, nb = (nd(x.n) if x is not None else nd(len(i_)) for x, i_ in ((sa, ia), (sb, ib)))
            ga, gb = ((x.at if x is not None else (lambda i, i_=i_: self.pick(list(i_), i) if i_ else N.ZERO)) for x, i_ in ((sa, ia), (sb, ib)))
            n = ite(cond, na, nb)
            memo = {}

            def at(i):
                i = nd(i)
                if i.id not in memo:
                    if na is nb or not N.is_const(i):
                        memo[i.id] = self.merge(cond, ga(i), gb(i))
                    else:  # a constant position may be past the end on one side
                        oka, okb = cmp("lt", i, na), cmp("lt", i, nb)
                        if oka.op == "false":
                            memo[i.id] = gb(i)
                        elif okb.op == "false":
                            memo[i.id] = ga(i)
                        else:
                            memo[i.id] = self.merge(cond, ga(i), gb(i))
                return memo[i.id]

            long_ = ia if len(ia) >= len(ib) else ib
            return (tuple(long_), SymSeq(n, at))
        if isinstance(cell, Dict):
            out = {}
            for k2 in list(va) + [k2 for k2 in vb if k2 not in va]:
                if k2 in va and k2 in vb:
                    out[k2] = self.merge(cond, va[k2], vb[k2])
                else:
                    out[k2] = Choice(cond, va.get(k2, MISSING), vb.get(k2, MISSING))
            return out
        if isinstance(cell, SetV):
            if va == vb:
                return va
            raise Unmodelled("join of sets")
        return self.merge(cond, va, vb)

    def pick(self, items, i):
        i = nd(i)
        if N.is_const(i):
            k = int(i.attr)
            if k < 0 or k >= len(items):
                raise AbsRaise("IndexError", "list index out of range", self.where())
            return items[k]
        r = items[-1]
        for j in range(len(items) - 2, -1, -1):
            r = self.merge(cmp("eq", i, j), items[j], r)
        return r

    def merge(self, cond, a, b):
        cond = nd(cond)
        if cond.op == "true":
            return a
        if cond.op == "false":
            return b
        if a is b:
            return a
        if is_scalar(a) and is_scalar(b):
            if not isinstance(a, Node) and not isinstance(b, Node) and type(a) is type(b) and a == b:
                return a
            return unconst(ite(cond, nd(a), nd(b)))
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if a is None and b is None:
            return None
        if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and a.kind == b.kind:
            shape = [x if A.same_dim(x, y) else A.dim(ite(cond, nd(x), nd(y))) for x, y in zip(a.shape, b.shape)]
            return MergedArr(cond, a, b, shape)
        if isinstance(a, Arr) and is_scalar(b) and a.ndim == 0:
            return self.merge(cond, a, A.scalar_arr(b, a.kind, a.dtype))
        if isinstance(b, Arr) and is_scalar(a) and b.ndim == 0:
            return self.merge(cond, A.scalar_arr(a, b.kind, b.dtype), b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return NT.like(a, [self.merge(cond, x, y) for x, y in zip(a, b)])
        if isinstance(a, Sl) and isinstance(b, Sl):
            return Sl(self.merge(cond, a.a, b.a), self.merge(cond, a.b, b.b), self.merge(cond, a.c, b.c))
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a if a.path == b.path else Choice(cond, a, b)
        if isinstance(a, Choice) and a.cond is cond:
            a = a.a
        if isinstance(b, Choice) and b.cond is cond:
            b = b.b
        if a is b:
            return a
        return Choice(cond, a, b)

    def merge_outcome(self, cond, oa, ob):
        if not oa.d and not ob.d:
            return NORMAL
        d = {}
        for k in list(oa.d) + [k for k in ob.d if k not in oa.d]:
            ga, va = oa.d.get(k, (FALSE, None))
            gb, vb = ob.d.get(k, (FALSE, None))
            g = ite(cond, ga, gb)
            if ga.op == "false":
                v = vb
            elif gb.op == "false":
                v = va
            elif k in ("brk", "cont"):
                v = None
            elif k == "exc":
                v = va
            else:
                v = self.merge(cond, va, vb)
            d[k] = (g, v)
        return Outcome(d)

    def resolve(self, v):
        while isinstance(v, Choice):
            c = self.simplify(v.cond)
            if c.op == "true":
                v = v.a
            elif c.op == "false":
                v = v.b
            else:
                return v
        return v

    def over(self, v, f):
        """Apply f to a value, distributing over gated alternatives."""
        v = self.resolve(v)
        if isinstance(v, Choice):
            if v.a is MISSING or v.b is MISSING:
                raise Unmodelled("possibly missing entry")
            return self.fork(v.cond, lambda: self.over(v.a, f), lambda: self.over(v.b, f))
        return f(v)

    def over_all(self, vs, f):
        vs = list(vs)
        for i, v in enumerate(vs):
            v = self.resolve(v)
            vs[i] = v
            if isinstance(v, Choice):
                return self.fork(
                    v.cond,
                    lambda: self.over_all(vs[:i] + [v.a] + vs[i + 1 :], f),
                    lambda: self.over_all(vs[:i] + [v.b] + vs[i + 1 :], f),
                )
        return f(*vs)

    # ------------------------------------------------------------------ modules
    def load(self, dotted):
        if dotted in self.modules:
            return self.modules[dotted]
        p = os.path.join(self.root, *dotted.split("."))
        path = None
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            path, ispkg = os.path.join(p, "__init__.py"), True
        elif os.path.exists(p + ".py"):
            path, ispkg = p + ".py", False
        if path is None:
            return None
        parent = dotted.rpartition(".")[0]
        if parent:
            self.load(parent)
            if dotted in self.modules:
                return self.modules[dotted]
        m = Module(dotted, path)
        m.vars["__name__"] = dotted
        m.ispkg = ispkg
        self.modules[dotted] = m
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        m.tree = tree
        saved = (self.pc, self.jstack, self.trystack)
        self.pc, self.jstack, self.trystack = [], [], []
        self.frames.append([os.path.relpath(path, self.root), "<module>", 0])
        try:
            self.exec_block(tree.body, m)
        finally:
            self.frames.pop()
            self.pc, self.jstack, self.trystack = saved
        m.done = True
        if parent and parent in self.modules:
            self.modules[parent].vars.setdefault(dotted.rpartition(".")[2], m)
        return m

    def imp(self, dotted):
        top = dotted.split(".")[0]
        if os.path.exists(os.path.join(self.root, top)) and top == "drdmannturb":
            m = self.load(dotted)
            if m is None:
                raise AbsRaise("ModuleNotFoundError", dotted, self.where())
            return m
        return self.lib.ext_module(self, dotted)

    def do_import(self, st, scope):
        if isinstance(st, ast.Import):
            for a in st.names:
                m = self.imp(a.name)
                if a.asname:
                    self.setname(a.asname, m, scope)
                else:
                    top = a.name.split(".")[0]
                    self.setname(top, self.imp(top), scope)
            return
        if st.level:
            base = scope.module.name.split(".")
            if not getattr(scope.module, "ispkg", False):
                base = base[:-1]
            base = base[: len(base) - (st.level - 1)]
            dotted = ".".join(base + ([st.module] if st.module else []))
        else:
            dotted = st.module
        if dotted == "__future__":
            return
        m = self.imp(dotted)
        for a in st.names:
            if a.name == "*":
                if isinstance(m, Module):
                    names = m.vars.get("__all__")
                    names = [x for x in names.items] if isinstance(names, List) else [x for x in m.vars if not x.startswith("_")]
                    for x in names:
                        if x not in m.vars:
                            raise AbsRaise("AttributeError", "module %s has no attribute %s" % (m.name, x), self.where())
                        self.setname(x, m.vars[x], scope)
                continue
            if isinstance(m, Module):
                v = m.vars.get(a.name, MISSING)
                if v is MISSING:
                    v = self.load(dotted + "." + a.name)
                    if v is None:
                        raise AbsRaise("ImportError", "cannot import name %s from %s" % (a.name, dotted), self.where())
            else:
                v = self.getattr(m, a.name)
            self.setname(a.asname or a.name, v, scope)

    # ------------------------------------------------------------------ names
    def setname(self, name, v, scope):
        if name in scope.globals_decl:
            self.set(scope.module, name, v)
            return
        if name in scope.nonlocals:
            s = scope.parent
            while s is not None and not (name in s.vars):
                s = s.parent
            if s is not None:
                self.set(s, name, v)
                return
        self.set(scope, name, v)

    def getname(self, name, scope):
        s = scope
        while s is not None:
            if name in s.vars:
                v = s.vars[name]
                if isinstance(v, Choice):
                    v = self.resolve(v)
                if isinstance(v, Choice) and (v.a is MISSING or v.b is MISSING):
                    # conditionally unbound: using it on the unbound branch raises
                    bad = v.cond if v.a is MISSING else not_(v.cond)
                    self.raises.append(RaiseRec(and_(self.pcond(), bad), "UnboundLocalError", name, self.where()))
                    self.assume(not_(bad))
                    return self.resolve(v.b if v.a is MISSING else v.a)
                if v is MISSING:
                    raise AbsRaise("UnboundLocalError", name, self.where())
                return v
            s = s.parent
        m = scope.module
        if name in m.vars:
            return m.vars[name]
        b = self.lib.BUILTINS.get(name, MISSING)
        if b is MISSING:
            raise AbsRaise("NameError", "name '%s' is not defined" % name, self.where())
        return b

    # ------------------------------------------------------------------ blocks
    def exec_block(self, stmts, scope):
        n = len(stmts)
        for i in range(n):
            o = self.exec_stmt(stmts[i], scope)
            if not o.d:
                continue
            done = self.simplify(o.done())
            if done.op == "true" or i == n - 1:
                return o
            rest = stmts[i + 1 :]

            def skip():
                return NORMAL

            r = self.fork(done, skip, lambda: self.exec_block(rest, scope), self.merge_outcome)
            d = dict(o.d)
            for k, (g, v) in r.d.items():
                if k in d:
                    g0, v0 = d[k]
                    if k in ("brk", "cont", "exc"):
                        d[k] = (or_(g0, g), v0)
                    else:
                        d[k] = (or_(g0, g), self.merge(g0, v0, v))
                else:
                    d[k] = (g, v)
            return Outcome(d)
        return NORMAL

    def exec_stmt(self, st, scope):
        if self.frames:
            self.frames[-1][2] = getattr(st, "lineno", 0)
        self.nstmts += 1
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unmodelled("statement %s at %s" % (type(st).__name__, self.where()))
        r = m(st, scope)
        return r if r is not None else NORMAL

    def s_Expr(self, st, scope):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, scope)

    def s_Pass(self, st, scope):
        pass

    def s_Import(self, st, scope):
        self.do_import(st, scope)

    s_ImportFrom = s_Import

    def s_Global(self, st, scope):
        scope.globals_decl |= set(st.names)

    def s_Nonlocal(self, st, scope):
        scope.nonlocals |= set(st.names)

    def s_Assign(self, st, scope):
        v = self.ev(st.value, scope)
        for t in st.targets:
            self.assign(t, v, scope)

    def s_AnnAssign(self, st, scope):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, scope), scope)
        elif isinstance(scope, ClassScope) and isinstance(st.target, ast.Name):
            pass
        if isinstance(scope, ClassScope) and isinstance(st.target, ast.Name):
            scope.annotated.append((st.target.id, st))

    def s_AugAssign(self, st, scope):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.getname(t.id, scope)
            v = self.ev(st.value, scope)
            self.setname(t.id, self.augop(op, cur, v), scope)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, scope)
            cur = self.getattr(o, t.attr)
            v = self.ev(st.value, scope)
            self.setattr(o, t.attr, self.augop(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, scope)
            i = self.ev_index(t.slice, scope)
            v = self.ev(st.value, scope)

            def go(o, v):
                if isinstance(o, Arr):
                    cur = self.lib.getitem(self, o, i)
                    new = self.binop(op, cur, v)
                    self.lib.setitem(self, o, i, new)
                else:
                    cur = self.getitem(o, i)
                    self.setitem(o, i, self.augop(op, cur, v))

            self.over_all([o, v], go)
        else:
            raise Unmodelled("augmented target")

    def augop(self, op, cur, v):
        cur, v = self.resolve(cur), self.resolve(v)
        if isinstance(cur, Choice) or isinstance(v, Choice):
            return self.over_all([cur, v], lambda a, b: self.augop(op, a, b))
        if isinstance(cur, Arr) and cur.ndim >= 0 and (cur.ndim > 0 or cur.kind == "t"):
            r = self.binop(op, cur, v)
            if isinstance(r, Arr):
                if r.ndim > cur.ndim:
                    raise AbsRaise("ValueError", "non-broadcastable output operand", self.where())
                if cur.requires_grad and cur.is_param and not self.nograd:
                    raise AbsRaise("RuntimeError", "a leaf Variable that requires grad is being used in an in-place operation.", self.where())
                r2 = r.copy()
                A.store(cur, r2)
                return cur
        if isinstance(cur, List) and op == "Add":
            self.lib.list_extend(self, cur, v)
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, scope):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, scope)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, scope)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, scope)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, scope)
            i = self.ev_index(t.slice, scope)
            self.setitem(o, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, scope)
        else:
            raise Unmodelled("assignment target")

    def unpack(self, elts, v, scope):
        v = self.resolve(v)
        if isinstance(v, Choice):
            # same static arity on both sides in practice
            n = len(elts)
            a, b = self.seq_n(v.a, n), self.seq_n(v.b, n)
            vals = [self.merge(v.cond, x, y) for x, y in zip(a, b)]
        else:
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            if star:
                vals = self.iterate(v)
                i = star[0]
                after = len(elts) - i - 1
                vals = vals[:i] + [List(vals[i : len(vals) - after])] + vals[len(vals) - after :]
            else:
                vals = self.seq_n(v, len(elts))
        for e, x in zip(elts, vals):
            self.assign(e, x, scope)

    def seq_n(self, v, n):
        if isinstance(v, Opaque):
            if hasattr(v, "oiter"):
                out = v.oiter(self)
                if len(out) != n:
                    raise AbsRaise("ValueError", "cannot unpack %d panels into %d" % (len(out), n), self.where())
                return out
            return [Opaque(v.path + "[%d]" % i) for i in range(n)]
        if isinstance(v, Arr) and not isinstance(v.shape[0] if v.shape else 0, int):
            self.obligation(cmp("eq", v.shape[0], n), "unpacking %d values" % n)
            return [self.lib.getitem(self, v, i) for i in range(n)]
        if isinstance(v, SymSeq):
            self.obligation(cmp("eq", v.n, n), "unpacking %d values" % n)
            return [v.at(nd(i)) for i in range(n)]
        if v is None or is_scalar(v):
            raise AbsRaise("TypeError", "cannot unpack non-iterable value", self.where())
        xs = self.iterate(v)
        if len(xs) != n:
            raise AbsRaise("ValueError", "expected %d values to unpack, got %d" % (n, len(xs)), self.where())
        return xs

    def s_Delete(self, st, scope):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.note(scope, t.id)
                scope.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, scope)
                if isinstance(o, Obj):
                    self.note(o, t.attr)
                    o.attrs.pop(t.attr, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, scope)
                i = self.ev_index(t.slice, scope)
                if isinstance(o, Dict):
                    self.note(o, None)
                    o.d.pop(self.key(i), None)
                elif isinstance(o, List) and isinstance(i, int):
                    self.note(o, None)
                    del o.items[i]
                elif isinstance(o, List) and isinstance(i, Sl):
                    self.note(o, None)
                    del o.items[slice(i.a, i.b, i.c)]
                else:
                    raise Unmodelled("del subscript")

    def s_Return(self, st, scope):
        v = self.ev(st.value, scope) if st.value is not None else None
        return Outcome({"ret": (TRUE, v)})

    def s_Break(self, st, scope):
        return Outcome({"brk": (TRUE, None)})

    def s_Continue(self, st, scope):
        return Outcome({"cont": (TRUE, None)})

    def s_Raise(self, st, scope):
        if st.exc is None:
            e = self.state.get("handling")
            if e is not None:
                raise e
            raise AbsRaise("RuntimeError", "re-raise", self.where())
        v = self.ev(st.exc, scope)
        v = self.resolve(v)
        w = self.where()
        if isinstance(v, ExcV):
            raise AbsRaise(v.name, v.args[0] if v.args and isinstance(v.args[0], str) else "", w)
        if isinstance(v, ExtType):
            raise AbsRaise(v.name, "", w)
        if isinstance(v, Class):
            raise AbsRaise(v.name, "", w)
        if isinstance(v, Obj):
            raise AbsRaise(v.cls.name, "", w)
        raise AbsRaise("Exception", "", w)

    def s_Assert(self, st, scope):
        c = self.truth(self.ev(st.test, scope))
        w = self.where()
        if c is True:
            return
        if c is False:
            raise AbsRaise("AssertionError", ast.unparse(st.test), w)
        e = AbsRaise("AssertionError", ast.unparse(st.test), w)
        if self.catchable(e):
            return Outcome({"exc": (not_(c), e)})
        self.raises.append(RaiseRec(and_(self.pcond(), not_(c)), "AssertionError", ast.unparse(st.test), w))
        self.assume(c)

    def s_If(self, st, scope):
        c = self.truth(self.ev(st.test, scope))
        if c is True:
            return self.exec_block(st.body, scope)
        if c is False:
            return self.exec_block(st.orelse, scope)
        return self.fork(c, lambda: self.exec_block(st.body, scope), lambda: self.exec_block(st.orelse, scope), self.merge_outcome)

    def s_Match(self, st, scope):
        d = getattr(st, "_chain", None)
        if d is None:
            tmp = "@match%d" % id(st)
            chain = []
            for c in reversed(st.cases):
                t = match_test(c.pattern, ast.Name(tmp, ast.Load()))
                if c.guard is not None:
                    t = ast.BoolOp(ast.And(), [t, c.guard])
                chain = [ast.copy_location(ast.If(t, c.body, chain), c.body[0])]
            d = st._chain = [ast.copy_location(ast.Assign([ast.Name(tmp, ast.Store())], st.subject), st)] + chain
            for n in d:
                ast.fix_missing_locations(n)
        return self.exec_block(d, scope)

    def s_With(self, st, scope):
        return self.with_items(st.items, st.body, scope)

    def with_items(self, items, body, scope):
        if not items:
            return self.exec_block(body, scope)
        it, rest = items[0], items[1:]
        v = self.resolve(self.ev(it.context_expr, scope))

        def bind(x):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, x, scope)

        inner = lambda: self.with_items(rest, body, scope)
        if isinstance(v, CtxV) and v.kind == "suppress":
            bind(None)
            names = [x.name.split(".")[-1] if isinstance(x, (ExtType, Class)) else getattr(x, "path", "?").split(".")[-1] for x in v.args]
            return self.try_block(inner, [(names, None)], [], scope)
        if isinstance(v, CtxV) and v.kind == "null":
            bind(v.args[0] if v.args else None)
            return inner()
        if isinstance(v, CtxV):
            res = []

            def sink(x):
                if res:
                    raise AbsRaise("RuntimeError", "generator didn't stop", self.where())
                res.append(NORMAL)
                bind(x)
                self.frames.append(list(frame))
                n = len(self.frames)
                try:
                    res[0] = inner()
                finally:
                    del self.frames[n - 1 :]

            frame = self.frames[-1] if self.frames else ["?", "?", 0]
            self.ctxsink = sink
            self.call(v.f, v.args, v.kwargs)
            return res[0] if res else NORMAL
        if isinstance(v, Obj) and v.cls.lookup("__enter__")[0] is not MISSING:
            bind(self.call(self.getattr(v, "__enter__"), []))
            end = self.getattr(v, "__exit__")
            nfr, ngr, ntry = len(self.frames), self.nograd, len(self.trystack)
            try:
                o = inner()
            except AbsRaise as e:
                del self.frames[nfr:]
                del self.trystack[ntry:]
                self.nograd = ngr
                if self.truth(self.call(end, [Opaque("builtins." + e.exc), ExcV(e.exc, (e.msg,)), None])) is True:
                    return NORMAL
                raise
            self.call(end, [None, None, None])
            return o
        bind(v)
        depth = 1 if isinstance(v, Opaque) and v.path.startswith("@nograd") else 0
        self.nograd += depth
        try:
            return inner()
        finally:
            self.nograd -= depth

    def exc_matches(self, name, pat):
        if pat in ("Exception", "BaseException"):
            return True
        parents = self.lib.EXC_PARENT
        n = name
        while n is not None:
            if n == pat:
                return True
            n = parents.get(n)
        return False

    def s_Try(self, st, scope):
        hs = []
        for h in st.handlers:
            if h.type is None:
                hs.append((["BaseException"], h))
            else:
                names = []
                for t in h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]:
                    v = self.ev(t, scope)
                    names.append(v.name.split(".")[-1] if isinstance(v, (ExtType, Class)) else getattr(v, "path", "?").split(".")[-1])
                hs.append((names, h))
        return self.try_block(lambda: self.exec_block(st.body, scope), hs, st.orelse, scope, st.finalbody)

    def try_block(self, body, hs, orelse, scope, finalbody=()):
        """hs: (exception names, handler node or None for a handler that does nothing)."""
        allnames = [n for ns, _ in hs for n in ns]

        def handle(e):
            for ns, h in hs:
                if any(self.exc_matches(e.exc, n) for n in ns):
                    if h is None:
                        return NORMAL
                    if h.name:
                        self.setname(h.name, ExcV(e.exc, (e.msg,)), scope)
                    saved = self.state.get("handling")
                    self.state["handling"] = e
                    try:
                        return self.exec_block(h.body, scope)
                    finally:
                        self.state["handling"] = saved
            raise e

        def main():
            if hs:
                self.trystack.append((len(self.frames), allnames))
            nfr, npc, ngr, ntry = len(self.frames), len(self.pc), self.nograd, len(self.trystack)
            try:
                o = body()
            except AbsRaise as e:
                del self.frames[nfr:]
                del self.trystack[ntry:]
                self.nograd = ngr
                if not any(self.exc_matches(e.exc, n) for n in allnames):
                    if hs:
                        self.trystack.pop()
                    raise
                if hs:
                    self.trystack.pop()
                return handle(e)
            if hs:
                self.trystack.pop()
            if "exc" in o.d:
                g, e = o.d["exc"]
                d = {k: v for k, v in o.d.items() if k != "exc"}
                r = self.fork(g, lambda: handle(e), lambda: self.exec_block(orelse, scope) if not d else NORMAL, self.merge_outcome)
                for k, (g2, v2) in r.d.items():
                    if k in d:
                        d[k] = (or_(d[k][0], g2), self.merge(d[k][0], d[k][1], v2) if k == "ret" else None)
                    else:
                        d[k] = (g2, v2)
                return Outcome(d)
            if not o.d and orelse:
                return self.exec_block(orelse, scope)
            return o

        if not finalbody:
            return main()
        try:
            o = main()
        except AbsRaise:
            self.exec_block(finalbody, scope)
            raise
        f = self.exec_block(finalbody, scope)
        return f if f.d else o

    def s_FunctionDef(self, st, scope):
        f = self.make_func(st, scope, st.name)
        v = f
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, scope)
        self.setname(st.name, v, scope)

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, node, scope, name):
        cs = scope
        cls = None
        if isinstance(scope, ClassScope):
            cls = scope.klass
            cs = scope.outer
        qual = (cls.name + "." if cls else "") + name
        f = Func(node, cs if not isinstance(cs, Module) else None, scope.module, qual, cls)
        a = node.args
        f.defaults = [self.ev(d, scope) for d in a.defaults]
        f.kwdefaults = {k.arg: self.ev(d, scope) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f.isgen = not isinstance(node, ast.Lambda) and any(
            isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(node.body)
        )
        return f

    def decorate(self, d, v, scope):
        txt = ast.unparse(d)
        base = d.func if isinstance(d, ast.Call) else d
        if isinstance(base, ast.Attribute) and base.attr in ("setter", "getter", "deleter") and isinstance(base.value, ast.Name):
            p = scope.vars.get(base.value.id)
            if isinstance(p, Prop):
                return Prop(p.get, v, p.cached) if base.attr == "setter" else p
        dv = self.ev(base, scope)
        if isinstance(dv, ExtFn) or isinstance(dv, ExtType):
            n = dv.name
            last = n.split(".")[-1]
            if last == "staticmethod":
                return StaticM(v)
            if last == "classmethod":
                return ClassM(v)
            if last == "property":
                return Prop(v)
            if last == "cached_property":
                return Prop(v, None, True)
            if last in ("lru_cache", "cache"):
                v.memo = {}
                v.memo_cell = Dict()
                return v
            if last == "abstractmethod":
                return v
            if last == "dataclass":
                return self.make_dataclass(v, d, scope)
            if last == "wraps":
                return v
            if n.startswith("torch.no_grad"):
                v.nograd = True
                return v
            if last == "contextmanager":
                return ctx_factory(v)
        if isinstance(dv, (Func, Bound)):
            if isinstance(d, ast.Call):
                dv = self.ev(d, scope)
            return self.call(dv, [v])
        if isinstance(dv, Opaque) and dv.path.startswith("torch.no_grad"):
            v.nograd = True
            return v
        self.transparent.add(txt)
        return v

    def s_ClassDef(self, st, scope):
        bases = []
        for b in st.bases:
            v = self.ev(b, scope)
            bases.append(v)
        c = Class(st.name, [b for b in bases if not (isinstance(b, Opaque) and b.path.endswith("Protocol"))], scope.module, st)
        if any(isinstance(b, ExtType) and b.name.startswith("enum.") or (isinstance(b, Class) and b.enum) for b in bases):
            c.enum = True
        cs = ClassScope(scope, c)
        self.exec_block(st.body, cs)
        c.attrs = cs.vars
        c.annotated = cs.annotated
        if c.enum:
            for k, v in list(c.attrs.items()):
                if not k.startswith("_") and not isinstance(v, (Func, Prop, StaticM, ClassM)):
                    c.attrs[k] = EnumVal(c, k, v)
        if any(b is self.lib.NTBASE for b in bases):
            self.make_dataclass(c, None, scope)
        v = c
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, scope)
        self.setname(st.name, v, scope)

    def make_dataclass(self, c, d, scope):
        if not isinstance(c, Class):
            return c
        opts = {}
        if isinstance(d, ast.Call):
            for k in d.keywords:
                opts[k.arg] = self.ev(k.value, scope)
        fields = []
        for b in reversed(c.mro()[1:]):
            if isinstance(b, Class) and b.dataclass:
                for f in b.dataclass[0]:
                    fields = [x for x in fields if x[0] != f[0]] + [f]
        for name, st in c.annotated:
            ann = ast.unparse(st.annotation)
            if "ClassVar" in ann:
                continue
            dv = c.attrs.get(name, MISSING) if st.value is not None else MISSING
            fac = MISSING
            init = True
            if isinstance(dv, FieldV):
                fac, init = dv.factory, dv.init
                dv = dv.default
                if dv is MISSING:
                    c.attrs.pop(name, None)
                else:
                    c.attrs[name] = dv
            if isinstance(dv, (List, Dict, SetV)):
                raise AbsRaise("ValueError", "mutable default for field %s is not allowed" % name, self.where())
            fields = [x for x in fields if x[0] != name] + [(name, dv, fac, "InitVar" in ann, init, opts.get("kw_only") is True)]
        seen = False
        for f in fields:
            if f[4] and not f[5]:
                if f[1] is not MISSING or f[2] is not MISSING:
                    seen = True
                elif seen:
                    raise AbsRaise("TypeError", "non-default argument %s follows default argument" % f[0], self.where())
        c.dataclass = (fields, opts)
        return c

    # ------------------------------------------------------------------ loops
    def s_For(self, st, scope):
        seq = self.ev(st.iter, scope)
        return self.over_loop(seq, st, scope)

    def over_loop(self, seq, st, scope):
        seq = self.resolve(seq)
        if isinstance(seq, Choice):
            return self.fork(seq.cond, lambda: self.over_loop(seq.a, st, scope), lambda: self.over_loop(seq.b, st, scope), self.merge_outcome)
        s = self.symbolic_seq(seq)
        if s is None:
            items = self.iterate(seq)
            return self.run_items(items, 0, st, scope)
        return self.sym_loop(s, st, scope)

    def run_items(self, items, i, st, scope):
        d = {}
        while i < len(items):
            self.assign(st.target, items[i], scope)
            o = self.exec_block(st.body, scope)
            i += 1
            if not o.d:
                continue
            ob = Outcome({k: v for k, v in o.d.items() if k != "cont"})
            if not ob.d:
                continue
            done = self.simplify(ob.done())
            out = {k: v for k, v in ob.d.items() if k != "brk"}
            if done.op == "true":
                return Outcome(out)
            if done.op == "false":
                continue
            r = self.fork(done, lambda: NORMAL, lambda: self.run_items(items, i, st, scope), self.merge_outcome)
            for k, (g, v) in r.d.items():
                if k in out:
                    out[k] = (or_(out[k][0], g), self.merge(out[k][0], out[k][1], v) if k == "ret" else None)
                else:
                    out[k] = (g, v)
            return Outcome(out)
        if st.orelse:
            return self.exec_block(st.orelse, scope)
        return NORMAL

    def s_While(self, st, scope):
        return self.while_iter(st, scope, 0, 0)

    def while_iter(self, st, scope, nsym, ntot):
        while True:
            c = self.truth(self.ev(st.test, scope))
            if c is False:
                if st.orelse:
                    return self.exec_block(st.orelse, scope)
                return NORMAL
            ntot += 1
            if ntot > 20000:
                raise Unmodelled("while loop does not terminate at %s" % self.where())
            if c is True:
                o = self.exec_block(st.body, scope)
                ob = {k: v for k, v in o.d.items() if k != "cont"}
                if not ob:
                    continue
                done = self.simplify(Outcome(ob).done())
                out = {k: v for k, v in ob.items() if k != "brk"}
                if done.op == "true":
                    return Outcome(out)
                if nsym >= UNROLL:
                    self.bound_assume(done)
                    return Outcome(out)
                r = self.fork(done, lambda: NORMAL, lambda: self.while_iter(st, scope, nsym + 1, ntot), self.merge_outcome)
                return self.join_out(out, r)
            if nsym >= UNROLL:
                self.bound_assume(not_(c))
                return NORMAL

            def body():
                o = self.exec_block(st.body, scope)
                ob = {k: v for k, v in o.d.items() if k != "cont"}
                out = {k: v for k, v in ob.items() if k != "brk"}
                done = self.simplify(Outcome(ob).done()) if ob else FALSE
                if done.op == "true":
                    return Outcome(out)
                r = self.fork(done, lambda: NORMAL, lambda: self.while_iter(st, scope, nsym + 1, ntot), self.merge_outcome)
                return self.join_out(out, r)

            return self.fork(c, body, lambda: NORMAL, self.merge_outcome)

    def join_out(self, out, r):
        out = dict(out)
        for k, (g, v) in r.d.items():
            if k in out:
                out[k] = (or_(out[k][0], g), self.merge(out[k][0], out[k][1], v) if k == "ret" else None)
            else:
                out[k] = (g, v)
        return Outcome(out)

    def bound_assume(self, c):
        """Bounded unrolling: valuations outside the bound are rejected later."""
        self.assumptions.append(or_(not_(self.pcond()), c))
        self.loops_unrolled.append(self.where())
        self.assume(c)

    def symbolic_seq(self, v):
        """-> (start, stop, step, at) when the number of iterations is not a constant."""
        if isinstance(v, RangeV):
            return (v.a, v.b, v.c, lambda i: i)
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise AbsRaise("TypeError", "iteration over a 0-d array", self.where())
            if isinstance(v.shape[0], int):
                return None
            return (0, v.shape[0], 1, lambda i: self.lib.getitem(self, v, i))
        if isinstance(v, SymSeq):
            return (0, v.n, 1, v.at)
        if isinstance(v, List) and v.sym is not None:
            return (0, v.sym.n, 1, v.sym.at)
        return None

    def sym_loop(self, s, st, scope):
        a, b, c, at = s
        self.nloops += 1
        if c == 1 or (isinstance(c, Node) and N.is_const(c) and c.attr == 1):
            r = self.summarise(nd(a), nd(b), at, st, scope)
            if r is not None:
                return r
        return self.unroll(a, b, c, at, st, scope)

    def unroll(self, a, b, c, at, st, scope):
        a, b = nd(a), nd(b)
        c = c if isinstance(c, int) else (int(c.attr) if N.is_const(c) else None)
        if c is None:
            raise Unmodelled("symbolic loop step")

        def step(t):
            i = N.add(a, c * t)
            go = cmp("lt", i, b) if c > 0 else cmp("lt", b, i)
            go = self.simplify(go)
            if go.op == "false":
                return NORMAL
            if t >= UNROLL:
                self.bound_assume(not_(go))
                return NORMAL

            def body():
                self.assign(st.target, at(i), scope)
                o = self.exec_block(st.body, scope)
                ob = {k: v for k, v in o.d.items() if k != "cont"}
                out = {k: v for k, v in ob.items() if k != "brk"}
                done = self.simplify(Outcome(ob).done()) if ob else FALSE
                if done.op == "true":
                    return Outcome(out)
                r = self.fork(done, lambda: NORMAL, lambda: step(t + 1), self.merge_outcome)
                return self.join_out(out, r)

            return self.fork(go, body, lambda: NORMAL, self.merge_outcome)

        return step(0)

    class _NoSummary(Exception):
        pass

    def body_once(self, v, at, st, scope, start, stop):
        self.assume(cmp("le", start, v))
        self.assume(cmp("lt", v, stop))
        self.assign(st.target, at(v), scope)
        o = self.exec_block(st.body, scope)
        bad = {k: g for k, (g, _) in o.d.items() if k != "cont" and self.simplify(g).op != "false"}
        if bad:
            raise Interp._NoSummary()
        return NORMAL

    def summarise(self, start, stop, at, st, scope):
        v = N.bvar("i")
        marks = (len(self.raises), len(self.obligations), len(self.calllog), len(self.assumptions))

        def trial():
            return self.run_branch(TRUE, lambda: self.body_once(v, at, st, scope, start, stop))

        try:
            _, raised, fin, _ = trial()
            del self.raises[marks[0]:]
            del self.obligations[marks[1]:]
            del self.calllog[marks[2]:]
            del self.assumptions[marks[3]:]
            if raised is not None:
                # the body always raises once entered
                nonempty = cmp("lt", start, stop)
                return self.fork(nonempty, lambda: (_ for _ in ()).throw(raised), lambda: NORMAL, self.merge_outcome)
            mk = {}
            olds = {}
            targets = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}

            def second():
                for k, (cell, key, val) in fin.items():
                    old = cell.jget(key)
                    olds[k] = old
                    if isinstance(cell, StCell):
                        name = self.fresh("old")
                        mk[k] = name
                        self.note_storage(cell.st)
                        cell.st.content = A.Content(lambda idx, name=name: N.app(name, *idx))
                    elif isinstance(cell, Scope) and key in targets:
                        continue
                    elif old is MISSING:
                        continue
                    elif is_scalar(old):
                        s = N.sym(self.fresh("old"), "real")
                        mk[k] = s
                        self.set(cell, key, s)
                    elif isinstance(old, Arr):
                        name = self.fresh("old")
                        mk[k] = name
                        m = Arr(old.kind, old.shape, lambda idx, name=name: N.app(name, *idx), old.dtype)
                        m.xdtype = old.xdtype
                        self.set(cell, key, m)
                    elif isinstance(cell, List):
                        mk[k] = ("list",)
                    else:
                        raise Interp._NoSummary()
                return self.body_once(v, at, st, scope, start, stop)

            _, raised, fin2, _ = self.run_branch(TRUE, second)
            if raised is not None:
                raise Interp._NoSummary()
            # raises recorded inside the body become existential over the loop variable
            for r in self.raises[marks[0]:]:
                r.cond = N.reduce_("any", v, stop, and_(cmp("le", start, v), r.cond))
            for j in range(marks[1], len(self.obligations)):
                p, c, t, w = self.obligations[j]
                self.obligations[j] = (TRUE, N.reduce_("all", v, stop, or_(cmp("lt", v, start), or_(not_(p), c))), t, w)
            return self.finish_summary(v, start, stop, fin2, mk, olds, scope)
        except Interp._NoSummary:
            del self.raises[marks[0]:]
            del self.obligations[marks[1]:]
            del self.calllog[marks[2]:]
            del self.assumptions[marks[3]:]
            return None

    def finish_summary(self, v, start, stop, fin, mk, olds, scope):
        No = Interp._NoSummary
        names = {m for m in mk.values() if isinstance(m, str)}
        syms = {m for m in mk.values() if isinstance(m, Node)}

        def marks_in(n):
            return [x for x in N.walk(n) if (x.op == "app" and x.attr in names) or x in syms]

        n_iter = N.sub(stop, start)
        submap = {}  # marker symbol -> value at iteration v
        results = []
        pend = []
        # scalars first
        for k, (cell, key, new) in fin.items():
            old = olds.get(k, MISSING)
            m = mk.get(k)
            if isinstance(cell, StCell) or m == ("list",) or isinstance(new, Arr):
                pend.append((k, cell, key, new, m, old))
                continue
            if isinstance(new, (Choice, tuple)) or not is_scalar(new):
                # temporaries of other kinds: only allowed if never read after the loop
                results.append((cell, key, LoopTemp(new, v, N.sub(stop, 1))))
                continue
            new = nd(new)
            if m is None:
                last = N.subst(new, {v: N.sub(stop, 1)})
                if marks_in(new):
                    pend.append((k, cell, key, new, m, old))
                    continue
                results.append((cell, key, last if old is MISSING else ite(cmp("lt", start, stop), last, nd(old))))
                continue
            if new is m:
                submap[m] = nd(old)
                continue
            if not marks_in(new):
                # overwritten: value of the previous iteration visible before the write
                submap[m] = ite(cmp("eq", v, start), nd(old), N.subst(new, {v: N.sub(v, 1)}))
                results.append((cell, key, ite(cmp("lt", start, stop), N.subst(new, {v: N.sub(stop, 1)}), nd(old))))
                continue
            delta = self.delta(new, m)
            if delta is None or marks_in(delta):
                raise No()
            b = N.bvar("s")
            body = N.subst(delta, {v: N.add(start, b)})
            submap[m] = N.add(nd(old), N.reduce_("sum", b, N.sub(v, start), body))
            results.append((cell, key, N.add(nd(old), N.reduce_("sum", b, n_iter, body))))
        for k, cell, key, new, m, old in pend:
            if isinstance(new, Node):
                e = N.subst(new, submap)
                if marks_in(e):
                    raise No()
                last = N.subst(e, {v: N.sub(stop, 1)})
                results.append((cell, key, last if old is MISSING else ite(cmp("lt", start, stop), last, nd(old))))
                continue
            if m == ("list",):
                oi, osym = old
                ni, nsym = new
                if osym is not None or nsym is not None or oi or len(ni) != 1:
                    raise No()
                val = ni[0]
                self.check_clean(val, marks_in, submap)
                vv = val
                sm = dict(submap)
                results.append((cell, key, ((), SymSeq(n_iter, lambda i, vv=vv, sm=sm: subst_value(subst_value(vv, sm), {v: N.add(start, i)})))))
                continue
            if isinstance(new, Arr) and not isinstance(cell, StCell):
                if m is None:
                    q = tuple(N.bvar("q") for _ in new.shape)
                    e = N.subst(new.get(q), submap)
                    if marks_in(e):
                        raise No()
                    results.append((cell, key, LoopTemp(new, v, N.sub(stop, 1))))
                    continue
                q = tuple(N.bvar("q") for _ in new.shape)
                e = N.subst(new.get(q), submap)
                own = N.app(m, *q)
                if e is own:
                    continue
                if not marks_in(e):
                    results.append((cell, key, LoopTemp(new, v, N.sub(stop, 1), old)))
                    continue
                dl = self.delta(e, own)
                if dl is None or marks_in(dl):
                    raise No()
                b = N.bvar("s")
                body = N.subst(dl, {v: N.add(start, b)})
                tot = N.reduce_("sum", b, n_iter, body)
                ro = old.reader()
                results.append((cell, key, old.like(lambda idx, tot=tot, q=q, ro=ro: N.add(ro(idx), N.subst(tot, dict(zip(q, idx)))))))
                continue
            # storage
            st = cell.st
            rank = st.ndim
            q = tuple(N.bvar("q") for _ in range(rank))
            e = N.subst(new.read(q), submap)
            own = N.app(m, *q)
            if e is own:
                continue
            done = False
            for ax in range(rank):
                # iteration v touches q only if q[ax] == v
                eqn = cmp("eq", v, q[ax])
                off = N.subst(e, {eqn: FALSE})
                if off is not own:
                    continue
                on = N.subst(e, {v: q[ax]})
                ok = True
                for x in marks_in(on):
                    if x.op == "app" and x.attr == m:
                        if x.args[ax] is not q[ax]:
                            ok = False
                    else:
                        ok = False
                if not ok:
                    continue
                guard = and_(cmp("le", start, q[ax]), cmp("lt", q[ax], stop))

                def content(idx, on=on, q=q, guard=guard, m=m, old=old):
                    full = ite(guard, on, N.app(m, *q))
                    g = N.subst(full, dict(zip(q, idx)))
                    return replace_app(g, {m: old.read})

                results.append((cell, key, A.Content(content)))
                done = True
                break
            if done:
                continue
            dl = self.delta(e, own)
            if dl is None or marks_in(dl):
                raise No()
            b = N.bvar("s")
            tot = N.reduce_("sum", b, n_iter, N.subst(dl, {v: N.add(start, b)}))
            results.append((cell, key, A.Content(lambda idx, tot=tot, q=q, old=old: N.add(old.read(idx), N.subst(tot, dict(zip(q, idx)))))))
        for cell, key, val in results:
            if isinstance(val, LoopTemp):
                nv = subst_value(val.v, {val.i: val.last})
                val = nv
            self.note_cell(cell, key)
            cell.jset(key, val)
        return NORMAL

    def check_clean(self, val, marks_in, submap):
        for n in value_nodes(val):
            if marks_in(N.subst(n, submap)):
                raise Interp._NoSummary()

    def delta(self, e, m):
        """e - m when e = m + something, pushed through gates."""
        if e is m:
            return N.ZERO
        if e.op == "add":
            hits = [a for a in e.args if a is m]
            if len(hits) == 1:
                rest = [a for a in e.args if a is not m]
                return N.add(*rest)
            # an add of a gated accumulator
            for j, a in enumerate(e.args):
                if a.op == "ite" and N.contains(a, {m}):
                    d = self.delta(a, m)
                    if d is not None:
                        return N.add(d, *[x for i, x in enumerate(e.args) if i != j])
            return None
        if e.op == "ite":
            if N.contains(e.args[0], {m}):
                return None
            x, y = self.delta(e.args[1], m), self.delta(e.args[2], m)
            if x is None or y is None:
                return None
            return ite(e.args[0], x, y)
        return None

    # ------------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        f = self.resolve(f)
        if isinstance(f, Choice):
            return self.over(f, lambda g: self.call(g, args, kwargs))
        self.ncalls += 1
        if isinstance(f, Bound):
            return self.call(f.func, [f.selfv] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kwargs)
        if isinstance(f, ClassM):
            return self.call(f.f, args, kwargs)
        if isinstance(f, Class):
            return self.construct(f, list(args), kwargs)
        if isinstance(f, ExtFn):
            return self.call_ext(f, list(args), kwargs)
        if isinstance(f, ExtType):
            if f.ctor is None:
                return self.opaque_call(f.name, args, kwargs)
            return self.call_ext(ExtFn(f.name, f.ctor), list(args), kwargs)
        if isinstance(f, Obj):
            c, _ = f.cls.lookup("__call__")
            if c is not MISSING:
                return self.call(c, [f] + list(args), kwargs)
            r = self.lib.call_obj(self, f, list(args), kwargs)
            if r is not MISSING:
                return r
            raise AbsRaise("TypeError", "%s object is not callable" % f.cls.name, self.where())
        if isinstance(f, Opaque):
            return self.opaque_call(f.path, args, kwargs)
        if callable(getattr(f, "vcall", None)):
            return f.vcall(self, list(args), kwargs)
        raise AbsRaise("TypeError", "%r is not callable" % (f,), self.where())

    def opaque_call(self, path, args, kwargs):
        from . import figs

        log = lambda p, a, k: self.calllog.append((p, list(a), dict(k), self.pcond(), self.where()))
        if path.startswith(figs.PLT):
            r = figs.call(self, path, args, kwargs)
            if r is not None:
                log(path, args, kwargs)
                return r
            path = figs.forwarded(self, path)
            if path.endswith(".set") and ".axes[" in path:
                for n, v in kwargs.items():
                    log(path[:-3] + "set_" + n, [v], {})
        log(path, args, kwargs)
        r = Opaque(path + "()")
        r.made = self.calllog[-1]
        return r

    def call_ext(self, f, args, kwargs):
        for i, a in enumerate(args):
            r = self.resolve(a)
            args[i] = r
            if isinstance(r, Choice) and not f.name.startswith("raw:"):
                return self.fork(
                    r.cond,
                    lambda: self.call_ext(f, args[:i] + [r.a] + args[i + 1 :], kwargs),
                    lambda: self.call_ext(f, args[:i] + [r.b] + args[i + 1 :], kwargs),
                )
        for k in list(kwargs):
            r = self.resolve(kwargs[k])
            kwargs = dict(kwargs)
            kwargs[k] = r
            if isinstance(r, Choice):
                return self.fork(
                    r.cond,
                    lambda: self.call_ext(f, args, dict(kwargs, **{k: r.a})),
                    lambda: self.call_ext(f, args, dict(kwargs, **{k: r.b})),
                )
        if args and hasattr(args[0], "oiter") and f.name.startswith("numpy."):
            from . import figs

            r = figs.numpy_on(f, args)
            if r is not None:
                return r
        if args or not kwargs or not f.name.startswith(("numpy.", "torch.", "scipy.")):
            return f.impl(self, args, kwargs)
        try:
            return f.impl(self, args, kwargs)
        except IndexError:
            raise Unmodelled("%s(%s=)" % (f.name, "=, ".join(kwargs)))

    def bind(self, f, args, kwargs):
        a = f.node.args
        kwargs = dict(kwargs)
        out = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        if len(args) > len(pos) and a.vararg is None:
            raise AbsRaise("TypeError", "%s() takes %d positional arguments but %d were given" % (f.qual, len(pos), len(args)), self.where())
        for p, v in zip(pos, args):
            out[p] = v
        for p in pos[len(args) :]:
            if p in kwargs:
                out[p] = kwargs.pop(p)
        for p in pos[: len(args)]:
            if p in kwargs:
                raise AbsRaise("TypeError", "%s() got multiple values for argument '%s'" % (f.qual, p), self.where())
        nd_ = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in out:
                j = i - (len(pos) - nd_)
                if j < 0:
                    raise AbsRaise("TypeError", "%s() missing required argument: '%s'" % (f.qual, p), self.where())
                out[p] = f.defaults[j]
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                out[p.arg] = kwargs.pop(p.arg)
            elif p.arg in f.kwdefaults:
                out[p.arg] = f.kwdefaults[p.arg]
            else:
                raise AbsRaise("TypeError", "%s() missing keyword-only argument '%s'" % (f.qual, p.arg), self.where())
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(pos) :])
        if a.kwarg is not None:
            out[a.kwarg.arg] = Dict(kwargs)
        elif kwargs:
            raise AbsRaise("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.qual, next(iter(kwargs))), self.where())
        return out

    def memo_key(self, v):
        if isinstance(v, Node):
            return ("n", v.id)
        if isinstance(v, (int, str, bool, type(None))):
            return (type(v).__name__, v)
        if isinstance(v, tuple):
            return tuple(self.memo_key(x) for x in v)
        if isinstance(v, (Arr, List, Dict, SetV)):
            raise AbsRaise("TypeError", "unhashable argument of a cached function", self.where())
        return ("o", id(v))

    def call_func(self, f, args, kwargs):
        if len(self.frames) > 180:
            raise Unmodelled("recursion too deep at %s" % self.where())
        vals = self.bind(f, args, kwargs)
        key = None
        if f.memo is not None:
            key = tuple((k, self.memo_key(v)) for k, v in vals.items())
            if key in f.memo_cell.d:
                return f.memo_cell.d[key]
        sc = Scope(f.scope, f.module, f.qual)
        sc.vars = vals
        sc.cls = f.cls if f.cls is not None else (f.scope.cls if f.scope is not None else None)
        sc.selfv = args[0] if args and f.cls is not None else (f.scope.selfv if f.scope is not None else None)
        path = os.path.relpath(f.module.path, self.root)
        self.analysed.setdefault((path, f.qual), getattr(f.node, "lineno", 0))
        hook = self.hooks.get(f.qual)
        if hook is not None:
            hook(self, f, vals)
        self.frames.append([path, f.qual, getattr(f.node, "lineno", 0)])
        npc = len(self.pc)
        ngr = self.nograd
        if getattr(f, "nograd", False):
            self.nograd += 1
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body, sc)
            else:
                if f.isgen:
                    sc.vars["@yield"] = List() if self.ctxsink is None else self.ctxsink
                    self.ctxsink = None
                o = self.exec_block(f.node.body, sc)
                if f.isgen:
                    r = sc.vars["@yield"]
                    r = r if isinstance(r, List) else None
                elif "ret" in o.d:
                    g, v = o.d["ret"]
                    g = self.simplify(g)
                    r = v if g.op == "true" else self.merge(g, v, None)
                else:
                    r = None
                if "exc" in o.d:
                    g, e = o.d["exc"]
                    self.raises.append(RaiseRec(and_(self.pcond(), g), e.exc, e.msg, e.where))
                    self.assume(not_(g))
        finally:
            self.frames.pop()
            self.nograd = ngr
        if key is not None:
            self.note(f.memo_cell, None)
            f.memo_cell.d[key] = r
        return r

    def construct(self, c, args, kwargs):
        if c.enum:
            for v in c.attrs.values():
                if isinstance(v, EnumVal) and (v.value is args[0] or (isinstance(args[0], (str, int)) and v.value == args[0])):
                    return v
            raise AbsRaise("ValueError", "not a valid %s" % c.name, self.where())
        if any(isinstance(b, ExtType) and b.name in self.lib.EXC_NAMES for b in c.mro()):
            self.lib.EXC_PARENT.setdefault(c.name, next(b.name for b in c.bases if hasattr(b, "name")))
            return ExcV(c.name, tuple(args), c)
        if any(b is self.lib.NTBASE for b in c.mro()):
            fields = next(x for x in c.mro() if isinstance(x, Class) and x.dataclass).dataclass[0]
            o = Obj(c)
            self.dataclass_init(c, o, list(args), dict(kwargs))
            return NT.make(c, [o.attrs[f[0]] for f in fields])
        o = Obj(c)
        init, owner = c.lookup("__init__")
        if init is not MISSING:
            self.call(init, [o] + args, kwargs)
        elif c.dataclass:
            self.dataclass_init(c, o, args, kwargs)
        else:
            self.lib.ext_init(self, c, o, args, kwargs)
        return o

    def dataclass_init(self, c, o, args, kwargs):
        fields, opts = c.dataclass
        names = [f[0] for f in fields if f[4]]
        posn = [f[0] for f in fields if f[4] and not f[5]]
        if len(args) > len(posn):
            raise AbsRaise("TypeError", "%s() takes %d arguments" % (c.name, len(posn)), self.where())
        given = dict(zip(posn, args))
        for k, v in kwargs.items():
            if k not in names:
                raise AbsRaise("TypeError", "%s() got an unexpected keyword argument '%s'" % (c.name, k), self.where())
            if k in given:
                raise AbsRaise("TypeError", "multiple values for " + k, self.where())
            given[k] = v
        initvars = []
        for name, dv, fac, isiv, init, kwo in fields:
            if name in given:
                v = given[name]
            elif fac is not MISSING:
                v = self.call(fac, [])
            elif dv is not MISSING:
                v = dv
            elif not init:
                continue
            else:
                raise AbsRaise("TypeError", "%s() missing argument '%s'" % (c.name, name), self.where())
            if isiv:
                initvars.append(v)
            else:
                self.set(o, name, v)
        post, _ = c.lookup("__post_init__")
        if post is not MISSING:
            self.call(post, [o] + initvars)

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name, default=MISSING):
        o = self.resolve(o)
        if isinstance(o, Choice):
            return self.over(o, lambda x: self.getattr(x, name, default))
        r = self.getattr_(o, name)
        if r is MISSING:
            if default is not MISSING:
                return default
            op = name[2:-2] if name[:2] == "__" == name[-2:] else ""
            if op:
                f = self.lib.dunder(self, o, op)
                if f is not None:
                    return f
            raise AbsRaise("AttributeError", "%s has no attribute '%s'" % (self.descr(o), name), self.where())
        return r

    def descr(self, o):
        if isinstance(o, Obj):
            return "'%s' object" % o.cls.name
        if isinstance(o, Module):
            return "module '%s'" % o.name
        return repr(o)

    def bindm(self, v, o, cls):
        if isinstance(v, Func):
            return Bound(v, o)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, cls)
        if isinstance(v, ExtFn) and getattr(v, "method", False):
            return Bound(v, o)
        return v

    def getattr_(self, o, name):
        if isinstance(o, Obj):
            v, owner = o.cls.lookup(name)
            if isinstance(v, Prop):
                if v.cached:
                    if name in o.attrs:
                        return o.attrs[name]
                    r = self.call(v.get, [o])
                    self.set(o, name, r)
                    return r
                return self.call(v.get, [o])
            if name in o.attrs:
                x = o.attrs[name]
                if isinstance(x, Choice):
                    x = self.resolve(x)
                    if isinstance(x, Choice) and (x.a is MISSING or x.b is MISSING):
                        bad = x.cond if x.a is MISSING else not_(x.cond)
                        self.raises.append(RaiseRec(and_(self.pcond(), bad), "AttributeError", name, self.where()))
                        self.assume(not_(bad))
                        return self.resolve(x.b if x.a is MISSING else x.a)
                return x
            if v is not MISSING:
                return self.bindm(v, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return AttrDict(o)
            r = self.lib.ext_attr(self, o, name)
            if r is not MISSING:
                return r
            ga, _ = o.cls.lookup("__getattr__")
            if ga is not MISSING:
                return self.call(ga, [o, name])
            return MISSING
        if isinstance(o, Class):
            if name in ("__name__", "__qualname__"):
                return o.name
            v, owner = o.lookup(name)
            if v is MISSING:
                if o.enum and name == "__members__":
                    return Dict({k: x for k, x in o.attrs.items() if isinstance(x, EnumVal)})
                return self.lib.ext_class_attr(self, o, name)
            if isinstance(v, StaticM):
                return v.f
            if isinstance(v, ClassM):
                return Bound(v.f, o)
            return v
        if isinstance(o, NT):
            names = self.lib.nt_fields(o)
            if name in names:
                return o[names.index(name)]
            v, _ = o.cls.lookup(name)
            if isinstance(v, Prop):
                return self.call(v.get, [o])
            if v is not MISSING:
                return self.bindm(v, o, o.cls)
            r = self.lib.nt_attr(self, o, name)
            if r is not MISSING:
                return r
        if isinstance(o, Module):
            if name in o.vars:
                return o.vars[name]
            sub = self.load(o.name + "." + name)
            if sub is not None:
                return sub
            return MISSING
        if isinstance(o, SuperV):
            mro = (o.selfv.cls if isinstance(o.selfv, Obj) else o.selfv).mro()
            i = mro.index(o.cls)
            for c in mro[i + 1 :]:
                if isinstance(c, Class):
                    if name in c.attrs:
                        v = c.attrs[name]
                        if isinstance(v, Prop):
                            return self.call(v.get, [o.selfv])
                        return self.bindm(v, o.selfv, o.selfv.cls if isinstance(o.selfv, Obj) else o.selfv)
                    if name == "__init__" and c.dataclass:
                        return ExtFn("dcinit", lambda it, a, k, c=c: it.dataclass_init(c, o.selfv, a, k))
                else:
                    r = self.lib.super_attr(self, c, o.selfv, name)
                    if r is not MISSING:
                        return r
            if name in ("__init__", "__init_subclass__", "__post_init__"):
                return ExtFn("object.__init__", lambda it, a, k: None)
            if name == "__setattr__":
                return ExtFn("object.__setattr__", lambda it, a, k: it.set(o.selfv, a[0], a[1]))
            return MISSING
        if isinstance(o, Opaque):
            if hasattr(o, "oattr"):
                return o.oattr(self, name)
            return Opaque(o.path + "." + name)
        if isinstance(o, EnumVal):
            if name == "name":
                return o.name
            if name == "value":
                return o.value
            v, _ = o.cls.lookup(name)
            if isinstance(v, Func):
                return Bound(v, o)
            if isinstance(v, Prop):
                return self.call(v.get, [o])
            return MISSING
        if isinstance(o, (Func, Bound)) and name in ("__name__", "__qualname__"):
            f = o.func if isinstance(o, Bound) else o
            return f.qual.split(".")[-1] if isinstance(f, Func) else "f"
        if isinstance(o, Func) and name in getattr(o, "fattrs", {}):
            return o.fattrs[name]
        return self.lib.value_attr(self, o, name)

    def setattr(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, Choice):
            return self.over(o, lambda x: self.setattr(x, name, v))
        if isinstance(o, Obj):
            p, _ = o.cls.lookup(name)
            if isinstance(p, Prop) and not p.cached:
                if p.set is None:
                    raise AbsRaise("AttributeError", "can't set attribute '%s'" % name, self.where())
                self.call(p.set, [o, v])
                return
            sa, _ = o.cls.lookup("__setattr__")
            if sa is not MISSING and not self.state.get("in_setattr"):
                self.state["in_setattr"] = True
                try:
                    self.call(sa, [o, name, v])
                finally:
                    self.state["in_setattr"] = False
                return
            if o.cls.dataclass and o.cls.dataclass[1].get("frozen") is True and any(f[1] == o.cls.name + ".x" for f in []):
                raise AbsRaise("FrozenInstanceError", name, self.where())
            if self.lib.ext_setattr(self, o, name, v):
                return
            self.set(o, name, v)
            return
        if isinstance(o, (Class, Module)):
            self.set(o, name, v)
            return
        if isinstance(o, Func):
            if not hasattr(o, "fattrs"):
                o.fattrs = {}
            o.fattrs[name] = v
            return
        if isinstance(o, Opaque):
            self.calllog.append((o.path + "." + name + "=", [v], {}, self.pcond(), self.where()))
            return
        if self.lib.value_setattr(self, o, name, v):
            return
        if isinstance(o, SuperV):
            self.set(o.selfv, name, v)
            return
        raise AbsRaise("AttributeError", "%s cannot set '%s'" % (self.descr(o), name), self.where())

    def hasattr(self, o, name):
        o = self.resolve(o)
        if isinstance(o, Obj) and name in o.attrs and isinstance(o.attrs[name], Choice):
            x = self.resolve(o.attrs[name])
            if isinstance(x, Choice) and (x.a is MISSING or x.b is MISSING):
                return not_(x.cond) if x.a is MISSING else x.cond
        try:
            return self.getattr_(o, name) is not MISSING
        except AbsRaise as e:
            if e.exc == "AttributeError":
                return False
            raise

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        """-> True / False / Node"""
        v = self.resolve(v)
        if v is None or v is False:
            return False
        if v is True:
            return True
        if isinstance(v, int):
            return v != 0
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, Node):
            return unconst(self.simplify(A.truth(v)))
        if isinstance(v, Choice):
            a, b = self.truth(v.a) if v.a is not MISSING else False, self.truth(v.b) if v.b is not MISSING else False
            return unconst(self.simplify(ite(v.cond, nd(a), nd(b))))
        if isinstance(v, Arr):
            if v.ndim == 0 or all(isinstance(s, int) and s == 1 for s in v.shape):
                return unconst(self.simplify(A.truth(v.get(tuple(N.ZERO for _ in v.shape)))))
            raise AbsRaise("ValueError", "The truth value of an array with more than one element is ambiguous", self.where())
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, List):
            if v.sym is not None:
                return unconst(self.simplify(cmp("lt", 0, v.sym.n)))
            return bool(v.items)
        if isinstance(v, Dict):
            return bool(v.d)
        if isinstance(v, SetV):
            return bool(v.items)
        if isinstance(v, Opaque):
            if hasattr(v, "oattr"):
                return True
            return N.sym("opaque:" + v.path, "bool")
        if isinstance(v, Obj):
            b, _ = v.cls.lookup("__bool__")
            if b is not MISSING:
                return self.truth(self.call(b, [v]))
            b, _ = v.cls.lookup("__len__")
            if b is not MISSING:
                return self.truth(self.call(b, [v]))
            return True
        if isinstance(v, RangeV):
            return unconst(self.simplify(cmp("lt", v.a, v.b)))
        return True

    # ------------------------------------------------------------------ iteration
    def iterate(self, v):
        v = self.resolve(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, List):
            if v.sym is not None:
                raise Unmodelled("iteration over a symbolic list")
            return list(v.items)
        if isinstance(v, list):
            return list(v)
        if isinstance(v, Dict):
            return list(v.d.keys())
        if isinstance(v, SetV):
            return list(v.items)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise AbsRaise("TypeError", "iteration over a 0-d array", self.where())
            if isinstance(v.shape[0], int):
                return [self.lib.getitem(self, v, i) for i in range(v.shape[0])]
            raise Unmodelled("iteration over an array of symbolic length")
        if isinstance(v, Class) and v.enum:
            return [x for x in v.attrs.values() if isinstance(x, EnumVal)]
        if isinstance(v, Obj):
            it, _ = v.cls.lookup("__iter__")
            if it is not MISSING:
                return self.iterate(self.call(it, [v]))
            r = self.lib.iter_obj(self, v)
            if r is not None:
                return r
        if isinstance(v, Opaque):
            if hasattr(v, "oiter"):
                return v.oiter(self)
            return [Opaque(v.path + "[*]")]
        if v is None or is_scalar(v):
            raise AbsRaise("TypeError", "object is not iterable", self.where())
        r = self.lib.iter_obj(self, v)
        if r is not None:
            return r
        raise Unmodelled("iteration over %r" % (v,))

    # ------------------------------------------------------------------ items
    def key(self, k):
        k = self.resolve(k)
        if isinstance(k, (str, int, bool, type(None), EnumVal)):
            return k
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, Node):
            if N.is_const(k) and k.attr.denominator == 1:
                return int(k.attr)
            return k
        if isinstance(k, (Class, ExtType, Func, Obj)):
            return k
        if isinstance(k, (List, Dict, Arr)):
            raise AbsRaise("TypeError", "unhashable key", self.where())
        return k

    def getitem(self, o, i):
        o = self.resolve(o)
        if isinstance(o, Choice):
            return self.over(o, lambda x: self.getitem(x, i))
        i = self.resolve(i)
        if isinstance(i, Choice):
            return self.over(i, lambda x: self.getitem(o, x))
        if isinstance(o, Arr):
            return self.lib.getitem(self, o, i)
        if isinstance(o, (tuple, List)):
            if isinstance(o, List) and o.sym is not None:
                if isinstance(i, Sl):
                    raise Unmodelled("slice of a symbolic list")
                i = self.lib.as_int(self, i)
                if isinstance(i, int) and i < 0:
                    return o.sym.at(N.add(nd(o.sym.n), i))
                return o.sym.at(nd(i))
            xs = o if isinstance(o, tuple) else o.items
            if isinstance(i, Sl):
                try:
                    s = slice(*[None if x is None else self.lib.conc_int(self, x) for x in (i.a, i.b, i.c)])
                except Unmodelled:
                    a, b = (0 if i.a is None else i.a), (len(xs) if i.b is None else i.b)
                    if i.c not in (None, 1):
                        raise
                    a, b = A.clampi(a, len(xs)), A.clampi(b, len(xs))
                    items = list(xs)
                    n = N.fn("max", N.sub(b, a), N.ZERO)
                    r = List()
                    r.sym = SymSeq(n, lambda j: self.pick(items, N.add(a, j)))
                    return r
                r = xs[s]
                return tuple(r) if isinstance(o, tuple) else List(r)
            if isinstance(i, Arr) and i.ndim == 0:
                i = i.get(())
            if isinstance(i, Node) and N.is_const(i):
                i = int(i.attr)
            if isinstance(i, bool):
                i = int(i)
            if isinstance(i, int):
                if i >= len(xs) or i < -len(xs):
                    raise AbsRaise("IndexError", "index out of range", self.where())
                return xs[i]
            if isinstance(i, Node):
                if i.op == "ite":
                    return self.merge(i.args[0], self.getitem(o, unN(i.args[1])), self.getitem(o, unN(i.args[2])))
                return self.pick(list(xs), ite(cmp("lt", i, 0), N.add(i, len(xs)), i))
            raise AbsRaise("TypeError", "list indices must be integers", self.where())
        if isinstance(o, Dict):
            k = self.key(i)
            if k in o.d:
                v = o.d[k]
                if isinstance(v, Choice):
                    v = self.resolve(v)
                    if isinstance(v, Choice) and (v.a is MISSING or v.b is MISSING):
                        if getattr(o, "factory", None) is not None:
                            raise Unmodelled("a defaultdict entry made on some paths only")
                        bad = v.cond if v.a is MISSING else not_(v.cond)
                        self.raises.append(RaiseRec(and_(self.pcond(), bad), "KeyError", str(k), self.where()))
                        self.assume(not_(bad))
                        return self.resolve(v.b if v.a is MISSING else v.a)
                return v
            if isinstance(k, Node):
                # symbolic key: gated selection over the known keys
                for kk in o.d:
                    if isinstance(kk, Node) and kk is k:
                        return o.d[kk]
                raise Unmodelled("dict lookup with a symbolic key")
            fac = getattr(o, "factory", None)
            if fac is not None:
                v = self.call(fac, [])
                self.setitem(o, i, v)
                return v
            raise AbsRaise("KeyError", str(k), self.where())
        if isinstance(o, str):
            if isinstance(i, Sl):
                return o[slice(i.a, i.b, i.c)]
            if isinstance(i, int):
                if i >= len(o) or i < -len(o):
                    raise AbsRaise("IndexError", "string index out of range", self.where())
                return o[i]
        if isinstance(o, RangeV):
            return N.add(nd(o.a), N.mul(nd(o.c), nd(i)))
        if isinstance(o, SymSeq):
            return o.at(nd(i))
        if isinstance(o, Opaque):
            t = i if isinstance(i, tuple) else None
            if hasattr(o, "ogetitem"):
                return o.ogetitem(self, i)
            if t is not None and t and all(isinstance(x, int) for x in t):  # a panel of a grid of figures
                return Opaque(o.path + "[%s]" % ",".join(str(x) for x in t))
            return Opaque(o.path + "[%s]" % (i if isinstance(i, (str, int)) else "…"))
        if isinstance(o, Class) and o.enum and isinstance(i, str):
            v = o.attrs.get(i)
            if isinstance(v, EnumVal):
                return v
            raise AbsRaise("KeyError", i, self.where())
        if isinstance(o, Obj):
            g, _ = o.cls.lookup("__getitem__")
            if g is not MISSING:
                return self.call(g, [o, i])
        r = self.lib.getitem_other(self, o, i)
        if r is not MISSING:
            return r
        if o is None:
            raise AbsRaise("TypeError", "'NoneType' object is not subscriptable", self.where())
        if isinstance(o, (ExtType, ExtFn, Class)):
            return o  # generic alias
        raise AbsRaise("TypeError", "%s is not subscriptable" % self.descr(o), self.where())

    def setitem(self, o, i, v):
        o = self.resolve(o)
        if isinstance(o, Choice):
            return self.over(o, lambda x: self.setitem(x, i, v))
        i = self.resolve(i)
        if isinstance(i, Choice):
            return self.over(i, lambda x: self.setitem(o, x, v))
        if isinstance(o, Arr):
            return self.over(v, lambda x: self.lib.setitem(self, o, i, x))
        if isinstance(o, List):
            self.note(o, None)
            if isinstance(i, Sl):
                o.items[slice(i.a, i.b, i.c)] = self.iterate(v)
                return
            i = self.lib.as_int(self, i)
            if isinstance(i, int):
                if i >= len(o.items) or i < -len(o.items):
                    raise AbsRaise("IndexError", "list assignment index out of range", self.where())
                o.items[i] = v
            else:
                o.items = [self.merge(cmp("eq", i, j), v, x) for j, x in enumerate(o.items)]
            return
        if isinstance(o, Dict):
            self.note(o, None)
            o.d[self.key(i)] = v
            return
        if isinstance(o, Obj):
            g, _ = o.cls.lookup("__setitem__")
            if g is not MISSING:
                self.call(g, [o, i, v])
                return
        if isinstance(o, Opaque):
            self.calllog.append((o.path + "[]=", [i, v], {}, self.pcond(), self.where()))
            return
        if self.lib.setitem_other(self, o, i, v):
            return
        raise AbsRaise("TypeError", "%s does not support item assignment" % self.descr(o), self.where())

    # ------------------------------------------------------------------ expressions
    def ev(self, e, scope):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unmodelled("expression %s at %s" % (type(e).__name__, self.where()))
        return m(e, scope)

    def e_Constant(self, e, scope):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
            return v
        if isinstance(v, float):
            return N.const(v)
        if isinstance(v, complex):
            return N.mul(N.I, N.const(v.imag))
        if v is Ellipsis:
            return Ellipsis
        if isinstance(v, bytes):
            return v.decode("latin1")
        raise Unmodelled("constant")

    def e_Name(self, e, scope):
        return self.getname(e.id, scope)

    def e_Attribute(self, e, scope):
        return self.getattr(self.ev(e.value, scope), e.attr)

    def e_Tuple(self, e, scope):
        return tuple(self.elts(e.elts, scope))

    def e_List(self, e, scope):
        return List(self.elts(e.elts, scope))

    def e_Set(self, e, scope):
        return SetV([self.key(x) for x in self.elts(e.elts, scope)])

    def elts(self, elts, scope):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, scope)))
            else:
                out.append(self.ev(x, scope))
        return out

    def e_Dict(self, e, scope):
        d = Dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.resolve(self.ev(v, scope))
                if isinstance(o, Dict):
                    d.d.update(o.d)
                else:
                    raise Unmodelled("dict unpack")
            else:
                d.d[self.key(self.ev(k, scope))] = self.ev(v, scope)
        return d

    def e_JoinedStr(self, e, scope):
        parts, ok = [], True
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.resolve(self.ev(p.value, scope))
                spec = None
                if p.format_spec is not None:
                    spec = self.ev(p.format_spec, scope)
                x = self.fmt_one(v, spec)
                ok = ok and isinstance(x, str)
                parts.append(x)
        if ok:
            return "".join(parts)
        return FStr(parts)

    def fmt_one(self, v, spec):
        """Text of one formatted value where it is determined, a hole otherwise."""
        if (isinstance(v, str) or isinstance(v, int)) and not spec:
            return str(v)
        if isinstance(v, (int, str)) and isinstance(spec, str):
            try:
                return format(v, spec)
            except ValueError:
                raise AbsRaise("ValueError", "Invalid format specifier", self.where())
        if v is None:
            if spec:
                raise AbsRaise("TypeError", "unsupported format string passed to NoneType.__format__", self.where())
            return "None"
        if isinstance(v, EnumVal):
            return repr(v)
        return StrHole(v)

    def e_FormattedValue(self, e, scope):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), scope)

    def e_IfExp(self, e, scope):
        c = self.truth(self.ev(e.test, scope))
        if c is True:
            return self.ev(e.body, scope)
        if c is False:
            return self.ev(e.orelse, scope)
        return self.fork(c, lambda: self.ev(e.body, scope), lambda: self.ev(e.orelse, scope))

    def e_BoolOp(self, e, scope):
        isand = isinstance(e.op, ast.And)

        def go(vals):
            v = self.ev(vals[0], scope)
            if len(vals) == 1:
                return v
            t = self.truth(v)
            if t is True:
                return go(vals[1:]) if isand else v
            if t is False:
                return v if isand else go(vals[1:])
            if isinstance(self.resolve(v), (Node, Choice)) is False and isinstance(v, Arr):
                v = t
            if isand:
                r = self.fork(t, lambda: go(vals[1:]), lambda: FALSE if isinstance(v, Node) and v is t else v)
            else:
                r = self.fork(t, lambda: TRUE if isinstance(v, Node) and v is t else v, lambda: go(vals[1:]))
            return r

        return go(e.values)

    def e_UnaryOp(self, e, scope):
        v = self.ev(e.operand, scope)
        op = type(e.op).__name__
        if op == "Not":
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else not_(t)
        return self.over(v, lambda x: self.lib.unop(self, op, x))

    def e_BinOp(self, e, scope):
        a = self.ev(e.left, scope)
        b = self.ev(e.right, scope)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Choice) or isinstance(b, Choice):
            return self.over_all([a, b], lambda x, y: self.lib.binop(self, op, x, y))
        return self.lib.binop(self, op, a, b)

    def e_Compare(self, e, scope):
        left = self.ev(e.left, scope)
        res = True
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, scope)
            r = self.compare(type(op).__name__, left, right)
            if res is True:
                res = r
            elif isinstance(res, Arr) or isinstance(r, Arr):
                res = self.lib.binop(self, "BitAnd", res, r)
            else:
                res = unconst(and_(nd(res), nd(r)))
            if res is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if op in ("Is", "IsNot"):
            r = self.identical(a, b)
            return r if op == "Is" else ((not r) if isinstance(r, bool) else not_(r))
        if isinstance(a, Choice) or isinstance(b, Choice):
            return self.over_all([a, b], lambda x, y: self.compare(op, x, y))
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else ((not r) if isinstance(r, bool) else not_(r))
        return self.lib.compare(self, op, a, b)

    def identical(self, a, b):
        if isinstance(a, Choice):
            return unconst(self.simplify(ite(a.cond, nd(self.identical(a.a, b)), nd(self.identical(a.b, b)))))
        if isinstance(b, Choice):
            return self.identical(b, a)
        if a is None or b is None:
            if isinstance(a, Node) and a.op in ("ite", "none", "sym") or isinstance(b, Node) and b.op in ("ite", "none", "sym"):
                x = a if isinstance(a, Node) else b
                if x.op == "none":
                    return True
                return False
            return a is b
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool) or isinstance(b, bool):
            # `x is True` on symbolic booleans
            x, y = (a, b) if isinstance(b, bool) else (b, a)
            if isinstance(x, Node) and (x.op in ("eq", "lt", "le", "not", "and") or (x.op == "sym" and x.attr[1] == "bool")):
                return x if y else not_(x)
            return False
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return type(a) is type(b) and a == b
        if isinstance(a, EnumVal) and isinstance(b, EnumVal):
            return a is b or (a.cls is b.cls and a.name == b.name)
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.func is b.func and a.selfv is b.selfv
        return a is b

    def contains(self, cont, x):
        if isinstance(cont, str):
            if isinstance(x, str):
                return x in cont
            raise AbsRaise("TypeError", "'in <string>' requires string", self.where())
        if isinstance(cont, Dict):
            k = self.key(x)
            v = cont.d.get(k, MISSING)
            if isinstance(v, Choice) and (v.a is MISSING or v.b is MISSING):
                return not_(v.cond) if v.a is MISSING else v.cond
            if isinstance(k, Node):
                return unconst(or_(*[nd(self.eq(k, kk)) for kk in cont.d]))
            return k in cont.d
        if isinstance(cont, Arr):
            r = self.lib.compare(self, "Eq", cont, x)
            return self.truth(self.lib.reduce_any(self, r))
        if isinstance(cont, Opaque):
            return N.sym(self.fresh("in:" + cont.path), "bool")
        if isinstance(cont, RangeV):
            return unconst(and_(cmp("le", cont.a, x), cmp("lt", x, cont.b)))
        if isinstance(cont, range) and isinstance(x, int):
            return x in cont
        s = self.symbolic_seq(cont)
        if s is not None:
            raise Unmodelled("membership in a symbolic sequence")
        res = FALSE
        for y in self.iterate(cont):
            r = self.identical(x, y)
            if r is not True:
                r = self.eq(x, y)
            if r is True:
                return True
            res = or_(res, nd(r))
        return unconst(res)

    def eq(self, a, b):
        r = self.compare("Eq", a, b)
        return self.truth(r)

    def e_Call(self, e, scope):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and "super" not in scope.vars:
            s = scope
            return SuperV(s.cls, s.selfv)
        f = self.ev(e.func, scope)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.resolve(self.ev(a.value, scope))
                args.extend(self.iterate(v))
            else:
                args.append(self.ev(a, scope))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.resolve(self.ev(k.value, scope))
                if isinstance(v, Dict):
                    for kk, x in v.d.items():
                        if kk in kwargs:
                            raise AbsRaise("TypeError", "multiple values for keyword argument '%s'" % kk, self.where())
                        kwargs[kk] = x
                elif isinstance(v, Opaque):
                    pass
                else:
                    raise Unmodelled("** of %r" % (v,))
            else:
                if k.arg in kwargs:
                    raise AbsRaise("TypeError", "multiple values for keyword argument '%s'" % k.arg, self.where())
                kwargs[k.arg] = self.ev(k.value, scope)
        if isinstance(f, ExtFn) and f.name in ("locals", "vars") and not args:
            return Dict({k: v for k, v in scope.vars.items()})
        if self.frames:
            self.frames[-1][2] = e.lineno
        return self.call(f, args, kwargs)

    def e_Lambda(self, e, scope):
        return self.make_func(e, scope, "<lambda>")

    def e_Subscript(self, e, scope):
        o = self.ev(e.value, scope)
        i = self.ev_index(e.slice, scope)
        return self.getitem(o, i)

    def ev_index(self, e, scope):
        if isinstance(e, ast.Slice):
            return self.e_Slice(e, scope)
        if isinstance(e, ast.Tuple):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.iterate(self.ev(x.value, scope)))
                else:
                    out.append(self.ev_index(x, scope))
            return tuple(out)
        return self.ev(e, scope)

    def e_Slice(self, e, scope):
        f = lambda x: None if x is None else self.lib.as_int(self, self.ev(x, scope))
        return Sl(f(e.lower), f(e.upper), f(e.step))

    def e_Starred(self, e, scope):
        return self.ev(e.value, scope)

    def e_NamedExpr(self, e, scope):
        v = self.ev(e.value, scope)
        s = scope
        while isinstance(s, CompScope):
            s = s.parent
        self.setname(e.target.id, v, s)
        return v

    def e_Yield(self, e, scope):
        v = self.ev(e.value, scope) if e.value is not None else None
        s = scope
        while "@yield" not in s.vars:
            s = s.parent
        if not isinstance(s.vars["@yield"], List):
            return s.vars["@yield"](v)
        self.lib.list_append(self, s.vars["@yield"], v)
        return None

    def e_YieldFrom(self, e, scope):
        s = scope
        while "@yield" not in s.vars:
            s = s.parent
        self.lib.list_extend(self, s.vars["@yield"], self.ev(e.value, scope))

    def comp(self, gens, scope, emit):
        """Run comprehension generators; emit(scope) is called for each element.  Returns a SymSeq or None."""
        sc = CompScope(scope, scope.module, "<comp>")
        sc.cls, sc.selfv = scope.cls, scope.selfv

        def go(i):
            if i == len(gens):
                emit(sc)
                return None
            g = gens[i]
            seq = self.resolve(self.ev(g.iter, sc if i else scope))
            if isinstance(seq, Choice):
                raise Unmodelled("comprehension over a gated sequence")
            s = self.symbolic_seq(seq)
            if s is not None:
                if len(gens) != 1 or g.ifs:
                    raise Unmodelled("filtered or nested comprehension over a symbolic range")
                return (s, g)
            for x in self.iterate(seq):
                self.assign(g.target, x, sc)

                def conds(j):
                    if j == len(g.ifs):
                        go(i + 1)
                        return None
                    c = self.truth(self.ev(g.ifs[j], sc))
                    if c is True:
                        conds(j + 1)
                    elif c is False:
                        pass
                    else:
                        self.fork(c, lambda: conds(j + 1), lambda: None)

                conds(0)
            return None

        return go(0), sc

    def e_ListComp(self, e, scope):
        out = List()
        r, sc = self.comp(e.generators, scope, lambda s: self.lib.list_append(self, out, self.ev(e.elt, s)))
        if r is not None:
            (a, b, c, at), g = r
            if c not in (1,) and not (isinstance(c, Node) and N.is_const(c) and c.attr == 1):
                raise Unmodelled("strided symbolic comprehension")
            v = N.bvar("i")
            n = len(self.pc)
            self.assume(cmp("le", 0, v))
            self.assume(cmp("lt", v, N.sub(b, a)))
            self.assign(g.target, at(N.add(a, v)), sc)
            val = self.ev(e.elt, sc)
            del self.pc[n:]
            out.sym = SymSeq(N.sub(b, a), lambda i: subst_value(val, {v: nd(i)}))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, scope):
        return SetV([self.key(x) for x in self.iterate(self.e_ListComp(e, scope))])

    def e_DictComp(self, e, scope):
        d = Dict()

        def emit(s):
            self.note(d, None)
            d.d[self.key(self.ev(e.key, s))] = self.ev(e.value, s)

        r, _ = self.comp(e.generators, scope, emit)
        if r is not None:
            raise Unmodelled("dict comprehension over a symbolic range")
        return d

    def e_Await(self, e, scope):
        return self.ev(e.value, scope)


class LoopTemp:
    def __init__(self, v, i, last, old=None):
        self.v, self.i, self.last, self.old = v, i, last, old


class StCell(Cell):
    def __init__(self, st):
        self.st = st

    def jget(self, key):
        return self.st.content

    def jset(self, key, v):
        self.st.content = v


class ClassScope(Scope):
    def __init__(self, outer, klass):
        super().__init__(outer, outer.module, klass.name)
        self.outer, self.klass = outer, klass
        self.annotated = []


class CompScope(Scope):
    pass


class FieldV:
    def __init__(self, default, factory, init=True):
        self.default, self.factory, self.init = default, factory, init


class StrHole:
    def __init__(self, v):
        self.v = v


class FStr:
    """A string with symbolic parts."""

    def __init__(self, parts):
        self.parts = parts


def unN(n):
    if isinstance(n, Node) and N.is_const(n) and n.attr.denominator == 1:
        return int(n.attr)
    return n


def walk_own(body):
    st = list(body)
    while st:
        n = st.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                st.append(c)


def subst_value(v, m):
    if not m:
        return v
    if isinstance(v, Node):
        return N.subst(v, m)
    if isinstance(v, Arr):
        rd = v.reader()
        shape = [x if isinstance(x, int) else A.dim(N.subst(x, m)) for x in v.shape]
        r = Arr(v.kind, shape, lambda idx: _subst_fresh(rd, idx, m), v.dtype)
        r.xdtype = v.xdtype
        r.requires_grad = v.requires_grad
        return r
    if isinstance(v, tuple):
        return NT.like(v, [subst_value(x, m) for x in v])
    if isinstance(v, List) and v.sym is None:
        return List([subst_value(x, m) for x in v.items])
    if isinstance(v, Dict):
        return Dict({k: subst_value(x, m) for k, x in v.d.items()})
    if isinstance(v, Choice):
        return Choice(N.subst(v.cond, m), subst_value(v.a, m), subst_value(v.b, m))
    return v


def _subst_fresh(rd, idx, m):
    """Substitute in rd(q) for fresh q, then q := idx, so that idx is not captured by m."""
    if not any(N.contains(i, set(m)) for i in idx):
        return N.subst(rd(idx), m)
    q = tuple(N.bvar("q") for _ in idx)
    return N.subst(N.subst(rd(q), m), dict(zip(q, idx)))


def value_nodes(v):
    if isinstance(v, Node):
        yield v
    elif isinstance(v, Arr):
        yield v.get(tuple(N.bvar("q") for _ in v.shape))
    elif isinstance(v, tuple):
        for x in v:
            yield from value_nodes(x)
    elif isinstance(v, List) and v.sym is None:
        for x in v.items:
            yield from value_nodes(x)
    elif isinstance(v, Dict):
        for x in v.d.values():
            yield from value_nodes(x)
    elif isinstance(v, Choice):
        yield v.cond
        yield from value_nodes(v.a)
        yield from value_nodes(v.b)


def replace_app(n, m, memo=None):
    """Replace app nodes by name through reader functions."""
    if memo is None:
        memo = {}
    r = memo.get(n.id)
    if r is not None:
        return r
    if not n.args:
        return n
    args = [replace_app(a, m, memo) for a in n.args]
    if n.op == "app" and n.attr in m:
        r = m[n.attr](tuple(args))
    elif all(x is y for x, y in zip(args, n.args)):
        r = n
    else:
        r = N.rebuild(n, args)
    memo[n.id] = r
    return r
