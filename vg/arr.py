"""Abstract arrays: a shape (integers or nodes) and an element function from index nodes to nodes.

Storage is mutable and journaled (the interpreter forks and joins it); its content is an immutable
element function.  A view is a pair of index maps to and from its storage, so reads see later writes
to the base and writes through a view reach the base, as in numpy and torch.
"""
import itertools
import math
from fractions import Fraction

from . import node as N
from .evalr import Unmodelled
from .node import add, cmp, const, fn, ite, mul, nd, sub, TRUE, FALSE, and_


class AbsRaise(Exception):
    """An exception raised by the analysed program on every path reaching this point."""

    def __init__(self, exc, msg="", where=None):
        super().__init__("%s: %s" % (exc, msg))
        self.exc, self.msg, self.where = exc, msg, where


def dim(x):
    """Normalise a size to int where constant."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Arr):
        if x.ndim == 0:
            return dim(x.get(()))
        raise Unmodelled("array used as a size")
    if isinstance(x, Fraction):
        if x.denominator == 1:
            return x.numerator
        raise Unmodelled("fractional size")
    if isinstance(x, N.Node):
        if x.op == "c":
            if x.attr.denominator == 1:
                return x.attr.numerator
            raise AbsRaise("TypeError", "fractional size")
        return x
    raise Unmodelled("size %r" % (x,))


class Content:
    __slots__ = ("fn", "cache")

    def __init__(self, f):
        self.fn = f
        self.cache = {}

    def read(self, idx):
        k = tuple(i.id for i in idx)
        r = self.cache.get(k)
        if r is None:
            r = self.fn(idx)
            if not isinstance(r, N.Node):
                r = nd(r)
            self.cache[k] = r
        return r


class Storage:
    __slots__ = ("content", "name", "version", "ndim")

    def __init__(self, f, name=None, ndim=None):
        self.content = Content(f)
        self.name = name
        self.version = 0
        self.ndim = ndim


JOURNAL = None  # set by the interpreter: object with .note(container, kind, key, old)


class Ctx:
    """Hooks the interpreter installs (current interpreter instance)."""

    interp = None


def set_content(st, f):
    it = Ctx.interp
    if it is not None:
        it.note_storage(st)
    st.content = Content(f)
    st.version += 1


class Arr:
    def __init__(self, kind, shape, f=None, dtype=None, st=None, fwd=None, inv=None):
        self.kind = kind
        self.shape = tuple(dim(s) for s in shape)
        self.dtype = dtype
        self.st = st if st is not None else Storage(f, ndim=len(self.shape))
        self.fwd = fwd
        self.inv = inv
        self.is_param = False
        self.requires_grad = False
        self.xdtype = None  # torch/numpy precision tag when known
        self.tag = None

    @property
    def ndim(self):
        return len(self.shape)

    def get(self, idx):
        idx = tuple(nd(i) for i in idx)
        if len(idx) != len(self.shape):
            raise Unmodelled("index rank")
        if self.fwd is not None:
            idx = tuple(nd(i) for i in self.fwd(idx))
        return self.st.content.read(idx)

    def reader(self):
        """Element function frozen at the current content."""
        c, fwd = self.st.content, self.fwd
        if fwd is None:
            return c.read
        return lambda idx: c.read(tuple(nd(i) for i in fwd(idx)))

    def like(self, f, shape=None, dtype="same", kind=None):
        a = Arr(kind or self.kind, self.shape if shape is None else shape, f, self.dtype if dtype == "same" else dtype)
        a.xdtype = self.xdtype
        return a

    def view(self, shape, fwd, inv):
        """A view of self: fwd maps view idx -> self idx; inv maps self idx -> (cond, view idx)."""
        f0, i0 = self.fwd, self.inv
        if f0 is None:
            f, i = fwd, inv
        else:
            f = lambda idx: f0(tuple(nd(x) for x in fwd(idx)))
            if inv is None or i0 is None:
                i = None
            else:

                def i(bidx):
                    c, m = i0(bidx)
                    c2, m2 = inv(tuple(nd(x) for x in m))
                    return and_(c, c2), m2

        a = Arr(self.kind, shape, None, self.dtype, st=self.st, fwd=f, inv=i)
        a.xdtype = self.xdtype
        a.requires_grad = self.requires_grad or self.is_param
        return a

    def copy(self):
        r = self.reader()
        a = Arr(self.kind, self.shape, r, self.dtype)
        a.xdtype = self.xdtype
        return a

    def base_rank(self):
        return None

    def write(self, g):
        """Store: g(idx, old) -> node for every view index."""
        old = self.st.content
        if self.fwd is None:
            set_content(self.st, lambda idx: g(idx, old.read(idx)))
        else:
            if self.inv is None:
                raise Unmodelled("store through a non-invertible view")
            inv = self.inv

            def f(bidx):
                c, vi = inv(bidx)
                if c.op == "false":
                    return old.read(bidx)
                return ite(c, g(tuple(nd(x) for x in vi), old.read(bidx)), old.read(bidx))

            set_content(self.st, f)

    def __repr__(self):
        return "<%s array %s>" % (self.kind, "x".join(map(str, self.shape)))


# ---------------------------------------------------------------------------------------
# shapes and broadcasting


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return nd(a) is nd(b)


def oblige_eq(a, b, what):
    it = Ctx.interp
    if isinstance(a, int) and isinstance(b, int):
        if a != b:
            raise AbsRaise("ValueError", "shape mismatch in %s: %s vs %s" % (what, a, b), it.where() if it else None)
        return
    if nd(a) is nd(b):
        return
    if it is not None:
        it.obligation(cmp("eq", a, b), "shapes agree in " + what)


def broadcast_shapes(shapes, what="broadcast"):
    n = max(len(s) for s in shapes)
    out = []
    for ax in range(n):
        d = 1
        for s in shapes:
            k = ax - (n - len(s))
            if k < 0:
                continue
            v = s[k]
            if isinstance(v, int) and v == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = v
            elif not same_dim(d, v):
                oblige_eq(d, v, what)
                if isinstance(v, int):
                    d = v
        out.append(d)
    return tuple(out)


def bread(rd, shape, n):
    """Reader of an operand of given shape broadcast to rank n."""
    k = n - len(shape)
    ones = [isinstance(s, int) and s == 1 for s in shape]
    if k == 0 and not any(ones):
        return rd
    zero = N.ZERO

    def f(idx):
        return rd(tuple(zero if ones[j] else idx[j + k] for j in range(len(shape))))

    return f


DT_ORDER = {None: 2, "b": 0, "i": 1, "f": 2, "c": 3, "o": 9}


def join_dtype(ds):
    best = None
    for d in ds:
        if d is None:
            return None if best != "c" else "c"
        if best is None or DT_ORDER[d] > DT_ORDER[best]:
            best = d
    return best


# ---------------------------------------------------------------------------------------
# basic indexing


class Sl:
    """A slice value with abstract bounds."""

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __eq__(self, o):
        return isinstance(o, Sl) and (self.a, self.b, self.c) == (o.a, o.b, o.c)

    def __hash__(self):
        return hash((str(self.a), str(self.b), str(self.c)))


def clampi(x, n):
    """Python index normalisation of a slice bound: negative counts from the end, then clamp to [0,n]."""
    x, n = nd(x), nd(n)
    s = N.sign_of(x)
    if s in ("+", "0+"):
        v = x
    elif s == "-":
        v = add(n, x)
    else:
        v = ite(cmp("lt", x, 0), add(n, x), x)
    # clamp
    if N.sign_of(sub(n, v)) not in ("+", "0+"):
        if not (v is n):
            v = fn("min", v, n)
    if N.sign_of(v) not in ("+", "0+"):
        v = fn("max", v, N.ZERO)
    return v


def norm_slice(sl, n):
    """-> (start, step, length) for positive or negative constant step."""
    step = 1 if sl.c is None else sl.c
    if isinstance(step, N.Node) and step.op == "c":
        step = int(step.attr)
    if not isinstance(step, int) or step == 0:
        raise Unmodelled("symbolic slice step")
    if step > 0:
        a = N.ZERO if sl.a is None else clampi(sl.a, n)
        b = nd(n) if sl.b is None else clampi(sl.b, n)
        ln = sub(b, a)
        if step != 1:
            ln = fn("ceil", mul(Fraction(1, step), ln))
        if N.sign_of(ln) not in ("+", "0+") and not (sl.a is None and sl.b is None):
            if not _is_len(ln):
                ln = fn("max", ln, N.ZERO)
        return a, step, dim(ln)
    if sl.a is None and sl.b is None:
        a = sub(nd(n), 1)
        ln = nd(n) if step == -1 else fn("ceil", mul(Fraction(1, -step), nd(n)))
        return a, step, dim(ln)
    raise Unmodelled("negative-step slice with bounds")


def _is_len(ln):
    return ln.op == "c" and ln.attr >= 0


def norm_index(i, n):
    """Integer index -> non-negative node."""
    i = nd(i)
    s = N.sign_of(i)
    if s in ("+", "0+"):
        r = i
        if N.is_const(i) and isinstance(n, int) and i.attr >= n:
            raise AbsRaise("IndexError", "index %s out of bounds for size %s" % (i.attr, n), Ctx.interp.where() if Ctx.interp else None)
        return r
    if s == "-":
        if N.is_const(i) and isinstance(n, int) and -i.attr > n:
            raise AbsRaise("IndexError", "index %s out of bounds for size %s" % (i.attr, n), Ctx.interp.where() if Ctx.interp else None)
        return add(nd(n), i)
    if i.op in ("bvar",):
        return i
    if not _may_be_negative(i):
        return i
    return ite(cmp("lt", i, 0), add(nd(n), i), i)


def _may_be_negative(i):
    # loop indices and their sums are non-negative by construction
    if i.op == "bvar":
        return False
    if i.op == "add":
        return any(_may_be_negative(a) for a in i.args)
    if i.op == "mul":
        return any(_may_be_negative(a) for a in i.args)
    if i.op == "ite":
        return _may_be_negative(i.args[1]) or _may_be_negative(i.args[2])
    if i.op == "fn" and i.attr in ("mod", "floordiv", "max"):
        return any(_may_be_negative(a) for a in i.args)
    if i.op == "reduce":
        return i.attr not in ("nth", "sum", "argmax", "argmin", "argkth")
    return N.sign_of(i) not in ("+", "0+")


NEWAXIS = "newaxis"


class MaskWhere:
    """Result of np.where(mask) with a single argument."""

    def __init__(self, mask):
        self.mask = mask


def expand_ellipsis(items, ndim):
    used = 0
    for x in items:
        if x is Ellipsis or x is NEWAXIS:
            continue
        if isinstance(x, Arr) and x.dtype == "b":
            used += x.ndim
        else:
            used += 1
    out = []
    seen = False
    for x in items:
        if x is Ellipsis:
            if seen:
                raise Unmodelled("two ellipses")
            seen = True
            out.extend([Sl(None, None, None)] * (ndim - used))
        else:
            out.append(x)
    if not seen:
        out.extend([Sl(None, None, None)] * (ndim - used))
    if used > ndim:
        raise AbsRaise("IndexError", "too many indices for array", Ctx.interp.where() if Ctx.interp else None)
    return out


def basic_view(a, items):
    """items: expanded list of ints/nodes, Sl, NEWAXIS only."""
    shape = []
    fwd_spec = []  # per base axis: ('fix', node) | ('ax', view axis, start, step)
    ax = 0
    inv_axes = []  # per view axis: base axis or None (newaxis)
    for x in items:
        if x is NEWAXIS:
            shape.append(1)
            inv_axes.append(None)
            continue
        n = a.shape[ax]
        if isinstance(x, Sl):
            s, step, ln = norm_slice(x, n)
            fwd_spec.append(("ax", len(shape), s, step, ln, n))
            inv_axes.append(ax)
            shape.append(ln)
        else:
            fwd_spec.append(("fix", norm_index(x, n)))
        ax += 1

    def fwd(idx):
        out = []
        for sp in fwd_spec:
            if sp[0] == "fix":
                out.append(sp[1])
            else:
                _, v, s, step, ln, n = sp
                out.append(add(s, mul(step, idx[v])) if step != 1 else add(s, idx[v]))
        return tuple(out)

    def inv(bidx):
        cs = []
        vi = [N.ZERO] * len(shape)
        for j, sp in enumerate(fwd_spec):
            b = nd(bidx[j])
            if sp[0] == "fix":
                cs.append(cmp("eq", b, sp[1]))
            else:
                _, v, s, step, ln, n = sp
                full = step == 1 and nd(s) is N.ZERO and same_dim(ln, n)
                if full:
                    vi[v] = b
                    continue
                if step == -1 and same_dim(ln, n):
                    vi[v] = sub(s, b)
                    continue
                if step == 1:
                    if not (nd(s) is N.ZERO):
                        cs.append(cmp("le", s, b))
                    if not (nd(add(s, nd(ln))) is nd(n)):
                        cs.append(cmp("lt", b, add(s, nd(ln))))
                    vi[v] = sub(b, s)
                else:
                    q = mul(Fraction(1, step), sub(b, s))
                    cs.append(cmp("eq", fn("mod", sub(b, s), const(abs(step))), 0))
                    cs.append(cmp("le", 0, q))
                    cs.append(cmp("lt", q, nd(ln)))
                    vi[v] = q
        return and_(*cs), tuple(vi)

    return a.view(shape, fwd, inv)


def getitem(a, items):
    if not isinstance(items, tuple):
        items = (items,)
    flat = []
    for x in items:
        if isinstance(x, MaskWhere):
            flat.append(x.mask)
        else:
            flat.append(x)
    items = expand_ellipsis(flat, a.ndim)
    adv = [i for i, x in enumerate(items) if isinstance(x, (Arr, list)) or isinstance(x, tuple)]
    if not adv:
        return basic_view(a, items)
    return advanced_get(a, items)


def _as_index_arr(x):
    if isinstance(x, (list, tuple)):
        if x and all(isinstance(v, bool) for v in x):
            vals = [nd(v) for v in x]
            return Arr("np", (len(vals),), lambda idx: select_list(vals, idx[0]), "b")
        vals = [nd(v) for v in x]
        return Arr("np", (len(vals),), lambda idx: select_list(vals, idx[0]), "i")
    return x


def select_list(vals, i):
    if N.is_const(i):
        return vals[int(i.attr)]
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = ite(cmp("eq", i, j), vals[j], r)
    return r


def mask_count(m):
    if m.ndim != 1:
        raise Unmodelled("compress with a multi-dimensional mask")
    b = N.bvar("m")
    rd = m.reader()
    return N.reduce_("sum", b, nd(m.shape[0]), ite(rd((b,)), N.ONE, N.ZERO))


def mask_nth(m, i):
    b = N.bvar("m")
    return N.reduce_("nth", b, nd(m.shape[0]), m.reader()((b,)), i)


def mask_rank(m, j):
    b = N.bvar("m")
    return N.reduce_("sum", b, j, ite(m.reader()((b,)), N.ONE, N.ZERO))


def advanced_get(a, items):
    items = [_as_index_arr(x) if isinstance(x, (Arr, list, tuple)) else x for x in items]
    # full-rank boolean mask
    masks = [x for x in items if isinstance(x, Arr) and x.dtype == "b"]
    if masks and masks[0].ndim > 1:
        m = masks[0]
        mi = items.index(m)
        if len([x for x in items if not full_slice(x)]) == 1 and mi + m.ndim <= a.ndim:
            # compress over the merged axes
            k = m.ndim
            for j in range(k):
                oblige_eq(m.shape[j], a.shape[mi + j], "boolean mask")
            fa = reshape(a, tuple(a.shape[:mi]) + (prod_dims(a.shape[mi : mi + k]),) + tuple(a.shape[mi + k :]))
            r = advanced_get(fa, [Sl(None, None, None)] * mi + [ravel(m)] + [Sl(None, None, None)] * (a.ndim - mi - k))
            r.comp = (m, m.reader(), mi, a.reader(), r.st.content)
            return r
        raise Unmodelled("partial multi-dimensional mask")
    if len(masks) == 1 and len([x for x in items if not full_slice(x)]) == 1:
        mi = items.index(masks[0])
        r = advanced_get_(a, items)
        r.comp = (masks[0], masks[0].reader(), mi, a.reader(), r.st.content)
        return r
    return advanced_get_(a, items)


def full_slice(x):
    return isinstance(x, Sl) and x.a is None and x.b is None and x.c is None


def compressed(v):
    """(mask reader, rank, axis, source reader) when `v` still is source[mask] element by element."""
    c = getattr(v, "comp", None)
    if c is None or v.fwd is not None or v.st.content is not c[4]:
        return None
    return c[1], c[0].ndim, c[2], c[3]


def same_mask(m1, k1, m2, k2):
    if k1 != k2:
        return False
    b = tuple(N.sym("mask%d" % j, "nat", (0, 9)) for j in range(k1))
    return nd(m1(b)) is nd(m2(b))


def advanced_get_(a, items):
    rd = None
    shape, spec = [], []
    ax = 0
    arrs = [x for x in items if isinstance(x, Arr)]
    if any(x.ndim == 0 for x in arrs):
        items = [x.get(()) if isinstance(x, Arr) and x.ndim == 0 and x.dtype != "b" else x for x in items]
        if not any(isinstance(x, Arr) for x in items):
            return basic_view(a, items)
        arrs = [x for x in items if isinstance(x, Arr)]
    # turn integer items into broadcast participants only if more than one array index
    bshape = broadcast_shapes([(mask_count(x),) if x.dtype == "b" else x.shape for x in arrs], "fancy indexing")
    placed = False
    pos = [i for i, x in enumerate(items) if isinstance(x, Arr) or (not isinstance(x, Sl) and x is not NEWAXIS)]
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    if not contiguous:
        shape.extend(bshape)
        off = 0
        placed = True
    for i, x in enumerate(items):
        if x is NEWAXIS:
            shape.append(1)
            continue
        n = a.shape[ax]
        if isinstance(x, Sl):
            s, step, ln = norm_slice(x, n)
            spec.append(("ax", len(shape), s, step))
            shape.append(ln)
        elif isinstance(x, Arr):
            if not placed:
                off = len(shape)
                shape.extend(bshape)
                placed = True
            spec.append(("adv", x, x.reader(), n))
        else:
            if not placed and contiguous:
                off = len(shape)
                shape.extend(bshape)
                placed = True
            spec.append(("fix", norm_index(x, n)))
        ax += 1
    nb = len(bshape)
    ra = a.reader()

    def f(idx):
        bi = idx[off : off + nb]
        out = []
        for sp in spec:
            if sp[0] == "fix":
                out.append(sp[1])
            elif sp[0] == "ax":
                out.append(add(sp[2], mul(sp[3], idx[sp[1]])))
            else:
                m = sp[1]
                if m.dtype == "b":
                    out.append(mask_nth(m, bi[-1]))
                else:
                    out.append(norm_index(bread(sp[2], m.shape, nb)(tuple(bi)), sp[3]))
        return ra(tuple(nd(o) for o in out))

    r = Arr(a.kind, shape, f, a.dtype)
    r.xdtype = a.xdtype
    return r


def setitem(a, items, value, aug=None):
    """a[items] = value (aug: binary node function for augmented stores)."""
    if not isinstance(items, tuple):
        items = (items,)
    items = [x.mask if isinstance(x, MaskWhere) else x for x in items]
    items = expand_ellipsis(items, a.ndim)
    if not any(isinstance(x, (Arr, list, tuple)) for x in items):
        v = basic_view(a, items)
        store(v, value, aug)
        return
    items = [_as_index_arr(x) if isinstance(x, (Arr, list, tuple)) else x for x in items]
    items = [x.get(()) if isinstance(x, Arr) and x.ndim == 0 and x.dtype != "b" else x for x in items]
    arrs = [x for x in items if isinstance(x, Arr)]
    if not arrs:
        v = basic_view(a, items)
        store(v, value, aug)
        return
    if len(arrs) == 1 and arrs[0].dtype == "b":
        m = arrs[0]
        mi = items.index(m)
        before = items[:mi]
        if all(isinstance(x, Sl) and x.a is None and x.b is None and x.c is None for x in items if x is not m):
            mr = m.reader()
            k = m.ndim
            for j in range(k):
                oblige_eq(m.shape[j], a.shape[mi + j], "boolean mask")
            val = value if isinstance(value, Arr) else None
            if val is None:
                sv = nd(value)
                a.write(lambda idx, old: ite(mr(tuple(idx[mi : mi + k])), sv if aug is None else aug(old, sv), old))
                return
            cp = compressed(val)
            if cp is not None and cp[2] == mi and val.ndim == a.ndim - k + 1 and same_mask(mr, k, cp[0], cp[1]):
                sr = cp[3]
                a.write(lambda idx, old: ite(mr(tuple(idx[mi : mi + k])), sr(tuple(idx)) if aug is None else aug(old, sr(tuple(idx))), old))
                return
            if k != 1:
                fa = reshape(a, tuple(a.shape[:mi]) + (prod_dims(a.shape[mi : mi + k]),) + tuple(a.shape[mi + k :]))
                if fa.st is not a.st:
                    raise Unmodelled("masked store of an array through a multi-dimensional mask")
                setitem(fa, tuple([Sl(None, None, None)] * mi + [ravel(m)]), value, aug)
                return
            vr = val.reader()
            vshape = val.shape
            tgt = list(a.shape)
            tgt[mi] = mask_count(m)
            n = len(tgt)
            for j, s in enumerate(vshape):
                ax = j + n - len(vshape)
                if not (isinstance(s, int) and s == 1):
                    oblige_eq(tgt[ax], s, "masked store")
            vb = bread(vr, vshape, n)

            def g(idx, old):
                vi = list(idx)
                vi[mi] = mask_rank(m, idx[mi])
                new = vb(tuple(vi))
                return ite(mr((idx[mi],)), new if aug is None else aug(old, new), old)

            a.write(g)
            return
    # integer-array store along one axis (a list of constant positions)
    if len(arrs) == 1 and arrs[0].ndim == 1 and isinstance(arrs[0].shape[0], int):
        m = arrs[0]
        mi = items.index(m)
        for j in range(m.shape[0]):
            it2 = list(items)
            it2[mi] = m.get((const(j),))
            val = value
            if isinstance(value, Arr):
                v0 = basic_view(a, it2)
                # axis of the fancy index inside the target
                axis = sum(1 for x in items[:mi] if isinstance(x, Sl) or x is NEWAXIS)
                n = v0.ndim + 1
                vax = axis - (n - value.ndim)
                if vax >= 0:
                    if not (isinstance(value.shape[vax], int) and value.shape[vax] == 1):
                        val = basic_view(value, [Sl(None, None, None)] * vax + [j] + [Sl(None, None, None)] * (value.ndim - vax - 1))
                    else:
                        val = basic_view(value, [Sl(None, None, None)] * vax + [0] + [Sl(None, None, None)] * (value.ndim - vax - 1))
            store(basic_view(a, it2), val, aug)
        return
    if all(x.dtype != "b" and all(isinstance(n, int) for n in x.shape) for x in arrs):
        at = [j for j, x in enumerate(items) if isinstance(x, Arr)]
        bs = broadcast_shapes([x.shape for x in arrs])
        if at == list(range(at[0], at[-1] + 1)) and math.prod(bs) <= 512:
            rds = [bread(x.reader(), x.shape, len(bs)) for x in arrs]
            axis = sum(1 for x in items[: at[0]] if isinstance(x, Sl) or x is NEWAXIS)
            for q in itertools.product(*[range(n) for n in bs]):
                qi = tuple(const(j) for j in q)
                it2 = list(items)
                for j, rd in zip(at, rds):
                    it2[j] = rd(qi)
                val = value
                if isinstance(value, Arr) and value.ndim:
                    v0 = basic_view(a, it2)
                    full = broadcast_to(value, tuple(v0.shape[:axis]) + tuple(bs) + tuple(v0.shape[axis:]))
                    val = basic_view(full, [Sl(None, None, None)] * axis + list(qi))
                store(basic_view(a, it2), val, aug)
            return
    raise Unmodelled("fancy store")


def store(v, value, aug=None):
    if isinstance(value, (list, tuple)):
        from . import lib

        value = lib.np_array(value)
    if isinstance(value, Arr):
        rd, vs = value.reader(), value.shape
        vs2 = vs
        while len(vs2) > v.ndim and isinstance(vs2[0], int) and vs2[0] == 1:
            rd0 = rd
            rd = (lambda r: lambda idx: r((N.ZERO,) + tuple(idx)))(rd0)
            vs2 = vs2[1:]
        if len(vs2) > v.ndim:
            raise AbsRaise("ValueError", "could not broadcast input array", Ctx.interp.where() if Ctx.interp else None)
        for j, s in enumerate(vs2):
            t = v.shape[j + v.ndim - len(vs2)]
            if isinstance(s, int) and s == 1:
                continue
            oblige_eq(t, s, "array store")
        rb = bread(rd, vs2, v.ndim)
        if v.dtype == "f" and value.dtype == "c" and v.kind == "np":
            rb0 = rb
            rb = lambda idx: fn("real", rb0(idx))
        if v.dtype == "i" and value.dtype in ("f", "c"):
            rb1 = rb
            rb = lambda idx: fn("trunc", rb1(idx))
        if aug is None:
            v.write(lambda idx, old: rb(idx))
        else:
            v.write(lambda idx, old: aug(old, rb(idx)))
    else:
        sv = nd(value)
        if v.dtype == "i" and sv.op == "c" and sv.attr.denominator != 1:
            sv = fn("trunc", sv)
        if aug is None:
            v.write(lambda idx, old: sv)
        else:
            v.write(lambda idx, old: aug(old, sv))


# ---------------------------------------------------------------------------------------
# reshaping


def prod_dims(shape):
    r = N.ONE
    for s in shape:
        r = mul(r, nd(s))
    return dim(r)


def flat_index(idx, shape):
    r = N.ZERO
    for i, s in zip(idx, shape):
        r = add(mul(r, nd(s)), nd(i))
    return r


def unflatten(f, shape):
    out = []
    for j in range(len(shape) - 1, -1, -1):
        s = shape[j]
        if isinstance(s, int) and s == 1:
            out.append(N.ZERO)
            continue
        if j == 0:
            out.append(f)
        else:
            out.append(fn("mod", f, nd(s)))
            f = fn("floordiv", f, nd(s))
    return tuple(reversed(out))


def _squash(shape):
    return [s for s in shape if not (isinstance(s, int) and s == 1)]


def reshape(a, shape):
    shape = [dim(s) for s in shape]
    if any(isinstance(s, int) and s == -1 for s in shape):
        k = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
        if len(k) != 1:
            raise AbsRaise("ValueError", "can only specify one unknown dimension", None)
        k = k[0]
        rest = [s for i, s in enumerate(shape) if i != k]
        # cancel dimensions structurally where possible
        mine = list(a.shape)
        ok = True
        left = list(mine)
        for s in rest:
            for t in left:
                if same_dim(s, t):
                    left.remove(t)
                    break
            else:
                ok = False
                break
        if ok:
            shape[k] = prod_dims(left)
        else:
            tot, r = prod_dims(mine), prod_dims(rest)
            if isinstance(tot, int) and isinstance(r, int):
                if r == 0 or tot % r:
                    raise AbsRaise("ValueError", "cannot reshape", None)
                shape[k] = tot // r
            else:
                shape[k] = dim(fn("floordiv", nd(tot), nd(r)))
    old = a.shape
    so, sn = _squash(old), _squash(shape)
    if len(so) == len(sn) and all(same_dim(x, y) for x, y in zip(so, sn)):
        oi = [i for i, s in enumerate(old) if not (isinstance(s, int) and s == 1)]
        ni = [i for i, s in enumerate(shape) if not (isinstance(s, int) and s == 1)]

        def fwd(idx):
            out = [N.ZERO] * len(old)
            for p, q in zip(oi, ni):
                out[p] = idx[q]
            return tuple(out)

        def inv(b):
            out = [N.ZERO] * len(shape)
            for p, q in zip(oi, ni):
                out[q] = b[p]
            return TRUE, tuple(out)

        return a.view(shape, fwd, inv)
    tot_o, tot_n = prod_dims(old), prod_dims(shape)
    if not same_dim(tot_o, tot_n):
        oblige_eq(tot_o, tot_n, "reshape")
    new = tuple(shape)
    return a.view(
        shape,
        lambda idx: unflatten(flat_index(idx, new), old),
        lambda b: (TRUE, unflatten(flat_index(b, old), new)),
    )


def ravel(a):
    if a.ndim == 1:
        return a
    return reshape(a, (prod_dims(a.shape),))


def permute(a, axes):
    axes = list(axes)
    shape = [a.shape[x] for x in axes]

    def fwd(idx):
        out = [None] * len(axes)
        for v, b in enumerate(axes):
            out[b] = idx[v]
        return tuple(out)

    return a.view(shape, fwd, lambda b: (TRUE, tuple(b[x] for x in axes)))


def norm_axis(ax, n):
    ax = dim(ax)
    if not isinstance(ax, int):
        raise Unmodelled("symbolic axis")
    if ax < -n or ax >= n:
        raise AbsRaise("IndexError", "axis %d out of range for %d dimensions" % (ax, n), Ctx.interp.where() if Ctx.interp else None)
    return ax % n


def moveaxis(a, src, dst):
    n = a.ndim
    src = [norm_axis(s, n) for s in (src if isinstance(src, (list, tuple)) else [src])]
    dst = [norm_axis(s, n) for s in (dst if isinstance(dst, (list, tuple)) else [dst])]
    order = [x for x in range(n) if x not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return permute(a, order)


def broadcast_to(a, shape):
    shape = [dim(s) for s in shape]
    n = len(shape)
    if a.ndim > n:
        raise AbsRaise("ValueError", "cannot broadcast", None)
    for j, s in enumerate(a.shape):
        if not (isinstance(s, int) and s == 1):
            oblige_eq(s, shape[j + n - a.ndim], "broadcast")
    rd = bread(a.reader(), a.shape, n)
    return a.like(lambda idx: rd(idx), shape=shape)


# ---------------------------------------------------------------------------------------
# elementwise and reductions


def elementwise(f, ops, kind, dtype):
    """f: node function; ops: Arr or scalars."""
    arrs = [o for o in ops if isinstance(o, Arr)]
    shape = broadcast_shapes([o.shape for o in arrs]) if arrs else ()
    n = len(shape)
    rds = []
    for o in ops:
        if isinstance(o, Arr):
            rds.append(bread(o.reader(), o.shape, n))
        else:
            s = nd(o)
            rds.append((lambda s: lambda idx: s)(s))
    r = Arr(kind, shape, lambda idx: f(*[rd(idx) for rd in rds]), dtype)
    for o in arrs:
        if o.xdtype is not None:
            r.xdtype = o.xdtype
            break
    return r


def reduce_axes(a, kind, axes, keepdims=False, body=None, dtype="same"):
    n = a.ndim
    if axes is None:
        axes = list(range(n))
    else:
        if not isinstance(axes, (list, tuple)):
            axes = [axes]
        axes = [norm_axis(x, n) for x in axes]
    keep = [i for i in range(n) if i not in axes]
    rd = a.reader()
    out_shape = [1 if i in axes else a.shape[i] for i in range(n)] if keepdims else [a.shape[i] for i in keep]

    def f(idx):
        full = [None] * n
        if keepdims:
            for i in keep:
                full[i] = idx[i]
        else:
            for p, i in enumerate(keep):
                full[i] = idx[p]
        # constant small axes are expanded, symbolic ones become reductions
        return _red(kind, rd, full, axes, a.shape)

    r = Arr(a.kind, out_shape, f, a.dtype if dtype == "same" else dtype)
    r.xdtype = a.xdtype
    return r


COMB = {
    "sum": lambda xs: add(*xs),
    "prod": lambda xs: mul(*xs),
    "max": lambda xs: _fold("max", xs),
    "min": lambda xs: _fold("min", xs),
    "any": lambda xs: N.or_(*[truth(x) for x in xs]),
    "all": lambda xs: N.and_(*[truth(x) for x in xs]),
}


def truth(x):
    x = nd(x)
    if x.op in ("true", "false", "eq", "lt", "le", "and", "not"):
        return x
    if x.op == "c":
        return TRUE if x.attr != 0 else FALSE
    if x.op == "fn" and x.attr in ("isnan", "isfinite"):
        return x
    if x.op == "sym" and x.attr[1] == "bool":
        return x
    if x.op == "app" and x.attr.startswith("B:"):
        return x
    if x.op == "reduce" and x.attr in ("any", "all"):
        return x
    if x.op == "ite":
        return ite(x.args[0], truth(x.args[1]), truth(x.args[2]))
    if x.op == "none":
        return FALSE
    if x.op == "str":
        return TRUE if x.attr else FALSE
    return N.not_(cmp("eq", x, 0))


def _fold(name, xs):
    r = xs[0]
    for x in xs[1:]:
        r = fn(name, r, x)
    return r


def _red(kind, rd, full, axes, shape):
    if not axes:
        v = rd(tuple(full))
        return truth(v) if kind in ("any", "all") else v
    ax, rest = axes[0], axes[1:]
    s = shape[ax]
    if isinstance(s, int) and s <= 8:
        xs = []
        for j in range(s):
            full[ax] = const(j)
            xs.append(_red(kind, rd, full, rest, shape))
        if not xs:
            if kind in ("sum", "any"):
                return N.ZERO if kind == "sum" else FALSE
            if kind in ("prod", "all"):
                return N.ONE if kind == "prod" else TRUE
            raise AbsRaise("ValueError", "reduction of an empty array", None)
        return COMB[kind](xs)
    b = N.bvar("r")
    full[ax] = b
    body = _red(kind, rd, full, rest, shape)
    return N.reduce_(kind, b, nd(s), body)


def concat(arrs, axis):
    n = arrs[0].ndim
    axis = norm_axis(axis, n)
    for a in arrs:
        if a.ndim != n:
            raise AbsRaise("ValueError", "all the input arrays must have same number of dimensions", Ctx.interp.where() if Ctx.interp else None)
    for a in arrs[1:]:
        for j in range(n):
            if j != axis:
                oblige_eq(arrs[0].shape[j], a.shape[j], "concatenation")
    offs = [N.ZERO]
    for a in arrs:
        offs.append(add(offs[-1], nd(a.shape[axis])))
    rds = [a.reader() for a in arrs]
    shape = list(arrs[0].shape)
    shape[axis] = dim(offs[-1])

    def f(idx):
        i = idx[axis]

        def at(k):
            t = list(idx)
            t[axis] = sub(i, offs[k])
            return rds[k](tuple(t))

        res = None
        for k in range(len(arrs) - 1, -1, -1):
            if isinstance(arrs[k].shape[axis], int) and arrs[k].shape[axis] == 0:
                continue
            if res is None:
                # only reached for indices beyond all earlier pieces
                c = cmp("le", offs[k], i)
                res = at(k)
                continue
            c = cmp("lt", i, offs[k + 1])
            if c.op == "true":
                res = at(k)
            elif c.op == "false":
                pass
            else:
                res = ite(c, at(k), res)
        if res is None:
            return N.NAN
        return res

    r = Arr(arrs[0].kind, shape, f, join_dtype([a.dtype for a in arrs]))
    r.xdtype = next((a.xdtype for a in arrs if a.xdtype), None)
    return r


def stack(arrs, axis):
    arrs = list(arrs)
    n = arrs[0].ndim
    axis = norm_axis(axis, n + 1)
    for a in arrs[1:]:
        if a.ndim != n:
            raise AbsRaise("ValueError", "all input arrays must have the same shape", Ctx.interp.where() if Ctx.interp else None)
        for j in range(n):
            oblige_eq(arrs[0].shape[j], a.shape[j], "stack")
    rds = [a.reader() for a in arrs]
    shape = list(arrs[0].shape)
    shape.insert(axis, len(arrs))

    def f(idx):
        i = idx[axis]
        t = tuple(idx[:axis]) + tuple(idx[axis + 1 :])
        return _sel(i, [lambda r=r: r(t) for r in rds])

    r = Arr(arrs[0].kind, shape, f, join_dtype([a.dtype for a in arrs]))
    r.xdtype = next((a.xdtype for a in arrs if a.xdtype), None)
    return r


def _sel(i, thunks):
    if N.is_const(i):
        k = int(i.attr)
        if k < 0 or k >= len(thunks):
            return N.NAN
        return thunks[k]()
    r = thunks[-1]()
    for j in range(len(thunks) - 2, -1, -1):
        r = ite(cmp("eq", i, j), thunks[j](), r)
    return r


def roll(a, shift, axis):
    axis = norm_axis(axis, a.ndim)
    n = nd(a.shape[axis])
    rd = a.reader()
    sh = nd(shift)

    def f(idx):
        t = list(idx)
        t[axis] = fn("mod", sub(idx[axis], sh), n)
        return rd(tuple(t))

    return a.like(f)


def scalar_arr(x, kind="t", dtype=None):
    x = nd(x)
    return Arr(kind, (), lambda idx: x, dtype)
