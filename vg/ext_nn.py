"""Library descriptions, part 6: torch.nn, torch.optim."""
from fractions import Fraction

from .ext_meth import *  # noqa: F401,F403
from .ext_meth import EXT, E, ext, P, L, N, A, Arr, Node, List, Dict, Opaque, ExtFn, ExtType, MISSING, Cell, TM, TUN, mkt, to_numpy, tt, tdetach, fs_load, inplace
from .lib import U, R, binop, ew, post, reduction, conc_int, as_int, shape_of, scal
from .node import nd, ite, cmp, fn, add, mul, power
from .interp import Obj, Class, Choice, SuperV, is_scalar

MODT = ExtType("torch.nn.Module")
EXT["torch.nn.Module"] = EXT["torch.nn.modules.Module"] = EXT["torch.nn.modules.module.Module"] = MODT


def _modctor(it, a, k):
    return Obj(GENERIC)


MODT.ctor = _modctor


def is_module_obj(o):
    return isinstance(o, Obj) and any(b is MODT for b in o.cls.mro())


L.is_module_obj = is_module_obj


def method(name, f):
    r = ExtFn(name, f)
    r.method = True
    return r


def nncls(name, init=None, forward=None, **more):
    c = Class(name, [MODT], None)
    if init:
        c.attrs["__init__"] = method(name + ".__init__", init)
    else:
        c.attrs["__init__"] = method(name + ".__init__", lambda it, a, k: None)
    if forward:
        c.attrs["forward"] = method(name + ".forward", forward)
    for k, v in more.items():
        c.attrs[k] = method(name + "." + k, v)
    EXT["torch.nn." + name] = c
    return c


GENERIC = Class("Module", [MODT], None)


def parameter(it, x, rg=True):
    x = it.resolve(x)
    if not isinstance(x, Arr):
        if x is None:
            x = Arr("t", (0,), lambda i: N.NAN, "f")
        else:
            R("TypeError", "Parameter() expects a Tensor")
    if x.kind != "t":
        R("TypeError", "Parameter() expects a Tensor")
    if rg and x.dtype in ("i", "b"):
        R("RuntimeError", "Only Tensors of floating point and complex dtype can require gradients")
    p = Arr("t", x.shape, None, x.dtype, st=x.st, fwd=x.fwd, inv=x.inv)
    if x.requires_grad or x.is_param:
        rd = x.reader()
        p = Arr("t", x.shape, lambda i: L.detach_node(rd(i)), x.dtype)
    p.xdtype = x.xdtype
    p.tag = "param"
    p.is_param = bool(rg)
    p.requires_grad = bool(rg)
    it.params_made += 1
    p.pname = "p%d" % it.params_made
    return p


EXT["torch.nn.Parameter"] = EXT["torch.nn.parameter.Parameter"] = ExtType(
    "torch.nn.Parameter", lambda it, a, k: (lambda d, rg: parameter(it, d, it.truth(rg) is True))(*P(a, k, "data=None requires_grad=True"))
)


def wparam(it, shape):
    z = it.torch_rng.draw(it, "weight", tuple(shape))
    z.kind = "t"
    z.xdtype = it.default_dtype.prec
    return parameter(it, z)


def _lin_init(it, a, k):
    o, i, out, bias, dev, dt = P(a, k, "self in_features out_features bias=True device=None dtype=None", "Linear")
    i, out = as_int(it, i), as_int(it, out)
    it.set(o, "in_features", i)
    it.set(o, "out_features", out)
    it.set(o, "weight", wparam(it, (out, i)))
    it.set(o, "bias", wparam(it, (out,)) if it.truth(bias) is True else None)


def _lin_fwd(it, a, k):
    o, x = a
    return linear(it, x, it.getattr(o, "weight"), it.getattr(o, "bias"))


def linear(it, x, w, b=None):
    x = tt(it, x)
    if x.xdtype and w.xdtype and x.xdtype != w.xdtype:
        R("RuntimeError", "mat1 and mat2 must have the same dtype, but got %s and %s" % (x.xdtype, w.xdtype))
    if x.dtype in ("i", "b"):
        R("RuntimeError", "mat1 and mat2 must have the same dtype")
    r = binop(it, "MatMult", x, TM["t"](it, w, [], {}))
    return r if b is None else binop(it, "Add", r, b)


LINEAR = nncls("Linear", _lin_init, _lin_fwd)
E("torch.nn.functional.linear", lambda it, x, w, b: linear(it, x, w, b), "x w b=None")


def _ml_init(it, a, k):
    o = a[0]
    xs = it.iterate(a[1]) if len(a) > 1 and a[1] is not None else []
    it.set(o, "_list", List(xs))


def _ml_append(it, a, k):
    L.list_append(it, a[0].attrs["_list"], a[1])
    return a[0]


def _ml_extend(it, a, k):
    L.list_extend(it, a[0].attrs["_list"], a[1])
    return a[0]


MODULELIST = nncls("ModuleList", _ml_init, None, append=_ml_append, extend=_ml_extend)
L.MODULELIST = MODULELIST
EXT["torch.nn.ParameterList"] = nncls("ParameterList", _ml_init, None, append=_ml_append, extend=_ml_extend)


def _seq_init(it, a, k):
    xs = a[1:]
    if len(xs) == 1 and isinstance(it.resolve(xs[0]), Dict):
        xs = list(it.resolve(xs[0]).d.values())
    it.set(a[0], "_list", List(xs))


def _seq_fwd(it, a, k):
    x = a[1]
    for m in a[0].attrs["_list"].items:
        x = it.call(m, [x])
    return x


nncls("Sequential", _seq_init, _seq_fwd, append=_ml_append)

ACT = {
    "ReLU": lambda x: fn("max", x, N.ZERO), "Tanh": lambda x: fn("tanh", x), "Sigmoid": TUN["sigmoid"][0], "Identity": lambda x: x,
    "Softplus": lambda x: fn("log", add(1, fn("exp", x))), "SiLU": lambda x: mul(x, TUN["sigmoid"][0](x)),
    "LeakyReLU": lambda x: ite(cmp("lt", x, 0), mul(N.const(0.01), x), x), "ELU": lambda x: ite(cmp("lt", x, 0), add(fn("exp", x), -1), x),
    "GELU": lambda x: mul(N.const(0.5), x, add(1, fn("erf", mul(x, N.const(0.7071067811865476))))),
}
for _n, _f in ACT.items():
    nncls(_n, None, (lambda f: lambda it, a, k: ew(it, f, [tt(it, a[1])], "float"))(_f))
for _n, _f in {"relu": "ReLU", "tanh": "Tanh", "sigmoid": "Sigmoid", "softplus": "Softplus", "silu": "SiLU", "leaky_relu": "LeakyReLU", "elu": "ELU", "gelu": "GELU"}.items():
    E("torch.nn.functional." + _n, (lambda f: lambda it, a, k: ew(it, f, [tt(it, a[0])], "float"))(ACT[_f]))


def mse(it, x, y, red="mean", p=2):
    d = binop(it, "Sub", x, y)
    d = binop(it, "Pow", d, 2) if p == 2 else TM["abs"](it, d, [], {})
    if red == "none":
        return d
    return TM["mean" if red == "mean" else "sum"](it, d, [], {})


for _n, _p in {"MSELoss": 2, "L1Loss": 1}.items():
    nncls(_n, lambda it, a, k: it.set(a[0], "reduction", k.get("reduction", "mean")), (lambda p: lambda it, a, k: mse(it, a[1], a[2], a[0].attrs["reduction"], p))(_p))
E("torch.nn.functional.mse_loss", lambda it, x, y, r: mse(it, x, y, r), "x y reduction='mean'")
E("torch.nn.functional.l1_loss", lambda it, x, y, r: mse(it, x, y, r, 1), "x y reduction='mean'")


# ---- module traversal


def zero_grad(it, who):
    it.effects.append(("zero_grad", who, "", it.pcond(), it.where()))
    it.state["groots"] = ()


def leaf_reaches(root, names):
    """A leaf named in names is reachable from root outside detached subgraphs."""
    seen, todo = set(), [root]
    while todo:
        n = todo.pop()
        if n.id in seen or n.op == "detach":
            continue
        seen.add(n.id)
        if n.op == "app" and n.attr in names or n.op == "sym" and n.attr[0] in names:
            return True
        todo.extend(n.args)
    return False


def grad_of(it, x):
    """The accumulated gradient: an unknown function of the roots differentiated since the last reset."""
    roots = it.state.get("groots", ())
    leaf = getattr(x, "leafname", None)
    if leaf is not None:
        roots = tuple(r for r in roots if leaf_reaches(r, (leaf,)))
    if not roots:
        return None
    r = Arr("t", x.shape, lambda idx: N.app("grad:" + getattr(x, "pname", "?"), *(tuple(roots) + tuple(idx))), "f")
    r.xdtype = x.xdtype
    return r


L.grad_of = grad_of


def children(it, o):
    out = []
    for k, v in list(o.attrs.items()):
        v = it.resolve(v)
        if is_module_obj(v):
            out.append((k, v))
        elif k == "_list" and isinstance(v, List):
            for i, x in enumerate(v.items):
                x = it.resolve(x)
                if is_module_obj(x):
                    out.append((str(i), x))
    return out


def named_modules(it, o, prefix="", memo=None):
    memo = set() if memo is None else memo
    if id(o) in memo:
        return []
    memo.add(id(o))
    out = [(prefix, o)]
    for k, v in children(it, o):
        out += named_modules(it, v, prefix + ("." if prefix else "") + k, memo)
    return out


def named_params(it, o):
    out, seen = [], set()
    for pre, m in named_modules(it, o):
        for k, v in list(m.attrs.items()):
            v = it.resolve(v)
            vs = [(k, v)]
            if k == "_list" and isinstance(v, List):
                vs = [(str(i), x) for i, x in enumerate(v.items)]
            for kk, x in vs:
                x = it.resolve(x)
                if isinstance(x, Choice) and all(isinstance(y, Arr) for y in (x.a, x.b)):
                    x = x.a
                if isinstance(x, Arr) and x.tag == "param" and id(x) not in seen:
                    seen.add(id(x))
                    out.append((pre + ("." if pre else "") + kk, x))
    return out


def module_attr(it, o, name):
    def m(f):
        return ExtFn("Module." + name, f)

    if name == "parameters":
        return m(lambda it, a, k: List([p for _, p in named_params(it, o)]))
    if name == "named_parameters":
        return m(lambda it, a, k: List([(n, p) for n, p in named_params(it, o)]))
    if name == "children":
        return m(lambda it, a, k: List([c for _, c in children(it, o)]))
    if name == "named_children":
        return m(lambda it, a, k: List(children(it, o)))
    if name == "modules":
        return m(lambda it, a, k: List([c for _, c in named_modules(it, o)]))
    if name == "named_modules":
        return m(lambda it, a, k: List(named_modules(it, o)))
    if name in ("train", "eval", "to", "float", "double", "cpu", "cuda", "half"):

        def conv(it, a, k):
            dt = {"float": L.DTYPES["torch.float32"], "double": L.DTYPES["torch.float64"]}.get(name)
            if name == "to":
                for v in list(a) + list(k.values()):
                    if isinstance(it.resolve(v), L.DType):
                        dt = it.resolve(v)
            if dt is not None:
                for _, p in named_params(it, o):
                    p.xdtype = dt.prec
            return o

        return m(conv)
    if name == "zero_grad":
        return m(lambda it, a, k: zero_grad(it, "module"))
    if name == "requires_grad_":

        def rg(it, a, k):
            f = it.truth(a[0] if a else k.get("requires_grad", True)) is True
            for _, p in named_params(it, o):
                p.is_param = p.requires_grad = f
            return o

        return m(rg)
    if name == "state_dict":
        return m(lambda it, a, k: Dict({n: tdetach(it, p) for n, p in named_params(it, o)}))
    if name == "load_state_dict":

        def lsd(it, a, k):
            d = it.resolve(a[0])
            ps = dict(named_params(it, o))
            if isinstance(d, Opaque):
                return None
            miss = [n for n in ps if n not in d.d] + [n for n in d.d if n not in ps]
            if miss:
                R("RuntimeError", "Error(s) in loading state_dict: " + ", ".join(miss))
            for n, p in ps.items():
                A.store(p, d.d[n])

        return m(lsd)
    if name == "apply":

        def app(it, a, k):
            for _, c in reversed(named_modules(it, o)):
                it.call(a[0], [c])
            return o

        return m(app)
    if name in ("register_buffer", "register_parameter", "add_module", "register_module"):
        return m(lambda it, a, k: it.setattr(o, a[0], a[1] if len(a) > 1 else k.get("tensor", k.get("param", k.get("module")))))
    if name == "training":
        return True
    if name == "device":
        return MISSING
    if name == "__call__":
        return m(lambda it, a, k: it.call(o, a, k))
    return MISSING


def call_obj(it, o, a, k):
    if is_module_obj(o):
        return it.call(it.getattr(o, "forward"), a, k)
    return MISSING


def ext_init(it, c, o, args, kwargs):
    if any(b is MODT for b in c.mro()):
        return
    for b in c.ext_bases():
        if b.name == "pickle.Unpickler":
            it.set(o, "_f", args[0])
            return
    if args or kwargs:
        if any(isinstance(b, ExtType) and b.name not in ("object", "abc.ABC") for b in c.ext_bases()):
            U("constructor of %s" % c.name)
        R("TypeError", "%s() takes no arguments" % c.name)


def unpickle(it, o, fallback=True):
    """Unpickler.load: every class is resolved through find_class."""
    return fs_load(it, o.attrs["_f"])


def ext_attr(it, o, name):
    if is_module_obj(o):
        return module_attr(it, o, name)
    for b in o.cls.ext_bases():
        n = getattr(b, "name", "")
        if n == "pickle.Unpickler":
            if name == "load":
                return ExtFn("Unpickler.load", lambda it, a, k: unpickle(it, o))
            if name == "find_class":
                return ExtFn("find_class", lambda it, a, k: Opaque("class:%s.%s" % (a[0], a[1])))
    if name in ("__eq__", "__hash__", "__repr__", "__str__", "__module__", "__doc__"):
        return Opaque("object." + name)
    return MISSING


def ext_class_attr(it, c, name):
    if name == "__init__":
        return ExtFn("object.__init__", lambda it, a, k: None)
    if name in ("__doc__", "__module__"):
        return Opaque(name)
    if name == "__dataclass_fields__" and c.dataclass:
        return Dict({f[0]: Opaque("field") for f in c.dataclass[0]})
    if any(b is MODT for b in c.mro()) and name in ("__init__", "parameters", "__call__", "zero_grad", "to"):
        return method("Module." + name, lambda it, a, k: it.call(it.getattr(a[0], name), a[1:], k) if name != "__init__" else None)
    for b in c.ext_bases():
        if isinstance(b, Opaque):
            return Opaque(b.path + "." + name)
    return MISSING


def ext_setattr(it, o, name, v):
    return False


def super_attr(it, c, o, name):
    if c is MODT:
        if name == "__init__":
            return ExtFn("Module.__init__", lambda it, a, k: None)
        return module_attr(it, o, name)
    n = getattr(c, "name", getattr(c, "path", ""))
    if n == "pickle.Unpickler":
        if name == "__init__":
            return ExtFn("Unpickler.__init__", lambda it, a, k: it.set(o, "_f", a[0]))
        return ext_attr(it, o, name)
    if name == "__init__":
        return ExtFn("object.__init__", lambda it, a, k: None)
    if isinstance(c, Opaque):
        return Opaque(c.path + "." + name)
    return MISSING


# ---- optimisation


def param_items(it, ps):
    ps = it.resolve(ps)
    if isinstance(ps, Arr):
        R("TypeError", "params argument given to the optimizer should be an iterable of Tensors or dicts, but got torch.Tensor")
    out = []
    for p in it.iterate(ps):
        p = it.resolve(p)
        if isinstance(p, Dict):
            out += param_items(it, p.d["params"])
        elif isinstance(p, Arr):
            out.append(p)
        elif isinstance(p, tuple):
            out.append(p[1])
    return out


def havoc(it, p, tag="hv"):
    """An unknown new value for a parameter (identity kept)."""
    t = it.fresh(tag)
    p.write(lambda idx, old: N.app("param:" + t, *idx))
    p.leafname = "param:" + t
    return t


class OptimV(Cell):
    def __init__(self, it, kind, a, k):
        self.kind = kind
        self.params = param_items(it, a[0] if a else k.get("params"))
        if not self.params:
            R("ValueError", "optimizer got an empty parameter list")
        self.k = dict(k)
        if len(a) > 1:
            self.k.setdefault("lr", a[1])
        self.groups = None
        self.nsteps = 0
        it.effects.append(("optimizer", kind, len(self.params), it.pcond(), it.where(), self.k, self))

    def jget(self, key):
        return self.nsteps

    def jset(self, key, v):
        self.nsteps = v

    def attr(self, it, name):
        if name == "step":

            def step(it, a, k):
                c = a[0] if a else k.get("closure")
                r = None
                if c is not None:
                    r = it.call(c, [])
                    if self.kind == "LBFGS":  # the line search evaluates the closure again at other parameters
                        for p in self.params:
                            havoc(it, p, "trial")
                        it.call(c, [])
                elif self.kind == "LBFGS":
                    R("TypeError", "step() missing 1 required positional argument: 'closure'")
                it.note(self, None)
                self.nsteps += 1
                it.effects.append(("step", self.kind, "", it.pcond(), it.where(), None if self.groups is None else [it.resolve(g.d["lr"]) for g in self.groups.items]))
                for p in self.params:
                    havoc(it, p, "step")
                return r

            return ExtFn("optim.step", step)
        if name == "zero_grad":
            return ExtFn("optim.zero_grad", lambda it, a, k: zero_grad(it, "optim"))
        if name == "param_groups":
            if self.groups is None:
                self.groups = List([Dict({"params": List(self.params), "lr": self.k.get("lr", N.const(1e-3))})])
            return self.groups
        return Opaque("optim." + name)


for _n in ("LBFGS", "Adam", "SGD", "AdamW", "RMSprop", "Adagrad", "Adamax", "NAdam", "RAdam"):
    EXT["torch.optim." + _n] = ExtType("torch.optim." + _n, (lambda n: lambda it, a, k: OptimV(it, n, a, k))(_n))
class SchedV(Cell):
    """A learning-rate schedule: its advances and the rates it sets are recorded."""

    def __init__(self, it, kind, opt, k):
        self.kind, self.opt, self.k = kind, opt, k
        self.count = 0
        self.base = [g.d["lr"] for g in self.groups(it)]
        if kind == "LambdaLR":
            self.advance(it, True)

    def groups(self, it):
        return it.resolve(self.opt.attr(it, "param_groups")).items

    def jget(self, key):
        return self.count

    def jset(self, key, v):
        self.count = v

    def rate(self, it, lr, base, t):
        """The rate of a group after advance t (None: not modelled)."""
        k = self.k
        if self.kind == "CosineAnnealingLR":
            T, lo = nd(it.resolve(k["T_max"])), nd(it.resolve(k.get("eta_min", 0)))
            if N.is_const(T) and (T.attr <= 0 or t > 2 * T.attr):
                return None
            ph = lambda e: N.fn("cos", N.div(N.mul(N.PI, N.const(e)), T))
            if N.is_const(T) and (t - 1 - T.attr) % (2 * T.attr) == 0:
                return N.add(lr, N.mul(N.sub(base, lo), N.sub(N.ONE, ph(1)), N.const(Fraction(1, 2))))
            f = N.div(N.add(N.ONE, ph(t)), N.add(N.ONE, ph(t - 1)))
            return N.add(N.mul(f, N.sub(lr, lo)), lo)
        if self.kind == "LambdaLR":
            f = it.resolve(k.get("lr_lambda"))
            return N.mul(base, nd(it.resolve(it.call(f, [t]))))
        if self.kind == "ExponentialLR":
            return N.mul(lr, nd(it.resolve(k.get("gamma"))))
        if self.kind == "StepLR" and N.is_const(nd(it.resolve(k["step_size"]))):
            return N.mul(lr, nd(it.resolve(k.get("gamma", N.const(Fraction(1, 10)))))) if t % nd(it.resolve(k["step_size"])).attr == 0 else lr
        return None

    def advance(self, it, first=False):
        t = 0 if first else self.count + 1
        for g, b in zip(self.groups(it), self.base):
            lr = nd(it.resolve(g.d["lr"]))
            r = self.rate(it, lr, nd(it.resolve(b)), t)
            it.setitem(g, "lr", N.fn("schedule_" + self.kind, lr, N.const(t)) if r is None else r)
        it.note(self, None)
        self.count = t

    def attr(self, it, name):
        if name == "step":

            def step(it, a, k):
                self.advance(it)
                it.effects.append(("sched_step", self.kind, "", it.pcond(), it.where()))

            return ExtFn("sched.step", step)
        if name == "optimizer":
            return self.opt
        if name == "get_last_lr":
            return ExtFn("sched.get_last_lr", lambda it, a, k: List([g.d["lr"] for g in self.groups(it)]))
        if name == "last_epoch":
            return self.count
        return Opaque("sched." + name)


SCHED_ARGS = {
    "CosineAnnealingLR": "optimizer T_max eta_min last_epoch", "LambdaLR": "optimizer lr_lambda last_epoch", "StepLR": "optimizer step_size gamma last_epoch", "ExponentialLR": "optimizer gamma last_epoch",
}


def _sched(n):
    def f(it, a, k):
        o = it.resolve(a[0] if a else k.get("optimizer"))
        if not isinstance(o, OptimV):
            R("TypeError", "%s is not an Optimizer" % type(o).__name__)
        k = dict(k)
        k.update(zip(SCHED_ARGS.get(n, "optimizer").split()[1:], a[1:]))
        it.effects.append(("scheduler", n, k, it.pcond(), it.where()))
        return SchedV(it, n, o, k)

    return f


for _n in ("CosineAnnealingLR", "LambdaLR", "StepLR", "ExponentialLR", "ConstantLR", "LinearLR", "MultiStepLR", "CosineAnnealingWarmRestarts", "PolynomialLR", "CyclicLR", "OneCycleLR"):
    EXT["torch.optim.lr_scheduler." + _n] = ExtType("torch.optim.lr_scheduler." + _n, _sched(_n))
EXT["torch.optim.Optimizer"] = ExtType("torch.optim.Optimizer")


@ext("torch.nn.utils.parameters_to_vector", "ps")
def _p2v(it, ps):
    ps = param_items(it, ps)
    return post(it, A.concat([A.ravel(p) if p.ndim != 1 else p for p in ps], 0), ps) if ps else R("RuntimeError", "expected a non-empty list of Tensors")


@ext("torch.nn.utils.vector_to_parameters", "vec ps")
def _v2p(it, vec, ps):
    vec = it.resolve(vec)
    if not isinstance(vec, Arr) or vec.kind != "t":
        R("TypeError", "expected torch.Tensor, but got: %s" % (type(vec).__name__,))
    pos = 0
    snap = vec.copy()
    g = L.grad_on_any([vec])
    for p in param_items(it, ps):
        n = A.prod_dims(p.shape)
        cut = [L.Sl(pos, pos + n if isinstance(n, int) else add(nd(pos), nd(n)), None)]
        piece = A.reshape(A.basic_view(snap if g else vec, cut), p.shape)
        if g or piece.st is not vec.st:
            rd = piece.reader()
            p.write(lambda idx, old, rd=rd: L.detach_node(rd(idx)) if g else rd(idx))
        else:  # param.data = vec[...]: the parameter now shares the vector's storage
            p.st, p.fwd, p.inv = piece.st, piece.fwd, piece.inv
        pos = pos + n if isinstance(n, int) else add(nd(pos), nd(n))
    tot = snap.shape[0]
    if isinstance(tot, int) and isinstance(pos, int) and tot < pos:
        R("RuntimeError", "shape is invalid for input of size %s" % tot)


E("torch.nn.utils.clip_grad_norm_,torch.nn.utils.clip_grad_value_", lambda it, a, k: None)
E("torch.load", lambda it, a, k: fs_load(it, a[0]))
for _n, _v in {"zeros_": 0, "ones_": 1}.items():
    E("torch.nn.init." + _n, (lambda v: lambda it, a, k: initp(it, a[0], v))(_v))
E("torch.nn.init.constant_", lambda it, x, v: initp(it, x, v), "tensor val")


def initp(it, x, v):
    it.nograd += 1
    try:
        inplace(it, x, v)
    finally:
        it.nograd -= 1
    return x


def _irand(dist):
    def f(it, a, k):
        x = a[0]
        z = it.torch_rng.draw(it, dist, tuple(x.shape))
        z.kind = "t"
        lo, hi = (list(a[1:]) + [None, None])[:2]
        m, s = (k.get("mean", lo), k.get("std", hi)) if dist == "normal" else (None, None)
        if s is not None:
            z = binop(it, "Mult", z, s)
        if m is not None:
            z = binop(it, "Add", z, m)
        return initp(it, x, z)

    return f


for _n in ("normal_", "xavier_normal_", "kaiming_normal_", "trunc_normal_"):
    E("torch.nn.init." + _n, _irand("normal"))
for _n in ("xavier_uniform_", "kaiming_uniform_"):
    E("torch.nn.init." + _n, _irand("weight"))
E("torch.nn.init.uniform_", _irand("uniform"))
