from .fit import *
from .F01 import setup, scales, TYPES
from .G09 import refused

META = dict(
    title="Eddy lifetimes follow their closed forms or the rational network",
    technique=GVN + "; oracle: closed forms of each lifetime, the residual network written independently",
    level="other",
    floor=60,
    explanation="OnePointSpectra.EddyLifetime is interpreted for every lifetime type at an unknown wavevector with unknown scales and weights and compared with its closed form; evenness, positivity, "
    "dependence on k L only and proportionality to the time scale are separate obligations. TauNet, Rational and MannEddyLifetime are also checked on their own.",
)


ACTS = {"ReLU": lambda h: np.maximum(h, 0), "Tanh": np.tanh, "Sigmoid": lambda h: 1 / (1 + np.exp(-h)), "GELU": lambda h: np.array([t * 0.5 * (1 + math.erf(t / math.sqrt(2))) for t in h])}


def rational(x, nu):
    return abs(x) ** (nu - 2 / 3) / (1 + x * x) ** (nu / 2)


def mlp(x, Ws, acts=()):
    """|x| + W_n act(... act(W_0 |x|)) and its norm; the rectifier where no activation is given."""
    x = np.abs(np.array(x))
    h = x
    for q, w in enumerate(Ws[:-1]):
        h = ACTS[acts[q] if q < len(acts) else "ReLU"](w @ h)
    return float(np.linalg.norm(x + Ws[-1] @ h))


def weights(v, ps):
    """Matrices of the network in order, and the scalar exponent if it is trained."""
    Ws, nu = [], None
    for _, p in ps:
        if p.ndim == 2:
            r, c_ = [int(v.ev(N.nd(s))) for s in p.shape]
            Ws.append(np.array([[F(v, at(p, a, b)) for b in range(c_)] for a in range(r)]))
        elif p.ndim == 0:
            nu = F(v, p.get(()))
    return Ws, nu


def kvec(tag="k"):
    """A pair (symbols, tensor) for an unknown wavevector, optionally with vanishing components."""
    s = [N.mul(N.sym("sel%d" % a, "nat", (0, 1)), N.sym(tag + str(a))) for a in range(3)]
    return s, tens((1, 3), lambda j: A.select_list(s, j[1]))


def val_cases(chk, it, n):
    out = []
    for q, sel in enumerate(((1, 1, 1), (1, 0, 0), (0, 1, 1), (0, 0, 1))):
        out += chk.vals(it, n if q == 0 else max(1, n // 3), pinned={"sel%d" % a: sel[a] for a in range(3)}, base=q)
    return out


def approx_coeff():
    x = np.log(np.logspace(-3, 3, 50))
    y = np.log([mann_tau(math.exp(t)) for t in x])
    b = ((x - x.mean()) * (y - y.mean())).sum() / ((x - x.mean()) ** 2).sum()
    return b, y.mean() - b * x.mean()


def closed(chk):
    ab = approx_coeff()
    for et in TYPES:
        for nu in ((False, True) if et == "TAUNET" else (False,)):
            it, o = setup(chk, et, learn_nu=nu)
            what = et + (" with trained exponent" if nu else "")
            where = loc(it, it.getattr(o, "EddyLifetime"))
            ps = []
            if et == "TAUNET":
                ps = unk_params(it, it.getattr(o, "tauNet"))
            s, k = kvec()
            t = N.nd(at(call(it, o, "EddyLifetime", k), 0))
            vals = val_cases(chk, it, 6 if chk.tier == "quick" else 24)
            chk.no_failure(it, "lifetime is defined", what, vals)
            chk.scen.append(what)
            Lf, Tf, _ = scales(it, o)

            def f(v):
                kv = np.array([F(v, x) for x in s])
                l, g = F(v, Lf), F(v, Tf)
                kl = float(np.linalg.norm(kv)) * l
                if et == "CONST":
                    want = 1.0
                elif et == "TWOTHIRD":
                    want = kl ** (-2 / 3)
                elif et == "MANN":
                    want = mann_tau(kl)
                elif et == "MANN_APPROX":
                    want = math.exp(ab[0] * math.log(kl) + ab[1])
                else:
                    Ws, n_ = weights(v, ps)
                    want = rational(mlp(kv * l, Ws), -1 / 3 if n_ is None else n_)
                got = F(v, t)
                return close(got, g * want, 1e-6), "%s: %.9g at k=%s, closed form %.9g" % (what, got, kv.round(4), g * want)

            chk.holds("lifetime = time scale times its closed form of k L", where, "", vals, f)
            chk.holds("lifetime is positive and finite", where, what, vals, lambda v: (math.isfinite(F(v, t)) and F(v, t) > 0, F(v, t)))
            for a in range(3):
                kn = tens((1, 3), lambda j, a=a: A.select_list([N.neg(x) if b == a else x for b, x in enumerate(s)], j[1]))
                chk.same("lifetime is even in every wavenumber", where, "%s, component %d" % (what, a + 1), vals, t, at(call(it, o, "EddyLifetime", kn), 0))
            nb = nat("nb", 2, 3)
            kb = tens((nb, 2, 3), lambda j: N.app("kb", *j))
            b0, b1 = N.sym("b0", "idx", nb), N.sym("b1", "idx", N.const(2))
            tb = call(it, o, "EddyLifetime", kb)
            one = call(it, o, "EddyLifetime", tens((1, 3), lambda j: kb.get((b0, b1, j[1]))))
            chk.same("any batch shape, one value per wavevector", where, what, vals, at(tb, b0, b1), at(one, 0))
            chk.fact("any batch shape, one value per wavevector", tb.ndim == 2, where, "%s: a (n, 2, 3) batch gives %d axes" % (what, tb.ndim))


def scaling(chk):
    """tau(k; L, Gamma) = Gamma/Gamma' tau(k L / L'; L', Gamma')."""
    for et in ("TWOTHIRD", "MANN", "MANN_APPROX", "CONST"):
        it = chk.interp()
        a = spectra(it, et, phys=dict(L=pos("La"), Gamma=pos("Ga"), sigma=pos("S")))
        b = spectra(it, et, phys=dict(L=pos("Lb"), Gamma=pos("Gb"), sigma=pos("Sb")))
        s, k = kvec()
        where = loc(it, it.getattr(a, "EddyLifetime"))
        kk = tens((1, 3), lambda j: N.div(N.mul(k.get(j), pos("La")), pos("Lb")))
        x, y = at(call(it, a, "EddyLifetime", k), 0), at(call(it, b, "EddyLifetime", kk), 0)
        vals = val_cases(chk, it, 4)
        chk.same("lifetime depends on k L only and scales with Gamma", where, et, vals, N.div(x, pos("Ga")), N.div(y, pos("Gb")))


def network(chk):
    """TauNet and Rational on their own, for every way of giving the layer sizes."""
    nm = "drdmannturb.nn_modules"
    cases = [dict(n_layers=1, hidden_layer_sizes=2), dict(n_layers=2, hidden_layer_sizes=List([2, 3])), dict(n_layers=3, hidden_layer_sizes=2, learn_nu=False, nu_init=N.sym("nu0"))]
    for kw in cases:
        it = chk.interp()
        o = new(it, nm, "TauNet", **kw)
        where = loc(it, it.getattr(o, "forward"))
        ps = unk_params(it, o)
        s, k = kvec()
        t = N.nd(at(it.call(o, [k]), 0))
        vals = val_cases(chk, it, 4)
        chk.no_failure(it, "network is defined", str(sorted(kw)), vals)

        def f(v):
            Ws, n_ = weights(v, ps)
            nu = F(v, N.sym("nu0")) if n_ is None else n_
            want = rational(mlp([F(v, x) for x in s], Ws), nu)
            return close(F(v, t), want, 1e-6), "%.9g, residual network gives %.9g" % (F(v, t), want)

        chk.holds("TauNet = Rational(norm(|k| + MLP(|k|)))", where, str(kw.get("n_layers")) + " layers:", vals, f)
        nw = sum(1 for _, p in ps if p.ndim == 2)
        chk.fact("one weight matrix per layer and one for the output", nw == kw["n_layers"] + 1, where, "%d matrices for %d layers" % (nw, kw["n_layers"]))
        chk.scen.append("TauNet %s" % sorted(kw))
    it = chk.interp()
    for learn in (True, False):
        r = new(it, nm, "Rational", learn_nu=learn, nu_init=N.sym("nu0"))
        x = tens((1,), lambda j: N.sym("x"))
        y = N.nd(at(it.call(r, [x]), 0))
        vals = chk.vals(it, 5)
        where = loc(it, it.getattr(r, "forward"))
        chk.holds("Rational(x) = |x|^(nu-2/3)/(1+x^2)^(nu/2)", where, "", vals, lambda v: (close(F(v, y), rational(F(v, N.sym("x")), F(v, N.sym("nu0"))), 1e-6), F(v, y)))
        chk.fact("exponent is trained iff asked", len(named(it, r)) == int(learn), where, "learn_nu=%s gives %d parameters" % (learn, len(named(it, r))))


def configured(chk):
    """The network of a model has the layer sizes and activations of its configuration."""
    cases = [
        ("sizes and activations", dict(nlayers=2), [2, 3], ["Tanh", "Sigmoid"], "OnePointSpectra"),
        ("sizes and activations", dict(nlayers=3), [3, 2, 2], ["GELU", "ReLU", "Tanh"], "CalibrationProblem"),
        ("one width for all layers", dict(nlayers=2, hidden_layer_size=3), None, ["Tanh", "GELU"], "OnePointSpectra"),
        ("sizes only", dict(nlayers=2, hidden_layer_size=4), [3, 2], None, "OnePointSpectra"),
        ("fewer activations than layers", dict(nlayers=3, hidden_layer_size=2), None, ["Tanh", "ReLU"], "OnePointSpectra"),
    ]
    for what, nn, sizes, acts, via in cases:
        it = chk.interp()
        kw = dict(nn)
        if sizes is not None:
            kw["hidden_layer_sizes"] = List(list(sizes))
        if acts is not None:
            kw["activations"] = List([it.call(it.getattr(it.imp("torch.nn"), a), [], {}) for a in acts])
        o = spectra(it, "TAUNET", nn=kw) if via == "OnePointSpectra" else it.getattr(problem(it, "TAUNET", nn=kw), "OPS")
        where = loc(it, it.getattr(anchor(it.load(SF + "one_point_spectra"), "OnePointSpectra"), "__init__"))
        ps = unk_params(it, it.getattr(o, "tauNet"))
        n = nn["nlayers"]
        al = [acts[q % len(acts)] for q in range(n)] if acts else ["ReLU"] * n
        want = [(w, None) for w in (sizes or [nn["hidden_layer_size"]] * n)]
        s, k = kvec()
        t = N.nd(at(call(it, o, "EddyLifetime", k), 0))
        vals = val_cases(chk, it, 4)
        chk.no_failure(it, "lifetime is defined", what, vals)
        Lf, Tf, _ = scales(it, o)
        W0, _ = weights(vals[0], ps)
        got = [w.shape[0] for w in W0[:-1]]
        chk.fact("network has the configured layers", got == [w for w, _ in want], where, "%s: layers of widths %s, configured %s" % (what, got, [w for w, _ in want]))

        def f(v):
            Ws, n_ = weights(v, ps)
            w = F(v, Tf) * rational(mlp(np.array([F(v, x) for x in s]) * F(v, Lf), Ws, al), -1 / 3 if n_ is None else n_)
            return close(F(v, t), w, 1e-6), "%s (%s): lifetime %.9g, network with activations %s gives %.9g" % (what, via, F(v, t), al, w)

        chk.holds("network has the configured activations", where, "", vals, f)
        chk.scen.append("configured network: %s, %d layers" % (what, n))


def functions(chk):
    """MannEddyLifetime on arrays and tensors, and the two closed-form energy spectra."""
    it = chk.interp()
    m = it.load("drdmannturb.common")
    f = anchor(m, "MannEddyLifetime")
    x = pos("x")
    n = nat("n", 1, 3)
    i = N.sym("i", "idx", n)
    for kind in ("np", "t"):
        a = A.Arr(kind, (n,), lambda j: N.app("P:x", *j), "f")
        if kind == "t":
            a.xdtype = "f32"
        y = it.call(f, [a])
        vals = chk.vals(it, 6)
        chk.holds("MannEddyLifetime closed form", loc(it, f), kind, vals, lambda v: (close(F(v, at(y, i)), mann_tau(F(v, a.get((i,)))), 1e-6), F(v, at(y, i))))
        chk.fact("array in, array out; tensor in, tensor out", y.kind == kind, loc(it, f), "%s gives %s" % (kind, y.kind))
    g = anchor(m, "Mann_linear_exponential_approx")
    a = tens((n,), lambda j: N.app("P:x", *j))
    y = it.call(g, [a, tens((1,), lambda j: N.sym("ca")), tens((), lambda j: N.sym("cb"))])
    chk.holds("log-linear lifetime", loc(it, g), "", chk.vals(it, 5), lambda v: (close(F(v, at(y, i)), F(v, a.get((i,))) ** F(v, N.sym("ca")) * math.exp(F(v, N.sym("cb"))), 1e-6), ""))
    for nm, args, want in (
        ("VKEnergySpectrum", [], lambda x, v: x**4 / (1 + x * x) ** (17 / 6)),
        ("VKLike_EnergySpectrum", [], lambda x, v: x**4 / (1 + x * x) ** (17 / 6)),
        ("Learnable_EnergySpectrum", [tens((), lambda j: pos("p")), tens((), lambda j: pos("q"))], lambda x, v: x ** F(v, pos("p")) / (1 + x * x) ** F(v, pos("q"))),
    ):
        e = anchor(m, nm)
        y = it.call(e, [a] + args)
        chk.holds("energy spectrum closed form", loc(it, e), nm, chk.vals(it, 5), lambda v: (close(F(v, at(y, i)), want(F(v, a.get((i,))), v), 1e-6), F(v, at(y, i))))


def malformed(chk):
    """A network that cannot be built as described is refused."""
    nm = "drdmannturb.nn_modules"
    it = chk.interp()
    where = "TauNet in " + loc(it, it.getattr(anchor(it.load(nm), "TauNet"), "__init__"))
    act = lambda it: it.call(it.getattr(it.imp("torch.nn"), "ReLU"), [], {})
    for what, kw in (
        ("no layer", lambda it: dict(n_layers=0)), ("a negative number of layers", lambda it: dict(n_layers=-1)), ("a layer of width zero", lambda it: dict(n_layers=2, hidden_layer_sizes=0)),
        ("a width of zero in the list", lambda it: dict(n_layers=2, hidden_layer_sizes=List([3, 0]))), ("a negative width in the list", lambda it: dict(n_layers=2, hidden_layer_sizes=List([-1, 3]))),
        ("fewer widths than layers", lambda it: dict(n_layers=3, hidden_layer_sizes=List([3, 2]))), ("more widths than layers", lambda it: dict(n_layers=1, hidden_layer_sizes=List([3, 2]))),
        ("fewer activations than layers", lambda it: dict(n_layers=2, hidden_layer_sizes=2, activations=List([act(it)]))), ("more activations than layers", lambda it: dict(n_layers=1, hidden_layer_sizes=2, activations=List([act(it), act(it)]))),
        ("an activation that is no module", lambda it: dict(n_layers=2, hidden_layer_sizes=2, activations=List([act(it), "relu"]))),
    ):
        it = chk.interp()
        refused(chk, it, "a malformed network is refused", "TauNet with " + what, lambda: new(it, nm, "TauNet", **kw(it)), where)
        chk.scen.append("TauNet with " + what)


PARTS = [closed, scaling, network, configured, functions, malformed]
