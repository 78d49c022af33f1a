from .fit import *

META = dict(
    title="One-point spectra integrate the sheared model tensor over the whole grid",
    technique=GVN + "; oracle: Mann's sheared tensor and a double trapezoid written independently",
    level="other",
    floor=60,
    explanation="OnePointSpectra.forward is interpreted for every eddy lifetime and both energy spectra with unknown scales, wavenumbers, grid limits and network weights; each of the six rows at an unknown "
    "k1 index is compared with k1 times the trapezoidal integral of the published tensor built from the program's own eddy lifetime.",
)
TYPES = ("CONST", "TWOTHIRD", "MANN", "MANN_APPROX", "TAUNET")


def setup(chk, et, learn=False, n=2, moved=None, **kw):
    """A model; moved: with parameters other than those it was configured with, as after training."""
    it = chk.interp()
    lo, hi = real("gmin"), N.add(real("gmin"), pos("gspan"))
    kw.setdefault("integ", dict(ops_log_min=lo, ops_log_max=hi, ops_num_points=n, coh_log_min=real("cmin"), coh_log_max=N.add(real("cmin"), pos("cspan")), coh_num_points=n))
    if learn:
        kw.update(use_learnable_spectrum=True, p_exponent=pos("p"), q_exponent=pos("q"))
    o = spectra(it, et, **kw)
    if not kw.get("use_coherence") if moved is None else moved:
        unk_params(it, o)
    return it, o


def exponents(it, o, learn):
    """The current exponents p and q as value numbers."""
    if not learn:
        return None
    d = dict(named(it, o))
    return [next(p.get(()) for nm, p in d.items() if nm.split(".")[-1].startswith(x)) for x in ("p", "q")]


def scales(it, o):
    return [N.nd(x) for x in it.iterate(call(it, o, "exp_scales"))]


def oracle_phi(v, it, k, L, M, beta, pq):
    k1, k2, k3 = k
    k0 = math.sqrt(k1 * k1 + k2 * k2 + (k3 + beta * k1) ** 2)
    c = learn_c(k0, L, M, *pq) if pq else vk_c(k0, L, M)
    return sheared(k, beta, c)


def rows(chk):
    cases = [(et, learn, 2) for et in TYPES for learn in (False, True)] + [("MANN", False, 3)]
    if chk.tier == "thorough":
        cases += [(et, learn, n) for et in TYPES for learn in (False, True) for n in (3, 5)]
    for et, learn, n_ in cases:
        if True:
            it, o = setup(chk, et, learn, n_)
            pqn = exponents(it, o, learn)
            where = loc(it, it.getattr(o, "forward"))
            nk = nat("nk", 2, 4)
            k1 = tens((nk,), lambda i: N.app("M:k1", *i))
            out = it.call(o, [k1])
            i = N.sym("i", "idx", nk)
            vals = chk.vals(it, 3 if chk.tier == "quick" else 12)
            what = "%s %s" % (et, "learned spectrum" if learn else "von Karman spectrum") + ", %d points" % n_
            chk.scen.append(what)
            chk.no_failure(it, "spectra are defined", what, vals)
            chk.same("six rows, one column per wavenumber", where, what, vals, N.nd(out.shape[0]), N.const(6))
            chk.same("six rows, one column per wavenumber", where, what, vals, N.nd(out.shape[1]), nk)
            L, _, M = scales(it, o)
            # the program's own lifetime at the nodes of the quadrature grid
            ng = 2 * n_ + 1
            kt = tens((1, 3), lambda j: A.select_list([N.sym("q0"), N.sym("q1"), N.sym("q2")], j[1]))
            tau = call(it, o, "EddyLifetime", kt).get((N.ZERO,))
            ref = {}

            def table(v):
                if id(v) in ref:
                    return ref[id(v)]
                lo = F(v, real("gmin"))
                g = grid(lo, lo + F(v, pos("gspan")), n_)
                x1 = F(v, k1.get((i,)))
                l, m = F(v, L), F(v, M)
                pq = [F(v, x) for x in pqn] if learn else None
                T = np.zeros((3, 3, ng, ng))
                for a in range(ng):
                    for b in range(ng):
                        k = (x1, g[a], g[b])
                        bt = F(v2(v, k), tau)
                        T[:, :, a, b] = oracle_phi(v, it, k, l, m, bt, pq)
                ref[id(v)] = (x1, g, T)
                return ref[id(v)]

            for r_, (a, b) in enumerate(ORDER):
                n = N.nd(at(out, r_, i))

                def f(v, n=n, a=a, b=b, r_=r_):
                    x1, g, T = table(v)
                    want = x1 * trapz2(T[a, b], g, g)
                    sc = x1 * trapz2(np.abs(T[0, 0]) + np.abs(T[1, 1]) + np.abs(T[2, 2]), g, g)
                    area = x1 * (g[-1] - g[0]) ** 2
                    got = F(v, n)
                    return abs(got - want) <= 1e-6 * sc + 2e-12 * area, "%s: %.9g, quadrature of the model gives %.9g" % (what, got, want)

                if r_ < 4:
                    chk.holds("row = k1 * double trapezoid of the tensor", where, "F%s" % NAMES[r_], vals, f)
                    continue
                chk.holds("off-diagonal row keeps the sign of the tensor", where, "F%s" % NAMES[r_], vals, f)

                def h(v, n=n, a=a, b=b):
                    x1, g, T = table(v)
                    got = F(v, n)
                    sc = x1 * trapz2(np.abs(T[0, 0]) + np.abs(T[1, 1]) + np.abs(T[2, 2]), g, g)
                    area = x1 * (g[-1] - g[0]) ** 2
                    w = [x1 * trapz2(x, g, g) for x in (T[a, b], np.maximum(T[a, b], 0))]
                    return any(abs(got - y) <= 1e-6 * sc + 2e-12 * area for y in w), "%s: %.9g, quadrature of the model gives %.9g (%.9g without negative parts)" % (what, got, w[0], w[1])

                chk.holds("off-diagonal row integrates the tensor", where, "F%s" % NAMES[r_], vals, h)


def v2(v, k):
    """The same valuation with the probe wavevector set."""
    return v.fork(dict(v.pinned, q0=k[0], q1=k[1], q2=k[2]))


def divergence(chk):
    """get_div: the normalised divergence of a tensor field on the grid of the last evaluation."""
    it, o = setup(chk, "MANN")
    nk = nat("nk", 2, 4)
    k1 = tens((nk,), lambda i: N.app("M:k1", *i))
    it.call(o, [k1])
    names = ["T%s" % x for x in NAMES]
    Phi = tuple(tens((nk, 5, 5), (lambda q: lambda j: N.app(q, *j))(q)) for q in names)
    d = call(it, o, "get_div", Phi)
    where = loc(it, it.getattr(o, "get_div"))
    vals = chk.vals(it)
    chk.no_failure(it, "divergence is defined", "get_div", vals)
    i, a, b = N.sym("i", "idx", nk), N.sym("a", "idx", N.const(5)), N.sym("b", "idx", N.const(5))
    T = {}
    for q, (x, y) in zip(names, ORDER):
        T[x, y] = T[y, x] = N.app(q, i, a, b)
    for r_ in range(3):

        def f(v, r_=r_):
            lo = F(v, real("gmin"))
            g = grid(lo, lo + F(v, pos("gspan")), 2)
            k = (F(v, k1.get((i,))), g[int(v.ev(a))], g[int(v.ev(b))])
            t = [[F(v, T[x, y]) for y in range(3)] for x in range(3)]
            want = sum(k[j] * t[r_][j] for j in range(3)) / ((t[0][0] + t[1][1] + t[2][2]) / 3)
            got = F(v, at(d, r_, i, a, b))
            return close(got, want, 1e-6, abs(max(k)) * 1e-3), "row %d: %.9g, expected %.9g" % (r_, got, want)

        chk.holds("get_div is the normalised divergence", where, "", vals, f)
    chk.scen.append("get_div on an arbitrary tensor field")


def defaults(chk):
    """A learnable spectrum starts from the von Karman exponents."""
    for what, mk in (
        ("OnePointSpectra", lambda it, learn: spectra(it, "TWOTHIRD", use_learnable_spectrum=learn)),
        ("CalibrationProblem", lambda it, learn: it.getattr(problem(it, "TWOTHIRD", prob=dict(use_learnable_spectrum=learn)), "OPS")),
    ):
        it = chk.interp()
        a, b = mk(it, True), mk(it, False)
        where = loc(it, it.getattr(a, "forward"))
        k1 = k1tens(2)
        x, y = it.call(a, [k1]), it.call(b, [k1])
        vals = chk.vals(it, 3)
        chk.scen.append(what + " with default exponents")
        r_, i = N.sym("r", "idx", N.const(4)), N.sym("i", "idx", N.const(2))
        chk.same("the default learnable spectrum is von Karman's", where, what, vals, at(x, r_, i), at(y, r_, i))


PARTS = [rows, divergence, defaults]
