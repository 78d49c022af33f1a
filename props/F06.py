from vg.arr import AbsRaise
from .fit import *
from .G09 import refused

META = dict(
    title="Training loss is the documented sum of its weighted terms",
    technique=GVN + "; exception-path analysis for undefined losses; oracle: the documented loss terms written independently",
    level="other",
    floor=60,
    explanation="LossAggregator.eval is interpreted on unknown spectra, data, parameters and weights; the total and every recorded component are compared with the documented terms, for every combination of "
    "switched-off terms, repeatedly on one aggregator, and each undefined term must end in the refusal.",
)
NK, NR = nat("nk", 3, 4), nat("nr", 2, 3)


def agg(it, w, zref=None):
    P = "drdmannturb.parameters"
    lp = new(it, P, "LossParameters", **w)
    k1 = tens((NK,), lambda i: N.app("M:k1", *i))
    m = it.load(SF + "loss_functions")
    return it.call(anchor(m, "LossAggregator"), [], dict(params=lp, k1space=k1, zref=zref or pos("zref"))), k1


def y_of(nm):
    return tens((NR, NK), lambda i: N.mul(N.sub(N.mul(N.const(2), N.sym("sg" + nm, "nat", (0, 1))), N.const(1)), N.app("P:" + nm, *i)))


def tab(v, a):
    sh = [int(v.ev(N.nd(s))) for s in a.shape]
    out = np.zeros(sh)
    for q in np.ndindex(*sh):
        out[q] = F(v, a.get(tuple(N.const(int(x)) for x in q)))
    return out


def oracle(v, w, k1, y, d, th, coh):
    """(mse, coherence, pen1, pen2, regularization)"""
    Y, D, K = tab(v, y), tab(v, d), tab(v, k1)
    z = F(v, pos("zref"))
    g = lambda n: F(v, w[n]) if n in w else 0.0
    x = np.log(K)
    s = np.log(np.abs(Y))
    d1 = np.diff(s, axis=1) / np.diff(x)
    mid = (x[1:] + x[:-1]) / 2
    d2 = np.diff(d1, axis=1) / np.diff(mid)
    mse = (np.log(np.abs(Y / D)) ** 2).mean()
    p1 = g("alpha_pen1") * (np.maximum(d1, 0) ** 2).mean() / z
    p2 = g("alpha_pen2") * (np.maximum(d2, 0) ** 2).mean() / z**2
    rg = g("beta_reg") * (tab(v, th) ** 2).mean() if th is not None else 0.0
    co = 0.0
    if coh is not None:
        co = g("gamma_coherence") * sum(((tab(v, coh["model_" + c_]) - tab(v, coh["data_" + c_])) ** 2).mean() for c_ in "uvw") / 3
    return dict(mse=mse, coherence=co, pen1=p1, pen2=p2, regularization=rg)


def cohdata(kind="t"):
    ns, nf = nat("ns", 2, 3), nat("nf", 2, 3)
    d = {}
    for c_ in "uvw":
        d["model_" + c_] = tens((ns, nf), (lambda q: lambda i: N.app("cm" + q, *i))(c_))
        d["data_" + c_] = A.Arr(kind, (ns, nf), (lambda q: lambda i: N.app("cd" + q, *i))(c_), "f")
        if kind == "t":
            d["data_" + c_].xdtype = "f32"
    return d


W = {n: pos("w_" + n) for n in ("alpha_pen1", "alpha_pen2", "beta_reg", "gamma_coherence")}


def terms(chk):
    import itertools

    names = list(W)
    for mask in itertools.product((1, 0), repeat=4):
        w = {n: W[n] for n, m in zip(names, mask) if m}
        it = chk.interp()
        g, k1 = agg(it, w)
        where = loc(it, it.getattr(g, "eval"))
        what = "weights " + ("+".join(w) or "none")
        chk.scen.append(what)
        y, d = y_of("y"), y_of("d")
        th = tens((nat("nt", 1, 3),), lambda i: N.app("th", *i))
        coh = cohdata("np" if mask[0] else "t")
        tot = call(it, g, "eval", y, d, th, 1, coherence_data=Dict(coh))
        vals = chk.vals(it, 4 if chk.tier == "quick" else 16)
        chk.no_failure(it, "loss is defined", what, vals)

        def f(v):
            o = oracle(v, w, k1, y, d, th, coh)
            want = sum(o.values())
            got = F(v, tot.get(()))
            return close(got, want, 1e-6), "%s: %.9g, documented terms give %.9g" % (what, got, want)

        chk.holds("total = sum of the documented terms", where, "", vals, f)
        rec = it.resolve(it.getattr(g, "component_losses"))
        for nm in ("mse", "coherence", "pen1", "pen2", "regularization"):
            lst = it.resolve(rec.d[nm])
            chk.fact("one record per evaluation", len(lst.items) == 1, where, "%s has %d entries" % (nm, len(lst.items)))
            chk.holds("recorded component = its documented term", where, "%s, %s:" % (nm, what), vals, lambda v, nm=nm, lst=lst: (
                close(F(v, lst.items[-1]), oracle(v, w, k1, y, d, th, coh)[nm], 1e-6), "%.9g" % F(v, lst.items[-1])))
        chk.same("recorded total = returned total", where, what, vals, it.resolve(rec.d["total"]).items[-1], tot.get(()))


def optional(chk):
    """No coherence data, or no network, switches those terms off."""
    it = chk.interp()
    g, k1 = agg(it, W)
    where = loc(it, it.getattr(g, "eval"))
    y, d = y_of("y"), y_of("d")
    tot = call(it, g, "eval", y, d, None, 0)
    vals = chk.vals(it, 4)
    chk.no_failure(it, "loss is defined", "neither network nor coherence", vals)
    chk.holds("absent inputs contribute nothing", where, "", vals, lambda v: (close(F(v, tot.get(())), sum(oracle(v, W, k1, y, d, None, None).values()), 1e-6), F(v, tot.get(()))))
    # perfect fit of a spectrum without convexity costs nothing
    t2 = call(it, g, "MSE_term", d, d, 0)
    chk.same("a perfect fit has zero misfit", where, "MSE", vals, t2.get(()), N.ZERO, scale=1.0)
    c1 = cohdata()
    same_ = [c1["data_" + c_] for c_ in "uvw"]
    t3 = call(it, g, "CoherenceLoss", *(same_ + same_ + [0]))
    chk.same("a perfect fit has zero misfit", where, "coherence", vals, t3.get(()), N.ZERO, scale=1.0)
    chk.scen.append("optional terms")


def history(chk):
    """The value does not depend on earlier evaluations; records keep their order."""
    it = chk.interp()
    g, k1 = agg(it, W)
    where = loc(it, it.getattr(g, "eval"))
    y, d, y2 = y_of("y"), y_of("d"), y_of("y2")
    th = tens((nat("nt", 1, 3),), lambda i: N.app("th", *i))
    coh = cohdata()
    call(it, g, "eval", y2, d, th, 0, coherence_data=Dict(coh))
    a = call(it, g, "eval", y, d, th, 1, coherence_data=Dict(coh))
    b = call(it, g, "eval", y, d, th, 2, coherence_data=Dict(coh))
    g2, _ = agg(it, W)
    c_ = call(it, g2, "eval", y, d, th, 7, coherence_data=Dict(coh))
    vals = chk.vals(it, 4)
    chk.no_failure(it, "loss is defined", "three evaluations", vals)
    chk.same("loss does not depend on earlier evaluations", where, "second evaluation", vals, a.get(()), c_.get(()))
    chk.same("loss does not depend on earlier evaluations", where, "repeated evaluation", vals, b.get(()), c_.get(()))
    tot = it.resolve(it.resolve(it.getattr(g, "component_losses")).d["total"])
    chk.fact("one record per evaluation", len(tot.items) == 3, where, "%d records for 3 evaluations" % len(tot.items))
    chk.same("records keep their order", where, "", vals, tot.items[1], a.get(()))
    chk.scen.append("three evaluations of one aggregator")


def undefined(chk):
    """A NaN in any active term is refused, never returned."""
    nan = lambda sh: tens(sh, lambda i: N.NAN)
    y, d = y_of("y"), y_of("d")
    th = tens((2,), lambda i: N.app("th", *i))
    for what, args in (("misfit", (nan((NR, NK)), d, th)), ("data", (y, nan((NR, NK)), th)), ("regularization", (y, d, nan((2,)))), ("coherence", None)):
        it = chk.interp()
        g, k1 = agg(it, W)
        where = loc(it, it.getattr(g, "eval"))
        if args is None:
            coh = cohdata()
            coh["model_v"] = nan(coh["model_v"].shape)
            refused(chk, it, "an undefined loss is refused", what, lambda: call(it, g, "eval", y, d, th, 1, coherence_data=Dict(coh)), where, ("ValueError",))
        else:
            refused(chk, it, "an undefined loss is refused", what, lambda: call(it, g, "eval", args[0], args[1], args[2], 1), where, ("ValueError",))
    # spectra that vanish at neighbouring wavenumbers: the misfit is infinite, the slopes are undefined
    for w in ("alpha_pen1", "alpha_pen2"):
        it = chk.interp()
        g, k1 = agg(it, {w: W[w]})
        where = loc(it, it.getattr(g, "eval"))
        zero = tens((NR, NK), lambda i: N.mul(nat("zz", 0, 0), N.app("P:y", *i)))
        refused(chk, it, "an undefined loss is refused", "vanishing spectra with only " + w, lambda: call(it, g, "eval", zero, d, th, 1), where, ("ValueError",))
    chk.scen.append("undefined terms")


def initial(chk):
    """The loss of the untrained model, which calibration evaluates first, has the same terms, coherence included."""
    from .F10 import table

    it = chk.interp()
    ns, nf, nk = 4, 3, 3
    it.state["table"] = table(ns, nf, "sorted")
    cp = problem(it, "TWOTHIRD", prob=dict(num_components=3), loss=W, integ=dict(coh_num_points=2, coh_log_min=real("cmin"), coh_log_max=N.add(real("cmin"), pos("cspan"))),
                 phys=dict(L=pos("L"), Gamma=pos("G"), sigma=pos("S"), zref=pos("zref"), Uref=pos("uref"), wavenumber_conversion_factor=pos("fac")))
    ops = it.getattr(cp, "OPS")
    where = loc(it, it.getattr(cp, "calibrate"))
    k1 = k1tens(nk)
    dat = tens((nk, 3, 3), lambda i: N.app("P:dat", *i))
    y = it.call(ops, [k1])
    seps = tens((ns,), lambda i: N.app("P:sep", i[0]))
    m0 = call(it, ops, "SpectralCoherence", tens((nf - 1,), lambda i: N.div(N.mul(pos("fac"), N.app("P:freq", N.add(i[0], N.const(1)))), pos("uref"))), seps)
    call(it, cp, "calibrate", Dict({"k1": k1, "ops": dat}), coherence_data_file="some.dat")
    rec = it.resolve(it.getattr(it.getattr(cp, "LossAggregator"), "component_losses"))
    vals = chk.vals(it, 3)
    Y = tens((3, nk), lambda i: y.get(i))
    T = tens((3, nk), lambda i: dat.get((i[1], i[0], i[0])))
    fl = lambda i: N.eq(i[1], N.ZERO) if hasattr(N, "eq") else N.cmp("eq", i[1], N.ZERO)
    coh = {}
    for q, c_ in enumerate("uvw"):
        coh["model_" + c_] = tens((ns, nf), lambda i, q=q: N.ite(fl(i), N.const(1), m0.get((N.const(q), i[0], N.ite(fl(i), N.ZERO, N.sub(i[1], N.const(1)))))))
        coh["data_" + c_] = tens((ns, nf), lambda i, c_=c_: N.app("P:coh_" + c_, *i))
    w = {k: x for k, x in W.items() if k != "beta_reg"}  # a closed-form lifetime has no network parameters

    def f(v, nm):
        o = oracle(v, w, k1, Y, T, None, coh)
        want = sum(o.values()) if nm == "total" else o[nm]
        got = F(v, it.resolve(rec.d[nm]).items[0])
        return close(got, want, 1e-6), "initial %s: %.9g, documented terms give %.9g" % (nm, got, want)

    for nm in ("mse", "coherence", "pen1", "pen2", "regularization", "total"):
        chk.holds("the initial loss has the same terms", where, "", vals, lambda v, nm=nm: f(v, nm))
    chk.scen.append("initial loss of a calibration with coherence data")


PARTS = [terms, optional, history, undefined, initial]
