from .low import *
from .kern import GVN

META = dict(
    title="Analytic and estimated 2-D spectra use the field's own spectrum and scaling",
    technique=GVN + "; integrals compared by quadrature of the value graph; oracle: the published spectrum and the periodogram",
    level="other",
    floor=8,
    explanation="The analytic one-dimensional spectra are compared with the integral of the same energy spectrum that colours the field (E(kappa) with the same constant), and the "
    "estimator with the periodogram of the returned field.",
)


def analytic(chk):
    for lim in ("given", "negative"):
        it = chk.interp()
        g = lowgen(it, cfg(5, 5, 2, 2), seed=1)
        k1 = A.Arr("np", (3,), lambda i: N.ite(N.cmp("eq", i[0], N.const(2)), N.const(0), N.mul(pos("kscale"), N.app("M:kk", *i))), "f")
        kl = pos("k2lim") if lim == "given" else N.neg(pos("k2lim"))
        r = list(it.iterate(call(it, g, "analytical_spectrum", k1, k2_limit=kl)))
        where = loc(it, it.getattr(g, "analytical_spectrum"))
        vals = chk.vals(it, 5 if chk.tier == "quick" else 20)
        vals += chk.vals(it, 1 if chk.tier == "quick" else 4, pinned=dict(FIELD, kscale=1e-4, k2lim=0.02), base=1)
        chk.no_failure(it, "spectrum is defined", "analytical_spectrum", vals)
        for q in range(2):
            for i in range(3):

                def f(v, q=q, i=i):
                    s2, L, psi, zi = phys(v)
                    c = c_const(s2, L, zi)
                    k = F(v, k1.get((N.const(i),)))
                    a = F(v, pos("k2lim"))
                    got = F(v, r[q].get((N.const(i),)))
                    if k == 0:
                        return got == 0, "k1=0 gives %g" % got
                    h = lambda y: energy(k, y, c, L, psi, zi) / (math.pi * math.hypot(k, y)) * ((y * y if q == 0 else k * k) / (k * k + y * y))
                    hl = lambda x: (h(math.exp(x)) + h(-math.exp(x))) * math.exp(x)
                    cut = [math.log(a) - 40 + 4 * n for n in range(11)]
                    w = sum(integrate.quad(hl, p, q_, epsabs=0, epsrel=1e-10, limit=100)[0] for p, q_ in zip(cut, cut[1:]))
                    return abs(got - w) <= 1e-5 * abs(w) + 1e-12, "F%d%d(k1=%.4g): %.8g, integral of the spectrum %.8g" % (q + 1, q + 1, k, got, w)

                chk.holds("analytic spectrum integrates the model spectrum", where, "", vals, f)
        chk.scen.append("analytical_spectrum, limit " + lim)


def constant(chk):
    it = chk.interp()
    g = lowgen(it, cfg(5, 5, 2, 2), seed=1)
    cc = N.nd(it.getattr(g, "c"))
    vals = chk.vals(it, 8 if chk.tier == "quick" else 40) + chk.vals(it, 1, pinned=FIELD, base=1)

    def f(v):
        s2, L, psi, zi = phys(v)
        w = c_const(s2, L, zi)
        return abs(F(v, cc) - w) <= 1e-5 * w, "c=%.8g, variance constraint gives %.8g" % (F(v, cc), w)

    chk.holds("the spectrum constant reproduces the variance", "drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py in LowFreqGenerator.__init__", "", vals, f)


def estimate(chk):
    for l1, l2, e1, e2 in ((5, 10, 2, 3), (6, 6, 3, 3), (2, 1, 3, 2)):
        it = chk.interp()
        N1, N2 = 2**e1, 2**e2
        g = lowgen(it, cfg(l1, l2, e1, e2), seed=1)
        call(it, g, "generate")
        # any field of the user's shape
        for nm in ("u1", "u2"):
            g.attrs[nm] = A.Arr("np", (N1, N2), lambda i, nm=nm: N.app("fld" + nm, *i), "f")
        kp, f11, f22 = it.iterate(call(it, g, "compute_spectrum"))
        where = loc(it, it.getattr(g, "compute_spectrum"))
        vals = chk.vals(it, 2 if chk.tier == "quick" else 8)
        for v in vals:
            v.exact_dft = True
        chk.no_failure(it, "spectrum is defined", "compute_spectrum", vals)
        what = "%dx%d" % (N1, N2)
        chk.scen.append("compute_spectrum " + what)
        chk.same("positive wavenumbers of the user grid", where, what, vals, N.nd(kp.shape[0]), N.const(N1 // 2))
        for q, fq in ((1, f11), (2, f22)):
            for i in range(N1 // 2 - 1):  # the Nyquist row has no positive wavenumber

                def f(v, q=q, fq=fq, i=i):
                    L1 = l1 * F(v, pos("L2d"))
                    u = np.array([[F(v, N.app("fldu%d" % q, N.const(a), N.const(b))) for b in range(N2)] for a in range(N1)])
                    p = np.abs(np.fft.fft2(u)) ** 2
                    w = p[i + 1].sum() * L1 / ((N1 * N2) ** 2 * 2 * math.pi)
                    k = F(v, kp.get((N.const(i),)))
                    kw = 2 * math.pi * (i + 1) / L1
                    got = F(v, fq.get((N.const(i),)))
                    return abs(k - kw) <= 1e-7 * kw and abs(got - w) <= 1e-6 * w, "%s F%d%d at k1=%.6g (%.6g): %.8g, periodogram %.8g" % (what, q, q, k, kw, got, w)

                chk.holds("estimated spectrum = periodogram of the field", where, "", vals, f)


def before(chk):
    for name, args in (("compute_spectrum", ()), ("interp_slice", (A.Arr("np", (2,), lambda i: N.app("M:x", *i), "f"), A.Arr("np", (2,), lambda i: N.app("M:y", *i), "f")))):
        it = chk.interp()
        g = lowgen(it, cfg(5, 5, 2, 2), seed=1)
        from .G09 import refused

        refused(chk, it, "no result before generate()", name, lambda: call(it, g, name, *args), loc(it, it.getattr(g, name)), ("RuntimeError", "ValueError"))


PARTS = [analytic, constant, estimate, before]
