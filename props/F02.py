from .fit import *
from .F01 import setup, scales, exponents, TYPES, oracle_phi, v2

META = dict(
    title="Spectral coherence is the normalised lateral cross-spectrum",
    technique=GVN + "; oracle: |S(r)|^2/|S(0)|^2 of the published tensor on the coherence grid",
    level="other",
    floor=40,
    explanation="OnePointSpectra.SpectralCoherence is interpreted with unknown wavenumbers, separations, scales and grid limits; every component is compared with the oracle and shown to be one at zero separation, "
    "between zero and one, even in the separation, and independent of the spectrum magnitude.",
)


def coh(chk):
    n = 2 if chk.tier == "quick" else 3
    for et in TYPES:
        for learn in (False, True):
            it, o = setup(chk, et, learn, n, use_coherence=learn and et != "TWOTHIRD")
            pqn = exponents(it, o, learn)
            where = loc(it, it.getattr(o, "SpectralCoherence"))
            nk, ns = nat("nk", 2, 3), nat("ns", 2, 3)
            k1 = tens((nk,), lambda i: N.app("M:k1", *i))
            sep = tens((ns,), lambda i: N.mul(N.sym("zsel", "nat", (0, 1)), N.app("sep", *i)))
            i, j = N.sym("i", "idx", nk), N.sym("j", "idx", ns)
            out = call(it, o, "SpectralCoherence", k1, sep)
            neg = call(it, o, "SpectralCoherence", k1, tens((ns,), lambda q: N.neg(sep.get(q))))
            what = "%s %s" % (et, "learned spectrum" if learn else "von Karman spectrum")
            chk.scen.append(what)
            m = 3 if chk.tier == "quick" else 8
            vals = chk.vals(it, m, pinned={"zsel": 1})
            zero = chk.vals(it, 2, pinned={"zsel": 0}, base=1)
            chk.no_failure(it, "coherence is defined", what, vals + zero)
            for a, s in ((0, N.const(3)), (1, ns), (2, nk)):
                chk.same("components x separations x frequencies", where, what, vals, N.nd(out.shape[a]), s)
            L, _, M = scales(it, o)
            kt = tens((1, 3), lambda q: A.select_list([N.sym("q0"), N.sym("q1"), N.sym("q2")], q[1]))
            tau = call(it, o, "EddyLifetime", kt).get((N.ZERO,))
            ref = {}

            def table(v):
                if id(v) not in ref:
                    l, m_ = F(v, L), F(v, M)
                    lo = F(v, real("cmin"))
                    g = grid(lo, lo + F(v, pos("cspan")), n) / l
                    x1 = F(v, k1.get((i,)))
                    pq = [F(v, x) for x in pqn] if learn else None
                    T = np.zeros((3, len(g), len(g)))
                    for a in range(len(g)):
                        for b in range(len(g)):
                            k = (x1, g[a], g[b])
                            t = oracle_phi(v, it, k, l, m_, F(v2(v, k), tau), pq)
                            T[:, a, b] = t[0][0], t[1][1], t[2][2]
                    ref[id(v)] = (g, T, x1)
                return ref[id(v)]

            for c_ in range(3):
                n_ = N.nd(at(out, c_, j, i))

                def f(v, c_=c_, n_=n_):
                    g, T, x1 = table(v)
                    r_ = F(v, sep.get((j,)))
                    s = trapz2(T[c_] * np.cos(g * r_)[:, None], g, g) + 1j * trapz2(T[c_] * np.sin(g * r_)[:, None], g, g)
                    want = abs(s) ** 2 / abs(trapz2(T[c_], g, g)) ** 2
                    got = F(v, n_)
                    return abs(got - want) <= 1e-6, "%s: %.9g at r=%.4g, expected %.9g" % (what, got, r_, want)

                chk.holds("coherence = |S(r)|^2/|S(0)|^2", where, "component %s" % "uvw"[c_], vals, f)
                chk.holds("coherence lies in [0, 1]", where, "component %s" % "uvw"[c_], vals, lambda v, n_=n_: (-1e-9 <= F(v, n_) <= 1 + 1e-9, "%g" % F(v, n_)))
                chk.same("coherence is 1 at zero separation", where, "component %s, %s" % ("uvw"[c_], what), zero, n_, N.const(1))
                chk.same("coherence is even in the separation", where, "component %s, %s" % ("uvw"[c_], what), vals, n_, at(neg, c_, j, i))


def magnitude(chk):
    """Doubling the magnitude, or adding separations and frequencies, changes nothing else."""
    it, o = setup(chk, "MANN")
    where = loc(it, it.getattr(o, "SpectralCoherence"))

    P = dict(integ=dict(coh_log_min=real("cmin"), coh_log_max=N.add(real("cmin"), pos("cspan")), coh_num_points=2))
    a = spectra(it, "MANN", phys=dict(L=pos("L"), Gamma=pos("G"), sigma=pos("S")), **P)
    b = spectra(it, "MANN", phys=dict(L=pos("L"), Gamma=pos("G"), sigma=pos("S2")), **P)
    nk, ns = nat("nk", 2, 3), nat("ns", 2, 3)
    k1 = tens((nk,), lambda i: N.app("M:k1", *i))
    sep = tens((ns,), lambda i: N.app("sep", *i))
    i, j = N.sym("i", "idx", nk), N.sym("j", "idx", ns)
    x, y = call(it, a, "SpectralCoherence", k1, sep), call(it, b, "SpectralCoherence", k1, sep)
    one = call(it, a, "SpectralCoherence", tens((1,), lambda q: k1.get((i,))), tens((1,), lambda q: sep.get((j,))))
    vals = chk.vals(it, 4)
    for c_ in range(3):
        chk.same("coherence does not depend on the magnitude", where, "component %s" % "uvw"[c_], vals, at(x, c_, j, i), at(y, c_, j, i))
        chk.same("each entry depends on its own separation and frequency", where, "component %s" % "uvw"[c_], vals, at(x, c_, j, i), at(one, c_, 0, 0))
    chk.scen.append("two magnitudes; one-entry call")


PARTS = [coh, magnitude]
