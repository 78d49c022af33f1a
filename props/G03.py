from vg.evalr import tofloat
from vg.chk import loc
from .kern import *

META = dict(
    title="Spectral factor is finite, Hermitian-symmetric and zero at zero wavevector",
    technique=GVN,
    level="other",
    floor=60,
    explanation="Every entry of the factor is evaluated on every pattern of vanishing wavenumber components (finite; zero at k=0), and compared with "
    "the factor of the negated grid (complex conjugate).",
)


def finite(chk):
    for kind in MODELS:
        it = chk.interp()
        G, k, idx, cov, ns, ops = factor(chk, it, kind)
        H = factor(chk, it, kind, -1, ops)[0]
        where = loc(it, it.getattr(cov, "precompute_Spectrum"))
        vals = case_vals(chk, it)
        allv = [v for _, v in vals]
        chk.no_failure(it, "spectral factor is defined", kind, allv)
        chk.scen.append("%s factor at k and -k" % kind)
        for j in range(5):
            want = N.const(3) if j < 2 else ns[j - 2]
            chk.same("factor has shape (3,3) + grid", where, "%s axis %d" % (kind, j), allv, N.nd(G.shape[j]), want)
        for i in range(3):
            for j in range(3):
                g, h = el(G, i, j, idx), el(H, i, j, idx)

                def f(v, g=g):
                    z = complex(tofloat(v.ev(g)))
                    return (abs(z) < 1e30), "entry (%d,%d) is %r at k=%s" % (i, j, z, [str(tofloat(v.ev(q))) for q in k])

                chk.holds("every entry is finite", where, kind, allv, f)
                chk.same("G(-k) = conj G(k)", where, "%s entry (%d,%d)" % (kind, i, j), allv, h, N.fn("conj", g), scale=1e-9)
                zero = [v for s, v in vals if s == (0, 0, 0)]
                chk.holds("no mean component: G(0) = 0", where, "%s entry (%d,%d)" % (kind, i, j), zero, lambda v, g=g: abs(complex(tofloat(v.ev(g)))) == 0)


def inputs_untouched(chk):
    """precompute_Spectrum leaves its covariance and its frequencies alone (called twice: same value)."""
    for kind in MODELS:
        it = chk.interp()
        ops = spectra(it, "TAUNET", learn_nu=True) if kind == "DRD" else None
        cov = covariance(it, kind, ops)
        ns = [nat("n%d" % a, 2, 3) for a in range(3)]
        fr = [k_axis(a, ns[a]) for a in range(3)]
        G1 = call(it, cov, "precompute_Spectrum", List(fr))
        G1 = A.Arr("np", G1.shape, G1.reader(), "c")
        G2 = call(it, cov, "precompute_Spectrum", List(fr))
        idx = [N.sym("i%d" % a, "idx", ns[a]) for a in range(3)]
        where = loc(it, it.getattr(cov, "precompute_Spectrum"))
        vals = [v for _, v in case_vals(chk, it, 2)]
        for i in range(3):
            for j in range(3):
                chk.same("repeated evaluation gives the same factor", where, "%s entry (%d,%d)" % (kind, i, j), vals, el(G1, i, j, idx), el(G2, i, j, idx))
        # another grid with the same node counts: the same as a model that has never been evaluated
        fr2 = [A.Arr("np", (ns[a],), (lambda a: lambda i: N.mul(N.sym("sel%d" % a, "nat", (0, 1)), N.app("freq2:%d" % a, i[0])))(a), "f") for a in range(3)]
        G3 = call(it, cov, "precompute_Spectrum", List(fr2))
        G4 = call(it, covariance(it, kind, ops), "precompute_Spectrum", List(fr2))
        for i in range(3):
            for j in range(3):
                chk.same("the factor depends on the frequencies passed only", where, "%s entry (%d,%d)" % (kind, i, j), vals, el(G3, i, j, idx), el(G4, i, j, idx))
        for a in range(3):
            chk.same("frequencies are not modified", where, kind, vals, fr[a].get((idx[a],)), k_axis(a, ns[a]).get((idx[a],)))


PARTS = [finite, inputs_untouched]
