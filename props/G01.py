from vg.evalr import tofloat
from vg.chk import loc
from .kern import *

META = dict(
    title="Generated fields are incompressible at every wavevector",
    technique=GVN,
    level="other",
    floor=9,
    explanation="The spectral factor returned by each covariance class is computed as a value graph for a frequency grid of unknown "
    "sizes and unknown entries; the contraction k.G is evaluated as one value number per column, for every pattern of vanishing wavenumber components.",
)


def incompressible(chk):
    for kind in MODELS:
        it = chk.interp()
        G, k, idx, cov, ns, ops = factor(chk, it, kind)
        where = loc(it, it.getattr(cov, "precompute_Spectrum"))
        vals = case_vals(chk, it)
        chk.no_failure(it, "spectral factor is defined", kind, [v for _, v in vals])
        chk.scen.append("%s: factor on an n1 x n2 x n3 grid, %d zero patterns" % (kind, len(CASES)))
        size = N.mul(N.add(*[N.fn("abs", x) for x in k]), N.add(*[N.fn("abs", el(G, i, j, idx)) for i in range(3) for j in range(3)]))
        for m in range(3):
            div = N.add(*[N.mul(k[a], el(G, a, m, idx)) for a in range(3)])
            mag = N.add(*[N.fn("abs", N.mul(k[a], el(G, a, m, idx))) for a in range(3)])

            def f(v, div=div, mag=mag, size=size):
                d, s = abs(tofloat(v.ev(div))), abs(tofloat(v.ev(mag)))
                return (d == d and d <= 1e-7 * s + 1e-14 + 1e-12 * abs(tofloat(v.ev(size)))), "|k.G|=%.3g of %.3g" % (d, s)

            chk.holds("k.G(k) = 0", where, "%s column %d:" % (kind, m), [v for _, v in vals], f)

        # the field is not trivially zero
        nz = N.add(*[N.fn("abs", el(G, i, j, idx)) for i in range(3) for j in range(3)])
        chk.holds("G(k) does not vanish identically", where, kind, [v for s, v in vals if s == (1, 1, 1)], lambda v: abs(tofloat(v.ev(nz))) > 0)


PARTS = [incompressible]
