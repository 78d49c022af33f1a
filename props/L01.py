from .low import *
from .kern import GVN

META = dict(
    title="Low-frequency field is divergence-free synthesis of the 2-D spectrum",
    technique=GVN + "; transforms by their defining sums; oracle: stream-function synthesis of the published spectrum",
    level="other",
    floor=20,
    explanation="The velocity returned for periodic user grids is compared, cell by cell and as a function of the same noise cells, with the stream-function synthesis; "
    "its discrete transform is checked to be orthogonal to the wavevector.",
)


def synth(chk):
    seed = N.sym("seed", "nat", (0, 3))
    cases = [(5, 10, 2, 3), (6, 6, 2, 2), (10, 5, 3, 2)]
    if chk.tier == "thorough":
        cases += [(8, 8, 3, 3), (5, 20, 1, 3), (16, 8, 4, 3)]
    for l1, l2, e1, e2 in cases:
        it = chk.interp()
        g = lowgen(it, cfg(l1, l2, e1, e2), seed=seed)
        u1, u2 = it.iterate(call(it, g, "generate"))
        where = loc(it, it.getattr(g, "generate"))
        what = "%dx%d grid" % (2**e1, 2**e2)
        chk.scen.append(what)
        tok = it.lib.seed_token(it, seed)
        N1, N2 = 2**e1, 2**e2
        vals = chk.vals(it, 2 if chk.tier == "quick" else 5)
        vals += chk.vals(it, 1, pinned=FIELD, base=1)
        for v in vals:
            v.exact_dft = True
        chk.no_failure(it, "synthesis is defined", what, vals)
        ref = {}
        got = {}

        def both(v):
            if id(v) not in ref:
                L = F(v, pos("L2d"))
                dx, dy = l1 * L / N1, l2 * L / N2
                nz = np.array([[F(v, N.app("rnd_normal", tok, N.const(i * N2 + j))) for j in range(N2)] for i in range(N1)])
                ref[id(v)] = field(v, N1, N2, dx, dy, nz)
                got[id(v)] = [np.array([[F(v, u.get((N.const(i), N.const(j)))) for j in range(N2)] for i in range(N1)]) for u in (u1, u2)]
            return ref[id(v)], got[id(v)]

        for n_, u in (("u1", u1), ("u2", u2)):
            for a, s in ((0, N1), (1, N2)):
                chk.same("field has the user grid's shape", where, what, vals, N.nd(u.shape[a]), N.const(s))
        for q in range(2):

            def f(v, q=q):
                r, g_ = both(v)
                d = np.abs(r[q] - g_[q])
                i, j = np.unravel_index(np.argmax(d), d.shape)
                return d[i, j] <= 1e-6 * np.abs(r[q]).max(), "%s u%d cell (%d,%d): %.9g, synthesis gives %.9g" % (what, q + 1, i, j, g_[q][i, j], r[q][i, j])

            chk.holds("field = stream-function synthesis", where, "", vals, f)

        def div(v):
            _, g_ = both(v)
            L = F(v, pos("L2d"))
            K1 = 2 * np.pi * np.fft.fftfreq(N1, l1 * L / N1)
            K2 = 2 * np.pi * np.fft.fftfreq(N2, l2 * L / N2)
            a, b = np.fft.fft2(g_[0]), np.fft.fft2(g_[1])
            sc = max(np.abs(K1[:, None] * a).max(), np.abs(K2[None, :] * b).max())
            d = np.abs(K1[:, None] * a + K2[None, :] * b)
            d[N1 // 2, :] = 0  # the Nyquist modes of a real field carry no direction
            d[:, N2 // 2] = 0
            return d.max() <= 1e-7 * sc, "%s: |k.u| = %.3g of %.3g" % (what, d.max(), sc)

        chk.holds("every resolved mode is orthogonal to its wavevector", where, "", vals, div)
        chk.holds("no mean drift", where, "", vals, lambda v: all(abs(x.mean()) <= 1e-9 * np.abs(x).max() for x in both(v)[1]))


PARTS = [synth]
