import math

from vg.evalr import tofloat, Reject
from .blocks import *
from .kern import GVN, k_axis, el, CASES
from .G02 import mann_tensor, rf

META = dict(
    title="A saved DRD model generates fields of the spectrum it was fitted to",
    technique=GVN + " across calibrate -> save -> generator construction; oracle: Mann distortion of the fitted eddy lifetime",
    level="other",
    floor=8,
    explanation="A problem is fitted (abstractly: parameters after training are unknown), saved, and read by the generator; the generator's spectral tensor is compared "
    "with the tensor of the fitted object's own lifetime and length scale, at the physical wavevector, up to one positive constant.",
)


def carried(chk):
    for nu in (True, False):
        it = chk.interp()
        path, cp = drd_file(it, prob=dict(learn_nu=nu))
        g = generator(it, "DRD", blend=2, path_to_parameters=path)
        r = find_rf(it, g)
        cov = it.getattr(r, "Covariance")
        where = loc(it, it.getattr(cov, "precompute_Spectrum"))
        ns = [nat("n%d" % a, 2, 3) for a in range(3)]
        fr = [k_axis(a, ns[a]) for a in range(3)]
        G = call(it, cov, "precompute_Spectrum", List(fr))
        ops = it.getattr(cp, "OPS")
        lf, tf, mf = [N.nd(x) for x in call(it, ops, "exp_scales")]
        h = pos("zr")
        idx = [N.sym("i%d" % a, "idx", ns[a]) for a in range(3)]
        k = [fr[a].get((idx[a],)) for a in range(3)]
        kt = tens((1, 3), lambda i: A.select_list([N.mul(x, h) for x in k], i[1]))
        beta = call(it, ops, "EddyLifetime", kt).get((N.const(0),))
        what = "learn_nu=%s" % nu
        chk.scen.append("calibrate/save/generate, " + what)
        n = 6 if chk.tier == "quick" else 40
        vals = []
        for j, s in enumerate(CASES[:-1]):
            # the same model (pinned salt) seen at several wavevectors
            for q, v in enumerate(chk.vals(it, max(2, n // 3), pinned={"sel%d" % a: s[a] for a in range(3)}, base=50 + j)):
                vals.append(v)
            vals += chk.vals(it, 1, pinned=dict({"sel%d" % a: s[a] for a in range(3)}, kscale=5e-4, zr=90.0), base=450 + j)
        phi = {}
        for i in range(3):
            for j in range(3):
                phi[i, j] = N.add(*[N.mul(el(G, i, m, idx), N.fn("conj", el(G, j, m, idx))) for m in range(3)])
        E0 = N.mul(pos("ustar"), pos("ustar"), N.power(h, N.const(-2 / 3)), mf, N.power(lf, N.const(-5 / 3)), N.const(4 * math.pi))
        ratios = {}

        def f(v):
            kv = [rf(v.ev(x)) for x in k]
            L = rf(v.ev(lf)) * rf(v.ev(h))
            t = mann_tensor(kv, L, 1.0, rf(v.ev(beta)))
            x = {q: complex(tofloat(v.ev(e))) for q, e in phi.items()}
            den = t[0][0] + t[1][1] + t[2][2]
            num = (x[0, 0] + x[1, 1] + x[2, 2]).real
            if not den > 0:
                raise Reject("degenerate")
            c0 = num / den
            if not c0 > 0:
                return False, "%s: trace ratio %r" % (what, c0)
            bad = [(q, x[q], c0 * t[q[0]][q[1]]) for q in x if abs(x[q] - c0 * t[q[0]][q[1]]) > 1e-6 * num]
            if bad:
                return False, "%s: Phi_%s is %r, the fitted spectrum gives %.8g at k=%s" % (what, bad[0][0], bad[0][1], bad[0][2], kv)
            # the constant does not depend on the wavevector: compare with the model's own amplitude
            amp = c0 / rf(v.ev(E0))
            ratios.setdefault("r", amp)
            return abs(amp / ratios["r"] - 1) < 1e-6, "%s: amplitude ratio %.8g, at other wavevectors %.8g" % (what, amp, ratios["r"])

        chk.holds("generator tensor = fitted tensor (up to one constant)", where, "", vals, f)
        ok = vals[: 8]
        # streamwise buffer follows the fitted scales
        shp = N.nd(it.getattr(g, "noise_shape").items[0]) if "noise_shape" in g.attrs else None
        if shp is not None:
            nx = nodes_per_axis(0)
            dx = N.div(pos("g0"), nx)

            def buf(v):
                need = math.ceil(3 * rf(v.ev(tf)) * rf(v.ev(lf)) * rf(v.ev(h)) / rf(v.ev(dx)) - 1e-9)
                have = int(v.ev(shp)) - int(v.ev(nx))
                return have >= 2 * need, "%s: %d buffer cells for 2 x %d" % (what, have, need)

            chk.holds("buffers follow the fitted scales", loc(it, it.getattr(g, "generate")), "", ok, buf)
        for q, nm in ((lf, "length"), (tf, "time"), (mf, "magnitude")):
            chk.holds("fitted scales are positive", loc(it, it.getattr(ops, "exp_scales")), nm, ok, lambda v, q=q: rf(v.ev(q)) > 0)


PARTS = [carried]
