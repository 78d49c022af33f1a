import cmath
import math

from scipy.special import hyp2f1

from vg.evalr import tofloat
from vg.chk import loc
from .kern import *

META = dict(
    title="Spectral factor reproduces each model's velocity-spectrum tensor",
    technique=GVN + "; oracle: the published von Karman and Mann tensors written independently",
    level="other",
    floor=27,
    explanation="G G^H of the computed factor is compared with the published tensor, entry by entry, at generic and degenerate wavevectors.",
)


def vk_tensor(k, L, E0):
    kk = sum(x * x for x in k)
    E_over = E0 * L ** (17 / 3) / (4 * math.pi) / (1 + L * L * kk) ** (17 / 6)  # E(k)/(4 pi k^4)
    return [[E_over * ((kk if i == j else 0.0) - k[i] * k[j]) for j in range(3)] for i in range(3)]


def mann_tensor(k, L, E0, beta):
    """Mann (1994), eqs 3.17-3.18, E0 isotropic; k1 != 0 and limits on the degenerate lines."""
    k1, k2, k3 = k
    kk = k1 * k1 + k2 * k2 + k3 * k3
    if kk == 0:
        return [[0.0] * 3 for _ in range(3)]
    k30 = k3 + beta * k1
    kk0 = k1 * k1 + k2 * k2 + k30 * k30
    c = E0 * L ** (17 / 3) / (4 * math.pi) / (1 + L * L * kk0) ** (17 / 6)  # E(k0)/(4 pi k0^4)
    s = k1 * k1 + k2 * k2
    if k1 == 0:
        z1, z2 = -beta, 0.0  # the limit k1 -> 0
    else:
        C1 = beta * k1 * k1 * (kk0 - 2 * k30 * k30 + beta * k1 * k30) / (kk * s)
        C2 = k2 * kk0 / s**1.5 * math.atan2(beta * k1 * math.sqrt(s), kk0 - k30 * k1 * beta)
        z1, z2 = C1 - k2 / k1 * C2, k2 / k1 * C1 + C2
    z3 = kk0 / kk
    P = [[(kk0 if i == j else 0.0) - a * b for j, b in enumerate((k1, k2, k30))] for i, a in enumerate((k1, k2, k30))]
    # distortion dZ = D dZ0 with D = [[1,0,z1],[0,1,z2],[0,0,z3]]
    D = [[1, 0, z1], [0, 1, z2], [0, 0, z3]]
    return [[c * sum(D[i][a] * P[a][b] * D[j][b] for a in range(3) for b in range(3)) for j in range(3)] for i in range(3)]


def mann_beta(k, L, Gamma):
    kk = sum(x * x for x in k)
    if kk == 0:
        return 0.0
    kl = math.sqrt(kk) * L
    return Gamma * kl ** (-2 / 3) / math.sqrt(hyp2f1(1 / 3, 17 / 6, 4 / 3, -(kl**-2)))


def rf(x):
    x = tofloat(x)
    return x.real if isinstance(x, complex) else float(x)


def tensor(chk):
    L, E0, Gm = pos("L"), pos("E0"), pos("Gamma")
    for kind in MODELS:
        it = chk.interp()
        G, k, idx, cov, ns, ops = factor(chk, it, kind)
        where = loc(it, it.getattr(cov, "precompute_Spectrum"))
        vals = case_vals(chk, it)
        chk.no_failure(it, "spectral factor is defined", kind, [v for _, v in vals])
        beta = None
        if kind == "DRD":
            # the fitted lifetime at the same dimensionless wavevector, through the public fitting API
            lf, tf, _ = [N.nd(x) for x in call(it, ops, "exp_scales")]
            kt = tens((1, 3), lambda i: N.mul(A.select_list([N.div(N.mul(x, L), lf) for x in k], i[1]), N.const(1)))
            b = call(it, ops, "EddyLifetime", kt)
            beta = N.div(N.mul(Gm, b.get((N.const(0),))), tf)
        memo = {}

        def oracle(v):
            if id(v) not in memo:
                kv = [rf(v.ev(x)) for x in k]
                l, e, g = rf(v.ev(L)), rf(v.ev(E0)), rf(v.ev(Gm))
                if kind == "VK":
                    t = vk_tensor(kv, l, e)
                else:
                    b = mann_beta(kv, l, g) if kind == "Mann" else (0.0 if not any(kv) else rf(v.ev(beta)))
                    t = mann_tensor(kv, l, e, b)
                memo[id(v)] = t
            return memo[id(v)]

        for i in range(3):
            for j in range(3):
                phi = N.add(*[N.mul(el(G, i, m, idx), N.fn("conj", el(G, j, m, idx))) for m in range(3)])

                def f(v, phi=phi, i=i, j=j):
                    t = oracle(v)
                    x = complex(tofloat(v.ev(phi)))
                    sc = abs(t[0][0]) + abs(t[1][1]) + abs(t[2][2])
                    return (abs(x - t[i][j]) <= 1e-6 * sc + 1e-14), "%s: %r, published tensor %.8g at k=%s" % (
                        kind, x, t[i][j], [round(rf(v.ev(q)), 4) for q in k])

                chk.holds("G G^H equals the model tensor", where, "Phi_%d%d" % (i + 1, j + 1), [v for _, v in vals], f)
        if kind != "VK":
            # both half-planes of the rotation angle must have been looked at
            obtuse = 0
            for _, v in vals:
                kv = [rf(v.ev(x)) for x in k]
                if not any(kv):
                    continue
                b = mann_beta(kv, rf(v.ev(L)), rf(v.ev(Gm))) if kind == "Mann" else rf(v.ev(beta))
                obtuse += sum(x * x for x in (kv[0], kv[1], kv[2] + b * kv[0])) < (kv[2] + b * kv[0]) * kv[0] * b
            if obtuse < 2:
                raise Broken("%s: no wavevector rotated by more than a right angle was sampled" % kind)
        chk.scen.append("%s tensor at %d zero patterns" % (kind, len(CASES)))


PARTS = [tensor]
