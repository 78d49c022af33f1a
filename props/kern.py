"""Shared scenario: the spectral factor G(k) of each model at an arbitrary wavevector."""
import itertools

from vg import arr as A, node as N
from vg.chk import Broken
from vg.scn import *

GVN = "global value numbering of a gated value graph (abstract interpretation of the source), equality decided by randomized valuation of value numbers"

MODELS = ("VK", "Mann", "DRD")


def k_axis(a, n, sgn=1):
    """Axis a of the frequency grid: n entries, unknown values, switched to zero by sel<a>."""
    return A.Arr("np", (n,), lambda idx: N.mul(N.const(sgn), pos("kscale"), N.sym("sel%d" % a, "nat", (0, 1)), N.app("freq:%d" % a, idx[0])), "f")


def factor(chk, it, kind, sgn=1, ops=None):
    """(G, k, idx, covariance): G is the array returned by precompute_Spectrum."""
    if kind == "DRD" and ops is None:
        ops = spectra(it, "TAUNET", learn_nu=True)
    cov = covariance(it, kind, ops)
    ns = [nat("n%d" % a, 2, 3) for a in range(3)]
    fr = [k_axis(a, ns[a], sgn) for a in range(3)]
    G = call(it, cov, "precompute_Spectrum", List(fr))
    if not isinstance(G, A.Arr) or G.ndim != 5:
        raise Broken("precompute_Spectrum of %s does not return a 5-index array" % kind)
    idx = [N.sym("i%d" % a, "idx", ns[a]) for a in range(3)]
    k = [fr[a].get((idx[a],)) for a in range(3)]
    return G, k, idx, cov, ns, ops


CASES = list(itertools.product((1, 0), repeat=3))


# surface-layer turbulence in metres: kilometre domains, so wavenumbers far below one
FIELD = dict(kscale=5e-4, L=60.0, E0=0.05, Gamma=3.2, href=90.0)


def case_vals(chk, it, per=None, sels=CASES, generic=24):
    """Valuations for every pattern of vanishing wavenumber components, two thirds of them with magnitudes spread
    over decades (strong and weak shear, long and short waves); the generic pattern gets `generic` times as many."""
    out = []
    per = per or (3 if chk.tier == "quick" else 12)
    for j, s in enumerate(sels):
        p = {"sel%d" % a: s[a] for a in range(3)}
        p["kscale"] = 1
        n = per * (generic if all(s) else 1)
        for q in range(3):
            m = (n + 2 - q) // 3
            out += [(s, v) for v in chk.vals(it, m, pinned=p, base=j + 1 + 100 * q, wide=(0.0, 0.5, 1.0)[q])]
        out += [(s, v) for v in chk.vals(it, 2 if per > 1 else 1, pinned=dict(p, **FIELD), base=j + 401)]
    return out


def el(G, i, j, idx):
    return G.get((N.const(i), N.const(j), idx[0], idx[1], idx[2]))
