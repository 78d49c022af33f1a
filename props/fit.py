"""Shared oracles of the spectra-fitting half: sheared tensor, lifetimes, quadrature."""
import math

import numpy as np
from scipy.special import hyp2f1

from vg import arr as A, node as N
from vg.chk import loc, Broken
from vg.evalr import tofloat, Reject, close
from vg.interp import Dict, List
from vg.scn import *
from .kern import GVN

ORDER = ((0, 0), (1, 1), (2, 2), (0, 2), (1, 2), (0, 1))
NAMES = ("11", "22", "33", "13", "23", "12")


def F(v, n):
    z = tofloat(v.ev(N.nd(n)))
    if isinstance(z, complex):
        z = z.real
    return float(z)


def sheared(k, beta, c):
    """Mann's tensor, c = E(k0)/(4 pi k0^4), k1 != 0."""
    k1, k2, k3 = k
    kk = k1 * k1 + k2 * k2 + k3 * k3
    k30 = k3 + beta * k1
    kk0 = k1 * k1 + k2 * k2 + k30 * k30
    s = k1 * k1 + k2 * k2
    C1 = beta * k1 * k1 * (kk0 - 2 * k30 * k30 + beta * k1 * k30) / (kk * s)
    C2 = k2 * kk0 / s**1.5 * math.atan2(beta * k1 * math.sqrt(s), kk0 - k30 * k1 * beta)
    z1, z2, z3 = C1 - k2 / k1 * C2, k2 / k1 * C1 + C2, kk0 / kk
    P = [[(kk0 if i == j else 0.0) - a * b for j, b in enumerate((k1, k2, k30))] for i, a in enumerate((k1, k2, k30))]
    D = [[1, 0, z1], [0, 1, z2], [0, 0, z3]]
    return [[c * sum(D[i][a] * P[a][b] * D[j][b] for a in range(3) for b in range(3)) for j in range(3)] for i in range(3)]


def vk_c(k0, L, M):
    return M * L ** (17 / 3) / (4 * math.pi) / (1 + (k0 * L) ** 2) ** (17 / 6)


def learn_c(k0, L, M, p, q):
    return M * L ** (5 / 3) * (k0 * L) ** p / (1 + (k0 * L) ** 2) ** q / (4 * math.pi * k0**4)


def mann_tau(kl):
    return kl ** (-2 / 3) / math.sqrt(hyp2f1(1 / 3, 17 / 6, 4 / 3, -(kl**-2)))


def grid(lo, hi, n):
    g = [10 ** (lo + (hi - lo) * i / (n - 1)) for i in range(n)] if n > 1 else [10.0**lo]
    return np.array([-x for x in reversed(g)] + [0.0] + g)


def trapz2(f, k2, k3):
    """f[i2, i3] -> double trapezoidal integral."""
    a = ((f[:, 1:] + f[:, :-1]) / 2 * np.diff(k3)).sum(1)
    return ((a[1:] + a[:-1]) / 2 * np.diff(k2)).sum()


def unk_params(it, o):
    """Every trainable parameter of a module gets an unknown value; returns [(name, tensor)]."""
    ps = it.lib.EXT_NN.named_params(it, o) if hasattr(it.lib, "EXT_NN") else named(it, o)
    from vg.ext_nn import havoc

    for _, p in ps:
        havoc(it, p)
    return ps


def named(it, o):
    from vg.ext_nn import named_params

    return named_params(it, o)
