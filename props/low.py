"""Oracle of the two-dimensional low-frequency model (Syed & Mann)."""
import math

import numpy as np
from scipy import integrate

from vg import arr as A, node as N
from vg.chk import loc, Broken
from vg.evalr import tofloat, Reject, close
from vg.interp import Dict, List
from vg.scn import *


def F(v, n):
    z = tofloat(v.ev(N.nd(n)))
    return float(z.real if isinstance(z, complex) else z)


def cfg(l1, l2, e1, e2):
    return Dict({"sigma2": pos("sigma2"), "L_2d": pos("L2d"), "psi": pos("psi"), "z_i": pos("zi"), "L1_factor": l1, "L2_factor": l2, "exp1": e1, "exp2": e2})


def phys(v):
    return [F(v, pos(x)) for x in ("sigma2", "L2d", "psi", "zi")]


def c_const(s2, L, zi):
    f = lambda x: (lambda t: t**4 / ((L**-2 + t * t) ** (7 / 3) * (1 + t * t * zi * zi)))(math.exp(x))
    a, m, b = math.log(1e-5 / L), math.log(1 / L), math.log(1e7 / min(L, zi))
    val = sum(integrate.quad(f, p, q, epsabs=0, epsrel=1e-11, limit=200)[0] for p, q in ((a, m), (m, b)))
    return s2 / (2 * val)


# mesoscale parameters as measured in the field (metres): the guards against vanishing denominators act on real units
FIELD = dict(sigma2=2.0, L2d=15000.0, psi=math.radians(43.0), zi=500.0)


def energy(k1, k2, c, L, psi, zi):
    kp2 = 2 * ((k1 * math.cos(psi)) ** 2 + (k2 * math.sin(psi)) ** 2)
    return c * kp2**1.5 / ((L**-2 + kp2) ** (7 / 3) * (1 + kp2 * zi * zi))


def field(v, N1, N2, dx, dy, noise):
    """u1, u2 of the spectral synthesis: stream-function modes with spectrum E(kappa)."""
    s2, L, psi, zi = phys(v)
    c = c_const(s2, L, zi)
    hat = np.fft.fft2(noise)
    a = np.zeros((N1, N2), complex)
    b = np.zeros((N1, N2), complex)
    K1 = 2 * np.pi * np.fft.fftfreq(N1, dx)
    K2 = 2 * np.pi * np.fft.fftfreq(N2, dy)
    for i in range(N1):
        for j in range(N2):
            k = math.hypot(K1[i], K2[j])
            if k == 0:
                continue
            phi = math.sqrt(energy(K1[i], K2[j], c, L, psi, zi) / (math.pi * k**3)) * 2 * math.pi / math.sqrt(dx * dy)
            a[i, j] = 1j * phi * K2[j] * hat[i, j]
            b[i, j] = -1j * phi * K1[i] * hat[i, j]
    return np.fft.ifft2(a).real, np.fft.ifft2(b).real
