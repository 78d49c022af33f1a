import cmath
import math

import numpy as np

from vg import arr as A, node as N
from vg.chk import loc, Broken
from vg.evalr import tofloat, Reject
from vg.interp import Class, ExtFn, List, Obj
from vg.scn import *
from .kern import GVN

META = dict(
    title="Colouring noise is an exact stateless linear filter on the grid's wavenumbers",
    technique=GVN + "; transforms evaluated by their defining sums; oracle: direct convolution theorem",
    level="other",
    floor=8,
    explanation="A random field object is built over an uninterpreted covariance (its spectral factor is an arbitrary function of the wavenumbers it is "
    "handed), so the sampled field is a value graph in the noise, the grid and that function; it is compared with the filter's defining sums.",
)


def stub(it, scalar, odd):
    """A covariance whose factor is an arbitrary (Hermitian) function of the wavenumbers received."""
    o = Obj(Class("AnyCovariance", [], None))

    def impl(it_, a, k):
        fr = it_.iter_list(a[0]) if hasattr(it_, "iter_list") else (a[0].items if isinstance(a[0], List) else list(a[0]))
        ns = tuple(f.shape[0] for f in fr)

        def S(i, j, idx):
            f = [fr[m].get((idx[m],)) for m in range(len(fr))]
            f2 = [N.mul(x, x) for x in f]
            e = N.app("P:Se", i, j, *f2)
            if not odd:
                return e
            lin = N.add(*[N.mul(N.const(m + 1), x) for m, x in enumerate(f)])
            return N.add(e, N.mul(N.I, lin, N.app("So", i, j, *f2)))

        if scalar:
            return A.Arr("np", ns, lambda idx: S(N.const(0), N.const(0), idx), "c" if odd else "f")
        return A.Arr("np", (3, 3) + ns, lambda idx: S(idx[0], idx[1], idx[2:]), "c")

    o.attrs["precompute_Spectrum"] = ExtFn("precompute_Spectrum", impl)
    return o


def Snum(v, i, j, f, odd):
    f2 = [N.const(x * x) for x in f]
    e = complex(tofloat(v.ev(N.app("P:Se", N.const(i), N.const(j), *f2))))
    if not odd:
        return e
    lin = sum((m + 1) * x for m, x in enumerate(f))
    return e + 1j * lin * tofloat(v.ev(N.app("So", N.const(i), N.const(j), *f2)))


def build(it, cls, method, odd, sizes):
    m = it.load(FG + "gaussian_random_fields")
    lev = vec(it, [nat("lev%d" % a, 1, 2) for a in range(3)], "i")
    dims = vec(it, [pos("g%d" % a) for a in range(3)])
    scalar = cls == "GaussianRandomField"
    sh = List(list(sizes)) if not scalar else List(list(sizes))
    return it.call(
        anchor(m, cls),
        [],
        dict(ndim=3, grid_level=lev, grid_dimensions=dims, sampling_method=method, grid_shape=sh, Covariance=stub(it, scalar, odd)),
    )


def geometry(v):
    g = [float(tofloat(v.ev(pos("g%d" % a)))) for a in range(3)]
    l = [int(v.ev(nat("lev%d" % a, 1, 2))) for a in range(3)]
    return [g[a] / (2 ** l[a] + 1) for a in range(3)]


def fr(m, n):
    return m if m <= (n - 1) // 2 else m - n


def filt(v, noise, sizes, comps, x, h, odd, ncomp):
    """Sum over wavenumbers of S(f) DFT(noise)(f) exp(+i f x) / N, real part."""
    import numpy as np

    n = sizes
    nz = np.zeros((ncomp,) + tuple(n))
    for l in range(ncomp):
        for a in range(n[0]):
            for b in range(n[1]):
                for c_ in range(n[2]):
                    nz[l, a, b, c_] = float(tofloat(v.ev(noise(a, b, c_, l))))
    hat = np.fft.fftn(nz, axes=(1, 2, 3))
    out = 0.0
    for a in range(n[0]):
        for b in range(n[1]):
            for c_ in range(n[2]):
                f = [2 * math.pi / (h[j] * n[j]) * fr(m, n[j]) for j, m in enumerate((a, b, c_))]
                ph = cmath.exp(2j * math.pi * (a * x[0] / n[0] + b * x[1] / n[1] + c_ * x[2] / n[2]))
                for l in range(ncomp):
                    out += (Snum(v, comps, l, f, odd) * hat[l, a, b, c_] * ph).real
    return out / (n[0] * n[1] * n[2])


def run_case(chk, cls, method, odd, sizes, const, what):
    it = chk.interp()
    sy = [nat("m%d" % a, 2, 5) for a in range(3)]
    rf = build(it, cls, method, odd, sy)
    scalar = cls == "GaussianRandomField"
    nshape = tuple(sy) if scalar else tuple(sy) + (3,)
    n1 = A.Arr("np", nshape, lambda i: N.app("noiseA", *i), "f")
    n2 = A.Arr("np", nshape, lambda i: N.app("noiseB", *i), "f")
    call(it, rf, "sample", n1)
    y = call(it, rf, "sample", n2)
    kept = n2.get(tuple(N.const(1) for _ in nshape))
    # the caller reuses its noise array for other values, then passes it again
    it.setitem(n2, Ellipsis, A.Arr("np", nshape, lambda i: N.app("noiseC", *i), "f"))
    yc = call(it, rf, "sample", n2)
    where = loc(it, it.getattr(rf, "sample"))
    corr = it.getattr(rf, "Correlate")
    try:
        where = loc(it, it.getattr(corr, "__call__"))
    except Exception:
        pass
    chk.scen.append(what)
    pin = {"m%d" % a: sizes[a] for a in range(3)}
    vals = chk.vals(it, 2 if chk.tier == "quick" else 6, pinned=pin)
    for v in vals:
        v.exact_dft = True
    chk.no_failure(it, "sampling is defined", what, vals)
    for j in range(y.ndim):
        chk.same("field has the grid's shape", where, what, vals, N.nd(y.shape[j]), N.nd(nshape[j]))
    chk.same("the caller's noise is left alone", where, what, vals, kept, N.app("noiseB", *(N.const(1) for _ in nshape)))
    pts = [(0, 0, 0), (1, 0, 1), (0, 1, 1), (sizes[0] - 1, 1, sizes[2] - 1)]
    if chk.tier == "quick":
        pts = pts[1:]
    for x in pts:
        for c_ in (range(1) if scalar else range(3)):
          for res, nm in ((y, "noiseB"), (yc, "noiseC")):
            e = res.get(tuple(N.const(q) for q in x) + (() if scalar else (N.const(c_),)))

            def f(v, e=e, x=x, c_=c_, nm=nm):
                h = geometry(v)
                noise = lambda a, b, d, l: N.app(nm, *(tuple(N.const(q) for q in (a, b, d)) + (() if scalar else (N.const(l),))))
                w = filt(v, noise, sizes, c_, x, h, odd, 1 if scalar else 3)
                V = h[0] * h[1] * h[2] * sizes[0] * sizes[1] * sizes[2]
                w *= const(sizes[0] * sizes[1] * sizes[2]) / math.sqrt(V)
                g = complex(tofloat(v.ev(e)))
                return (abs(g - w) <= 1e-7 * (abs(w) + 1e-6)), "at %s comp %d: %r, filter gives %.9g" % (x, c_, g, w)

            chk.holds("field = filter of this call's noise", where, what + (", noise array reused" if nm == "noiseC" else ""), vals, f)


def vector_sampler(chk):
    N_ = lambda n: math.sqrt(n)
    for sizes in ((3, 3, 4), (5, 3, 3)):
        run_case(chk, "VectorGaussianRandomField", "vf_fftw", True, sizes, N_, "vector sampler, Hermitian factor, grid %s" % (sizes,))
    run_case(chk, "VectorGaussianRandomField", "vf_fftw", False, (4, 2, 3), N_, "vector sampler, even factor, grid (4,2,3)")


def scalar_samplers(chk):
    run_case(chk, "GaussianRandomField", "fftw", True, (3, 3, 4), lambda n: math.sqrt(n), "scalar FFTW sampler")
    run_case(chk, "GaussianRandomField", "fftw", False, (2, 4, 3), lambda n: math.sqrt(n), "scalar FFTW sampler, even grid")
    run_case(chk, "GaussianRandomField", "fft", False, (3, 4, 3), lambda n: 1.0, "scalar FFT sampler")


def trig_samplers(chk):
    import itertools

    for method in ("dst", "dct"):
        it = chk.interp()
        sy = [nat("m%d" % a, 2, 4) for a in range(3)]
        rf = build(it, "GaussianRandomField", method, False, sy)
        call(it, rf, "sample", A.Arr("np", tuple(sy), lambda i: N.app("noiseB", *i), "f"))
        n1 = A.Arr("np", tuple(sy), lambda i: N.app("noiseA", *i), "f")
        y = call(it, rf, "sample", n1)
        vals = chk.vals(it, 3 if chk.tier == "quick" else 10)
        for v in vals:
            v.exact_dft = True
        what = "scalar %s sampler" % method
        chk.no_failure(it, "sampling is defined", what, vals)
        where = loc(it, it.getattr(it.getattr(rf, "Correlate"), "__call__"))
        chk.same("the caller's noise is left alone", where, what, vals, n1.get((N.const(1),) * 3), N.app("noiseA", *((N.const(1),) * 3)))
        for x in ((0, 0, 0), (1, 0, 1)):

            def f(v):
                h = geometry(v)
                n = [int(v.ev(s)) for s in sy]
                w = 0.0
                for p in itertools.product(*[range(q) for q in n]):
                    fq = [2 * math.pi / (h[j] * n[j]) * fr(m, n[j]) for j, m in enumerate(p)]
                    t = Snum(v, 0, 0, fq, False).real * float(tofloat(v.ev(N.app("noiseA", *(N.const(q) for q in p)))))
                    for j in range(3):
                        if method == "dst":
                            t *= 2 * math.sin(math.pi * (x[j] + 1) * (p[j] + 1) / (n[j] + 1))
                        else:
                            t *= 2 * math.cos(math.pi * x[j] * (2 * p[j] + 1) / (2 * n[j]))
                    w += t
                w /= math.sqrt(h[0] * h[1] * h[2] * n[0] * n[1] * n[2])
                g = complex(tofloat(v.ev(y.get(tuple(N.const(q) for q in x)))))
                return (abs(g - w) <= 1e-7 * (abs(w) + 1e-6)), "at %s: %r, transform gives %.9g" % (x, g, w)

            chk.holds("field = filter of this call's noise", where, what, vals, f)
        chk.scen.append(what)


def own_noise(chk):
    """A field sampled without noise is the filter of its own white noise, drawn for every point and component."""
    for cls, method in (("VectorGaussianRandomField", "vf_fftw"), ("GaussianRandomField", "fft"), ("GaussianRandomField", "fftw")):
        sizes = (2, 3, 2)
        what = "%s, %s sampler, no noise given" % (cls, method)
        it = chk.interp()
        a, b = [build(it, cls, method, False, list(sizes)) for _ in range(2)]
        for o in (a, b):
            call(it, o, "reseed", N.sym("seed", "nat", (1, 9)))
        where = loc(it, it.getattr(a, "sample_noise"))
        comps = () if cls == "GaussianRandomField" else (3,)
        shape = tuple(sizes) + comps
        z = call(it, a, "sample_noise")
        y = call(it, b, "sample")
        vals = chk.vals(it, 3 if chk.tier == "quick" else 10)
        for v in vals:
            v.exact_dft = True
        chk.scen.append(what)
        chk.no_failure(it, "sampling without noise is defined", what, vals)
        if not chk.fact("one noise value per point and component", tuple(int(q) if isinstance(q, int) else q for q in z.shape) == shape, where, "%s: noise of shape %s" % (what, list(z.shape))):
            continue
        seen = set()
        for q in np.ndindex(*shape):
            n = z.get(tuple(N.const(int(x)) for x in q))
            rnd = [x for x in N.walk(n) if x.op == "app" and str(x.attr).startswith("rnd_")]
            if not chk.fact("every noise value is one standard normal draw", len(rnd) == 1 and rnd[0].attr == "rnd_normal", where, "%s: %r" % (what, q)):
                break
            seen.add(rnd[0].id)

            def f(v, n=n, r=rnd[0]):
                h = geometry(v)
                want = math.sqrt(h[0] * h[1] * h[2]) * float(tofloat(v.ev(r)))
                g = float(tofloat(v.ev(n)))
                return abs(g - want) <= 1e-9 * abs(want), "noise %s is %.9g, white noise of this grid is %.9g" % (q, g, want)

            chk.holds("noise is white with the variance of a grid cell", where, what, vals, f)
        else:
            chk.fact("noise cells are distinct draws", len(seen) == int(np.prod(shape)), where, "%s: %d draws for %d cells" % (what, len(seen), int(np.prod(shape))))
        c_ = call(it, build(it, cls, method, False, list(sizes)), "sample", z)
        for x in ((0, 1, 1), (1, 2, 0)):
            for l in range(comps[0] if comps else 1):
                ix = tuple(N.const(q) for q in x) + ((N.const(l),) if comps else ())
                chk.same("a field sampled without noise is the filter of its own noise", where, "%s, point %s" % (what, x), vals, y.get(ix), c_.get(ix), scale=1.0)


PARTS = [vector_sampler, scalar_samplers, trig_samplers, own_noise]
