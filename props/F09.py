from .fit import *
from .G09 import snap

META = dict(
    title="Reference spectra follow the Kaimal and von Karman closed forms",
    technique=GVN + "; oracle: IEC Kaimal and von Karman one-point spectra written independently; write-effect analysis of the inputs",
    level="other",
    floor=40,
    explanation="Both data generators are interpreted on an unknown number of unknown wavenumbers with unknown physical parameters; every one of the nine entries at an unknown index is compared with its closed form, "
    "the inputs must be left alone, and the result must be accepted by calibrate.",
)
NK = nat("nk", 2, 4)


def k1v(kind="t", dt="f32"):
    a = A.Arr(kind, (NK,), lambda i: N.app("P:k1", *i), "f")
    if kind == "t":
        a.xdtype = dt
    return a


def ref_kaimal(k, z, u):
    n = k * z / (2 * math.pi)
    o = np.zeros((3, 3))
    o[0, 0] = 52.5 * n / (1 + 33 * n) ** (5 / 3)
    o[1, 1] = 8.5 * n / (1 + 9.5 * n) ** (5 / 3)
    o[2, 2] = 1.05 * n / (1 + 5.3 * n ** (5 / 3))
    o[0, 2] = -7 * n / (1 + 9.6 * n) ** (12 / 5)
    return o * u * u


def ref_vk(k, L, C):
    f = lambda x: 9 / 55 * C * (L**-2 + x * x) ** (-5 / 6)
    df = 9 / 55 * C * (-5 / 6) * 2 * k * (L**-2 + k * k) ** (-11 / 6)
    o = np.zeros((3, 3))
    o[0, 0] = k * f(k)
    o[1, 1] = o[2, 2] = k * (f(k) - k * df) / 2  # isotropic relation between transverse and longitudinal spectra
    return o


GENS = {
    "generate_kaimal_spectra": (dict(zref=pos("z"), ustar=pos("us")), lambda v, k: ref_kaimal(k, F(v, pos("z")), F(v, pos("us")))),
    "generate_von_karman_spectra": (dict(L=pos("Lv"), C=pos("Cv")), lambda v, k: ref_vk(k, F(v, pos("Lv")), F(v, pos("Cv")))),
}


def formulas(chk):
    for fn_, (kw, ref) in GENS.items():
        for dt in ("f32", "f64"):
            it = chk.interp()
            m = it.load(SF + "data_generator")
            f = anchor(m, fn_)
            where = loc(it, f)
            k1 = k1v("t", dt)
            before = snap(k1) if callable(snap) else None
            out = it.resolve(it.call(f, [k1], dict(kw)))
            vals = chk.vals(it, 12 if chk.tier == "quick" else 80)
            chk.no_failure(it, "spectra are defined", fn_, vals)
            if not chk.fact("a data dictionary is returned", isinstance(out, Dict) and "k1" in out.d and "ops" in out.d, where, repr(out)[:80]):
                continue
            ops = it.resolve(out.d["ops"])
            i = N.sym("i", "idx", NK)
            ok = chk.fact("one 3x3 block per wavenumber", isinstance(ops, A.Arr) and ops.ndim == 3, where, repr(ops)[:80])
            if not ok:
                continue
            for a, n in enumerate((NK, N.const(3), N.const(3))):
                chk.same("one 3x3 block per wavenumber", where, "%s axis %d" % (fn_, a), vals, N.nd(ops.shape[a]), n)
            for r in range(3):
                for c in range(3):
                    def g(v, r=r, c=c):
                        k = F(v, N.app("P:k1", i))
                        got, want = F(v, ops.get((i, N.const(r), N.const(c)))), ref(v, k)[r, c]
                        return close(got, want, 1e-9), "%s[%d,%d] at k1=%.6g: %.9g, closed form %.9g" % (fn_, r, c, k, got, want)

                    chk.holds("entry = its closed form", where, "%s [%d,%d] %s" % (fn_, r, c, dt), vals, g)
            rk = it.resolve(out.d["k1"])
            chk.same("the wavenumbers are passed through", where, fn_, vals, rk.get((i,)), N.app("P:k1", i))
            chk.same("the wavenumbers are passed through", where, fn_, vals, N.nd(rk.shape[0]), NK)
            chk.same("the input is left alone", where, fn_, vals, k1.get((i,)), N.app("P:k1", i))
            # a second call gives the same values (no state between calls)
            again = it.resolve(it.resolve(it.call(f, [k1], dict(kw))).d["ops"])
            r, c = N.sym("r", "idx", N.const(3)), N.sym("c", "idx", N.const(3))
            chk.same("repeated calls agree", where, fn_, vals, again.get((i, r, c)), ops.get((i, r, c)))
            chk.scen.append("%s %s" % (fn_, dt))


def defaults(chk):
    it = chk.interp()
    m = it.load(SF + "data_generator")
    f = anchor(m, "generate_von_karman_spectra")
    i = N.sym("i", "idx", NK)
    a = it.resolve(it.resolve(it.call(f, [k1v()], {})).d["ops"])
    vals = chk.vals(it, 8)
    from fractions import Fraction

    b = it.resolve(it.resolve(it.call(f, [k1v()], dict(L=N.const(Fraction(59, 100)), C=N.const(Fraction(16, 5))))).d["ops"])
    for q in range(3):
        chk.same("default length scale 0.59 and constant 3.2", loc(it, f), "", vals, a.get((i, N.const(q), N.const(q))), b.get((i, N.const(q), N.const(q))))


def accepted(chk):
    """calibrate trains on exactly these entries, in its component order."""
    for fn_, (kw, ref) in GENS.items():
        for nc in (3, 4, 6):
            it = chk.interp()
            m = it.load(SF + "data_generator")
            data = it.call(anchor(m, fn_), [tens((3,), lambda i: N.app("P:k1", *i))], dict(kw))
            cp = problem(it, "MANN", prob=dict(num_components=nc))
            where = loc(it, it.getattr(cp, "calibrate"))
            call(it, cp, "calibrate", data)
            kf = it.resolve(it.getattr(cp, "kF_data_vals"))
            vals = chk.vals(it, 3)
            chk.scen.append("calibrate on %s, %d components" % (fn_, nc))
            j = N.sym("j", "idx", N.const(3))
            for r in range(nc):
                def g(v, r=r):
                    k = F(v, N.app("P:k1", j))
                    got = F(v, kf.get((N.const(r), j)) if kf.ndim == 2 else kf.get((N.add(N.mul(N.const(r), N.const(3)), j),)))
                    want = ref(v, k)[ORDER[r]]
                    return close(got, want, 1e-9), "row %s: %.9g, data %.9g" % (NAMES[r], got, want)

                chk.holds("calibrate trains on the generated entries", where, "%s, %d components" % (fn_, nc), vals, g)


PARTS = [formulas, defaults, accepted]
