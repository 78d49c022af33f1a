from .low import *
from .kern import GVN

META = dict(
    title="Low-frequency slices interpolate the delivered field at physical positions",
    technique=GVN + "; oracle: bilinear interpolation with zero outside",
    level="other",
    floor=8,
    explanation="interp_slice is analysed for an arbitrary field and arbitrary target coordinates; every result cell is compared with bilinear interpolation on the user's "
    "coordinates; the spacing of the delivered field is compared with those coordinates.",
)


def bilinear(xs, ys, f, x, y):
    if x < xs[0] or x > xs[-1] or y < ys[0] or y > ys[-1]:
        return 0.0
    i = min(max(int(np.searchsorted(xs, x, side="right")) - 1, 0), len(xs) - 2)
    j = min(max(int(np.searchsorted(ys, y, side="right")) - 1, 0), len(ys) - 2)
    a, b = (x - xs[i]) / (xs[i + 1] - xs[i]), (y - ys[j]) / (ys[j + 1] - ys[j])
    return (1 - a) * (1 - b) * f[i, j] + a * (1 - b) * f[i + 1, j] + (1 - a) * b * f[i, j + 1] + a * b * f[i + 1, j + 1]


def slices(chk):
    it = chk.interp()
    f1 = pos("f1")
    g = lowgen(it, cfg(f1, N.mul(f1, N.const(2)), 2, 3), seed=1)
    xs = A.Arr("np", (nat("tx", 2, 3),), lambda i: N.mul(N.app("M:x", *i), pos("xs")), "f")
    ys = A.Arr("np", (nat("ty", 2, 3),), lambda i: N.mul(N.app("M:y", *i), pos("ys")), "f")
    # two realisations, sliced after each: the slice must follow the field delivered last
    call(it, g, "generate")
    call(it, g, "interp_slice", xs, ys)
    fld = dict(zip(("u1", "u2"), it.iterate(call(it, g, "generate"))))
    fld = {nm: x.reader() for nm, x in fld.items()}
    r = list(it.iterate(call(it, g, "interp_slice", xs, ys)))
    where = loc(it, it.getattr(g, "interp_slice"))
    vals = chk.vals(it, 30 if chk.tier == "quick" else 200)
    chk.no_failure(it, "slices are defined", "interp_slice", vals)
    i, j = N.sym("i", "idx", nat("tx", 2, 3)), N.sym("j", "idx", nat("ty", 2, 3))
    inside = [0]
    for q, nm in enumerate(("u1", "u2")):
        chk.same("slice shape = (x targets, y targets)", where, nm, vals, N.nd(r[q].shape[0]), nat("tx", 2, 3))
        chk.same("slice shape = (x targets, y targets)", where, nm, vals, N.nd(r[q].shape[1]), nat("ty", 2, 3))

        def f(v, q=q, nm=nm):
            L = F(v, pos("L2d")) * F(v, f1)
            gx, gy = np.arange(4) * L / 4, np.arange(8) * 2 * L / 8
            fl = np.array([[F(v, fld[nm]((N.const(a), N.const(b)))) for b in range(8)] for a in range(4)])
            x, y = F(v, xs.get((i,))), F(v, ys.get((j,)))
            w = bilinear(gx, gy, fl, x, y)
            inside[0] += w != 0
            got = F(v, r[q].get((i, j)))
            return abs(got - w) <= 1e-7 * (1 + abs(w)), "%s at (%.5g,%.5g): %.9g, bilinear %.9g" % (nm, x, y, got, w)

        chk.holds("slice = bilinear interpolation, zero outside", where, "", vals, f)
    chk.fact("slices inside the field were compared", inside[0] >= 5, where, "%d" % inside[0]) if inside[0] else None
    chk.notes.append("%d of the compared targets lie inside the field" % inside[0])
    chk.scen.append("interp_slice, arbitrary field and targets")


def spacing(chk):
    for what, mk in (("equal spacings", lambda: cfg(pos("f1"), N.mul(pos("f1"), N.const(2)), 2, 3)), ("unequal spacings", lambda: cfg(pos("f1"), pos("f2"), 2, 3))):
        it = chk.interp()
        g = lowgen(it, mk(), seed=1)
        vals = chk.vals(it, 10)
        where = "drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py in LowFreqGenerator.generate"
        for a in "xy":
            chk.same("delivered cells are spaced as the user coordinates", where, what + ", " + a, vals, N.nd(it.getattr(g, "comp_d" + a)), N.nd(it.getattr(g, "user_d" + a)), tol=1e-9)
        chk.scen.append(what)


def fresh(chk):
    """Slices do not modify the field or the targets."""
    it = chk.interp()
    g = lowgen(it, cfg(pos("f1"), N.mul(pos("f1"), N.const(2)), 2, 3), seed=1)
    call(it, g, "generate")
    u = it.getattr(g, "u1")
    i, j = N.const(1), N.const(2)
    e0 = u.get((i, j))
    xs = A.Arr("np", (2,), lambda i: N.app("M:x", *i), "f")
    ys = A.Arr("np", (2,), lambda i: N.app("M:y", *i), "f")
    x0 = xs.get((N.const(1),))
    call(it, g, "interp_slice", xs, ys)
    r2 = list(it.iterate(call(it, g, "interp_slice", xs, ys)))
    vals = chk.vals(it, 4)
    where = loc(it, it.getattr(g, "interp_slice"))
    chk.same("slicing does not modify the field", where, "u1", vals, it.getattr(g, "u1").get((i, j)), e0)
    chk.same("slicing does not modify the targets", where, "x", vals, xs.get((N.const(1),)), x0)


PARTS = [slices, spacing, fresh]
