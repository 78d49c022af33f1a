from .blocks import *
from .kern import GVN

META = dict(
    title="Returned field has exactly the requested grid",
    technique="symbolic shape inference over the value graph, " + GVN,
    level="other",
    floor=20,
    explanation="Shapes are inferred symbolically for unknown grid levels and dimensions, several blending widths, models, block counts and repeated calls; every "
    "slice, broadcast and concatenation along the way is a discharged shape obligation.",
)


def shapes(chk):
    cases = [("VK", 0, (1,)), ("VK", 1, (2,)), ("Mann", 10, (1, 1)), ("Mann", 3, (2, 1)), ("DRD", 2, (1,))]
    if chk.tier == "thorough":
        cases += [("VK", b, (1, 2)) for b in (2, 5, 7, 15)] + [("Mann", b, (2,)) for b in (0, 1, 2, 6, 30)] + [("DRD", 0, (2,)), ("DRD", 10, (1, 1))]
    hi = 3 if chk.tier == "quick" else 4
    for model, blend, calls in cases:
        it = chk.interp()
        kw = {}
        if model == "DRD":
            kw["path_to_parameters"] = drd_file(it)[0]
        lev = [N.sym("lev%d" % a, "nat", (1, hi)) for a in range(3)]
        g = generator(it, model, blend=blend, levels=lev, **kw)
        tape = Tape(it, g)
        where = loc(it, it.getattr(g, "generate"))
        what = "%s, blend %d, blocks %s" % (model, blend, "+".join(map(str, calls)))
        chk.scen.append(what)
        n = [N.add(N.power(N.const(2), l), N.const(1)) for l in lev]
        vals = chk.vals(it, 10 if chk.tier == "quick" else 60)
        t0 = it.getattr(g, "total_fluctuation")
        for a, w in enumerate((N.const(0), n[1], n[2], N.const(3))):
            chk.same("a new generator holds an empty field", where, what, vals, N.nd(t0.shape[a]), w)
        tot = 0
        for k in calls:
            y = gen(it, g, k)
            tot += k
            want = (N.mul(N.const(tot), n[0]), n[1], n[2], N.const(3))
            if not isinstance(y, A.Arr) or y.ndim != 4:
                chk.violate("shape = (blocks x Nx, Ny, Nz, 3)", where, "%s: result %r" % (what, y))
                continue
            for a in range(4):
                chk.same("shape = (blocks x Nx, Ny, Nz, 3)", where, "%s axis %d" % (what, a), vals, N.nd(y.shape[a]), want[a])
        chk.no_failure(it, "shapes agree along the way", what, vals)


def with_low_frequency(chk):
    it = chk.interp()
    g = generator(it, "VK", blend=2, config_2d_model=lowcfg())
    Tape(it, g)
    y = gen(it, g, 2)
    where = loc(it, it.getattr(g, "generate"))
    vals = chk.vals(it, 6 if chk.tier == "quick" else 30)
    chk.no_failure(it, "shapes agree along the way", "VK + low-frequency", vals)
    want = (N.mul(N.const(2), nodes_per_axis(0)), nodes_per_axis(1), nodes_per_axis(2), N.const(3))
    for a in range(4):
        chk.same("shape = (blocks x Nx, Ny, Nz, 3)", where, "VK + low-frequency axis %d" % a, vals, N.nd(y.shape[a]), want[a])
    chk.scen.append("VK + low-frequency, 2 blocks")


PARTS = [shapes, with_low_frequency]
