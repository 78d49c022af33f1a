from .low import *
from .kern import GVN

META = dict(
    title="Low-frequency computational grid is isotropic, even and large enough",
    technique=GVN + " (interval facts read off the value graph of the grid attributes)",
    level="other",
    floor=10,
    explanation="Grid attributes are value graphs in unknown physical parameters and user factors; size, parity, isotropy and spacing relations are evaluated over their valuations, "
    "and the field's extraction is traced cell by cell.",
)


def grids(chk):
    n = 40 if chk.tier == "quick" else 300
    for e1, e2 in ((2, 3), (3, 2), (4, 4)):
        it = chk.interp()
        f1, f2 = pos("f1"), pos("f2")
        big = N.sym("scale", "nat", (1, 6))
        g = lowgen(it, cfg(N.mul(f1, big), N.mul(f2, big), e1, e2), seed=1)
        at_ = {k: N.nd(it.getattr(g, k)) for k in ("comp_L1", "comp_L2", "comp_N1", "comp_N2", "comp_dx", "comp_dy", "user_L1", "user_L2", "user_N1", "user_N2", "user_dx", "user_dy")}
        vals = chk.vals(it, n)
        where = "drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py in LowFreqGenerator.__init__"
        chk.no_failure(it, "every configuration is accepted", "grid", vals)
        V = lambda v: {k: F(v, x) for k, x in at_.items()}
        R = lambda name, pred: chk.holds(name, where, "exponents (%d,%d):" % (e1, e2), vals, lambda v: (pred(v, V(v)), str({k: round(x, 5) for k, x in V(v).items()})))
        R("user grid as configured", lambda v, a: a["user_N1"] == 2**e1 and a["user_N2"] == 2**e2
          and abs(a["user_L1"] - F(v, f1) * F(v, big) * F(v, pos("L2d"))) < 1e-9 * a["user_L1"]
          and abs(a["user_L2"] - F(v, f2) * F(v, big) * F(v, pos("L2d"))) < 1e-9 * a["user_L2"]
          and abs(a["user_dx"] * a["user_N1"] - a["user_L1"]) < 1e-9 * a["user_L1"] and abs(a["user_dy"] * a["user_N2"] - a["user_L2"]) < 1e-9 * a["user_L2"])
        R("computational domain covers the user's and five length scales", lambda v, a: all(a["comp_L%d" % q] >= max(a["user_L%d" % q], 5 * F(v, pos("L2d"))) - 1e-8 for q in (1, 2)))
        R("computational grid is isotropic", lambda v, a: abs(a["comp_dx"] - a["comp_dy"]) < 1e-9 * a["comp_dx"])
        R("computational grid resolves the user's", lambda v, a: a["comp_dx"] <= min(a["user_dx"], a["user_dy"]) * (1 + 1e-9))
        R("even number of computational nodes", lambda v, a: a["comp_N1"] % 2 == 0 and a["comp_N2"] % 2 == 0 and a["comp_N1"] >= a["user_N1"] and a["comp_N2"] >= a["user_N2"])
        R("spacing = length / nodes", lambda v, a: all(abs(a["comp_d" + x] * a["comp_N%d" % q] - a["comp_L%d" % q]) < 1e-9 * a["comp_L%d" % q] for q, x in ((1, "x"), (2, "y"))))
        for q, nm in ((1, "user_x_coords"), (2, "user_y_coords")):
            c_ = it.getattr(g, nm)
            i = N.sym("i", "idx", N.const(2 ** (e1 if q == 1 else e2)))
            chk.same("user coordinates are the cell positions", where, nm, vals, c_.get((i,)), N.mul(i, at_["user_d" + "xy"[q - 1]]))
            chk.same("user coordinates are the cell positions", where, nm, vals, N.nd(c_.shape[0]), at_["user_N%d" % q])
        X, Y = it.getattr(g, "X"), it.getattr(g, "Y")
        i, j = N.sym("i", "idx", N.const(2**e1)), N.sym("j", "idx", N.const(2**e2))
        chk.same("user coordinates are the cell positions", where, "X", vals, X.get((i, j)), N.mul(i, at_["user_dx"]))
        chk.same("user coordinates are the cell positions", where, "Y", vals, Y.get((i, j)), N.mul(j, at_["user_dy"]))
        chk.scen.append("grid attributes, exponents (%d,%d), unknown factors" % (e1, e2))


def extraction(chk):
    """The delivered field is the centred contiguous window of the computed one."""
    it = chk.interp()
    f1 = pos("f1")
    g = lowgen(it, cfg(f1, N.mul(f1, N.const(2)), 2, 3), seed=1)
    u1, u2 = it.iterate(call(it, g, "generate"))
    where = loc(it, it.getattr(g, "generate"))
    vals = chk.vals(it, 6 if chk.tier == "quick" else 40)
    chk.no_failure(it, "every configuration is accepted", "generate", vals)
    for u, nm in ((u1, "u1"), (u2, "u2")):
        chk.same("delivered field has the user grid's shape", where, nm, vals, N.nd(u.shape[0]), N.const(4))
        chk.same("delivered field has the user grid's shape", where, nm, vals, N.nd(u.shape[1]), N.const(8))
        full = it.getattr(g, nm + "_full")
        if not chk.fact("delivered field is the centred window", full is not None, where, nm + ": the computed field is not kept"):
            continue
        a = [N.fn("floordiv", N.sub(N.nd(full.shape[q]), N.const((4, 8)[q])), N.const(2)) for q in range(2)]
        i, j = N.sym("i", "idx", N.const(4)), N.sym("j", "idx", N.const(8))
        chk.same("delivered field is the centred window", where, nm, vals, u.get((i, j)), full.get((N.add(i, a[0]), N.add(j, a[1]))))
        st = it.getattr(g, nm)
        chk.same("delivered field is the stored one", where, nm, vals, st.get((i, j)), u.get((i, j)))
    chk.scen.append("extraction from unknown computational grids")


PARTS = [grids, extraction]
