import math

from vg.evalr import tofloat
from .blocks import *
from .kern import GVN

META = dict(
    title="Field is unit-RMS turbulence plus mean profile plus low-frequency motion",
    technique=GVN + " with the colouring step uninterpreted; oracle: the documented decomposition",
    level="other",
    floor=20,
    explanation="Each returned cell is compared with W/rms(block) + [u only] U(z) + [u, v only] the two-dimensional field at the cell's horizontal position.",
)


def F(v, n):
    return float(tofloat(v.ev(N.nd(n))))


def assemble(chk):
    cases = [("LOG", 2, False), ("PL", 3, False), ("LOG", 0, True)]
    if chk.tier == "thorough":
        cases += [("PL", 1, True), ("LOG", 10, False)]
    for prof, blend, low in cases:
        it = chk.interp()
        kw = {"config_2d_model": lowcfg()} if low else {}
        g = generator(it, "Mann", blend=blend, **kw)
        tape = Tape(it, g)
        pk = {} if prof == "LOG" else {"plexp": pos("plexp")}
        gen(it, g, 2, prof, **pk)
        y = gen(it, g, 1, prof, **pk)
        where = loc(it, it.getattr(g, "generate"))
        what = "%s profile, blend %d%s" % (prof, blend, ", low-frequency" if low else "")
        chk.scen.append(what)
        # z0 < zref keeps the log law meaningful
        vals = chk.vals(it, 4 if chk.tier == "quick" else 20, extra=lambda v: F(v, pos("z0")) < 0.9 * F(v, pos("zref")))
        chk.no_failure(it, "generation is defined", what, vals)
        n = [nodes_per_axis(a) for a in range(3)]
        ix = [N.sym("x", "idx", n[0]), N.sym("y", "idx", n[1]), N.sym("z", "idx", n[2])]
        lf = it.getattr(g, "low_freq_gen") if low else None
        for b in range(3):
            lows = [None, None, None]
            if low:
                Lx, Ly = pos("g0"), pos("g1")
                L2 = N.nd(it.getattr(lf, "user_L2"))
                px = N.add(N.mul(N.const(b), Lx), N.div(N.mul(Lx, ix[0]), n[0]))
                py = N.add(N.div(N.sub(L2, Ly), N.const(2)), N.div(N.mul(Ly, ix[1]), n[1]))
                r = call(it, lf, "interp_slice", A.Arr("np", (1,), lambda i: px, "f"), A.Arr("np", (1,), lambda i: py, "f"))
                lows = [r[0].get((N.const(0), N.const(0))), r[1].get((N.const(0), N.const(0))), None]
            for c_ in range(3):
                e = y.get((N.add(N.mul(N.const(b), n[0]), ix[0]), ix[1], ix[2], N.const(c_)))

                def f(v, e=e, b=b, c_=c_, lw=lows[c_]):
                    cnt = [int(v.ev(q)) for q in n]
                    cell = live_cells(v, e)
                    if len(cell) != 1:
                        return False, "%s: reads %d transform cells" % (what, len(cell))
                    q, i, j, k, cc = cell.pop()
                    xi = [int(v.ev(a)) for a in ix]
                    o = (i - xi[0], j - xi[1], k - xi[2])
                    W = lambda *t: float(tofloat(v.ev(N.app("W", *[N.const(z) for z in t]))))
                    ss = 0.0
                    for p in range(cnt[0]):
                        for r in range(cnt[1]):
                            for s in range(cnt[2]):
                                for t in range(3):
                                    ss += W(q, o[0] + p, o[1] + r, o[2] + s, t) ** 2
                    rms = math.sqrt(ss / (3 * cnt[0] * cnt[1] * cnt[2]))
                    w = W(q, i, j, k, cc) / rms
                    if c_ == 0:
                        z = F(v, pos("g2")) * xi[2] / (cnt[2] - 1)
                        if prof == "LOG":
                            w += F(v, pos("uref")) * math.log(z / F(v, pos("z0")) + 1) / math.log(F(v, pos("zref")) / F(v, pos("z0")))
                        else:
                            w += F(v, pos("uref")) * (z / F(v, pos("zref"))) ** F(v, pos("plexp"))
                    if lw is not None:
                        w += F(v, lw)
                    gq = F(v, e)
                    return abs(gq - w) <= 1e-6 * (1 + abs(w)), "%s block %d component %d cell %s: %.9g, decomposition gives %.9g" % (what, b, c_, xi, gq, w)

                chk.holds("cell = turbulence + mean profile + low-frequency", where, "", vals, f)


PARTS = [assemble]
