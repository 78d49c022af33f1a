import math

from vg.evalr import tofloat, close
from .blocks import *
from .kern import GVN

META = dict(
    title="Blocks join seamlessly and block counts compose",
    technique="def-use tracing of field cells through the block windows (value graph with an uninterpreted colouring step), plus " + GVN,
    level="other",
    floor=20,
    explanation="With the colouring transform uninterpreted, each returned cell is traced to the transform call and index it is cut from, and each noise cell of a "
    "block to the previous block's noise; the windows must tile one continuous stream.  Full generation of n+m blocks is compared with n then m.",
)

PIN = {"L": 1, "T": 1, "g0": 6, "g1": 4, "g2": 5}


def tiles(chk):
    blends = (0, 1, 2, 4) if chk.tier == "quick" else (0, 1, 2, 3, 4, 5, 7, 10)
    for model in ("VK", "Mann", "DRD"):
        if model != "Mann":
            bl = blends[2:3]
        else:
            bl = blends
        for blend in bl:
            it = chk.interp()
            kw = {}
            if model == "DRD":
                kw["path_to_parameters"] = drd_file(it)[0]
            g = generator(it, model, blend=blend, **kw)
            tape = Tape(it, g)
            gen(it, g, 2)
            y = gen(it, g, 1)
            where = loc(it, it.getattr(g, "generate"))
            what = "%s, blend %d" % (model, blend)
            chk.scen.append(what + ", 2+1 blocks")
            vals = chk.vals(it, 5 if chk.tier == "quick" else 30)
            chk.no_failure(it, "generation is defined", what, vals)
            chk.fact("one transform per block", len(tape.noise) == 3, where, "%s: %d transforms for 3 blocks" % (what, len(tape.noise)))
            nx, ny, nz = (nodes_per_axis(a) for a in range(3))
            ix = [N.sym("x", "idx", nx), N.sym("y", "idx", ny), N.sym("z", "idx", nz)]
            win = {}
            for b in range(3):
                for c_ in range(3):
                    e = y.get((N.add(N.mul(N.const(b), nx), ix[0]), ix[1], ix[2], N.const(c_)))

                    def f(v, e=e, b=b, c_=c_):
                        cells = live_cells(v, e)
                        if len(cells) != 1:
                            return False, "%s: reads cells %s" % (what, sorted(cells)[:4])
                        n, i, j, k, cc = cells.pop()
                        x0, y0, z0 = (int(v.ev(q)) for q in ix)
                        if n != b or cc != c_:
                            return False, "%s: block %d component %d is read from transform %d component %d" % (what, b, c_, n, cc)
                        w = (i - x0, j - y0, k - z0)
                        old = win.setdefault((id(v)), w)
                        sh = [int(v.ev(N.nd(q))) for q in tape.noise[b].shape]
                        cnt = [int(v.ev(q)) for q in (nx, ny, nz)]
                        inside = all(0 <= w[a] and w[a] + cnt[a] <= sh[a] for a in range(3))
                        return (w == old and inside), "%s: block %d component %d window starts at %s, elsewhere %s" % (what, b, c_, w, old)

                    chk.holds("every block is the same window of its transform", where, "", vals, f)

            # opposite corner of the window: the window is contiguous
            def g2(v):
                for b in (0, 2):
                    cnt = [int(v.ev(q)) for q in (nx, ny, nz)]
                    e = y.get((N.const(b * cnt[0] + cnt[0] - 1), N.const(cnt[1] - 1), N.const(cnt[2] - 1), N.const(2)))
                    n, i, j, k, cc = live_cells(v, e).pop()
                    w = (i - cnt[0] + 1, j - cnt[1] + 1, k - cnt[2] + 1)
                    if w != win[id(v)]:
                        return False, "%s: far corner window %s, near corner %s" % (what, w, win[id(v)])
                return True

            chk.holds("every block is the same window of its transform", where, "", vals, g2)

            for b in (1, 2):
                prev, cur = tape.noise[b - 1], tape.noise[b]
                for a in range(4):
                    chk.same("noise keeps its shape", where, what, vals, N.nd(prev.shape[a]), N.nd(cur.shape[a]))
                lead = N.sub(N.nd(cur.shape[0]), nx)
                jx = N.sym("jx", "idx", lead)
                js = [N.sym("j%d" % a, "idx", N.nd(cur.shape[a])) for a in (1, 2, 3)]
                many = chk.vals(it, 12 if chk.tier == "quick" else 60, base=3)
                ok = lambda v: int(v.ev(lead)) > 0
                sel = [v for v in many if ok(v)]
                chk.same("overlap: noise of a block continues the previous block's noise", where, what + ", block %d" % (b + 1), sel,
                         cur.get((jx,) + tuple(js)), prev.get((N.add(jx, nx),) + tuple(js)))
                fx = N.sym("fx", "idx", nx)
                new = cur.get((N.add(lead, fx),) + tuple(js))
                px = N.sym("px", "idx", N.nd(prev.shape[0]))
                chk.holds("the advance brings fresh noise", where, what, many,
                          lambda v: not close(v.ev(new), v.ev(prev.get((px,) + tuple(js)))))

            # periodic wrap-around is kept away from the window on both sides
            if model != "DRD":
                for v in vals:
                    w = win[id(v)]
                    dx = float(tofloat(v.ev(pos("g0")))) / int(v.ev(nx))
                    need = math.ceil(3 * float(tofloat(v.ev(pos("T")))) * float(tofloat(v.ev(pos("L")))) / dx - 1e-9)
                    right = int(v.ev(N.nd(tape.noise[0].shape[0]))) - int(v.ev(nx)) - w[0]
                    chk.fact("buffers of three length x time scales on both sides", w[0] >= need and right >= need, where,
                             "%s: buffers %d and %d cells, expected %d" % (what, w[0], right, need))


def compose(chk):
    for model, low, n, m in (("Mann", False, 1, 1), ("VK", True, 2, 1), ("DRD", False, 1, 1))[: 3 if chk.tier == "thorough" else 2]:
        it = chk.interp()
        kw = {}
        if model == "DRD":
            kw["path_to_parameters"] = drd_file(it)[0]
        if low:
            kw["config_2d_model"] = lowcfg()
        a = generator(it, model, blend=2, **kw)
        fa = gen(it, a, n + m)
        b = generator(it, model, blend=2, **dict(kw, **({"config_2d_model": lowcfg()} if low else {})))
        gen(it, b, n)
        fb = gen(it, b, m)
        where = loc(it, it.getattr(a, "generate"))
        what = "%s%s %d+%d" % (model, " + low-frequency" if low else "", n, m)
        chk.scen.append("compose " + what)
        vals = chk.vals(it, 3 if chk.tier == "quick" else 12)
        for j in range(4):
            chk.same("n+m blocks equal n then m", where, what, vals, N.nd(fa.shape[j]), N.nd(fb.shape[j]))
        nx, ny, nz = (nodes_per_axis(q) for q in range(3))
        tot = N.mul(N.const(n + m), nx)
        for c_ in range(3):
            for i in (N.sym("x", "idx", tot), N.sub(tot, N.const(1))):
                idx = (i, N.sym("y", "idx", ny), N.sym("z", "idx", nz), N.const(c_))
                chk.same("n+m blocks equal n then m", where, what, vals, fa.get(idx), fb.get(idx))
        chk.same("the accumulated field is the returned one", where, what, vals,
                 it.getattr(b, "total_fluctuation").get(idx), fb.get(idx))


PARTS = [tiles, compose]
