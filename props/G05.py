from vg import arr as A, node as N
from vg.chk import loc, Broken
from vg.evalr import tofloat, close
from vg.scn import *
from .kern import GVN

META = dict(
    title="The seed alone determines the generated field",
    technique="value-graph reachability (taint) from every random draw to the returned field, plus " + GVN,
    level="other",
    floor=20,
    explanation="The returned field is a value graph; its random leaves are (stream seed, position) pairs.  No leaf may come from process entropy or the "
    "global generator, and a second generator of the same seed, built after unrelated random activity, must have equal value numbers.",
)


def leaves(*nodes):
    rnd, ent, glob = set(), set(), set()
    seen = {}
    for r in nodes:
        for n in N.walk(r):
            if n.op == "app" and str(n.attr).startswith("rnd_"):
                rnd.add(n)
            if n.op == "app" and "ENTROPY" in str(n.attr):
                ent.add(n)
            if n.op == "sym" and n.attr[0] == "GLOBAL_RNG":
                glob.add(n)
            if n.op == "app" and str(n.attr).startswith(("O:", "clock", "T:opaque")):
                ent.add(n)
    return rnd, ent, glob


def noise_activity(it):
    """Unrelated draws from the global generators of the process."""
    npr = it.getattr(it.imp("numpy"), "random")
    it.call(it.getattr(npr, "normal"), [0, 1, 7], {})
    it.call(it.getattr(npr, "seed"), [5], {})
    it.call(it.getattr(it.imp("torch"), "rand"), [3], {})


def mkgen(it, model, low, seed, path):
    kw = {}
    if model == "DRD":
        kw["path_to_parameters"] = path
    if low:
        kw["config_2d_model"] = lowcfg()
    return generator(it, model, blend=2, seed=seed, **kw)


def field(it, o, nb):
    y = None
    for _ in range(nb):
        y = gen(it, o, 1)
    return y


IDX = lambda c_: (nat("q0", 0, 5), N.const(0), N.const(1), N.const(c_))


def seeded(chk):
    cases = [("VK", False), ("Mann", True), ("DRD", False)]
    if chk.tier == "thorough":
        cases += [("VK", True), ("Mann", False), ("DRD", True)]
    for model, low in cases:
        it = chk.interp()
        path = drd_file(it)[0] if model == "DRD" else None
        s = N.sym("seed", "nat", (0, 2))
        what = "%s%s, 2 blocks" % (model, " + low-frequency" if low else "")
        chk.scen.append(what)
        a = mkgen(it, model, low, s, path)
        fa = field(it, a, 2)
        where = loc(it, it.getattr(a, "generate"))
        ea = [fa.get(IDX(c_)) for c_ in range(3)]
        for c_ in range(3):
            rnd, ent, glob = leaves(ea[c_])
            chk.fact("a seeded field has no unseeded random leaf", not ent and not glob, where,
                     "%s component %d depends on %s" % (what, c_, sorted({str(x.attr) for x in ent | glob})[:3]))
            chk.fact("the field is random", bool(rnd), where, what)
        noise_activity(it)
        b = mkgen(it, model, low, N.sym("seed2", "nat", (3, 9)), path)
        fb = field(it, b, 1)
        c = mkgen(it, model, low, s, path)
        gen(it, c, 1)
        noise_activity(it)
        field(it, b, 1)
        fc = gen(it, c, 1)
        vals = chk.vals(it, 3 if chk.tier == "quick" else 12, pinned=lambda j: {"seed": j % 3})
        chk.no_failure(it, "generation is defined", what, vals)
        for c_ in range(3):
            chk.same("same seed, same field", where, "%s component %d" % (what, c_), vals, ea[c_], fc.get(IDX(c_)))
        eb = [fb.get((N.const(1), N.const(0), N.const(1), N.const(c_))) for c_ in range(3)]
        e1 = [fa.get((N.const(1), N.const(0), N.const(1), N.const(c_))) for c_ in range(3)]
        chk.holds("different seeds, different fields", where, what, vals,
                  lambda v: not all(close(v.ev(x), v.ev(y)) for x, y in zip(eb, e1)))


def unseeded(chk):
    it = chk.interp()
    m = it.load(FG + "fluctuation_field_generator")
    mk = lambda: generator(it, "VK", blend=2, seed=None) if False else None
    def build():
        gd = vec(it, [pos("g%d" % i) for i in range(3)])
        gl = vec(it, [nat("lev%d" % i) for i in range(3)], "i")
        return it.call(anchor(m, "FluctuationFieldGenerator"), [], dict(
            friction_velocity=pos("ustar"), reference_height=pos("zr"), grid_dimensions=gd, grid_levels=gl, model="VK",
            length_scale=pos("L"), time_scale=pos("T"), energy_spectrum_scale=pos("E"), seed=None))
    a, b = build(), build()
    fa, fb = field(it, a, 1), field(it, b, 1)
    where = loc(it, it.getattr(a, "generate"))
    vals = chk.vals(it, 3)
    e = lambda f: f.get((N.const(1), N.const(0), N.const(1), N.const(0)))
    chk.holds("unseeded generators differ", where, "VK", vals, lambda v: not close(v.ev(e(fa)), v.ev(e(fb))))


def streams(chk):
    """Every noise cell is a fresh draw; the low-frequency stream is separate."""
    it = chk.interp()
    g = mkgen(it, "VK", True, N.sym("seed", "nat", (0, 2)), None)
    rf = it.getattr(g, "RF")
    where = loc(it, it.getattr(rf, "sample_noise"))
    sh = List([nat("a%d" % i, 2, 3) for i in range(3)] + [3])
    n1, n2 = call(it, rf, "sample_noise", sh), call(it, rf, "sample_noise", sh)
    i = [N.sym("i%d" % j, "idx", N.nd(sh.items[j])) for j in range(4)]
    j = [N.sym("j%d" % q, "idx", N.nd(sh.items[q])) for q in range(4)]
    vals = chk.vals(it, 30 if chk.tier == "quick" else 200, zero_bias=0.2)

    def distinct(v):
        if [v.ev(x) for x in i] == [v.ev(x) for x in j]:
            return True
        return not close(v.ev(n1.get(tuple(i))), v.ev(n1.get(tuple(j))))

    chk.holds("noise cells are distinct draws", where, "one call", vals, distinct)
    chk.holds("noise cells are distinct draws", where, "two calls", vals, lambda v: not close(v.ev(n1.get(tuple(i))), v.ev(n2.get(tuple(j)))))
    low = it.getattr(g, "low_freq_gen")
    u1 = it.getattr(low, "u1")
    lo, _, _ = leaves(u1.get((N.const(0), N.const(1))))
    hi, _, _ = leaves(n1.get(tuple(i)))
    tok = lambda s: {x.args[0] for x in s}
    chk.fact("low-frequency noise has its own stream", lo and hi and not (tok(lo) & tok(hi)), loc(it, it.getattr(low, "generate")),
             "the same random stream feeds the two-dimensional and the three-dimensional field")


def low_alone(chk):
    it = chk.interp()
    s = N.sym("seed", "nat", (0, 2))
    a = lowgen(it, seed=s)
    u, w = call(it, a, "generate")
    noise_activity(it)
    b = lowgen(it, seed=s)
    u2, w2 = call(it, b, "generate")
    where = loc(it, it.getattr(a, "generate"))
    vals = chk.vals(it, 4, pinned=lambda j: {"seed": j % 3})
    for x, y, nm in ((u, u2, "u1"), (w, w2, "u2")):
        e = x.get((N.const(1), N.const(1)))
        _, ent, glob = leaves(e)
        chk.fact("a seeded field has no unseeded random leaf", not ent and not glob, where, "low-frequency %s" % nm)
        chk.same("same seed, same field", where, "low-frequency " + nm, vals, e, y.get((N.const(1), N.const(1))))


PARTS = [seeded, unseeded, streams, low_alone]
