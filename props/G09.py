from vg.evalr import close
from .blocks import *
from .kern import GVN

META = dict(
    title="Bad arguments are refused and callers' data is never altered",
    technique="exception-path and write-effect analysis over the value graph (stores reaching caller-visible arrays), " + GVN,
    level="other",
    floor=30,
    explanation="Each documented precondition is violated in turn and the abstract execution must end in the refusal, with the accumulated field untouched; arrays and "
    "mappings owned by the caller, and fields returned earlier, are compared before and after every operation.",
)


def snap(a):
    return A.Arr(a.kind, a.shape, a.reader(), a.dtype)


def refused(chk, it, rule, what, thunk, where, classes=("ValueError", "AssertionError", "TypeError")):
    chk.rule(rule)["obligations"] += 1
    n0 = len(it.raises)
    try:
        thunk()
    except AbsRaise as e:
        if e.exc in classes:
            return True
        chk.violate(rule, e.where or where, "%s ends in %s: %s" % (what, e.exc, e.msg))
        return False
    vals = chk.vals(it, 6)
    conds = [r.cond for r in it.raises[n0:] if r.exc in classes]
    for v in vals:
        if not any(v.truth(N.nd(c_), {}) for c_ in conds):
            chk.violate(rule, where, "%s is accepted" % what)
            return False
    return True


from vg.arr import AbsRaise  # noqa: E402


def generate_refuses(chk):
    bad = [
        ("unknown profile", dict(windprofiletype="LOGLOG")),
        ("lower-case profile", dict(windprofiletype="log")),
        ("zero reference height", dict(zref=N.const(0))),
        ("negative reference height", dict(zref=N.neg(pos("nz")))),
        ("zero reference speed", dict(uref=N.const(0))),
        ("negative reference speed", dict(uref=N.neg(pos("nz")))),
        ("zero roughness", dict(z0=N.const(0))),
        ("negative roughness", dict(z0=N.neg(pos("nz")))),
        ("power law without exponent", dict(windprofiletype="PL")),
    ]
    bad += [(what + ", power law", dict(kw, windprofiletype="PL", plexp=pos("plexp"))) for what, kw in bad if "windprofiletype" not in kw]
    for i, (what, kw) in enumerate(bad):
        it = chk.interp()
        g = generator(it, ("VK", "Mann")[i % 2], blend=(2, 0)[i // 2 % 2])
        Tape(it, g)
        first = gen(it, g, 1)
        s0 = snap(first)
        where = loc(it, it.getattr(g, "generate"))
        a = dict(num_blocks=1, zref=pos("zref"), uref=pos("uref"), z0=pos("z0"), windprofiletype="LOG")
        a.update(kw)
        ok = refused(chk, it, "generate refuses invalid arguments", what, lambda: it.call(it.getattr(g, "generate"), [], a), where)
        if ok:
            t = it.getattr(g, "total_fluctuation")
            vals = chk.vals(it, 4)
            idx = (N.sym("x", "idx", nodes_per_axis(0)), N.sym("y", "idx", nodes_per_axis(1)), N.sym("z", "idx", nodes_per_axis(2)), N.sym("c", "idx", N.const(3)))
            chk.same("a refused call adds nothing", where, what, vals, N.nd(t.shape[0]), N.nd(s0.shape[0]))
            chk.same("a refused call adds nothing", where, what, vals, t.get(idx), s0.get(idx))
    chk.scen.append("%d invalid generate() calls" % len(bad))


def constructor_refuses(chk):
    m = lambda it: it.load(FG + "fluctuation_field_generator")

    def build(it, **kw):
        gd = vec(it, [pos("g%d" % i) for i in range(3)])
        gl = vec(it, [nat("lev%d" % i) for i in range(3)], "i")
        a = dict(friction_velocity=pos("ustar"), reference_height=pos("zr"), grid_dimensions=gd, grid_levels=gl, model="VK",
                 length_scale=pos("L"), time_scale=pos("T"), energy_spectrum_scale=pos("E"), seed=1)
        a.update(kw)
        return it.call(anchor(m(it), "FluctuationFieldGenerator"), [], a)

    bad = [("unknown model", dict(model="Kaimal")), ("model in lower case", dict(model="mann")), ("DRD without parameters", dict(model="DRD"))]
    for model in ("VK", "Mann"):
        for k in ("length_scale", "time_scale", "energy_spectrum_scale"):
            bad.append(("%s without %s" % (model, k), {"model": model, k: None}))
    for what, kw in bad:
        it = chk.interp()
        cls = anchor(m(it), "FluctuationFieldGenerator")
        where = "%s in FluctuationFieldGenerator.__init__" % (FG.replace(".", "/") + "fluctuation_field_generator.py")
        refused(chk, it, "the constructor refuses invalid arguments", what, lambda: build(it, **kw), where)
    K = FG + "covariance_kernels"
    for cls in ("VonKarmanCovariance", "MannCovariance"):
        it = chk.interp()
        refused(chk, it, "the constructor refuses invalid arguments", "%s of 2 dimensions" % cls,
                lambda: it.call(anchor(it.load(K), cls), [], dict(ndim=2, length_scale=pos("L"), E0=pos("E"))), cls)
    it = chk.interp()
    refused(chk, it, "the constructor refuses invalid arguments", "unknown sampling method",
            lambda: it.call(anchor(it.load(FG + "gaussian_random_fields"), "VectorGaussianRandomField"), [], dict(
                ndim=3, grid_level=vec(it, [nat("lev%d" % a) for a in range(3)], "i"), grid_dimensions=vec(it, [pos("g%d" % a) for a in range(3)]),
                sampling_method="wavelet", grid_shape=List([3, 3, 3]), Covariance=covariance(it, "VK"))), "GaussianRandomField.setSamplingMethod",
            ("ValueError", "Exception", "KeyError", "NotImplementedError"))
    for what, a, k in (("spacing of two entries", [(pos("h0"), pos("h1"))], 3), ("field of two components", [(pos("h0"), pos("h1"), pos("h2"))], 2)):
        it = chk.interp()
        g = generator(it, "VK", blend=2)
        fld = A.Arr("np", (nat("n0", 2, 3), nat("n1", 2, 3), nat("n2", 2, 3), k), lambda i: N.app("fld", *i), "f")
        refused(chk, it, "divergence refuses malformed input", what, lambda: call(it, g, "evaluate_divergence", a[0], fld), loc(it, it.getattr(g, "evaluate_divergence")))
    chk.scen.append("%d invalid constructions" % len(bad))


def no_mutation(chk):
    """Arrays, levels and mappings handed in, and fields handed out, keep their values."""
    for model, low in (("VK", True), ("Mann", False), ("DRD", False)):
        it = chk.interp()
        kw = {}
        path = None
        if model == "DRD":
            path, cp = drd_file(it)
            kw["path_to_parameters"] = path
            saved = snap(list(it.state["fs"].d.values())[0].items[4])
            par0 = call(it, cp, "eval", k1tens(3))
            par0 = snap(par0)
        cfg = lowcfg() if low else None
        gd = vec(it, [pos("g%d" % i) for i in range(3)])
        gl = vec(it, [nat("lev%d" % i) for i in range(3)], "i")
        gd0, gl0 = snap(gd), snap(gl)
        cfg0 = dict(cfg.d) if low else None
        if low:
            kw["config_2d_model"] = cfg
        if model != "DRD":
            kw.update(length_scale=pos("L"), time_scale=pos("T"), energy_spectrum_scale=pos("E"))
        m = it.load(FG + "fluctuation_field_generator")
        mk = lambda: it.call(anchor(m, "FluctuationFieldGenerator"), [], dict(
            friction_velocity=pos("ustar"), reference_height=pos("zr"), grid_dimensions=gd, grid_levels=gl, model=model, seed=N.sym("seed", "nat", (0, 5)), blend_num=3, **kw))
        g = mk()
        where = loc(it, it.getattr(g, "generate"))
        what = model + (" + low-frequency" if low else "")
        y1 = gen(it, g, 1)
        s1 = snap(y1)
        y2 = gen(it, g, 1)
        s2 = snap(y2)
        other = mk()
        gen(it, other, 1)
        call(it, g, "evaluate_divergence", (pos("h0"), pos("h1"), pos("h2")))
        try:
            call(it, g, "save_to_vtk", "vtkfile")
        except AbsRaise as e:
            chk.violate("export works", e.where or where, "%s: %s" % (e.exc, e.msg))
        vals = chk.vals(it, 4 if chk.tier == "quick" else 12)
        i3 = N.sym("i3", "idx", N.const(3))
        chk.same("grid dimensions are not modified", where, what, vals, gd.get((i3,)), gd0.get((i3,)))
        chk.same("grid levels are not modified", where, what, vals, gl.get((i3,)), gl0.get((i3,)))
        for s in vals[:3]:
            pass
        for j in range(3):
            chk.same("grid dimensions are not modified", where, what, vals, gd.get((N.const(j),)), gd0.get((N.const(j),)))
            chk.same("grid levels are not modified", where, what, vals, gl.get((N.const(j),)), gl0.get((N.const(j),)))
        if low:
            chk.fact("the low-frequency configuration is not modified", set(cfg.d) == set(cfg0) and all(cfg.d[k] is cfg0[k] or cfg.d[k] == cfg0[k] for k in cfg0), where, what)
        if model == "DRD":
            now = list(it.state["fs"].d.values())[0].items[4]
            for j in (0, 3, 7):
                chk.same("the trained parameters are not modified", where, what, vals, now.get((N.const(j),)), saved.get((N.const(j),)))
            p1 = call(it, cp, "eval", k1tens(3))
            chk.same("the trained parameters are not modified", where, what, vals, p1.get((N.const(0), N.const(1))), par0.get((N.const(0), N.const(1))))
        idx = (N.sym("x", "idx", nodes_per_axis(0)), N.sym("y", "idx", nodes_per_axis(1)), N.sym("z", "idx", nodes_per_axis(2)))
        for c_ in range(3):
            chk.same("a field returned earlier keeps its values", where, "%s component %d" % (what, c_), vals, y1.get(idx + (N.const(c_),)), s1.get(idx + (N.const(c_),)))
            chk.same("a field returned earlier keeps its values", where, "%s component %d" % (what, c_), vals, y2.get(idx + (N.const(c_),)), s2.get(idx + (N.const(c_),)))
            chk.same("blocks already delivered are kept", where, "%s component %d" % (what, c_), vals, s2.get(idx + (N.const(c_),)), s1.get(idx + (N.const(c_),)))
        chk.scen.append("mutation audit " + what)


PARTS = [generate_refuses, constructor_refuses, no_mutation]
