from vg.interp import Dict, List
from .blocks import *
from .kern import GVN

META = dict(
    title="Divergence, export and plots represent the field cell by cell",
    technique="argument tracing to the external writer/plotter calls over the value graph, " + GVN,
    level="other",
    floor=25,
    explanation="The arguments that reach the VTK writer and the volume plots, and the result of the divergence evaluator, are compared cell by cell with the field "
    "for unknown sizes and spacings that differ per axis.",
)

SH = [N.sym("s%d" % a, "nat", (3, 5)) for a in range(3)]
IX = [N.sym("x%d" % a, "idx", SH[a]) for a in range(3)]


def anyfield():
    return A.Arr("np", tuple(SH) + (3,), lambda i: N.app("fld", *i), "f")


def diff(f, a, h, idx):
    """Second-order central difference inside, one-sided at the ends, along axis a."""
    n = SH[a]
    i = idx[a]

    def s(j):
        t = list(idx)
        t[a] = j
        return f(t)

    one = N.const(1)
    mid = N.div(N.sub(s(N.add(i, one)), s(N.sub(i, one))), N.mul(N.const(2), h))
    lo = N.div(N.sub(s(N.const(1)), s(N.const(0))), h)
    hi = N.div(N.sub(s(N.sub(n, one)), s(N.sub(n, N.const(2)))), h)
    return N.ite(N.cmp("eq", i, N.const(0)), lo, N.ite(N.cmp("eq", i, N.sub(n, one)), hi, mid))


def divergence(chk):
    for mode in ("tuple", "array", "own field"):
        it = chk.interp()
        g = generator(it, "VK", blend=2)
        hs = [pos("h%d" % a) for a in range(3)]
        sp = tuple(hs) if mode != "array" else vec(it, hs)
        fld = anyfield()
        if mode == "own field":
            g.attrs["total_fluctuation"] = fld
            d = call(it, g, "evaluate_divergence", sp)
        else:
            d = call(it, g, "evaluate_divergence", sp, fld)
        where = loc(it, it.getattr(g, "evaluate_divergence"))
        vals = chk.vals(it, 20 if chk.tier == "quick" else 120, zero_bias=0.4)
        chk.no_failure(it, "divergence is defined", mode, vals)
        chk.fact("divergence is one scalar per cell", isinstance(d, A.Arr) and d.ndim == 3, where, repr(d)[:80])
        for a in range(3):
            chk.same("divergence is one scalar per cell", where, mode, vals, N.nd(d.shape[a]), SH[a])
        want = N.add(*[diff(lambda t, a=a: N.app("fld", *t, N.const(a)), a, hs[a], IX) for a in range(3)])
        chk.same("divergence = du/dx + dv/dy + dw/dz", where, mode, vals, d.get(tuple(IX)), want)
        chk.scen.append("divergence, spacing as %s" % mode)


def seqitems(it, x):
    return list(it.iterate(x))


def kwarg(args, kw, pos_, name, default=None):
    if name in kw:
        return kw[name]
    return args[pos_] if len(args) > pos_ else default


def vtk(chk):
    for model in ("VK", "Mann"):
        it = chk.interp()
        g = generator(it, model, blend=3)
        Tape(it, g)
        gen(it, g, 2)
        tot = it.getattr(g, "total_fluctuation")
        n0 = len(it.calllog)
        where = loc(it, it.getattr(g, "save_to_vtk"))
        call(it, g, "save_to_vtk", "some/where")
        calls = [c_ for c_ in it.calllog[n0:] if c_[0].endswith("imageToVTK") or c_[0].endswith("gridToVTK")]
        if not chk.fact("the field is written once", len(calls) == 1 and calls[0][0].endswith("imageToVTK"), where, "%d writer calls" % len(calls)):
            continue
        _, a, k, pc, w = calls[0]
        chk.fact("the requested file is written", str(kwarg(a, k, 0, "path")) == "some/where", w, repr(kwarg(a, k, 0, "path")))
        sp = seqitems(it, kwarg(a, k, 2, "spacing", (1, 1, 1)))
        vals = chk.vals(it, 6 if chk.tier == "quick" else 40)
        cell = kwarg(a, k, 3, "cellData")
        if not isinstance(cell, Dict):
            cell = kwarg(a, k, 4, "pointData")
        if not chk.fact("the wind is exported", isinstance(cell, Dict) and "wind" in cell.d, w, repr(cell)[:80]):
            continue
        comps = seqitems(it, cell.d["wind"])
        chk.fact("the wind is exported", len(comps) == 3, w, "%d components" % len(comps))
        n = [nodes_per_axis(q) for q in range(3)]
        for q in range(3):
            chk.same("export spacing = domain length / nodes", w, "%s axis %d" % (model, q), vals, sp[q], N.div(pos("g%d" % q), n[q]))
        idx = (N.sym("x", "idx", N.mul(N.const(2), n[0])), N.sym("y", "idx", n[1]), N.sym("z", "idx", n[2]))
        for c_ in range(3):
            chk.same("exported component = field component", w, "%s component %d" % (model, c_), vals, comps[c_].get(idx), tot.get(idx + (N.const(c_),)))
            for q in range(3):
                chk.same("exported component = field component", w, "%s component %d shape" % (model, c_), vals, N.nd(comps[c_].shape[q]), N.nd(tot.shape[q]))
        chk.scen.append("VTK export %s" % model)


def volumes(chk, it, m, fn_, kw, hs, fld, ix, flat, vals):
    n0 = len(it.calllog)
    pf = anchor(m, fn_)
    what = fn_ + ("" if not kw else " without re-formatting")
    it.call(pf, [tuple(hs), fld], kw)
    chk.no_failure(it, "grid is defined", what, vals)
    log = it.calllog[n0:]
    vols = [c_ for c_ in log if c_[0].endswith("Volume") or c_[0].endswith("Isosurface")]
    want = 3 if fn_.endswith("components") else 1
    if not chk.fact("one volume per plotted quantity", len(vols) == want, loc(it, pf), "%s draws %d volumes" % (what, len(vols))):
        return
    for j, (_, a, k, pc, w) in enumerate(vols):
        for q, nm in enumerate("xyz"):
            chk.same("plotted coordinates", w, "%s %s" % (what, nm), vals, k[nm].get((flat,)), N.mul(hs[q], ix[q]))
            chk.same("plotted coordinates", w, "%s %s: number of nodes" % (what, nm), vals, N.nd(k[nm].shape[0]), N.mul(*fld.shape[:3]))
        val = k["value"]
        if not chk.fact("plotted values", isinstance(val, A.Arr) and val.ndim == 1, w, "%s volume %d is not a list of node values" % (what, j)):
            continue
        chk.same("plotted values", w, "%s volume %d: number of nodes" % (what, j), vals, N.nd(val.shape[0]), N.mul(*fld.shape[:3]))
        if want == 3:
            chk.same("plotted values", w, "%s volume %d" % (what, j), vals, val.get((flat,)), N.app("fld", *ix, N.const(j)))
        else:
            chk.same("plotted values", w, "%s volume %d" % (what, j), vals, val.get((flat,)), N.sqrt(N.add(*[N.power(N.app("fld", *ix, N.const(c_)), N.const(2)) for c_ in range(3)])))
    # the panel each volume goes to
    sub = [c_ for c_ in log if c_[0].endswith("make_subplots") and c_[2].get("subplot_titles") is not None]
    tr = [c_ for c_ in log if c_[0].endswith(".add_trace") and c_[1] and getattr(it.resolve(c_[1][0]), "made", None) is not None]
    if want == 3 and sub and len(tr) == 3:
        titles = [str(it.resolve(t)) for t in it.iterate(it.resolve(sub[0][2]["subplot_titles"]))]
        cols = int(it.resolve(sub[0][2].get("cols", 1)))
        for c_ in tr:
            j = [q for q, v in enumerate(vols) if v is it.resolve(c_[1][0]).made]
            r_, q_ = (it.resolve(c_[2].get(n_, c_[1][p_] if len(c_[1]) > p_ else None)) for n_, p_ in (("row", 1), ("col", 2)))
            if len(j) != 1 or not isinstance(r_, int) or not isinstance(q_, int):
                continue
            t = titles[(r_ - 1) * cols + q_ - 1] if 0 < r_ and 0 < q_ <= cols and (r_ - 1) * cols + q_ <= len(titles) else "no panel"
            word = (t.lower().split() + [""])[0]
            wrong = word in "xyzuvw" and word not in ("xyz"[j[0]], "uvw"[j[0]])
            chk.fact("a component is shown in the panel of its name", t != "no panel" and not wrong, c_[4], "%s: component %d goes to %s" % (what, j[0], t))


def grid_helpers(chk):
    it = chk.interp()
    m = it.load(FG + "wind_plot")
    hs = [pos("h%d" % a) for a in range(3)]
    cg = anchor(m, "create_grid")
    fw = anchor(m, "format_wind_field")
    sh = tuple(N.sym("s%d" % a, "nat", (2, 3)) for a in range(3))
    fld = A.Arr("np", sh + (3,), lambda i: N.app("fld", *i), "f")
    ix = [N.sym("x%d" % a, "idx", sh[a]) for a in range(3)]
    g = seqitems(it, it.call(cg, [tuple(hs), sh], {}))
    vals = chk.vals(it, 12 if chk.tier == "quick" else 60)
    chk.no_failure(it, "grid is defined", "create_grid", vals)
    for a in range(3):
        chk.same("grid coordinate = spacing x index", loc(it, cg), "axis %d" % a, vals, g[a].get(tuple(ix)), N.mul(hs[a], ix[a]))
        for q in range(3):
            chk.same("grid coordinate = spacing x index", loc(it, cg), "shape", vals, N.nd(g[a].shape[q]), sh[q])
    f = seqitems(it, it.call(fw, [fld], {}))
    chk.fact("three components", len(f) == 3, loc(it, fw), "%d" % len(f))
    for c_ in range(3):
        chk.same("component c is field[..., c]", loc(it, fw), "component %d" % c_, vals, f[c_].get(tuple(ix)), N.app("fld", *ix, N.const(c_)))
    flat = N.add(N.mul(N.add(N.mul(ix[0], sh[1]), ix[1]), sh[2]), ix[2])
    for fn_ in ("plot_velocity_components", "plot_velocity_magnitude"):
        for kw in ({}, {"reshape": False}):
            volumes(chk, it, m, fn_, kw, hs, fld, ix, flat, vals)
    for c_ in range(3):
        chk.same("plotting leaves the field alone", loc(it, fw), "component %d" % c_, vals, fld.get(tuple(ix) + (N.const(c_),)), N.app("fld", *ix, N.const(c_)))
    chk.scen.append("create_grid, format_wind_field, volume plots")


PARTS = [divergence, vtk, grid_helpers]
