import re

from vg.arr import AbsRaise
from vg.ext_np import EXT
from vg.interp import ExtFn, Dict, List
from .low import *
from .kern import GVN

META = dict(
    title="2-D field plots and parameter studies report the generator's own results",
    technique="argument tracing from the generator to the external plotter calls and returned summaries over the value graph, modular in the generator (its fields and spectra are unknown functions); " + GVN,
    level="other",
    floor=40,
    explanation="Field images, spectra comparisons and the parameter studies are interpreted with generators whose fields and spectra are unknown functions of generator, realisation and cell; the configurations the studies build and "
    "every value they draw or return are compared with the statistic of the fields they belong to.",
)
LF = FG + "low_frequency."
PLT = "matplotlib.pyplot."


class Gens:
    """Generators with the real grid and unknown fields and spectra; remembers configuration and realisations."""

    def __init__(self, it, small=False):
        self.it, self.all, self.small = it, [], small
        m = it.load(LF + "fluctuation_field_generator")
        self.cls = anchor(m, "LowFreqGenerator")
        m.vars["LowFreqGenerator"] = ExtFn("LowFreqGenerator", self.make)

    def make(self, it, a, k):
        given = a[0] if a else k["config"]
        conf = dict(given.d)
        if self.small:
            e = dict(conf)
            e["exp1"], e["exp2"] = 2, 1
            given = Dict(e)
        g = it.call(self.cls, [given] + list(a[1:]), {x: y for x, y in k.items() if x != "config"})
        n = len(self.all)
        rec = dict(conf=conf, obj=g, calls=0)
        self.all.append(rec)

        def generate(it, a, k):
            t = rec["calls"]
            rec["calls"] += 1
            at_ = lambda nm: it.getattr(g, nm)
            out = []
            for c_, nm in ((1, "u1"), (2, "u2")):
                full = A.Arr("np", (at_("comp_N1"), at_("comp_N2")), lambda i, c_=c_: N.app("lf:full", c(n), c(t), c(c_), *i), "f")
                u = A.Arr("np", (at_("user_N1"), at_("user_N2")), lambda i, c_=c_: N.app("lf:u", c(n), c(t), c(c_), *i), "f")
                it.set(g, nm, u)
                it.set(g, nm + "_full", full)
                out.append(u)
            return tuple(out)

        def estimated(it, a, k):
            if not rec["calls"]:
                raise AbsRaise("RuntimeError", "generate() first", it.where())
            t = rec["calls"] - 1
            return tuple(A.Arr("np", (3,), f, "f") for f in (lambda i: N.app("P:kp", c(n), *i), lambda i: N.app("P:est", c(n), c(t), c(1), *i), lambda i: N.app("P:est", c(n), c(t), c(2), *i)))

        def analytic(it, a, k):
            x = a[0] if a else k["k1_arr"]
            rd = x.reader()  # its values as they are now
            return tuple(A.Arr("np", x.shape, lambda i, q=q: N.app("P:ana", c(n), c(q), rd(i)), "f") for q in (1, 2))

        for nm, f in (("generate", generate), ("compute_spectrum", estimated), ("analytical_spectrum", analytic)):
            g.attrs[nm] = ExtFn(nm, f)
        return g

    def u(self, v, n, t, q):
        """Realisation t of component q of generator n, as numbers."""
        g = self.all[n]["obj"]
        s = [int(F(v, self.it.getattr(g, x))) for x in ("user_N1", "user_N2")]
        return np.array([[F(v, N.app("lf:u", c(n), c(t), c(q), c(i), c(j))) for j in range(s[1])] for i in range(s[0])])


def conf_equal(v, conf, want):
    """Names of the entries that differ."""
    bad = [k for k in want if k not in conf or not close(F(v, conf[k]), F(v, want[k]), 1e-9)]
    return bad


def panel(name):
    return name[: name.rindex(".")]


def studies_of(chk):
    it = chk.interp()
    m = it.load(LF + "large_plot")
    return it, m


def base(l1=5, l2=6, e1=2, e2=1):
    return cfg(l1, l2, e1, e2)


def untouched(chk, it, d, d0, where, vals):
    for k, x in d0.items():
        chk.fact("the caller's configuration is left alone", k in d.d, where, "entry %s is gone" % k)
        if k in d.d:
            chk.same("the caller's configuration is left alone", where, k, vals, N.nd(d.d[k]), N.nd(x))


def last(it, n0, ax, nm):
    """The text last set on a panel (None if never set)."""
    got = [it.resolve(x[1][0]) for x in it.calllog[n0:] if x[0] == ax + "." + nm and x[1]]
    return str(got[-1]) if got else None


def component(text):
    """Component named by a title or label (0 if none or several)."""
    t = {1 for _ in re.findall(r"(?<![A-Za-z])(?:u_?\{?1\}?|u|F_?\{?11\}?)(?![A-Za-z0-9_])", text)} | {2 for _ in re.findall(r"(?<![A-Za-z])(?:u_?\{?2\}?|v|F_?\{?22\}?)(?![A-Za-z0-9_])", text)}
    return t.pop() if len(t) == 1 else 0


def named(chk, it, n0, ims, comps, what, need):
    """Titles and axis labels of the image panels agree with what they show."""
    for x, q in zip(ims, comps):
        ax = panel(x[0])
        t = last(it, n0, ax, "set_title")
        if t is not None or need:
            chk.fact("an image is titled by its component", t is not None and component(t) == q, x[4], "%s: component %d under the title %s" % (what, q, t))
        for d in "xy":
            t = last(it, n0, ax, "set_%slabel" % d)
            if t is not None:
                chk.fact("axes are labelled by their direction", re.search(r"(?<![A-Za-z])%s(?![A-Za-z])" % d, t) is not None, x[4], "%s: %s axis is labelled %s" % (what, d, t))


def printed(it, n0):
    """(text before, value, place) of every number printed."""
    out = []
    for nm, a, k, pc, w in it.calllog[n0:]:
        if nm != "print":
            continue
        text = ""
        for x in a:
            x = it.resolve(x)
            for y in getattr(x, "parts", [x]):
                if isinstance(y, str):
                    text += y
                else:
                    y = getattr(y, "v", y)
                    if isinstance(y, (N.Node, int, float)) or (isinstance(y, A.Arr) and y.ndim == 0):
                        out.append((text.strip(), y if isinstance(y, (N.Node, int, float)) else y.get(()), w))
                    text = ""
    return out


def images(chk):
    """plot_velocity_fields and the direction study: what is drawn where."""
    for l1, l2, e1, e2 in ((5, 6, 2, 1), (2, 10, 1, 2)):
        it = chk.interp()
        G = Gens(it)
        g = G.make(it, [cfg(l1, l2, e1, e2)], {})
        call(it, g, "generate")
        call(it, g, "generate")
        n0 = len(it.calllog)
        where = loc(it, it.getattr(g, "plot_velocity_fields"))
        call(it, g, "plot_velocity_fields")
        ims = [x for x in it.calllog[n0:] if x[0].endswith(".imshow")]
        what = "%dx%d cells" % (2**e1, 2**e2)
        chk.scen.append("plot_velocity_fields " + what)
        vals = chk.vals(it, 24 if chk.tier == "quick" else 100)
        chk.no_failure(it, "plotting is defined", what, vals)
        if not chk.fact("one image per component", len(ims) == 2 and panel(ims[0][0]) != panel(ims[1][0]), where, "%d images" % len(ims)):
            continue
        named(chk, it, n0, ims, (1, 2), what, need=True)
        for q, (_, a, k, pc, w) in enumerate(ims):
            image(chk, it, G, vals, w, what + " u%d" % (q + 1), a, k, g, 0, 1, q + 1, half=True)
        lim(chk, it, vals, ims, lambda v: max(np.abs(G.u(v, 0, 1, q)).max() for q in (1, 2)), what)
    # nothing to show before generation
    it = chk.interp()
    g = lowgen(it, base())
    chk.rule("plotting before generation is refused")["obligations"] += 1
    try:
        call(it, g, "plot_velocity_fields")
        chk.violate("plotting before generation is refused", loc(it, it.getattr(g, "plot_velocity_fields")), "draws without fields")
    except AbsRaise as e:
        chk.fact("plotting before generation is refused", e.exc == "RuntimeError", loc(it, it.getattr(g, "plot_velocity_fields")), "raises %s" % e.exc)


def image(chk, it, G, vals, w, what, a, k, g, n, t, q, half):
    s = [N.nd(it.getattr(g, "user_N%d" % d)) for d in (1, 2)]
    i, j = N.sym("i", "idx", s[0]), N.sym("j", "idx", s[1])
    data = a[0]
    org = k.get("origin")
    if not chk.fact("an image shows its component, streamwise along x", isinstance(data, A.Arr) and data.ndim == 2 and org in ("lower", "upper", None), w, what):
        return
    row = j if org == "lower" else N.sub(N.sub(s[1], c(1)), j)
    for d, sz in ((0, s[1]), (1, s[0])):
        chk.same("an image shows its component, streamwise along x", w, what + " shape", vals, N.nd(data.shape[d]), sz)
    chk.same("an image shows its component, streamwise along x", w, what, vals, data.get((row, i)), N.app("lf:u", c(n), c(t), c(q), i, j))
    ext = k.get("extent")
    if chk.fact("images are placed at the field's coordinates in kilometres", ext is not None, w, what + ": no extent"):
        ext = [N.nd(x) for x in it.iterate(ext)]
        dx = [N.nd(it.getattr(g, "user_d" + x)) for x in "xy"]

        def placed(v):
            for d in range(2):
                h, n_ = F(v, dx[d]), F(v, s[d])
                lo, hi = -0.5 * h / 1000, (n_ - 0.5) * h / 1000
                got = F(v, ext[2 * d]), F(v, ext[2 * d + 1])
                tol = (1e-6 if half else 0.5 + 1e-6) * h / 1000
                if abs(got[0] - lo) > tol or abs(got[1] - hi) > tol:
                    return False, "%s: axis %d spans %.6g..%.6g km, cells span %.6g..%.6g" % (what, d, got[0], got[1], lo, hi)
            return True

        chk.holds("images are placed at the field's coordinates in kilometres", w, "", vals, placed)


def lim(chk, it, vals, ims, mx, what):
    """All images share colour limits, symmetric about zero and reaching the largest speed."""
    for _, a, k, pc, w in ims:
        if not chk.fact("images share symmetric colour limits", k.get("vmin") is not None and k.get("vmax") is not None, w, what + ": no limits"):
            continue

        def f(v, k=k):
            lo, hi = F(v, k["vmin"]), F(v, k["vmax"])
            return close(lo, -hi, 1e-9) and close(hi, mx(v), 1e-9), "%s: limits %.6g..%.6g, largest magnitude %.6g" % (what, lo, hi, mx(v))

        chk.holds("images share symmetric colour limits", w, "", vals, f)


def anisotropy(chk):
    for degs, nr in (((0, 30, 90), 2), ((45,), 3), ((60, 15), 1)):
        for plot in (True, False):
            it, m = studies_of(chk)
            G = Gens(it)
            b = base() if nr == 2 else cfg(20, 4, 2, 3) if nr == 3 else cfg(3, 18, 3, 2)
            d0 = dict(b.d)
            f = anchor(m, "anisotropy_study")
            where = loc(it, f)
            n0 = len(it.calllog)
            res = it.call(f, [b, List(degs)], dict(num_realizations=nr, do_plot=plot))
            what = "angles %s, %d realisations" % (list(degs), nr)
            chk.scen.append("anisotropy_study " + what + (", plotted" if plot else ""))
            vals = chk.vals(it, 4 if chk.tier == "quick" else 20)
            chk.no_failure(it, "the studies are defined", what, vals)
            untouched(chk, it, b, d0, where, vals)
            if not chk.fact("one summary per angle", isinstance(res, Dict) and sorted(res.d) == sorted(degs), where, what + ": %s" % (sorted(res.d) if isinstance(res, Dict) else repr(res))):
                continue

            def angle(v, deg):
                want = dict(d0, psi=c(math.radians(deg)))
                return [n for n, r in enumerate(G.all) if not conf_equal(v, r["conf"], want)]

            for deg in degs:

                def f_(v, deg=deg):
                    # any realisations of a generator with this configuration
                    cand = {}
                    for n in angle(v, deg):
                        R = [[G.u(v, n, t, q).var() for t in range(G.all[n]["calls"])] for q in (1, 2)]
                        T = len(R[0])
                        for s in range(0, T - nr + 1):
                            cand[n, s] = np.mean(R[0][s : s + nr]), np.mean(R[1][s : s + nr])
                    r = res.d[deg]
                    got = [F(v, r.d[x]) for x in ("avg_u1_var", "avg_u2_var", "avg_total_var")]
                    ok = any(close(got[0], x, 1e-7) and close(got[1], y, 1e-7) and close(got[2], x + y, 1e-7) for x, y in cand.values())
                    return ok, "%s: psi=%s reports variances %s; realisations of that configuration average to %s" % (what, deg, [round(x, 6) for x in got], [tuple(round(float(z), 6) for z in x) for x in cand.values()])

                chk.holds("a study reports the variances of its own configuration", where, "", vals, f_)
            ims = [x for x in it.calllog[n0:] if x[0].endswith(".imshow")]
            if not chk.fact("fields are drawn when asked for", len(ims) == (2 * len(degs) if plot else 0), where, "%s: %d images" % (what, len(ims))):
                continue
            named(chk, it, n0, ims, [p % 2 + 1 for p in range(len(ims))], what, need=False)
            for p, (_, a, k, pc, w) in enumerate(ims):
                deg, q = degs[p // 2], p % 2 + 1
                node_ = a[0].get((c(0), c(0)))
                own = [(n, t) for n, r in enumerate(G.all) for t in range(r["calls"]) if N.app("lf:u", c(n), c(t), c(q), c(0), c(0)) is node_]
                if not chk.fact("an image shows its component, streamwise along x", len(own) == 1, w, "%s: image %d is not component %d of a generated field" % (what, p, q)):
                    continue
                n, t = own[0]
                chk.holds("an image shows the configuration it is labelled with", w, "", vals, lambda v, n=n, deg=deg: (n in angle(v, deg), "%s: image %d (psi=%s) shows a field of another configuration" % (what, p, deg)))
                image(chk, it, G, vals, w, "%s, psi=%s u%d" % (what, deg, q), a, k, G.all[n]["obj"], n, t, q, half=False)
                chk.fact("each field has its own panel", True, w, "")
            chk.fact("each field has its own panel", len({panel(x[0]) for x in ims}) == len(ims), where, "%s: %s" % (what, [x[0] for x in ims]))
            if plot:
                shown = []
                for p, (_, a, k, pc, w) in enumerate(ims):
                    shown += [a[0]]

                def mx(v):
                    return max(abs(F(v, x.get((c(i), c(j))))) for x in shown for i in range(int(F(v, N.nd(x.shape[0])))) for j in range(int(F(v, N.nd(x.shape[1])))))

                lim(chk, it, vals, ims, mx, what)


def single(chk, G, it, v, n, nr):
    """Norm and variance of the realisation average of generator n."""
    g = G.all[n]["obj"]
    out = []
    for q in (1, 2):
        u = sum(G.u(v, n, t, q) for t in range(nr)) / nr
        out.append((float((u**2).sum()) * F(v, it.getattr(g, "user_dx")) * F(v, it.getattr(g, "user_dy")), float(u.var())))
    return out


def lines(it, n0):
    out = []
    for nm, a, k, pc, w in it.calllog[n0:]:
        if nm.rsplit(".", 1)[-1] in ("plot", "semilogy", "semilogx", "loglog", "scatter") and len(a) >= 2:
            out.append((panel(nm), str(k.get("label", "")), a[0], a[1], w))
    return out


def seq(it, v, x):
    return [F(v, y) for y in it.iterate(x)]


def convergence(chk):
    """Mesh and domain studies: one generator per size, whatever the order of completion."""
    for fn_, args, entries in (
        ("mesh_independence_study", [1, 3], [{"exp1": e, "exp2": e} for e in (1, 2, 3)]),
        ("mesh_independence_study", [2, 2], [{"exp1": e, "exp2": e} for e in (2,)]),
        ("domain_size_study", [List([2, 1, 3])], [{"L1_factor": e, "L2_factor": e} for e in (1, 2, 3)]),
        ("domain_size_study", [List([8])], [{"L1_factor": e, "L2_factor": e} for e in (8,)]),
    ):
        it, m = studies_of(chk)
        G = Gens(it, small=fn_.startswith("domain"))
        f = anchor(m, fn_)
        where = loc(it, f)
        n0 = len(it.calllog)
        it.call(f, list(args), {})
        what = "%s%s" % (fn_, tuple(list(x.items) if isinstance(x, List) else x for x in args))
        chk.scen.append(what)
        vals = chk.vals(it, 2 if chk.tier == "quick" else 10)
        chk.no_failure(it, "the studies are defined", what, vals)
        v0 = vals[0]
        ok = chk.fact("one generator per size", len(G.all) == len(entries), where, "%s builds %d generators" % (what, len(G.all)))
        own = []
        for e in entries:
            mine = [n for n, r in enumerate(G.all) if not conf_equal(v0, r["conf"], {k: c(x) for k, x in e.items()})]
            ok = chk.fact("one generator per size", len(mine) == 1, where, "%s: %d generators with %s" % (what, len(mine), e)) and ok
            own += mine[:1]
        ls = lines(it, n0)
        if not ok:
            continue
        ok = chk.fact("norm and variance of both components are drawn", len(ls) == 4, where, "%s: %d lines" % (what, len(ls)))
        if not ok:
            continue
        panels = []
        for l in ls:
            if l[0] not in panels:
                panels.append(l[0])
        if not chk.fact("norm and variance of both components are drawn", len(panels) == 2, where, "%s: %d panels" % (what, len(panels))):
            continue
        for kind, p in enumerate(panels):
            t = (last(it, n0, p, "set_title") or "").lower()
            if "norm" in t or "variance" in t:
                chk.fact("norm and variance are titled", ("norm", "variance")[kind] in t, where, "%s: %s under the title %s" % (what, ("norm", "variance")[kind], t))
        for nm, a, k, pc, w in it.calllog[n0:]:
            if nm.endswith(".axhline"):
                y = a[0] if a else k.get("y")
                ok = chk.fact("the target variance is drawn with the variances", panel(nm) == panels[1], w, "%s: a level is drawn on the panel of the norms" % what)
                if ok and "arget" in str(it.resolve(k.get("label", "Target"))):
                    chk.same("the target variance is drawn with the variances", w, what, vals, N.nd(y), N.nd(G.all[own[0]]["conf"]["sigma2"]))
        for p, lb, x, y, w in ls:
            kind, q = panels.index(p), 0 if "1" in lb else 1

            def f_(v, x=x, y=y, kind=kind, q=q):
                nr = [G.all[n]["calls"] for n in own]
                want = [single(chk, G, it, v, n, r)[q][kind] for n, r in zip(own, nr)]
                L = [F(v, it.getattr(G.all[n]["obj"], "L_2d")) for n in own]
                xs = [float(e["exp1"]) for e in entries] if "exp1" in entries[0] else [l * e["L1_factor"] / 1000 for l, e in zip(L, entries)]
                gx, gy = seq(it, v, x), seq(it, v, y)
                good = len(gx) == len(xs) and len(gy) == len(xs) and sorted(zip([round(z, 6) for z in gx], gy)) is not None
                pairs = sorted(zip(gx, gy))
                good = good and all(close(a_, b_, 1e-7) and close(c_, d_, 1e-7) for (a_, c_), b_, d_ in zip(pairs, xs, want))
                return good, "%s: %s of %s at %s drawn as %s, fields give %s at %s" % (what, ("norm", "variance")[kind], lb, [round(z, 4) for z in gx], [round(z, 6) for z in gy], [round(z, 6) for z in want], xs)

            chk.holds("a study draws each size with its own norm and variance", w, "", vals, f_)


def averaged(chk):
    """A single run averages as many realisations as it is asked for."""
    for nm, size, small in (("_run_single_mesh", 2, False), ("_run_single_domain_size", 3, True)):
        it, m = studies_of(chk)
        f = m.vars.get(nm)
        if f is None:
            continue
        for nr in (1, 3):
            it, m = studies_of(chk)
            G = Gens(it, small=small)
            f = m.vars[nm]
            where = loc(it, f)
            try:
                it.call(f, [size, base()], {"num_realizations": nr})
            except AbsRaise:
                break  # called differently here: the studies decide
            chk.scen.append("%s, %d realisations" % (nm, nr))
            chk.fact("a run averages the requested number of realisations", len(G.all) == 1 and G.all[0]["calls"] == nr, where, "%s: %d asked for, %s drawn" % (nm, nr, [r["calls"] for r in G.all]))


def heat(chk):
    """length_AND_grid_size_study: each cell of the maps is the average variance of its configuration."""
    it, m = studies_of(chk)
    G = Gens(it, small=True)
    b = base()
    d0 = dict(b.d)
    f = anchor(m, "length_AND_grid_size_study")
    where = loc(it, f)
    n0 = len(it.calllog)
    nr = 2
    it.call(f, [b], dict(num_realizations=nr, do_plot=True))
    vals = chk.vals(it, 2 if chk.tier == "quick" else 8)
    chk.scen.append("length_AND_grid_size_study")
    chk.no_failure(it, "the studies are defined", "length_AND_grid_size_study", vals)
    untouched(chk, it, b, d0, where, vals)
    ims = [x for x in it.calllog[n0:] if x[0].endswith(".imshow")]
    if not chk.fact("variances of both components and their total are mapped", len(ims) == 3, where, "%d maps" % len(ims)):
        return
    for p, (_, a, k, pc, w) in enumerate(ims):
        ax = panel(_)
        log = it.calllog[n0:]
        lab = lambda nm: [x for x in log if x[0] == ax + nm]
        xl, yl = [lab(".set_%sticklabels" % z) for z in "xy"]
        if not chk.fact("maps are labelled with the configuration", bool(xl) and bool(yl), w, "map %d has no tick labels" % p):
            continue
        xs = [str(it.resolve(z)) for z in it.iterate(xl[-1][1][0])]
        ys = [str(it.resolve(z)) for z in it.iterate(yl[-1][1][0])]
        data = a[0]

        def f_(v, data=data, p=p, xs=xs, ys=ys):
            for r, y in enumerate(ys):
                for q, x in enumerate(xs):
                    e = math.log2(float(y.split("(")[1].rstrip(")"))) if "(" in y else float(y)
                    want = dict(d0, exp1=c(e), exp2=c(e), L1_factor=c(float(x)), L2_factor=c(float(x)))
                    mine = [n for n, rr in enumerate(G.all) if not conf_equal(v, rr["conf"], want)]
                    if len(mine) != 1:
                        return False, "%d generators with grid %s and factor %s" % (len(mine), y, x)
                    if len(ys) * len(xs) > 6 and (r * 7 + q * 3) % 5:
                        continue
                    va = [np.mean([G.u(v, mine[0], t, d).var() for t in range(G.all[mine[0]]["calls"])]) for d in (1, 2)]
                    z = va[0] if p == 0 else va[1] if p == 1 else va[0] + va[1]
                    got = F(v, data.get((c(r), c(q))))
                    if not close(got, z, 1e-7):
                        return False, "map %d, grid %s factor %s: %.8g, fields average to %.8g" % (p, y, x, got, z)
            return True

        chk.holds("a map cell is the average variance of its configuration", w, "", vals, f_)


def pair_spectra(chk):
    it, m = studies_of(chk)
    G = Gens(it)
    g = G.make(it, [base()], {})
    call(it, g, "generate")
    f = anchor(m, "plot_spectra_comparison")
    where = loc(it, f)
    n0 = len(it.calllog)
    it.call(f, [g], {})
    vals = chk.vals(it, 6 if chk.tier == "quick" else 30)
    chk.scen.append("plot_spectra_comparison")
    chk.no_failure(it, "plotting is defined", "plot_spectra_comparison", vals)
    ls = lines(it, n0)
    if chk.fact("estimate and theory of both components are drawn", len(ls) == 4, where, "%d lines" % len(ls)):
        i = N.sym("i", "idx", c(3))
        kk = N.app("P:kp", c(0), i)
        pans = {}
        for p, lb, x, y, w in ls:
            q = 1 if "11" in lb else 2
            est = "umer" in lb
            pans.setdefault(q, set()).add(p)
            chk.same("spectra are drawn against k1 L", w, lb, vals, x.get((i,)), N.mul(kk, pos("L2d")))
            want = N.app("P:est", c(0), c(0), c(q), i) if est else N.app("P:ana", c(0), c(q), kk)
            chk.same("a curve shows the premultiplied spectrum it is labelled with", w, lb, vals, y.get((i,)), N.mul(kk, want))
        chk.fact("estimate and theory of both components are drawn", sorted((l[1] and ("11" in l[1]), "umer" in l[1]) for l in ls) == [(False, False), (False, True), (True, False), (True, True)], where, str([l[1] for l in ls]))
        if chk.fact("each component has its own panel", len(pans) == 2 and all(len(s) == 1 for s in pans.values()) and pans[1] != pans[2], where, str(pans)):
            for q, s in pans.items():
                t = last(it, n0, min(s), "set_ylabel")
                if t is not None and component(t):
                    chk.fact("an axis is labelled by its component", component(t) == q, where, "component %d against the axis %s" % (q, t))
    pk = [N.app("P:kp", c(0), c(j)) for j in range(3)]
    for t, x, w in printed(it, n0):
        q = component(t.replace("F11_num", "").replace("F22_num", ""))
        if q and "actual" in t.lower():
            chk.holds("the printed variances are the field's and the estimate's", w, "", vals, lambda v, q=q, x=x, t=t: (close(F(v, N.nd(x)), G.u(v, 0, 0, q).var(), 1e-7), "%s %s; the field has %s" % (t, F(v, N.nd(x)), G.u(v, 0, 0, q).var())))
        elif q and "spectrum" in t.lower() or "_num" in t:
            q = 1 if "11" in t else 2

            def f_(v, q=q, x=x, t=t):
                dk = F(v, pk[1]) - F(v, pk[0])
                e = sum(F(v, N.app("P:est", c(0), c(0), c(q), c(j))) for j in range(3)) * dk if dk > 0 else 0.0
                return close(F(v, N.nd(x)), e, 1e-7), "%s %s; the estimate sums to %s" % (t, F(v, N.nd(x)), e)

            chk.holds("the printed variances are the field's and the estimate's", w, "", vals, f_)


def figure2(chk):
    for nr in (1, 3):
        it, m = studies_of(chk)
        G = Gens(it)
        ga = G.make(it, [cfg(5, 6, 2, 1)], {})
        gb = G.make(it, [Dict(dict(cfg(6, 5, 1, 2).d, L_2d=pos("L2b")))], {})
        f = anchor(m, "recreate_fig2")
        where = loc(it, f)
        n0 = len(it.calllog)
        it.call(f, [ga, gb], dict(num_realizations=nr))
        vals = chk.vals(it, 4 if chk.tier == "quick" else 20)
        chk.scen.append("recreate_fig2, %d realisations" % nr)
        what = "%d realisations" % nr
        chk.no_failure(it, "plotting is defined", what, vals)
        ls = lines(it, n0)
        if not chk.fact("estimate and theory of both components are drawn", len(ls) == 8, where, "%d lines" % len(ls)):
            continue
        pans = []
        for l in ls:
            if l[0] not in pans:
                pans.append(l[0])
        chk.fact("each component has its own panel", len(pans) == 4, where, str(pans))
        log = it.calllog[n0:]
        for p, lb, x, y, w in ls:
            yl = [str(z[1][0]) for z in log if z[0] == p + ".set_ylabel"]
            q = 1 if "11" in (yl + [""])[0] else 2
            place = re.search(r"\[(\d+)x(\d+):(\d+)\]$", p)
            idx = place.group(0) if place else p
            n = 0 if place and int(place.group(3)) <= int(place.group(2)) else 1
            Ln = pos("L2d") if n == 0 else pos("L2b")
            lw = "%s: panel %s %s" % (what, idx, lb)
            if "umer" in lb:
                i = N.sym("i", "idx", c(3))
                kk = N.app("P:kp", c(n), i)
                mean = N.div(N.add(*[N.app("P:est", c(n), c(t), c(q), i) for t in range(nr)]), c(nr))
                chk.same("spectra are drawn against k1 L", w, lw, vals, x.get((i,)), N.mul(kk, Ln))
                chk.same("a curve shows the premultiplied spectrum it is labelled with", w, lw, vals, y.get((i,)), N.mul(kk, mean))
            else:
                i = N.sym("i", "idx", x.shape[0])
                kk = N.div(x.get((i,)), Ln)

                def f_(v, y=y, kk=kk, q=q, n=n, i=i):
                    # the curve at its own abscissa
                    return close(F(v, y.get((i,))), F(v, kk) * F(v, N.app("P:ana", c(n), c(q), kk)), 1e-6), lw

                k_arr = [z for z in G.all[n].get("asked", [])]
                chk.holds("a curve shows the premultiplied spectrum it is labelled with", w, "", vals, f_)


def rectangular(chk):
    for nr in (1, 2):
        it, m = studies_of(chk)
        G = Gens(it, small=True)
        b = base()
        d0 = dict(b.d)
        f = anchor(m, "rectangular_domain_study")
        where = loc(it, f)
        n0 = len(it.calllog)
        it.call(f, [b], dict(num_realizations=nr))
        vals = chk.vals(it, 2)
        v0 = vals[0]
        what = "rectangular_domain_study, %d realisations" % nr
        chk.no_failure(it, "the studies are defined", what, vals)
        untouched(chk, it, b, d0, where, vals)
        if not chk.fact("one generator per size", len(G.all) > 0, where, "no generator is built"):
            continue
        for n, r in enumerate(G.all):
            chk.fact("a study averages the asked number of realisations", r["calls"] == nr, where, "%s: generator %d has %d realisations" % (what, n, r["calls"]))
            bad = conf_equal(v0, r["conf"], {k: x for k, x in d0.items() if k not in ("exp1", "exp2", "L1_factor", "L2_factor")})
            chk.fact("a study varies only the domain and the grid", not bad, where, "%s: generator %d differs in %s" % (what, n, bad))
        # printed averages, in the order of the generators
        seen = {}
        for t, x, w in printed(it, n0):
            low = t.lower()
            if "var" not in low or "avg" not in low and "average" not in low:
                continue
            q = 3 if "total" in low else component(low)
            full = "full" in low
            n = seen[q, full] = seen.get((q, full), -1) + 1
            if not q:
                continue
            if not chk.fact("a study reports the variances of its own configuration", n < len(G.all), w, "%s: %s is printed %d times for %d generators" % (what, t, n + 1, len(G.all))):
                continue

            def f_(v, n=n, q=q, full=full, x=x, t=t):
                g = G.all[n]["obj"]
                e = 0.0
                for d in (1, 2) if q == 3 else (q,):
                    if full:
                        s = [int(F(v, N.nd(it.getattr(g, z)))) for z in ("comp_N1", "comp_N2")]
                        u = [np.array([[F(v, N.app("lf:full", c(n), c(r), c(d), c(i), c(j))) for j in range(s[1])] for i in range(s[0])]).var() for r in range(nr)]
                    else:
                        u = [G.u(v, n, r, d).var() for r in range(nr)]
                    e += float(np.mean(u))
                got = F(v, N.nd(x))
                return close(got, e, 1e-7), "%s: configuration %d prints %s %.8g, its fields average to %.8g" % (what, n, t, got, e)

            if n in (0, len(G.all) // 2, len(G.all) - 1) or chk.tier != "quick":
                chk.holds("a study reports the variances of its own configuration", w, "", vals, f_)
        for (q, full), n in seen.items():
            chk.fact("a study reports the variances of its own configuration", n + 1 == len(G.all), where, "%s: %d averages printed for %d generators" % (what, n + 1, len(G.all)))
        chk.scen.append(what)


PARTS = [images, anisotropy, convergence, averaged, heat, pair_spectra, figure2, rectangular]
