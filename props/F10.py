from fractions import Fraction

from vg.arr import AbsRaise
from vg.ext_np import TableV
from .fit import *
from .F06 import tab

META = dict(
    title="Data, loss and plots pair each component and label with its own model row",
    technique="argument tracing from the data entries to the differentiated loss and the plotted lines over the value graph; " + GVN,
    level="other",
    floor=80,
    explanation="Calibration and plotting are interpreted with nine unrelated unknown data entries per wavenumber and with coherence tables in arbitrary row order and labelling; the loss that is differentiated and every "
    "plotted line are compared with the model row, data entry, separation and frequency they are labelled with.",
)
NP = 3


def data3(name="dat"):
    return tens((NP, 3, 3), lambda i: N.app("P:" + name, *i))


def k1s():
    return tens((NP,), lambda i: N.app("M:k1", *i))


def rows(v, a, n, idx=True):
    return np.array([[F(v, a.get((N.const(r), N.const(i)))) for i in range(NP)] for r in range(n)])


def losses(chk):
    for nc in (3, 4, 6):
        for et in ("MANN", "CONST") if chk.tier == "quick" else TYPES:
            it = chk.interp()
            cp = problem(it, et, prob=dict(num_components=nc))
            ops = it.getattr(cp, "OPS")
            k1, dat = k1s(), data3()
            y0 = it.call(ops, [k1])
            where = loc(it, it.getattr(cp, "calibrate"))
            what = "%s, %d components" % (et, nc)
            n0 = len(it.backward_roots)
            call(it, cp, "calibrate", Dict({"k1": k1, "ops": dat}))
            roots = it.backward_roots[n0:]
            if not chk.fact("every fitted component is compared with its own data", bool(roots), where, what + ": nothing is differentiated"):
                continue
            vals = chk.vals(it, 5 if chk.tier == "quick" else 20)
            chk.no_failure(it, "the first training step is defined", what, vals, allow=("RuntimeError",))
            chk.scen.append("calibrate " + what)

            def f(v):
                Y = rows(v, y0, nc)
                D = np.array([[F(v, dat.get((N.const(i),) + tuple(N.const(q) for q in ORDER[r]))) for i in range(NP)] for r in range(nc)])
                want = (np.log(np.abs(Y / D)) ** 2).mean()
                got = F(v, roots[0][0])
                return close(got, want, 1e-6), "%s: loss %.9g, components paired in order give %.9g" % (what, got, want)

            chk.holds("every fitted component is compared with its own data", roots[0][2], "", vals, f)
            ix = (N.sym("i", "idx", N.const(NP)), N.sym("a", "idx", N.const(3)), N.sym("b", "idx", N.const(3)))
            chk.same("the data are left alone", where, what, vals, dat.get(ix), N.app("P:dat", *ix))
    for nc in (0, 2, 5, 7):
        it = chk.interp()
        chk.rule("an unsupported number of components is refused")["obligations"] += 1
        where = "num_components=%d" % nc
        try:
            cp = problem(it, "MANN", prob=dict(num_components=nc))
            where = loc(it, it.getattr(cp, "calibrate"))
            call(it, cp, "calibrate", Dict({"k1": k1s(), "ops": data3()}))
        except AbsRaise:
            continue
        chk.violate("an unsupported number of components is refused", where, "num_components=%d trains" % nc)


TYPES = ("MANN", "CONST", "TWOTHIRD", "MANN_APPROX", "TAUNET")
DIRS = {"(k_1)": (1, 0, 0), "(k_2)": (0, 1, 0), "(k_3)": (0, 0, 1), "(k,k,k)": (3**-0.5,) * 3}
DRAW = (".plot", ".loglog", ".semilogx", ".semilogy", ".scatter")


def label(it, k, a):
    s = k.get("label", "")
    s = it.resolve(s)
    return s if isinstance(s, str) else str(s)


def drawn(it, n0, sub):
    """Calls that draw a line on a panel of the figure: (panel, label, x, y, where)."""
    out = []
    for nm, a, k, pc, w in it.calllog[n0:]:
        if nm.endswith(DRAW) and len(a) >= 2 and sub(label(it, k, a)):
            out.append((nm[: nm.rindex(".")], label(it, k, a), a[0], a[1], w))
    return out


def plots(chk):
    for nc in (3, 4, 6):
        for src in ("calibrated", "given", "given with model values"):
            if src != "calibrated" and nc == 3 and chk.tier == "quick":
                continue
            it = chk.interp()
            cp = problem(it, "MANN", prob=dict(num_components=nc), phys=dict(ustar=pos("ustar"), L=pos("L"), Gamma=pos("G"), sigma=pos("S")))
            ops = it.getattr(cp, "OPS")
            k1, dat = k1s(), data3()
            u2 = N.power(pos("ustar"), N.const(2))
            kw = {}
            if src == "calibrated":
                call(it, cp, "calibrate", Dict({"k1": k1, "ops": dat}))
            else:
                pts = tens((NP, 1), lambda i: N.app("M:k1", i[0]))
                kw["OPSData"] = (pts, dat)
            mod = it.call(ops, [k1])
            my = lambda r, i: N.div(mod.get((r, i)), u2)
            if src.endswith("values"):
                mv = tens((6, NP), lambda i: N.app("mv", *i))
                kw["model_vals"] = mv
                my = lambda r, i: N.app("mv", r, i)
            n0 = len(it.calllog)
            where = loc(it, it.getattr(cp, "plot"))
            what = "%s, %d components" % (src, nc)
            chk.scen.append("plot " + what)
            call(it, cp, "plot", **kw)
            vals = chk.vals(it, 3 if chk.tier == "quick" else 12)
            chk.no_failure(it, "plotting is defined", what, vals, allow=("RuntimeError",))
            lines = drawn(it, n0, lambda s: "F_" in s)
            i = N.sym("i", "idx", N.const(NP))
            panels = {}
            for r, nm in enumerate(NAMES):
                sg = -1 if nm == "13" else 1
                for kind in ("model", "data"):
                    mine = [x for x in lines if nm in x[1] and kind in x[1]]
                    want = 1 if kind == "model" or r < nc else 0
                    if not chk.fact("one line per plotted quantity", len(mine) == want, where, "%s: %d lines for F_%s %s" % (what, len(mine), nm, kind)):
                        continue
                    if not mine:
                        continue
                    p, _, x, y, w = mine[0]
                    panels.setdefault(nm, set()).add(p)
                    chk.same("lines are drawn at the wavenumbers", w, "%s %s %s" % (what, nm, kind), vals, x.get((i,)), N.app("M:k1", i))
                    val = my(N.const(r), i) if kind == "model" else N.div(dat.get((i,) + tuple(N.const(q) for q in ORDER[r])), u2)
                    chk.same("a line shows the component it is labelled with", w, "%s %s %s" % (what, nm, kind), vals, y.get((i,)), N.neg(val) if sg < 0 else val)
                    if kind == "model":
                        for nm2, a2, k2, pc2, w2 in it.calllog[n0:]:
                            if nm2.startswith(p + ".") and nm2.endswith(".set_ydata") and "[0].set_ydata" in nm2:
                                chk.same("a line shows the component it is labelled with", w2, "%s %s refreshed" % (what, nm), vals, a2[0].get((i,)), N.neg(val) if sg < 0 else val)
            flat = [x for s in panels.values() for x in s]
            chk.fact("each component has its own panel", all(len(s) == 1 for s in panels.values()) and len(set(flat)) == 6, where, "%s: panels %s" % (what, sorted(panels.items())))
    it = chk.interp()
    cp = problem(it, "MANN", prob=dict(num_components=4))
    # without data there is nothing to plot
    chk.rule("plotting without data is refused")["obligations"] += 1
    try:
        call(it, cp, "plot")
        chk.violate("plotting without data is refused", loc(it, it.getattr(cp, "plot")), "plot() before calibrate draws something")
    except AbsRaise:
        pass


def lifetimes(chk):
    """The eddy lifetime figure: model along each axis and the diagonal, against Mann's."""
    for et in ("TAUNET", "MANN"):
        it = chk.interp()
        cp = problem(it, et, prob=dict(num_components=3), nn=dict(nlayers=1, hidden_layer_size=2))
        ops = it.getattr(cp, "OPS")
        unk_params(it, ops)
        n0 = len(it.calllog)
        where = loc(it, it.getattr(cp, "plot"))
        call(it, cp, "plot", OPSData=(tens((NP, 1), lambda i: N.app("M:k1", i[0])), data3()))
        lines = drawn(it, n0, lambda s: "tau" in s)
        chk.fact("five lifetime curves", len(lines) == 5, where, "%s: %d curves" % (et, len(lines)))
        vals = chk.vals(it, 3)
        for p, lb, x, y, w in lines:
            i = N.sym("i", "idx", x.shape[0])
            kk = N.div(x.get((i,)), pos("L"))
            d = next((DIRS[q] for q in DIRS if q in lb), None)
            if d is None:
                chk.holds("reference curve is Mann's lifetime", w, et, vals, lambda v: (close(F(v, y.get((i,))), F(v, pos("G")) * mann_tau(F(v, x.get((i,)))), 1e-5), "%.9g at kL=%.6g" % (F(v, y.get((i,))), F(v, x.get((i,))))))
                continue
            kv = tens((1, 3), lambda j: A.select_list([N.mul(kk, N.const(1)) if q == 1 else (N.div(kk, N.sqrt(N.const(3))) if q else N.ZERO) for q in d], j[1]))
            t = call(it, ops, "EddyLifetime", kv)
            chk.same("a lifetime curve shows its own direction", w, "%s %s" % (et, lb), vals, y.get((i,)), t.get((N.ZERO,)))
            same = [c for c in it.calllog[n0:] if c[0] == p + ".plot()[0].set_ydata"]
            chk.fact("five lifetime curves", len(same) in (0, 4, 5), where, "%d refreshes" % len(same))
        chk.scen.append("lifetime figure " + et)


def again(chk):
    """A second plot shows the model and the data as they are then, not as they were."""
    for et in ("MANN", "TAUNET"):
        it = chk.interp()
        cp = problem(it, et, prob=dict(num_components=4), nn=dict(nlayers=1, hidden_layer_size=2), phys=dict(ustar=pos("ustar"), L=pos("L"), Gamma=pos("G"), sigma=pos("S")))
        ops = it.getattr(cp, "OPS")
        pts = tens((NP, 1), lambda i: N.app("M:k1", i[0]))
        call(it, cp, "plot", OPSData=(pts, data3()))
        unk_params(it, ops)
        mod = it.call(ops, [k1s()])
        n0 = len(it.calllog)
        where = loc(it, it.getattr(cp, "plot"))
        pts2, dat = tens((NP, 1), lambda i: N.app("M:k1", i[0])), data3("dat2")
        chk.scen.append("plotted again " + et)
        call(it, cp, "plot", OPSData=(pts2, dat))
        vals = chk.vals(it, 3)
        u2 = N.power(pos("ustar"), N.const(2))
        i = N.sym("i", "idx", N.const(NP))
        R = "a later plot shows the model and the data of its own time"
        for p, lb, x, y, w in drawn(it, n0, lambda s: "F_" in s or "tau" in s):
            if "F_" in lb:
                r = next((r for r, nm in enumerate(NAMES) if nm in lb), None)
                if r is None:
                    continue
                val = N.div(mod.get((N.const(r), i)) if "model" in lb else dat.get((i,) + tuple(N.const(q) for q in ORDER[r])), u2)
                chk.same(R, w, "%s %s" % (et, lb), vals, y.get((i,)), N.neg(val) if NAMES[r] == "13" else val)
            else:
                d = next((DIRS[q] for q in DIRS if q in lb), None)
                if d is None:
                    continue
                j = N.sym("i", "idx", x.shape[0])
                kk = N.div(x.get((j,)), pos("L"))
                kv = tens((1, 3), lambda c: A.select_list([kk if q == 1 else (N.div(kk, N.sqrt(N.const(3))) if q else N.ZERO) for q in d], c[1]))
                chk.same(R, w, "%s %s" % (et, lb), vals, y.get((j,)), call(it, ops, "EddyLifetime", kv).get((N.ZERO,)))


# ---------------------------------------------------------------- coherence tables
def table(ns, nf, order, drop=(), base=0, step=1, zero=True):
    """Rows (in the given order) of a table whose cells are unknown functions of the labels."""
    rs = []
    for s in range(ns):
        for f in range(nf):
            if (s, f) in drop:
                continue
            fr = N.const(0) if zero and f == 0 else N.app("P:freq", N.const(f))
            r = {"sep_idx": base + step * s, "freq_idx": base + step * f, "spatial_sep": N.app("P:sep", N.const(s)), "frequency": fr}
            for c in "uvw":
                r["coh_" + c] = N.app("P:coh_" + c, N.const(s), N.const(f))
            rs.append(r)
    if order == "reversed":
        rs = rs[::-1]
    elif order == "by frequency":
        rs.sort(key=lambda r: (r["freq_idx"], r["sep_idx"]))
    elif order == "shuffled":
        n = len(rs)
        st = next(s for s in (7, 5, 11, 3) if math.gcd(s, n) == 1)
        rs = [rs[(i * st + 2) % n] for i in range(n)]
    return TableV(["sep_idx", "freq_idx", "spatial_sep", "frequency", "coh_u", "coh_v", "coh_w"], rs)


def tables(chk):
    cases = [
        (5, 2, "sorted", (), 0, 1), (5, 2, "shuffled", (), 1, 1), (4, 3, "by frequency", (), 0, 1), (7, 2, "reversed", (), 10, 5),
        (5, 2, "shuffled", ((1, 1),), 0, 1), (7, 2, "reversed", ((3, 0), (5, 1)), 3, 2), (1, 2, "sorted", (), 0, 1), (3, 2, "shuffled", (), 0, 1),
    ]
    for ns, nf, order, drop, base, step in cases:
        it = chk.interp()
        it.state["table"] = table(ns, nf, order, drop, base, step)
        cp = problem(it, "MANN", prob=dict(num_components=3), integ=dict(coh_num_points=2, coh_log_min=real("cmin"), coh_log_max=N.add(real("cmin"), pos("cspan"))),
                     phys=dict(L=pos("L"), Gamma=pos("G"), sigma=pos("S"), Uref=pos("uref"), wavenumber_conversion_factor=pos("fac")), loss=dict(gamma_coherence=pos("wg")))
        ops = it.getattr(cp, "OPS")
        where = loc(it, it.getattr(cp, "load_coherence_data"))
        what = "%d separations x %d frequencies, %s, missing %s, labels from %d step %d" % (ns, nf, order, list(drop), base, step)
        chk.scen.append(what)
        sel = [int(x) for x in np.linspace(0, ns - 1, 4).astype(int)]
        figure(chk, it, cp, what, ns, nf, drop, where)
        if chk.tier == "quick" and (order == "sorted" or ns == 3 or len(drop) == 2):
            continue
        bad = any(s in sel for s, f in drop)
        k1, dat = k1s(), data3()
        y0 = it.call(ops, [k1])
        seps = tens((4,), lambda i: A.select_list([N.app("P:sep", N.const(s)) for s in sel], i[0]))
        kc = tens((nf - 1,), lambda i: N.div(N.mul(pos("fac"), N.app("P:freq", N.add(i[0], N.const(1)))), pos("uref")))
        m0 = call(it, ops, "SpectralCoherence", kc, seps)
        n0 = len(it.backward_roots)
        r0 = len(it.raises)
        try:
            call(it, cp, "calibrate", Dict({"k1": k1, "ops": dat}), coherence_data_file="some.dat")
        except AbsRaise as e:
            if not (bad and e.exc == "ValueError"):
                chk.violate("coherence data load and train", e.where or where, "%s: %s %s" % (what, e.exc, e.msg))
                continue
        chk.rule("coherence data load and train")["obligations"] += 1
        vals = chk.vals(it, 3 if chk.tier == "quick" else 12)
        if bad:
            conds = [r.cond for r in it.raises[r0:] if r.exc == "ValueError"]
            roots = it.backward_roots[n0:]
            ok = not roots or any(all(v.truth(N.nd(c), {}) for v in vals) for c in conds)
            chk.fact("a missing cell is never trained on as if it were present", ok, where, what)
        else:
            chk.no_failure(it, "coherence data load and train", what, vals, allow=("RuntimeError",))
            roots = it.backward_roots[n0:]
            if not roots:
                chk.violate("coherence data load and train", where, what + ": nothing is differentiated")
                continue

            def f(v):
                Y = rows(v, y0, 3)
                D = np.array([[F(v, dat.get((N.const(i), N.const(r), N.const(r)))) for i in range(NP)] for r in range(3)])
                want = (np.log(np.abs(Y / D)) ** 2).mean()
                mm = tab(v, m0)
                full = np.ones((3, 4, nf))
                full[:, :, 1:] = mm
                dd = np.array([[[F(v, N.app("P:coh_" + c, N.const(s), N.const(q))) for q in range(nf)] for s in sel] for c in "uvw"])
                want += F(v, pos("wg")) * sum(((full[c] - dd[c]) ** 2).mean() for c in range(3)) / 3
                got = F(v, roots[0][0])
                return close(got, want, 1e-6), "%s: loss %.9g, labels paired give %.9g" % (what, got, want)

            chk.holds("coherence loss pairs each label with its own model value", roots[0][2], "", vals, f)


def figure(chk, it, cp, what, ns, nf, drop, where):
    """The loaded table, cell by cell."""
    call(it, cp, "load_coherence_data", "some.dat")
    vals = chk.vals(it, 3)
    chk.no_failure(it, "coherence data load", what, vals)
    if not all(q in cp.attrs for q in ("coherence_u", "coherence_v", "coherence_w", "coherence_frequencies", "coherence_spatial_seps")):
        return  # stored elsewhere: the training loss decides
    u, v_, w_ = (it.getattr(cp, "coherence_" + c) for c in "uvw")
    fr, sp = it.getattr(cp, "coherence_frequencies"), it.getattr(cp, "coherence_spatial_seps")
    for s in range(ns):
        chk.same("separations follow their labels", where, what, vals, it.getitem(sp, s) if hasattr(it, "getitem") else sp.get((N.const(s),)), N.app("P:sep", N.const(s)))
        for q in range(nf):
            for c, arr in zip("uvw", (u, v_, w_)):
                x = arr.get((N.const(s), N.const(q)))
                if (s, q) in drop:
                    chk.holds("a missing cell is not a number", where, what, vals, lambda v, x=x: (math.isnan(F(v, x)), "cell (%d, %d) = %r" % (s, q, F(v, x))))
                else:
                    chk.same("cells follow their labels", where, "%s, %s" % (what, c), vals, x, N.app("P:coh_" + c, N.const(s), N.const(q)))
    for q in range(nf):
        chk.same("frequencies follow their labels", where, what, vals, fr.get((N.const(q),)), N.const(0) if q == 0 else N.app("P:freq", N.const(q)))


def cohplot(chk):
    it = chk.interp()
    ns, nf = 7, 2
    it.state["table"] = table(ns, nf, "shuffled", (), 1, 1)
    cp = problem(it, "MANN", prob=dict(num_components=3), integ=dict(coh_num_points=3, coh_log_min=N.const(-1.0), coh_log_max=N.const(0.5)), phys=dict(L=pos("L"), Gamma=pos("G"), sigma=pos("S"), Uref=pos("uref")), loss=dict(gamma_coherence=pos("wg")))
    ops = it.getattr(cp, "OPS")
    k1, dat = k1s(), data3()
    sel = [int(x) for x in np.linspace(0, ns - 1, 4).astype(int)]
    mine = it.state["table"]
    it.state["table"] = table(4, 3, "sorted")  # another table was loaded before
    call(it, cp, "load_coherence_data", "other.dat")
    it.state["table"] = mine
    call(it, cp, "calibrate", Dict({"k1": k1, "ops": dat}), coherence_data_file="some.dat")
    unk_params(it, ops)  # trained away from the configuration
    m0 = call(it, ops, "SpectralCoherence", tens((nf - 1,), lambda i: N.div(N.mul(N.nd(it.getattr(it.getattr(cp, "phys_params"), "wavenumber_conversion_factor")), N.app("P:freq", N.add(i[0], N.const(1)))), pos("uref"))), tens((4,), lambda i: A.select_list([N.app("P:sep", N.const(s)) for s in sel], i[0])))
    n0 = len(it.calllog)
    call(it, cp, "plot", plot_tau=False)
    where = loc(it, it.getattr(cp, "plot"))
    vals = chk.vals(it, 3)
    lines = [c for c in it.calllog[n0:] if c[0].endswith(DRAW) and label(it, c[2], c[1]) == "Data"]
    chk.fact("twelve coherence panels", len(lines) == 12, where, "%d data lines" % len(lines))
    i = N.sym("i", "idx", N.const(nf))
    for c in lines:
        hit = None
        for s in sel:
            for q in "uvw":
                if all(close(F(v, c[1][1].get((N.const(j),))), F(v, N.app("P:coh_" + q, N.const(s), N.const(j))), 1e-9) for v in vals for j in range(nf)):
                    hit = (s, q)
        chk.fact("a coherence panel shows one separation of one component", hit is not None, c[4], "line on %s" % c[0])
        if hit is None or hit[0] not in sel or "…" in c[0]:
            continue
        panel, i1 = c[0][: c[0].rindex(".")], N.sym("i1", "idx", N.const(nf - 1))
        for nm, a, _, _, w in it.calllog[n0:]:
            if nm == panel + ".set_title" and isinstance(it.resolve(a[0]), str):
                chk.fact("a coherence panel is titled by its component", it.resolve(a[0]).lower().split()[-1].strip("$") == hit[1], w, "%s shows component %s" % (it.resolve(a[0]), hit[1]))
        mine = [d for d in it.calllog[n0:] if d[0] == c[0] and label(it, d[2], d[1]) == "Model"]
        chk.fact("every coherence panel shows the model", len(mine) == 1, c[4], "%d model lines with %s" % (len(mine), hit))
        for d in mine:
            x, y = d[1][0], d[1][1]
            chk.same("coherence is drawn at the frequencies", d[4], "model", vals, x.get((i,)), N.ite(N.cmp("eq", i, N.const(0)), N.const(0), N.app("P:freq", i)))
            chk.same("the model coherence is that of the current parameters", d[4], "%s, separation %d" % (hit[1], hit[0]), vals, y.get((N.add(i1, N.const(1)),)), m0.get((N.const("uvw".index(hit[1])), N.const(sel.index(hit[0])), i1)))
        chk.same("coherence is drawn at the frequencies", c[4], "", vals, c[1][0].get((i,)), N.ite(N.cmp("eq", i, N.const(0)), N.const(0), N.app("P:freq", i)))
    chk.scen.append("coherence figure")


def refused(chk):
    """Without data, or without a directory to save to, plotting is refused."""
    rule = "plotting without data or without a directory is refused"
    for what, kw, data in (("no data", {}, False), ("model values but no data", {"model_vals": tens((6, NP), lambda i: N.app("mv", *i))}, False), ("nowhere to save", {"save": True}, True)):
        it = chk.interp()
        cp = problem(it, "MANN", prob=dict(num_components=3), phys=dict(L=pos("L"), Gamma=pos("G"), sigma=pos("S")))
        where = loc(it, it.getattr(cp, "plot"))
        if data:
            it.set(cp, "data", Dict({"k1": k1s(), "ops": data3()}))
            it.set(cp, "output_directory", None)
        n0, r0 = len(it.calllog), len(it.raises)
        chk.scen.append("plot(): " + what)
        try:
            call(it, cp, "plot", **kw)
        except AbsRaise as e:
            chk.fact(rule, e.exc == "ValueError", e.where or where, "%s: raises %s %s" % (what, e.exc, e.msg))
        else:
            chk.fact(rule, any(r.exc == "ValueError" and N.nd(r.cond) is N.TRUE for r in it.raises[r0:]), where, "%s: is accepted" % what)


def saves(chk):
    """Saving writes each figure that was drawn to its documented name in the requested directory, and only then."""
    rule = "figures are saved under their documented names, and only on request"
    for save, tau, dr, nm in ((True, True, None, "nm"), (True, False, "figs", "nm"), (True, True, "figs", ""), (True, False, None, ""), (False, True, "figs", "nm"), (False, False, None, "")):
        what = "plot(save=%s, plot_tau=%s, save_dir=%r, save_filename=%r)" % (save, tau, dr, nm)
        it = chk.interp()
        cp = problem(it, "MANN", prob=dict(num_components=3), phys=dict(L=pos("L"), Gamma=pos("G"), sigma=pos("S")))
        it.set(cp, "data", Dict({"k1": k1s(), "ops": data3()}))
        it.set(cp, "output_directory", "outdir")
        where = loc(it, it.getattr(cp, "plot"))
        n0, e0 = len(it.calllog), len(it.effects)
        chk.scen.append(what)
        kw = dict(plot_tau=tau, save=save)
        if dr:
            kw["save_dir"] = dr
        if nm:
            kw["save_filename"] = nm
        try:
            call(it, cp, "plot", **kw)
        except AbsRaise as e:
            chk.fact(rule, False, e.where or where, "%s: raises %s %s" % (what, e.exc, e.msg))
            continue
        text = lambda x: str(it.resolve(x)).replace("Path(", "").rstrip(")")
        sv = [c for c in it.calllog[n0:] if c[0].endswith("savefig")]
        if any(N.nd(c[3]) is not N.TRUE for c in sv):
            continue
        at_ = sv[0][4] if sv and len(sv[0]) > 4 else where
        fname = lambda c: text(c[1][0] if c[1] else c[2].get("fname"))
        base = "%s/%s_" % (dr or "outdir", nm or "drdmannturb_final_spectra_fit")
        want = sorted([base + "spectra.png"] + [base + "tau.png"] * tau) if save else []
        names = sorted(fname(c) for c in sv)
        chk.fact(rule, names == want, at_, "%s: saves %s, documented %s" % (what, names, want))
        mk = [e for e in it.effects[e0:] if e[0] == "mkdir"]
        chk.fact(rule, {text(e[1]) for e in mk} == ({dr or "outdir"} if save else set()), mk[0][4] if mk else where, "%s: directories made: %s" % (what, [str(e[1]) for e in mk]))
        if save and tau and len(sv) == 2:
            axes = lambda r: {c[0].rsplit(".", 1)[0] for c in it.calllog[n0:] if c[0].endswith(DRAW) and c[0].startswith(r + ".")}
            by = {"spectra" in fname(c): axes(c[0].rsplit(".", 1)[0]) for c in sv}
            if len(by) == 2 and all(by.values()):
                chk.fact("each file holds its own figure", len(by[True]) >= 3 and len(by[False]) == 1, at_, "%s: the spectra file holds %d panels, the lifetime file %d" % (what, len(by[True]), len(by[False])))


PARTS = [refused, saves, losses, plots, lifetimes, again, tables, cohplot]
