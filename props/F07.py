from vg.arr import AbsRaise
from vg.evalr import Valuation
from .fit import *
from .F01 import TYPES
from .F06 import tab

META = dict(
    title="Training gradients are complete and reach every trainable parameter",
    technique="effect analysis of the autograd graph (detached subgraphs, backward roots, resets) over the value graph; " + GVN,
    level="other",
    floor=60,
    explanation="Detached subgraphs of the model output and of the calibration loss are frozen while the parameters move along unknown directions: the value must move exactly as if nothing were detached, and must "
    "react to every trainable parameter. Each differentiated root is the loss of the current parameters, after a reset of the gradients.",
)
VARIANTS = [("CONST", {}), ("TWOTHIRD", {}), ("MANN", {}), ("MANN_APPROX", {}), ("TAUNET", dict(learn_nu=True)), ("TAUNET", {}), ("TAUNET", dict(learn_nu=True, use_learnable_spectrum=True))]


def perturb(it, o):
    """Every parameter = unknown value + dp_j * unknown direction."""
    ps = unk_params(it, o)
    for j, (_, p) in enumerate(ps):
        p.write(lambda idx, old, j=j: N.add(old, N.mul(N.sym("dp%d" % j), N.app("dir%d" % j, *idx))))
    return ps


def moved(v, n, which, d, frozen=None):
    w = v.fork(dict(v.pinned, **{"dp%d" % j: (d if j in which else 0) for j in range(n)}))
    w.frozen = frozen
    w.exact_dft = v.exact_dft
    return w


D = 0.0625


def complete(chk, it, node, ps, what, where, vals, mann=False):
    """No detached subgraph of node hides a dependence on a parameter, and every parameter matters."""
    n = len(ps)
    lname = [q for q, (nm, _) in enumerate(ps) if nm.endswith("logLengthScale")]

    def full(v, which):
        base = moved(v, n, (), 0)
        base.ev(node)
        a, b = moved(v, n, which, D), moved(v, n, which, D, base)
        x, y, z = F(a, node), F(b, node), F(base, node)
        return x, y, z

    rest = tuple(j for j in range(n) if not (mann and j in lname))

    def f(v):
        x, y, z = full(v, rest)
        return close(x, y, 1e-7, abs(x - z) * 1e-3), "%s: moving the parameters changes it by %.6g, through differentiable operations only by %.6g" % (what, x - z, y - z)

    chk.holds("nothing that depends on a parameter is detached", where, "", vals, f)
    if mann:

        def h(v):
            x, y, z = full(v, tuple(lname))
            return close(x, y, 1e-7, abs(x - z) * 1e-3), "%s: moving log L changes it by %.6g, through differentiable operations only by %.6g" % (what, x - z, y - z)

        chk.holds("the length scale's effect through the closed-form lifetime is differentiated", where, "", vals, h)
    for j, (nm, _) in enumerate(ps):
        chk.rule("every parameter receives a gradient")["obligations"] += 1
        hit = False
        for v in vals:
            x, y, z = full(v, (j,))
            hit = hit or abs(y - z) > 1e-12 * max(1e-30, abs(z))
        if not hit:
            chk.violate("every parameter receives a gradient", where, "%s does not react to %s through differentiable operations" % (what, nm))


def model(chk):
    for et, prob in VARIANTS:
        it = chk.interp()
        kw = dict(prob)
        if kw.get("use_learnable_spectrum"):
            kw.update(p_exponent=pos("p0"), q_exponent=pos("q0"))
        o = spectra(it, et, integ=dict(coh_num_points=2), **kw)
        ps = perturb(it, o)
        k1 = k1tens(1)
        y = it.call(o, [k1])
        where = loc(it, it.getattr(o, "forward"))
        what = "%s %s" % (et, sorted(prob))
        chk.scen.append("forward, " + what)
        vals = chk.vals(it, 2 if chk.tier == "quick" else 8)
        node = N.add(*[N.nd(at(y, q, 0)) for q in range(4)])
        complete(chk, it, node, ps, what, where, vals, et == "MANN")
        # coherence is differentiable too
        c_ = call(it, o, "SpectralCoherence", k1, tens((1,), lambda i: N.const(1)))
        node = N.add(*[N.nd(at(c_, q, 0, 0)) for q in range(3)])
        # the quadrature grid follows 1/L without gradient by design: keep L fixed
        sub = tuple(q for q, (nm, _) in enumerate(ps) if not nm.endswith(("logMagnitude", "logLengthScale")))

        def f(v):
            n = len(ps)
            base = moved(v, n, (), 0)
            base.ev(node)
            x, y_, z = F(moved(v, n, sub, D), node), F(moved(v, n, sub, D, base), node), F(base, node)
            return close(x, y_, 1e-7, abs(x - z) * 1e-3), "%s: coherence changes by %.6g, through differentiable operations by %.6g" % (what, x - z, y_ - z)

        chk.holds("nothing that depends on a parameter is detached", loc(it, it.getattr(o, "SpectralCoherence")), "", vals, f)


def training(chk):
    for et, prob in VARIANTS:
        for opt in ("LBFGS", "Adam") if et == "MANN" or chk.tier == "thorough" else ("LBFGS",):
            it = chk.interp()
            two = et in ("MANN", "CONST") or chk.tier == "thorough"
            pr = dict(prob, nepochs=2 if two else 1, num_components=3)
            if pr.get("use_learnable_spectrum"):
                pr.update(p_exponent=pos("p0"), q_exponent=pos("q0"))
            w = dict(alpha_pen1=pos("wa"), alpha_pen2=pos("wb"), beta_reg=pos("wr"))
            cp = problem(it, et, prob=pr, loss=w, nn=dict(nlayers=1, hidden_layer_size=2))
            ops = it.getattr(cp, "OPS")
            ps = perturb(it, ops)
            leaf = [p.leafname for _, p in ps]
            k1 = k1tens(3)
            dat = tens((3, 3, 3), lambda i: N.app("P:dat", *i))
            y0 = it.call(ops, [k1])
            where = loc(it, it.getattr(cp, "calibrate"))
            cls = _ext("torch.optim." + opt)
            n0, e0 = len(it.backward_roots), len(it.effects)
            call(it, cp, "calibrate", Dict({"k1": k1, "ops": dat}), optimizer_class=cls)
            roots, eff = it.backward_roots[n0:], it.effects[e0:]
            what = "%s %s %s" % (et, sorted(prob), opt)
            chk.scen.append("calibrate, " + what)
            if not roots:
                chk.violate("one differentiated loss per optimiser step", where, what + ": no backward pass")
                continue
            vals = chk.vals(it, 2 if chk.tier == "quick" else 6)
            chk.no_failure(it, "training step is defined", what, vals, allow=("RuntimeError",))
            complete(chk, it, roots[0][0], ps, what + ", loss of the first step", roots[0][2], vals, et == "MANN")
            # it is the documented loss of the current parameters
            net = [p for nm, p in ps if "tauNet" in nm]

            def loss(v):
                b = moved(v, len(ps), (), 0)
                Y = np.array([[F(b, at(y0, q, i)) for i in range(3)] for q in range(3)])
                Dt = np.array([[F(b, at(dat, i, q, q)) for i in range(3)] for q in range(3)])
                x = np.log([F(b, k1.get((N.const(i),))) for i in range(3)])
                s = np.log(np.abs(Y))
                d1 = np.diff(s, axis=1) / np.diff(x)
                d2 = np.diff(d1, axis=1) / np.diff((x[1:] + x[:-1]) / 2)
                want = (np.log(np.abs(Y / Dt)) ** 2).mean() + F(b, pos("wa")) * (np.maximum(d1, 0) ** 2).mean() + F(b, pos("wb")) * (np.maximum(d2, 0) ** 2).mean()
                if et == "TAUNET":
                    # theta: the values of the network at the time of the step
                    t = np.concatenate([tab(b, A.Arr("t", p.shape, rd, "f")).ravel() for p, rd in zip(net, start)])
                    want += F(b, pos("wr")) * (t**2).mean()
                got = F(b, roots[0][0])
                return close(got, want, 1e-6), "%s: %.9g, documented loss of the current parameters %.9g" % (what, got, want)

            start = [(lambda j: lambda idx: N.add(N.app(leaf[j], *idx), N.mul(N.sym("dp%d" % j), N.app("dir%d" % j, *idx))))(j) for j, (nm, _) in enumerate(ps) if "tauNet" in nm]
            chk.holds("each step differentiates the documented loss", roots[0][2], "", vals, loss)
            chk.fact("one differentiated loss per optimiser step", len(roots) >= (2 if two else 1), where, "%s: %d backward passes" % (what, len(roots)))
            if len(roots) > 1:

                def stale(v):
                    a, b = moved(v, len(ps), (), 0), moved(v, len(ps), tuple(range(len(ps))), D)
                    return close(F(a, roots[1][0]), F(b, roots[1][0]), 1e-9), "%s: the second step's loss still depends on the parameters of the first" % what

                chk.holds("later steps use the updated parameters", roots[1][2], "", vals, stale)
            # resets and optimiser arguments
            o_ = [e for e in eff if e[0] == "optimizer"]
            chk.fact("optimiser gets every trainable parameter", len(o_) == 1 and o_[0][2] == len(ps), where, "%s: %s for %d parameters" % (what, [(e[1], e[2]) for e in o_], len(ps)))
            chk.fact("the requested optimiser is used", len(o_) == 1 and o_[0][1] == opt, where, "%s: %s" % (what, [e[1] for e in o_]))
            seq = [e for e in eff if e[0] in ("zero_grad", "step", "backward")]
            ok = bool(seq) and seq[0][0] == "zero_grad" and all(e[1] == 0 for e in seq if e[0] == "backward")
            chk.fact("gradients are reset before each backward pass", ok, where, "%s: %s" % (what, [e[0] for e in seq]))


def _ext(p):
    from vg.ext import EXT

    return EXT[p]


def evalgrad(chk):
    """eval_grad: one entry per parameter, in parameter order, of the summed spectra; no accumulation."""
    for et, prob in VARIANTS:
        it = chk.interp()
        cp = problem(it, et, prob=prob, nn=dict(nlayers=1, hidden_layer_size=2))
        ops = it.getattr(cp, "OPS")
        ps = unk_params(it, ops)
        k1 = k1tens(2)
        where = loc(it, it.getattr(cp, "eval_grad"))
        what = "%s %s" % (et, sorted(prob))
        g1 = call(it, cp, "eval_grad", k1)
        g2 = call(it, cp, "eval_grad", k1)
        y = it.call(ops, [k1])
        vals = chk.vals(it, 3)
        chk.fact("eval_grad returns an array", isinstance(g1, A.Arr) and g1.kind == "np" and g1.ndim == 1, where, repr(g1)[:80])
        root = it.backward_roots[-1][0]
        tot = N.add(*[N.nd(at(y, r_, i)) for r_ in range(6) for i in range(2)])
        chk.same("the differentiated value is the sum of the spectra", where, what, vals, root, tot)
        off = 0
        for nm, p in ps:
            sh = [int(v) for v in p.shape]
            m = int(np.prod(sh)) if sh else 1
            j = N.sym("j" + nm, "idx", N.const(m))
            q, idx = j, []
            for s in reversed(sh):
                idx.insert(0, N.fn("mod", q, N.const(s)))
                q = N.fn("floordiv", q, N.const(s))
            want = N.app("grad:" + p.pname, root, *idx)
            chk.same("entries follow the parameter order", where, "%s, %s" % (what, nm), vals, g1.get((N.add(N.const(off), j),)), want)
            chk.same("gradients do not accumulate", where, "%s, %s" % (what, nm), vals, g2.get((N.add(N.const(off), j),)), want)
            off += m
        chk.same("one entry per trainable value", where, what, vals, N.nd(g1.shape[0]), N.const(off))
        chk.scen.append("eval_grad, " + what)


def cohtraining(chk):
    """With coherence data, the coherence misfit is part of the differentiated loss."""
    from .F10 import table

    for et in ("TWOTHIRD",) if chk.tier == "quick" else ("TWOTHIRD", "CONST", "TAUNET"):
        it = chk.interp()
        it.state["table"] = table(4, 2, "sorted")
        cp = problem(it, et, prob=dict(num_components=3), loss=dict(gamma_coherence=N.mul(pos("wg"), N.const(10**9))), integ=dict(coh_num_points=2, coh_log_min=real("cmin"), coh_log_max=N.add(real("cmin"), pos("cspan"))), nn=dict(nlayers=1, hidden_layer_size=2))
        ops = it.getattr(cp, "OPS")
        ps = perturb(it, ops)
        n0 = len(it.backward_roots)
        call(it, cp, "calibrate", Dict({"k1": k1tens(3), "ops": tens((3, 3, 3), lambda i: N.app("P:dat", *i))}), coherence_data_file="some.dat")
        roots = it.backward_roots[n0:]
        where = loc(it, it.getattr(cp, "calibrate"))
        if not chk.fact("one differentiated loss per optimiser step", bool(roots), where, et + ": no backward pass"):
            continue
        vals = chk.vals(it, 3)
        node = roots[0][0]
        sub = tuple(q for q, (nm, _) in enumerate(ps) if not nm.endswith(("logMagnitude", "logLengthScale")))
        n = len(ps)

        def f(v):
            base = moved(v, n, (), 0)
            base.ev(node)
            x, y_, z = F(moved(v, n, sub, D), node), F(moved(v, n, sub, D, base), node), F(base, node)
            return close(x, y_, 1e-9, abs(x - z) * 1e-3), "%s: the loss changes by %.6g, through differentiable operations by %.6g" % (et, x - z, y_ - z)

        chk.holds("the coherence misfit is differentiated", roots[0][2], "calibrate with coherence data:", vals, f)
        g = lambda v: (lambda a, b: (abs(a - b) > 1e-12, "%s: the loss does not weigh the coherence data" % et))(F(moved(v, n, (), 0), node), F(v.fork(dict(v.pinned, wg=0, **{"dp%d" % j: 0 for j in range(n)})), node))
        chk.holds("the coherence misfit is part of the loss", roots[0][2], "", vals, g)
        chk.scen.append("calibrate with coherence data, " + et)


PARTS = [model, training, cohtraining, evalgrad]
