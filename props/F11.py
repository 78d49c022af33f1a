import math

from .fit import *
from fractions import Fraction

from vg.interp import Choice
from .F07 import _ext

META = dict(
    title="Training runs the configured schedule and stops on its own criteria",
    technique="typestate/path-condition analysis of the training loop (optimiser steps, differentiated losses, stop and failure exits) over the value graph; " + GVN,
    level="other",
    floor=40,
    explanation="calibrate is interpreted for small epoch bounds with unknown data, tolerance and hyper-parameters; an optimiser step is an unknown update of every parameter and LBFGS evaluates its closure twice. "
    "The path conditions of the steps and of the failure exit are compared with the losses of the epochs.",
)


def run(chk, et, opt, n, tol, extra=None, loss=None):
    it = chk.interp()
    pr = dict(nepochs=n, num_components=3, tol=tol, learning_rate=pos("lr"), wolfe_iter_count=nat("wolfe", 3, 9))
    pr.update(extra or {})
    cp = problem(it, et, prob=pr, nn=dict(nlayers=1, hidden_layer_size=2), **({"loss": loss} if loss else {}))
    unk_params(it, it.getattr(cp, "OPS"))
    k1 = k1tens(2)
    dat = tens((2, 3, 3), lambda i: N.app("P:dat", *i))
    n0, e0, r0 = len(it.backward_roots), len(it.effects), len(it.raises)
    res = it.resolve(call(it, cp, "calibrate", Dict({"k1": k1, "ops": dat}), optimizer_class=_ext("torch.optim." + opt)))
    return it, cp, res, it.backward_roots[n0:], it.effects[e0:], it.raises[r0:]


def on(v, c_):
    return bool(v.truth(N.nd(c_), {}))


def annealed(v, i, n):
    """The rate of step i (from 0) of n: half a cosine from the configured rate."""
    return F(v, pos("lr")) * (1 + math.cos(math.pi * i / n)) / 2


def schedule(chk):
    for et, opt, n, loss in (("TWOTHIRD", "LBFGS", 3, dict(alpha_pen1=50)), ("TWOTHIRD", "Adam", 3, None), ("CONST", "LBFGS", 1, None), ("TAUNET", "Adam", 2, dict(beta_reg=50))) + (
            (("MANN", "LBFGS", 3, None), ("MANN_APPROX", "Adam", 4, dict(alpha_pen1=20)), ("TAUNET", "LBFGS", 2, dict(beta_reg=20))) if chk.tier == "thorough" else ()):
        # losses of the trial sizes are O(1): the tolerance straddles them
        it, cp, res, roots, eff, raises = run(chk, et, opt, n, pos("tol"), loss=loss)
        where = loc(it, it.getattr(cp, "calibrate"))
        what = "%s %s, %d epochs" % (et, opt, n) + "".join(", %s=%s" % q for q in (loss or {}).items())
        chk.scen.append(what)
        steps = [e for e in eff if e[0] == "step"]
        opts = [e for e in eff if e[0] == "optimizer"]
        per = 2 if opt == "LBFGS" else 1
        chk.fact("never more than the configured number of epochs", len(steps) <= n, where, "%s: %d optimiser steps" % (what, len(steps)))
        chk.fact("one loss per closure evaluation", len(roots) == per * len(steps), where, "%s: %d differentiated losses for %d steps" % (what, len(roots), len(steps)))
        if len(roots) != per * len(steps) or not steps:
            continue
        last = [roots[per * (e + 1) - 1][0] for e in range(len(steps))]
        k = 24 if chk.tier == "quick" else 80
        vals = chk.vals(it, k // 3)
        seen = set()

        def tolv(v):
            """Tolerances around the losses of this valuation."""
            out = [v]
            try:
                ls = [F(v, x) for x in last]
            except Reject:
                return out
            for x in ls:
                for f in (0.5, 0.98, 1.5):
                    out.append(v.fork(dict(v.pinned, tol=abs(x) * f)))
            return out

        for v0 in list(vals):
            for v in tolv(v0):
                r = chk.rule("stops after the first epoch below the tolerance")
                r["obligations"] += 1
                try:
                    t = F(v, pos("tol"))
                    done = [on(v, e[3]) for e in steps]
                    want = []
                    alive = True
                    for e in range(n):
                        want.append(alive)
                        if e < len(last) and alive and F(v, last[e]) < t:
                            alive = False
                except Reject:
                    continue
                r["evaluations"] += 1
                done += [False] * (n - len(done))
                seen.add(tuple(done))
                if done != want:
                    chk.violate("stops after the first epoch below the tolerance", where, "%s: with losses %s and tolerance %.4g the epochs run are %s, expected %s" % (what, ["%.4g" % F(v, x) for x in last], t, [i + 1 for i, d in enumerate(done) if d], [i + 1 for i, d in enumerate(want) if d]))
                    break
            else:
                continue
            break
        if n > 1 and len(seen) < 2:
            raise Broken("the tolerance never decides the number of epochs (%s)" % what)
        # the optimiser is the configured one
        for e in opts:
            kw = e[5] if len(e) > 5 else {}
            if "lr" not in kw:
                chk.violate("the configured learning rate is used", where, what + ": no learning rate given to the optimiser")
            else:
                chk.same("the configured learning rate is used", where, what, vals[:4], kw["lr"], pos("lr"))
            if opt == "LBFGS":
                chk.same("the configured number of Wolfe iterations is used", where, what, vals[:4], kw.get("max_iter", N.const(20)), nat("wolfe", 3, 9))
                chk.fact("LBFGS searches with the strong Wolfe conditions", kw.get("line_search_fn") == "strong_wolfe", where, "%s: %r" % (what, kw.get("line_search_fn")))
        for i_, e in enumerate(steps):
            for lr in e[5] or ():
                chk.holds("the learning rate follows the cosine schedule", where, "%s, step %d:" % (what, i_ + 1), vals[:6], lambda v: (not on(v, e[3]) or close(F(v, lr), annealed(v, i_, n), 1e-6), "rate %.6g, the schedule gives %.6g" % (F(v, lr), annealed(v, i_, n))))
        # the learning-rate schedule advances once per step, after it
        sch = [e for e in eff if e[0] in ("step", "sched_step")]
        if any(e[0] == "sched_step" for e in sch):
            seq = [e[0] for e in sch]
            ok = seq == ["step", "sched_step"] * len(steps)
            chk.fact("the schedule advances once per epoch, after the step", ok, where, "%s: %s" % (what, seq))
        else:
            chk.violate("the schedule advances once per epoch, after the step", where, what + ": the schedule never advances")
        # result = final parameters
        p = it.getattr(cp, "parameters")
        for j, nm in enumerate(("L", "Γ", "σ")):
            chk.same("the reported scales are those of the final parameters", where, "%s %s" % (what, nm), vals[:6], it.resolve(res.d[nm]) if isinstance(res, Dict) else N.ZERO, N.fn("exp", p.get((N.const(j),))))


def nonfinite(chk):
    """An infinite loss (spectrum data with a zero) ends in the refusal after its epoch."""
    for et, opt in (("TWOTHIRD", "LBFGS"), ("CONST", "Adam")):
        it, cp, res, roots, eff, raises = run(chk, et, opt, 2, pos("tol"))
        where = loc(it, it.getattr(cp, "calibrate"))
        what = "%s %s" % (et, opt)
        chk.scen.append("loss not finite, " + what)
        per = 2 if opt == "LBFGS" else 1
        steps = [e for e in eff if e[0] == "step"]
        rs = [r for r in raises if r.exc == "RuntimeError"]
        last = [roots[per * (e + 1) - 1][0] for e in range(len(steps))]
        vals = chk.vals(it, 6)

        def f(v, k):
            """losses up to k finite, loss k infinite: RuntimeError and no further epoch."""
            w = v.fork(v.pinned)
            w.memo[(last[k].id,)] = float("inf")
            if k:
                w.memo.update({(last[j].id,): 1e6 for j in range(k)})
            bad = any(on(w, r.cond) for r in rs)
            more = any(on(w, e[3]) for e in steps[k + 1:])
            return bad and not more, "%s: epoch %d ends with an infinite loss: %s" % (what, k + 1, "the next epoch runs" if more else "no error")

        def g(v):
            w = v.fork(v.pinned)
            w.memo.update({(x.id,): 1e6 for x in last})
            bad = [r.msg for r in rs if on(w, r.cond)]
            return not bad, "%s: finite losses are refused (%s)" % (what, bad[:1])

        for k in range(len(last)):
            chk.holds("a loss that is not finite is refused", where, "", vals, lambda v: f(v, k))
        chk.holds("finite losses are accepted", where, "", vals, g)


HISTORIES = (
    # (mse, coherence, pen1, pen2, regularization, total) per evaluation, meant to reach each decision
    ("constant", lambda r: [[1.0, 0.5, 0.1, 0.1, 0.01]] * 4),
    ("falling steadily, balanced", lambda r: [[x] * 5 for x in (0.5, 0.45, 0.3, 0.2)]),
    ("falling steeply", lambda r: [[x] * 5 for x in (900.0, 50.0, 3.0, 0.2)]),
    ("one dominant term", lambda r: [[x, 1e-6, 1e-6, 1e-6, 1e-6] for x in (0.5, 0.45, 0.3, 0.2)]),
    ("one term absent", lambda r: [[x, 0.0, 0.0, 0.0, 0.0] for x in (0.5, 0.45, 0.3, 0.2)]),
    ("rising", lambda r: [[x] * 5 for x in (0.2, 0.4, 0.8, 1.6)]),
    ("falling from far", lambda r: [[x] * 5 for x in (8.0, 7.0, 3.0, 1.0)]),
) + tuple(("random %d" % i, lambda r: (lambda s: [[s * r.lognormvariate(0, 1) * q for q in t] for t in [[r.lognormvariate(0, 4) for _ in range(5)]] for _ in range(4)])(r.lognormvariate(0, 3))) for i in range(24))


def rates(chk):
    """The stagnation heuristics never raise the learning rate."""
    import random

    P = "drdmannturb.parameters"
    n = 4
    hit = set()
    for name, gen in HISTORIES[: 19 if chk.tier == "quick" else None]:
        r_ = random.Random(chk.seed * 977 + sum(map(ord, name)))
        rows = gen(r_)
        it = chk.interp()
        m = it.load(SF + "loss_functions")
        o = it.call(anchor(m, "LossAggregator"), [], dict(params=new(it, P, "LossParameters"), k1space=k1tens(3), zref=pos("zref")))
        d = it.getattr(o, "component_losses")
        keys = ("mse", "coherence", "pen1", "pen2", "regularization")
        for key in list(d.d):
            xs = [sum(row) if key == "total" else row[keys.index(key)] for row in rows] if key == "total" or key in keys else [1.0] * n
            d.d[key] = List([N.const(Fraction(x)) for x in xs])
        where = loc(it, it.getattr(o, "should_adjust_learning_rate"))
        r = it.resolve(call(it, o, "should_adjust_learning_rate", N.const(n), window=n))
        vals = chk.vals(it, 1)
        chk.no_failure(it, "the heuristics accept any recorded history", name, vals)
        for c_, a in flat(it, r, N.TRUE):
            if not isinstance(a, Dict):
                raise Broken("unexpected result of the learning-rate heuristics: %r" % (a,))
            fac = a.d.get("factor", N.const(Fraction(1, 2)))
            adj = a.d.get("adjust", False)

            def g(v):
                if not on(v, c_):
                    return True
                if adj is False or (isinstance(adj, N.Node) and not on(v, adj)):
                    hit.add(None)
                    return True
                hit.add(F(v, fac))
                return 0 < F(v, fac) <= 1, "factor %.4g" % F(v, fac)

            chk.holds("an adjustment only lowers the learning rate", where, name, vals, g)
    chk.scen.append("learning-rate heuristics on %d histories, %d distinct decisions" % (len(HISTORIES), len(hit)))


def flat(it, x, c_):
    x = x if isinstance(x, (Dict, Choice)) else it.resolve(x)
    if isinstance(x, Choice):
        return flat(it, x.a, N.and_(c_, x.cond)) + flat(it, x.b, N.and_(c_, N.not_(x.cond)))
    return [(c_, x)]


def adjusted(chk):
    """The learning rate after the first decision of a long run."""
    n = 52
    it, cp, res, roots, eff, raises = run(chk, "CONST", "Adam", n, N.const(0))
    where = loc(it, it.getattr(cp, "calibrate"))
    what = "CONST Adam, %d epochs" % n
    chk.scen.append(what + ", no tolerance")
    steps = [e for e in eff if e[0] == "step"]
    opts = [e for e in eff if e[0] == "optimizer"]
    if not steps or not opts:
        raise Broken("no optimiser step in " + what)
    vals = chk.vals(it, 8 if chk.tier == "quick" else 24)
    chk.no_failure(it, "a long run is defined", what, vals)
    lrs = steps[-1][5] or []
    # the decision was taken on the initial record and those of the first 50 epochs
    agg = it.getattr(cp, "LossAggregator")
    d = it.getattr(agg, "component_losses")
    for k in list(d.d):
        xs = it.resolve(d.d[k])
        d.d[k] = List(list(xs.items)[:51])
    d = it.resolve(call(it, agg, "should_adjust_learning_rate", N.const(50)))
    cases = flat(it, d, N.TRUE)
    if len(steps) != n or not lrs:
        raise Broken("%d optimiser steps in %s" % (len(steps), what))

    def g(v, lr):
        got = F(v, lr) / annealed(v, n - 1, n)
        for c_, a in cases:
            if on(v, c_):
                adj = a.d.get("adjust", False)
                adj = on(v, adj) if isinstance(adj, N.Node) else adj
                want = F(v, a.d.get("factor", N.const(Fraction(1, 2)))) if adj else 1.0
                return abs(got - want) <= 1e-6 * want, "rate times %.6g, the decision says %.6g" % (got, want)
        return True

    for lr in lrs:
        chk.holds("an adjustment only lowers the learning rate", where, what, vals, lambda v: (0 < F(v, lr) <= F(v, pos("lr")) * (1 + 1e-9), "rate %.4g after %.4g" % (F(v, lr), F(v, pos("lr")))))
        chk.holds("the rate follows the decision on the recorded losses", where, what, vals, lambda v: g(v, lr))


PARTS = [schedule, nonfinite, rates, adjusted]
