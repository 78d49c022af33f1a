from vg.arr import AbsRaise
from .fit import *
from .G09 import refused

META = dict(
    title="Parameter vector round-trips and starts with the logarithms of the scales",
    technique=GVN + "; write-effect and exception-path analysis of the parameter setter",
    level="other",
    floor=60,
    explanation="For every lifetime type, with and without learned spectrum exponents and noisy initialisation, the parameter vector is read, replaced by an unknown vector and read again; scales, spectra, reported "
    "parameters and refusals are compared with the layout [log L, log Gamma, log sigma, (p, q), network].",
)
CASES = [
    ("CONST", {}), ("TWOTHIRD", {}), ("MANN", {}), ("MANN_APPROX", {}), ("TAUNET", {}),
    ("TAUNET", dict(learn_nu=True)), ("MANN", dict(use_learnable_spectrum=True)),
    ("TAUNET", dict(learn_nu=True, use_learnable_spectrum=True)), ("TAUNET", dict(init_with_noise=True, noise_magnitude=pos("nm"))),
    ("MANN", dict(init_with_noise=True, noise_magnitude=pos("nm"), use_learnable_spectrum=True)),
]


def size(it, o):
    n = 0
    for _, p in named(it, o):
        n += int(np.prod([int(s) for s in p.shape])) if p.shape else 1
    return n


def mk(chk, et, prob):
    it = chk.interp()
    pr = dict(prob)
    if pr.get("use_learnable_spectrum"):
        pr.update(p_exponent=pos("p0"), q_exponent=pos("q0"))
    return it, problem(it, et, prob=pr)


def layout(chk):
    for et, prob in CASES:
        it, cp = mk(chk, et, prob)
        what = "%s %s" % (et, sorted(prob))
        where = loc(it, it.getattr(cp, "log_dimensional_scales"))
        ops = it.getattr(cp, "OPS")
        vec = it.getattr(cp, "parameters")
        n = size(it, ops)
        vals = chk.vals(it, 5)
        chk.no_failure(it, "construction succeeds", what, vals)
        chk.scen.append(what)
        chk.same("one entry per trainable value", where, what, vals, N.nd(vec.shape[0]), N.const(n))
        for j, s in enumerate(("L", "G", "S")):
            chk.same("entries 0-2 are the natural logarithms of the scales", where, "%s, entry %d" % (what, j), vals, vec.get((N.const(j),)), N.fn("log", pos(s)))
        for j, s in enumerate(it.iterate(call(it, ops, "exp_scales"))):
            chk.same("exp_scales returns the scales", where, "%s, entry %d" % (what, j), vals, s, pos("LGS"[j]))
        if prob.get("use_learnable_spectrum") and not prob.get("init_with_noise"):
            for j, s in ((3, "p0"), (4, "q0")):
                chk.same("entries 3-4 are the spectrum exponents", where, "%s, entry %d" % (what, j), vals, vec.get((N.const(j),)), pos(s))
        if prob.get("init_with_noise") and et == "TAUNET":
            j = N.add(N.const(3), N.sym("nj", "nat", (0, n - 4)))
            chk.holds("noise scales with its magnitude", where, what, vals, lambda v: (abs(F(v, vec.get((j,)))) <= 40 * F(v, pos("nm")), F(v, vec.get((j,)))))
            seen = [F(v, vec.get((N.const(q),))) for v in vals for q in range(3, n)]
            chk.fact("network noise has either sign", min(seen) < 0 < max(seen), where, "%s: %d values between %.3g and %.3g" % (what, len(seen), min(seen), max(seen)))
            w2 = chk.vals(it, 3, pinned={"nm": 0})
            chk.same("no noise left at zero magnitude", where, what, w2, vec.get((j,)), N.ZERO)


def roundtrip(chk):
    for et, prob in CASES:
        for kind in ("np", "t"):
            it, cp = mk(chk, et, prob)
            what = "%s %s from %s" % (et, sorted(prob), kind)
            ops = it.getattr(cp, "OPS")
            n = size(it, ops)
            where = "parameters setter of " + loc(it, it.getattr(cp, "log_dimensional_scales"))
            new_ = A.Arr(kind, (n,), lambda j: N.app("vec", *j), "f")
            if kind == "t":
                new_.xdtype = "f32"
            it.setattr(cp, "parameters", new_)
            back = it.getattr(cp, "parameters")
            j = N.sym("j", "idx", N.const(n))
            vals = chk.vals(it, 6)
            chk.no_failure(it, "setting parameters succeeds", what, vals)
            chk.same("reading back gives what was written", where, what, vals, back.get((j,)), N.app("vec", j))
            chk.same("reading back gives what was written", where, what, vals, N.nd(back.shape[0]), N.const(n))
            for q, s in enumerate(it.iterate(call(it, ops, "exp_scales"))):
                chk.same("scales follow the parameter vector", where, "%s, scale %d" % (what, q), vals, s, N.fn("exp", N.app("vec", N.const(q))))
            # the returned vector is a copy: editing it does not move the model
            it.setitem(back, 0, N.const(7)) if hasattr(it, "setitem") else A.store(back, N.const(7))
            again = it.getattr(cp, "parameters")
            chk.same("the returned vector is a copy", where, what, vals, again.get((j,)), N.app("vec", j))


def transfer(chk):
    """Two problems with the same vector evaluate alike, whatever they were built with."""
    for et, prob in (("MANN", {}), ("TAUNET", dict(learn_nu=True)), ("TAUNET", dict(learn_nu=True, use_learnable_spectrum=True)), ("MANN_APPROX", {}), ("TWOTHIRD", {})):
        it, a = mk(chk, et, prob)
        b = problem(it, et, prob=prob, phys=dict(L=pos("L9"), Gamma=pos("G9"), sigma=pos("S9")))
        for _, p in unk_params(it, it.getattr(a, "OPS")):
            pass
        it.setattr(b, "parameters", it.getattr(a, "parameters"))
        k1 = k1tens(2)
        x, y = call(it, a, "eval", k1), call(it, b, "eval", k1)
        where = loc(it, it.getattr(a, "eval"))
        r_, i = N.sym("r", "idx", N.const(6)), N.sym("i", "idx", N.const(2))
        vals = chk.vals(it, 4)
        chk.no_failure(it, "evaluation is defined", et, vals)
        chk.same("the vector determines the model", where, "%s %s" % (et, sorted(prob)), vals, at(x, r_, i), at(y, r_, i))
        f = it.call(it.getattr(a, "OPS"), [k1])
        chk.same("eval returns the model's spectra as an array", where, et, vals, at(x, r_, i), at(f, r_, i))
        chk.fact("eval returns the model's spectra as an array", x.kind == "np", where, "eval returns a %s" % x.kind)


def lengths(chk):
    for et, prob in (("MANN", {}), ("TAUNET", {}), ("TAUNET", dict(use_learnable_spectrum=True))):
        for d in (-1, 1, 2, -3):
            it, cp = mk(chk, et, prob)
            ops = it.getattr(cp, "OPS")
            n = size(it, ops)
            if n + d < 0:
                continue
            before = it.getattr(cp, "parameters")
            bad = A.Arr("np", (n + d,), lambda j: N.app("vec", *j), "f")
            where = "parameters setter of " + loc(it, it.getattr(cp, "log_dimensional_scales"))
            what = "%s: vector of length %d for %d parameters" % (et, n + d, n)
            if refused(chk, it, "a vector of the wrong length is refused", what, lambda: it.setattr(cp, "parameters", bad), where, ("ValueError",)):
                after = it.getattr(cp, "parameters")
                j = N.sym("j", "idx", N.const(n))
                chk.same("a refused vector changes nothing", where, what, chk.vals(it, 4), after.get((j,)), before.get((j,)))


def reported(chk):
    """calibrate reports exp of the final logarithmic scales and the final exponents."""
    for et, prob in (("MANN", {}), ("TAUNET", dict(learn_nu=True)), ("CONST", dict(use_learnable_spectrum=True)), ("TAUNET", dict(use_learnable_spectrum=True))):
        it, cp = mk(chk, et, dict(prob, num_components=4))
        k1 = k1tens(4)
        res = it.resolve(call(it, cp, "calibrate", Dict({"k1": k1, "ops": tens((4, 3, 3), lambda i: N.app("dat", *i))})))
        where = loc(it, it.getattr(cp, "calibrate"))
        vec = it.getattr(cp, "parameters")
        vals = chk.vals(it, 4)
        what = "%s %s" % (et, sorted(prob))
        want = ["L", "Γ", "σ"] + (["p", "q"] if prob.get("use_learnable_spectrum") else [])
        chk.fact("report names every scale", sorted(res.d) == sorted(want), where, "%s: keys %s" % (what, sorted(res.d)))
        for j, k in enumerate(want):
            x = vec.get((N.const(j),))
            chk.same("report gives the final parameters", where, "%s, %s" % (what, k), vals, res.d[k], N.fn("exp", x) if j < 3 else x)
        if et == "TAUNET":
            net = it.getattr(it.getattr(cp, "OPS"), "tauNet")
            n = size(it, net)
            chk.same("num_trainable_params counts the network", where, what, vals, call(it, cp, "num_trainable_params"), N.const(n))
        cp_print = call(it, cp, "print_calibrated_params")
        chk.scen.append("calibrate %s" % what)


def network(chk):
    """Number and norm of the trainable network parameters, for any architecture."""
    for nn, prob in ((dict(nlayers=1, hidden_layer_size=1), {}), (dict(nlayers=3, hidden_layer_size=2), dict(learn_nu=True)), (dict(nlayers=2, hidden_layer_sizes=List([2, 3])), dict(use_learnable_spectrum=True))):
        it = chk.interp()
        cp = problem(it, "TAUNET", nn=nn, prob=prob)
        ops = it.getattr(cp, "OPS")
        unk_params(it, ops)
        vec = it.getattr(cp, "parameters")
        skip = 5 if prob.get("use_learnable_spectrum") else 3
        n = size(it, it.getattr(ops, "tauNet"))
        what = "%s %s" % (nn, sorted(prob))
        vals = chk.vals(it, 4)
        where = loc(it, it.getattr(cp, "num_trainable_params"))
        chk.same("the reported count is that of the network weights", where, what, vals, call(it, cp, "num_trainable_params"), N.sub(N.nd(vec.shape[0]), N.const(skip)))
        w2 = loc(it, it.getattr(cp, "eval_trainable_norm"))
        for args, f in (((), lambda x: np.sqrt((x**2).sum())), ((1,), lambda x: np.abs(x).sum()), ((2,), lambda x: np.sqrt((x**2).sum()))):
            z = call(it, cp, "eval_trainable_norm", *args)
            z = z.get(()) if isinstance(z, A.Arr) else z

            def g(v):
                x = np.array([F(v, vec.get((N.const(skip + j),))) for j in range(n)])
                return close(F(v, z), f(x), 1e-6), "%s, order %s: %.9g, the weights give %.9g" % (what, args, F(v, z), f(x))

            chk.holds("the reported norm is that of the network weights", w2, "", vals, g)
        chk.scen.append("network report %s" % what)
    for et in ("MANN", "CONST", "TWOTHIRD", "MANN_APPROX"):
        it = chk.interp()
        cp = problem(it, et)
        for nm in ("num_trainable_params", "eval_trainable_norm"):
            refused(chk, it, "a model without a network has no trainable network parameters", "%s of a %s model" % (nm, et), lambda: call(it, cp, nm), loc(it, it.getattr(cp, nm)), ("ValueError",))


PARTS = [network, layout, roundtrip, transfer, lengths, reported]
