from vg.arr import AbsRaise
from .fit import *
from .F01 import TYPES
from .G09 import snap

META = dict(
    title="Evaluating a model depends only on its parameters and the given wavenumbers",
    technique=GVN + "; write-effect analysis of caller-visible tensors; call histories compared on value numbers",
    level="other",
    floor=60,
    explanation="Spectra, lifetimes and coherence are requested after different histories of calls and parameter changes, on shared and separate objects; the value numbers must equal those of a fresh object with "
    "the same parameters, and no caller-owned tensor, dictionary or parameter may change.",
)


def mk(it, et, **kw):
    return spectra(it, et, integ=dict(coh_num_points=2), nn=dict(nlayers=1, hidden_layer_size=2), **kw)


def share(it, a, b):
    """b gets the parameter values a has now."""
    for (_, p), (_, q) in zip(named(it, a), named(it, b)):
        q.write((lambda rd: lambda idx, old: rd(idx))(p.reader()))


def same_all(chk, rule, where, what, vals, a, b, ntot=3):
    for a_, (x, y) in enumerate(zip(a.shape, b.shape)):
        chk.same(rule, where, what + ", shape", vals, N.nd(x), N.nd(y))
    idx = tuple(N.sym("z%d" % q, "idx", N.nd(s)) for q, s in enumerate(a.shape))
    chk.same(rule, where, what, vals, a.get(idx), b.get(idx))


def histories(chk):
    for et in TYPES:
        for learn in (False, True) if et in ("MANN", "TAUNET") else (False,):
            it = chk.interp()
            kw = dict(use_learnable_spectrum=True, p_exponent=pos("p"), q_exponent=pos("q")) if learn else {}
            a = mk(it, et, learn_nu=True, **kw)
            b = mk(it, et, learn_nu=True, **kw)
            wf, we, wc = (loc(it, it.getattr(a, n)) for n in ("forward", "EddyLifetime", "SpectralCoherence"))
            unk_params(it, a)
            ka, kb = k1tens(2, "M:ka"), k1tens(3, "M:kb")
            kt = tens((2, 3), lambda j: N.app("kq", *j))
            sep = tens((1,), lambda j: N.sym("sep"))
            for x, nm in ((ka, "ka"), (kb, "kb"), (kt, "kq")):
                x.get(tuple(N.ZERO for _ in x.shape))
            keep = [(x, snap(x)) for x in (ka, kb, kt, sep)]
            # a busy history on a
            it.call(a, [kb])
            call(it, a, "SpectralCoherence", kb, sep)
            call(it, a, "EddyLifetime", kt)
            old = [(p, snap(p)) for _, p in named(it, a)]
            y1 = it.call(a, [ka])
            # parameters move, everything must follow
            unk_params(it, a)
            share(it, a, b)
            t2 = call(it, a, "EddyLifetime", kt)
            c2 = call(it, a, "SpectralCoherence", ka, sep)
            s2 = [N.nd(x) for x in it.iterate(call(it, a, "exp_scales"))]
            y2 = it.call(a, [ka])
            # fresh object, other order
            cf = call(it, b, "SpectralCoherence", ka, sep)
            yf = it.call(b, [ka])
            tf = call(it, b, "EddyLifetime", kt)
            vals = chk.vals(it, 3 if chk.tier == "quick" else 10)
            what = "%s%s" % (et, " learned spectrum" if learn else "")
            chk.scen.append(what)
            chk.no_failure(it, "evaluation is defined", what, vals)
            same_all(chk, "spectra depend on parameters and wavenumbers only", wf, what, vals, y2, yf)
            same_all(chk, "lifetimes depend on parameters and wavevectors only", we, what, vals, t2, tf)
            same_all(chk, "coherence depends on parameters and arguments only", wc, what, vals, c2, cf)
            for j, x in enumerate(s2):
                chk.same("scales are those of the current parameters", wf, "%s, scale %d" % (what, j), vals, x, N.fn("exp", N.nd(named(it, a)[j][1].get(()))))
            # lifetime without argument refers to the grid of the last spectra
            t0 = call(it, a, "EddyLifetime")
            tg = it.getattr(a, "k") if "k" in a.attrs else None
            if tg is not None and isinstance(t0, A.Arr):
                same_all(chk, "the default wavevectors are those of the last spectra", we, what, vals, t0, call(it, a, "EddyLifetime", tg))
            for x, s in keep:
                same_all(chk, "callers' tensors are left alone", wf, what, vals, x, s)
            # evaluation leaves the parameters alone
            p0 = [(p, snap(p)) for _, p in named(it, b)]
            it.call(b, [kb])
            call(it, b, "SpectralCoherence", kb, sep)
            call(it, b, "EddyLifetime", kt)
            for p, s in p0:
                same_all(chk, "evaluation does not move the parameters", wf, what, vals, p, s)


def returned(chk):
    """Results handed out earlier are not overwritten by later calls."""
    for et in ("MANN", "TAUNET"):
        it = chk.interp()
        a = mk(it, et, learn_nu=True)
        unk_params(it, a)
        ka = k1tens(2, "M:ka")
        kt = tens((2, 3), lambda j: N.app("kq", *j))
        sep = tens((1,), lambda j: N.sym("sep"))
        out = [it.call(a, [ka]), call(it, a, "EddyLifetime", kt), call(it, a, "SpectralCoherence", ka, sep)]
        s = [snap(x) for x in out]
        unk_params(it, a)
        kb = k1tens(2, "M:kb")
        it.call(a, [kb])
        call(it, a, "EddyLifetime", tens((2, 3), lambda j: N.app("kr", *j)))
        call(it, a, "SpectralCoherence", kb, sep)
        vals = chk.vals(it, 3)
        for x, y, nm in zip(out, s, ("forward", "EddyLifetime", "SpectralCoherence")):
            same_all(chk, "results handed out earlier stay as they were", loc(it, it.getattr(a, nm)), et, vals, x, y)
    chk.scen.append("results across later calls")


def separate(chk):
    """Two models share nothing: default arguments, module state, random draws."""
    for et in ("MANN_APPROX", "TAUNET", "MANN"):
        it = chk.interp()
        P = "drdmannturb.parameters"
        m = it.load(SF + "one_point_spectra")

        def one(L):
            ph = new(it, P, "PhysicalParameters", L=pos(L), Gamma=pos("G" + L), sigma=pos("S" + L))
            return it.call(anchor(m, "OnePointSpectra"), [], dict(type_eddy_lifetime=enum(it, "EddyLifetimeType", et), physical_params=ph, nn_parameters=new(it, P, "NNParameters", nlayers=1, hidden_layer_size=2), integration_params=new(it, P, "IntegrationParameters", ops_num_points=2, coh_num_points=2)))

        a = one("La")
        ps = [(p, snap(p)) for _, p in named(it, a)]
        kt = tens((2, 3), lambda j: N.app("kq", *j))
        ta = call(it, a, "EddyLifetime", kt)
        b = one("Lb")
        call(it, b, "EddyLifetime", kt)
        it.call(b, [k1tens(2)])
        unk_params(it, b)
        vals = chk.vals(it, 3)
        where = loc(it, it.getattr(a, "forward"))
        for p, s in ps:
            same_all(chk, "models do not share parameters", where, et, vals, p, s)
        same_all(chk, "models do not share lifetimes", where, et, vals, ta, call(it, a, "EddyLifetime", kt))
    chk.scen.append("two models side by side")


def problems(chk):
    """CalibrationProblem: data and earlier calibrations leave no trace in later results."""
    for et, prob in (("MANN", {}), ("TAUNET", dict(learn_nu=True))):
        it = chk.interp()
        cp = problem(it, et, prob=prob, nn=dict(nlayers=1, hidden_layer_size=2), loss=dict(alpha_pen1=pos("w1")))
        where = loc(it, it.getattr(cp, "calibrate"))
        ops = it.getattr(cp, "OPS")
        k1, dat = k1tens(3), tens((3, 3, 3), lambda i: N.app("P:dat", *i))
        d = Dict({"k1": k1, "ops": dat})
        s1, s2 = snap(k1), snap(dat)
        call(it, cp, "calibrate", d)
        vals = chk.vals(it, 3)
        same_all(chk, "data handed to calibrate is left alone", where, et + " wavenumbers", vals, k1, s1)
        same_all(chk, "data handed to calibrate is left alone", where, et + " spectra", vals, dat, s2)
        chk.fact("data handed to calibrate is left alone", sorted(d.d) == ["k1", "ops"] and d.d["k1"] is k1 and d.d["ops"] is dat, where, "keys %s" % sorted(d.d))
        # a second calibration on other data from the same start = a calibration of a fresh problem
        unk_params(it, ops)
        cq = problem(it, et, prob=prob, nn=dict(nlayers=1, hidden_layer_size=2), loss=dict(alpha_pen1=pos("w1")))
        share(it, ops, it.getattr(cq, "OPS"))
        k2, dat2 = k1tens(3, "M:kc"), tens((3, 3, 3), lambda i: N.app("P:dat2", *i))
        n0 = len(it.backward_roots)
        call(it, cp, "calibrate", Dict({"k1": k2, "ops": dat2}))
        n1 = len(it.backward_roots)
        call(it, cq, "calibrate", Dict({"k1": k2, "ops": dat2}))
        r = it.backward_roots
        vals = chk.vals(it, 3)
        if n1 == n0 or len(r) == n1:
            raise Broken("no training step was interpreted")
        chk.same("a second calibration starts afresh", r[n0][2], et, vals, r[n0][0], r[n1][0])
        # eval and eval_grad do not move parameters
        p0 = [(p, snap(p)) for _, p in named(it, ops)]
        call(it, cp, "eval", k1)
        g1 = call(it, cp, "eval_grad", k1)
        call(it, cp, "eval_grad", k2)
        g2 = call(it, cp, "eval_grad", k1)
        same_all(chk, "gradients do not depend on earlier evaluations", where, et, vals, g2, g1)
        for p, s in p0:
            same_all(chk, "evaluation does not move the parameters", where, et, vals, p, s)
        same_all(chk, "callers' tensors are left alone", where, et, vals, k1, s1)
        chk.scen.append("two calibrations, " + et)


def assigned(chk):
    """A parameter vector given to two problems: each keeps its own copy, and the caller keeps the vector."""
    for et, prob in (("MANN", {}), ("TAUNET", dict(learn_nu=True))):
        it = chk.interp()
        kw = dict(prob=prob, nn=dict(nlayers=1, hidden_layer_size=2), integ=dict(ops_num_points=2))
        a, b = problem(it, et, **kw), problem(it, et, **kw)
        n = sum(x if isinstance(x, int) else 0 for x in [A.prod_dims(p.shape) for _, p in named(it, it.getattr(a, "OPS"))])
        vec_ = tens((n,), lambda i: N.app("theta", *i))
        vec_.get((N.ZERO,))
        s0 = snap(vec_)
        where = loc(it, b.cls.lookup("calibrate")[0])
        it.setattr(a, "parameters", vec_)
        it.setattr(b, "parameters", vec_)
        k1 = k1tens(2)
        y0 = it.call(it.getattr(b, "OPS"), [k1])
        s1 = snap(y0)
        call(it, a, "calibrate", Dict({"k1": k1, "ops": tens((2, 3, 3), lambda i: N.app("P:dat", *i))}))
        unk_params(it, it.getattr(a, "OPS"))
        y1 = it.call(it.getattr(b, "OPS"), [k1])
        vals = chk.vals(it, 3)
        same_all(chk, "training one problem leaves another alone", where, et, vals, y1, s1)
        same_all(chk, "callers' tensors are left alone", where, et + ", assigned parameter vector", vals, vec_, s0)
        chk.scen.append("one vector assigned to two problems, " + et)


PARTS = [histories, returned, separate, problems, assigned]
