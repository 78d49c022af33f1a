from vg.arr import AbsRaise
from .fit import *
from .G09 import refused
from vg import ext
from vg.ext import FileV

META = dict(
    title="A saved calibration reloads to the same model",
    technique=GVN + " across save -> load -> rebuild; write-effect analysis of the files produced",
    level="other",
    floor=60,
    explanation="save_model is interpreted for every lifetime type with unknown fitted parameters; the stored tuple is read back by the documented recipe into a differently initialised problem, whose spectra and "
    "lifetimes are compared with the saved object's. Later changes to the object must not reach the stored copy.",
)
CASES = [
    ("CONST", {}), ("TWOTHIRD", {}), ("MANN", {}), ("MANN_APPROX", {}), ("TAUNET", dict(learn_nu=True)), ("TAUNET", dict(learn_nu=False)),
    ("MANN", dict(use_learnable_spectrum=True)), ("TAUNET", dict(learn_nu=True, use_learnable_spectrum=True)),
]
P = "drdmannturb.parameters"


def written(it):
    fs = it.state.get("fs")
    return {} if fs is None else dict(fs.d)


def _load(it, path):
    from vg.ext import fs_load

    return fs_load(it, path)


def build(it, et, parts):
    nn, pr, lo, ph, _ = parts
    m = it.load(SF + "calibration")
    ip = new(it, P, "IntegrationParameters", ops_num_points=2)
    return it.call(anchor(m, "CalibrationProblem"), [], dict(nn_params=nn, prob_params=pr, loss_params=lo, phys_params=ph, integration_params=ip))


def reload(chk):
    for et, prob in CASES:
        it = chk.interp()
        cp = problem(it, et, prob=prob, nn=dict(nlayers=2, hidden_layer_size=3), loss=dict(alpha_pen1=pos("a1"), beta_reg=pos("be")))
        ops = it.getattr(cp, "OPS")
        unk_params(it, ops)
        where = loc(it, it.getattr(cp, "save_model"))
        what = "%s %s" % (et, sorted(prob))
        chk.scen.append(what)
        before = it.getattr(cp, "parameters")
        call(it, cp, "save_model", "outdir")
        files = written(it)
        chk.fact("exactly one file, in the requested directory", len(files) == 1 and all(str(f).startswith("outdir/") for f in files), where, "%s: %s" % (what, sorted(map(str, files))))
        path = list(files)[0]
        vals = chk.vals(it, 4)
        chk.no_failure(it, "saving succeeds", what, vals)
        k1 = k1tens(2)
        want = call(it, cp, "eval", k1)
        s = [N.sym("q0"), N.sym("q1"), N.sym("q2")]
        kt = tens((1, 3), lambda j: A.select_list(s, j[1]))
        tau = at(call(it, ops, "EddyLifetime", kt), 0)
        after = it.getattr(cp, "parameters")
        n = before.shape[0]
        j = N.sym("j", "idx", N.nd(n))
        chk.same("saving does not change the model", where, what, vals, before.get((j,)), after.get((j,)))
        # the object moves on; the stored copy must not
        unk_params(it, ops)
        parts = it.iterate(_load(it, path))
        chk.fact("five stored parts", len(parts) == 5, where, "%s: %d parts" % (what, len(parts)))
        names = [getattr(getattr(it.resolve(x), "cls", None), "name", None) for x in parts]
        chk.fact("parts in the documented order", names[:4] == ["NNParameters", "ProblemParameters", "LossParameters", "PhysicalParameters"], where, "%s: %s" % (what, names))
        chk.same("stored vector is the state at the time of saving", where, what, vals, it.resolve(parts[4]).get((j,)), before.get((j,)))
        b = build(it, et, parts)
        it.setattr(b, "parameters", parts[4])
        got = call(it, b, "eval", k1)
        r_, i = N.sym("r", "idx", N.const(6)), N.sym("i", "idx", N.const(2))
        vals = chk.vals(it, 4)
        chk.no_failure(it, "reloading succeeds", what, vals)
        chk.same("reloaded model gives the same spectra", where, what, vals, at(want, r_, i), at(got, r_, i))
        tb = at(call(it, it.getattr(b, "OPS"), "EddyLifetime", kt), 0)
        chk.same("reloaded model gives the same lifetime", where, what, vals, tau, tb)
        for nm, val in (("alpha_pen1", pos("a1")), ("beta_reg", pos("be"))):
            chk.same("loss weights are stored", where, what, vals, it.getattr(it.getattr(b, "loss_params"), nm), val)


def places(chk):
    """Where the file goes, and what is refused."""
    it = chk.interp()
    cp = problem(it, "MANN", output_directory="dflt")
    where = loc(it, it.getattr(cp, "save_model"))
    call(it, cp, "save_model")
    f = sorted(map(str, written(it)))
    chk.fact("default is the output directory", len(f) == 1 and f[0].startswith("dflt/"), where, "files %s" % f)
    it = chk.interp()
    for et, prob in (("MANN", {}), ("TAUNET", {}), ("CONST", {}), ("TWOTHIRD", {}), ("MANN_APPROX", {})):
        call(it, problem(it, et, prob=prob), "save_model", "same")
    f = sorted(map(str, written(it)))
    chk.fact("models of different lifetime types get different files", len(f) == 5, where, "files %s" % f)
    # saving again replaces the earlier file
    it = chk.interp()
    cp = problem(it, "MANN")
    call(it, cp, "save_model", "d")
    unk_params(it, it.getattr(cp, "OPS"))
    call(it, cp, "save_model", "d")
    w = written(it)
    j = N.sym("j", "idx", N.const(3))
    chk.fact("saving again replaces the file", len(w) == 1, where, sorted(map(str, w)))
    if len(w) == 1:
        parts = it.iterate(_load(it, list(w)[0]))
        chk.same("saving again stores the current parameters", where, "", chk.vals(it, 4), it.resolve(parts[4]).get((j,)), it.getattr(cp, "parameters").get((j,)))
    it = chk.interp()
    cp = problem(it, "MANN", output_directory=None)
    refused(chk, it, "saving nowhere is refused", "no directory", lambda: call(it, cp, "save_model"), where, ("ValueError",))
    chk.scen.append("file placement")


def trained(chk):
    """save after calibrate stores the trained vector (steps are unknown updates)."""
    it = chk.interp()
    path, cp = drd_file(it)
    parts = it.iterate(_load(it, path))
    v = it.getattr(cp, "parameters")
    j = N.sym("j", "idx", N.nd(v.shape[0]))
    where = loc(it, it.getattr(cp, "save_model"))
    chk.same("stored vector is the trained one", where, "calibrate then save", chk.vals(it, 5), it.resolve(parts[4]).get((j,)), v.get((j,)))
    chk.scen.append("calibrate then save")

    def again(what):
        call(it, cp, "save_model", "elsewhere")
        fs = [x for k, x in written(it).items() if "elsewhere" in str(k)]
        if not chk.fact("saving again writes the file", len(fs) == 1, where, "%s: %s" % (what, sorted(map(str, written(it))))):
            return
        ps = it.iterate(_load(it, next(k for k in written(it) if "elsewhere" in str(k))))
        w, q = it.getattr(cp, "parameters"), it.resolve(ps[4])
        chk.same("stored vector is the current one", where, what, chk.vals(it, 5), q.get((j,)), w.get((j,)))
        chk.scen.append(what)

    n = int(v.shape[0])
    it.setattr(cp, "parameters", A.Arr("np", (n,), lambda i: N.app("later", *i), "f"))
    again("calibrate, assign parameters, save")
    k1 = k1tens(2)
    call(it, cp, "calibrate", Dict({"k1": k1, "ops": tens((2, 3, 3), lambda i: N.app("P:dat2", *i))}))
    again("calibrate, save, calibrate again, save")


def unpickler(chk):
    """CPU_Unpickler.find_class hands back something that can be called or the ordinary class."""
    it = chk.interp()
    m = it.load("drdmannturb.common")
    u = it.call(anchor(m, "CPU_Unpickler"), [FileV("x.pkl", "rb")])
    where = loc(it, it.getattr(u, "find_class"))
    a = call(it, u, "find_class", "torch.storage", "_load_from_bytes")
    b = call(it, u, "find_class", "some.module", "Name")
    chk.fact("tensor storages are redirected to the CPU", a is not None and not isinstance(a, type(b)), where, repr(a))
    chk.fact("other classes are looked up as usual", b is not None and "some.module" in repr(b) + getattr(b, "path", ""), where, repr(b))
    seen = []
    old = ext.EXT["torch.load"]
    ext.EXT["torch.load"] = ext.ExtFn("torch.load", lambda it_, a_, k_: seen.append((a_, k_)))
    try:
        it2 = chk.interp()
        m = it2.load("drdmannturb.common")
        u = it2.call(anchor(m, "CPU_Unpickler"), [ext.FileV("x.pkl", "rb")])
        f = call(it2, u, "find_class", "torch.storage", "_load_from_bytes")
        it2.call(f, ["bytes"])
    finally:
        ext.EXT["torch.load"] = old
    ok = len(seen) == 1 and (seen[0][1].get("map_location") == "cpu" or (len(seen[0][0]) > 1 and seen[0][0][1] == "cpu"))
    chk.fact("storages are loaded with map_location cpu", ok, where, repr(seen)[:200])


PARTS = [reload, places, trained, unpickler]
