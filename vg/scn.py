"""Scenarios: abstract inputs (symbols, element functions) for the public entry points."""
from . import arr as A, node as N
from .chk import Broken
from .interp import Dict, List, Choice, Obj

FG = "drdmannturb.fluctuation_generation."
SF = "drdmannturb.spectra_fitting."


def pos(n):
    return N.sym(n, "pos")


def real(n):
    return N.sym(n, "real")


def nat(n, lo=1, hi=2):
    return N.sym(n, "nat", (lo, hi))


def c(x):
    return N.const(x)


def load(it, mod):
    return it.load(mod)


def anchor(m, name):
    if name not in m.vars:
        raise Broken("anchor %s not found in %s" % (name, m.name))
    return m.vars[name]


def find(it, name, mods):
    """The public name, wherever the package exports it."""
    for mod in mods:
        try:
            m = it.load(mod)
        except FileNotFoundError:
            continue
        if name in m.vars:
            return m.vars[name]
    raise Broken("anchor %s not found" % name)


def meth(it, o, name):
    return it.getattr(o, name)


def call(it, o, name, *a, **k):
    return it.call(it.getattr(o, name), list(a), k)


def vec(it, items, dtype="f"):
    a = it.lib.np_array(List(list(items)), it)
    a.dtype = dtype
    return a


def tens(shape, f, xdtype="f32", kind="t", dtype="f"):
    a = A.Arr(kind, shape, f, dtype)
    if kind == "t":
        a.xdtype = xdtype
    return a


def at(a, *idx):
    return a.get(tuple(N.nd(i) for i in idx))


# ---------------------------------------------------------------- generation
def covariance(it, kind, ops=None, pre=""):
    L, E, G = pos(pre + "L"), pos(pre + "E0"), pos(pre + "Gamma")
    if kind == "VK":
        m = it.load(FG + "covariance_kernels")
        return it.call(anchor(m, "VonKarmanCovariance"), [], dict(ndim=3, length_scale=L, E0=E))
    if kind == "Mann":
        m = it.load(FG + "covariance_kernels")
        return it.call(anchor(m, "MannCovariance"), [], dict(ndim=3, length_scale=L, E0=E, Gamma=G))
    m = it.load(FG + "nn_covariance")
    return it.call(
        anchor(m, "NNCovariance"), [], dict(ndim=3, length_scale=L, E0=E, Gamma=G, ops=ops, h_ref=pos(pre + "href"))
    )


def axis(name, n, dom="C"):
    """A 1-D frequency array of n unknown (signed, possibly zero) values."""
    return A.Arr("np", (n,), lambda idx: N.app("freq:" + name, idx[0]), "f")


def generator(it, model, blend=3, seed=None, sizes=("g0", "g1", "g2"), levels=None, **kw):
    m = it.load(FG + "fluctuation_field_generator")
    gd = vec(it, [pos(s) for s in sizes])
    levels = levels or [nat("lev%d" % i) for i in range(3)]
    gl = vec(it, levels, "i")
    args = dict(
        friction_velocity=pos("ustar"),
        reference_height=pos("zr"),
        grid_dimensions=gd,
        grid_levels=gl,
        model=model,
        seed=N.sym("seed", "nat", (0, 99)) if seed is None else seed,
        blend_num=blend,
    )
    if model != "DRD":
        args.update(length_scale=pos("L"), time_scale=pos("T"), energy_spectrum_scale=pos("E"))
    args.update(kw)
    o = it.call(anchor(m, "FluctuationFieldGenerator"), [], args)
    return o


def gen(it, o, nb, prof="LOG", **kw):
    a = dict(num_blocks=nb, zref=pos("zref"), uref=pos("uref"), z0=pos("z0"), windprofiletype=prof)
    a.update(kw)
    return it.call(it.getattr(o, "generate"), [], a)


# ---------------------------------------------------------------- fitting
ELTS = ("CONST", "TWOTHIRD", "TAUNET", "MANN", "MANN_APPROX", "CUSTOMMLP")


def new(it, mod, name, **k):
    m = it.load(mod)
    return it.call(anchor(m, name), [], k)


def enum(it, cls, name):
    return it.getattr(anchor(it.load("drdmannturb.enums"), cls), name)


def problem(it, et="MANN", nn=None, prob=None, loss=None, phys=None, integ=None, **kw):
    P = "drdmannturb.parameters"
    nnp = new(it, P, "NNParameters", **dict(dict(nlayers=2, hidden_layer_size=2), **(nn or {})))
    pr = new(it, P, "ProblemParameters", **dict(dict(eddy_lifetime=enum(it, "EddyLifetimeType", et), nepochs=1), **(prob or {})))
    ph = new(it, P, "PhysicalParameters", **dict(dict(L=pos("L"), Gamma=pos("G"), sigma=pos("S")), **(phys or {})))
    lp = new(it, P, "LossParameters", **(loss or {}))
    ip = new(it, P, "IntegrationParameters", **dict(dict(ops_num_points=2), **(integ or {})))
    m = it.load(SF + "calibration")
    return it.call(
        anchor(m, "CalibrationProblem"),
        [],
        dict(nn_params=nnp, prob_params=pr, loss_params=lp, phys_params=ph, integration_params=ip, **kw),
    )


def k1tens(n=3, name="M:k1"):
    return tens((n,), lambda i: N.app(name, *i))


def spectra(it, et="MANN", nn=None, phys=None, integ=None, **kw):
    P = "drdmannturb.parameters"
    nnp = new(it, P, "NNParameters", **dict(dict(nlayers=2, hidden_layer_size=2), **(nn or {})))
    ph = new(it, P, "PhysicalParameters", **dict(dict(L=pos("L"), Gamma=pos("G"), sigma=pos("S")), **(phys or {})))
    ip = new(it, P, "IntegrationParameters", **dict(dict(ops_num_points=2), **(integ or {})))
    m = it.load(SF + "one_point_spectra")
    a = dict(type_eddy_lifetime=enum(it, "EddyLifetimeType", et), physical_params=ph, nn_parameters=nnp, integration_params=ip)
    a.update(kw)
    return it.call(anchor(m, "OnePointSpectra"), [], a)


def lowcfg(square=True, pre=""):
    """Configuration of the 2-D model: symbolic physics, isotropic user grid (or unequal spacing)."""
    f = pos(pre + "L1f")
    return Dict(
        {
            "sigma2": pos(pre + "sigma2"),
            "L_2d": pos(pre + "L2d"),
            "psi": pos(pre + "psi"),
            "z_i": pos(pre + "zi"),
            "L1_factor": f if square else pos(pre + "L1f"),
            "L2_factor": N.mul(f, N.const(2)) if square else pos(pre + "L2f"),
            "exp1": 2,
            "exp2": 3 if square else 2,
        }
    )


def lowgen(it, cfg=None, seed=None):
    m = it.load(FG + "low_frequency.fluctuation_field_generator")
    return it.call(anchor(m, "LowFreqGenerator"), [cfg or lowcfg()], dict(seed=seed) if seed is not None else {})


def drd_file(it, path="outdir", **kw):
    """A trained DRD model saved through the public API; returns the file name."""
    prob = dict(num_components=4, learn_nu=True)
    prob.update(kw.pop("prob", {}))
    cp = problem(it, "TAUNET", prob=prob, **kw)
    k1 = k1tens(3)
    call(it, cp, "calibrate", Dict({"k1": k1, "ops": tens((3, 3, 3), lambda i: N.app("dat", *i))}))
    call(it, cp, "save_model", path)
    fs = it.state["fs"].d
    names = [k for k in fs if str(k).startswith(path)]
    if len(names) != 1:
        raise Broken("save_model wrote %r" % (names,))
    return names[0], cp
