import random
from fractions import Fraction

from .F06 import W, agg, cohdata, oracle, tab, y_of
from .F11 import HISTORIES, flat, on
from vg.ext_np import EXT
from vg.interp import Class, ExtFn, Obj, Opaque
from .fit import *

META = dict(
    title="Training logs and diagnostics report the recorded losses",
    technique="argument tracing to the external log writer and concrete-history evaluation of the diagnostics over the value graph; " + GVN,
    level="other",
    floor=60,
    explanation="LossAggregator.eval is interpreted for several evaluations on unknown data: every scalar handed to the log writer is compared with the term it names, the running averages with the moving average of the terms. "
    "The diagnostics and the learning-rate decision are interpreted on recorded histories and compared with the statistics of the last records.",
)
TERMS = ("mse", "coherence", "pen1", "pen2", "regularization")
TAGS = {"MSE Loss": "mse", "1st Order Penalty": "pen1", "2nd Order Penalty": "pen2", "Regularization": "regularization", "Coherence Loss/Total": "coherence"}


def scalars(it, n0):
    """(tag, value, step, path condition) of every scalar handed to the log writer."""
    out = []
    for c_ in it.calllog[n0:]:
        if c_[0].split(".")[-1] != "add_scalar":
            continue
        a, k = list(c_[1]), dict(c_[2])
        tag, val, step = [a[i] if i < len(a) else k.get(n) for i, n in enumerate(("tag", "scalar_value", "global_step"))]
        val = it.resolve(val)
        out.append((it.resolve(tag), val.get(()) if isinstance(val, A.Arr) else val, it.resolve(step), c_[3]))
    return out


def logs(chk):
    """Every logged scalar is the term named by its tag, at its epoch; averages and shares follow."""
    for weights in (list(W), ["alpha_pen1", "gamma_coherence"], ["alpha_pen2", "beta_reg"]):
        it = chk.interp()
        w = {n: W[n] for n in weights}
        g, k1 = agg(it, w)
        where = loc(it, it.getattr(g, "eval"))
        th = tens((nat("nt", 1, 3),), lambda i: N.app("th", *i))
        d = y_of("d")
        coh = cohdata()
        hist = []
        vals = chk.vals(it, 4 if chk.tier == "quick" else 12)
        n_ep = 3 if chk.tier == "quick" else 5
        for e in range(n_ep):
            y = y_of("y%d" % (e if e < 2 else e - 1))
            n0 = len(it.calllog)
            call(it, g, "eval", y, d, th, e, coherence_data=Dict(coh))
            hist.append(y)
            what = "weights %s, evaluation %d" % ("+".join(weights), e + 1)
            chk.scen.append(what)
            got = scalars(it, n0)
            comps = it.resolve(it.getattr(g, "component_losses"))
            avgs = it.resolve(it.getattr(g, "running_averages"))

            def expect(v):
                return [oracle(v, w, k1, q, d, th, coh) for q in hist]

            def ema(v, nm):
                os = expect(v)
                x = os[0][nm]
                for o in os[1:]:
                    x = 0.9 * x + 0.1 * o[nm]
                return x

            for nm in TERMS:
                chk.holds("running averages are the moving averages of the terms", where, "%s, %s:" % (what, nm), vals,
                          lambda v: (close(F(v, avgs.d[nm]), ema(v, nm), 1e-6), "%.9g, the terms give %.9g" % (F(v, avgs.d[nm]), ema(v, nm))))

            def sent(v):
                """tag -> values logged in this evaluation"""
                r = {}
                for tag, x, step, c_ in got:
                    if not isinstance(tag, str):
                        raise Broken("log tag that is not a string")
                    if on(v, c_):
                        r.setdefault(tag, []).append((F(v, x), F(v, step)))
                return r

            def f(v):
                s, o = sent(v), expect(v)[-1]
                for tag, nm in TAGS.items():
                    key = {"pen1": "alpha_pen1", "pen2": "alpha_pen2", "regularization": "beta_reg", "coherence": "gamma_coherence"}.get(nm)
                    if key and key not in w:
                        if any(abs(x) > 0 for x, _ in s.get(tag, ())):
                            return False, "%s: %s is switched off and logged as %r" % (what, tag, s[tag])
                        continue
                    if len(s.get(tag, ())) != 1:
                        return False, "%s: %s is logged %d times" % (what, tag, len(s.get(tag, ())))
                    x, ep = s[tag][0]
                    if not close(x, o[nm], 1e-6) or ep != e:
                        return False, "%s: %s is logged as %.9g at epoch %d; the term is %.9g at epoch %d" % (what, tag, x, ep, o[nm], e)
                return True

            def comp(v):
                s = sent(v)
                if "gamma_coherence" not in w:
                    return True
                for c_ in "uvw":
                    tag = "Coherence Loss/%s-component" % c_.upper()
                    if len(s.get(tag, ())) != 1:
                        return False, "%s: %s is logged %d times" % (what, tag, len(s.get(tag, ())))
                    want = ((tab(v, coh["model_" + c_]) - tab(v, coh["data_" + c_])) ** 2).mean()
                    x, ep = s[tag][0]
                    if not close(x, want, 1e-6) or ep != e:
                        return False, "%s: %s is logged as %.9g at epoch %d; the misfit is %.9g" % (what, tag, x, ep, want)
                return True

            def shares(v):
                s = {t: q for t, q in sent(v).items() if t.startswith("Component_Ratios/")}
                if e == 0:
                    return True
                tot = sum(ema(v, n) for n in TERMS)
                want = {"MSE": ema(v, "mse"), "Coherence": ema(v, "coherence"), "Penalties": ema(v, "pen1") + ema(v, "pen2"), "Regularization": ema(v, "regularization")}
                for t, x in want.items():
                    q = s.get("Component_Ratios/" + t, ())
                    if len(q) != 1 or not close(q[0][0], x / tot, 1e-6) or q[0][1] != e:
                        return False, "%s: share of %s logged as %r, the averages give %.9g" % (what, t, list(q), x / tot)
                return True

            chk.holds("each term is logged under its tag at its epoch", where, "", vals, f)
            chk.holds("each coherence component is logged", where, "", vals, comp)
            chk.holds("the logged shares are those of the running averages", where, "", vals, shares)
            info = it.resolve(call(it, g, "get_current_loss_info"))
            now = dict(mse_current=lambda v: expect(v)[-1]["mse"], coherence_current=lambda v: expect(v)[-1]["coherence"], total_current=lambda v: sum(expect(v)[-1].values()),
                       mse_avg=lambda v: ema(v, "mse"), coherence_avg=lambda v: ema(v, "coherence"), mse_coherence_ratio=lambda v: ema(v, "mse") / max(ema(v, "coherence"), 1e-8))
            for k, fn in now.items():
                if chk.fact("the summary has every entry", k in info.d, where, what + ": no " + k):
                    chk.holds("the summary reports the last record and the averages", where, "%s, %s:" % (what, k), vals, lambda v: (close(F(v, info.d[k]), fn(v), 1e-6), "%.9g, expected %.9g" % (F(v, info.d[k]), fn(v))))
        chk.no_failure(it, "evaluations are defined", "weights " + "+".join(weights), vals)


def statistics(rows, window):
    """The documented statistics of the last window records."""
    rec = rows[-window:]
    cols = {k: [r[i] for r in rec] for i, k in enumerate(TERMS)}
    cols["total"] = [sum(r) for r in rec]
    mean = {k: sum(x) / len(x) for k, x in cols.items()}
    std = {k: (sum((q - mean[k]) ** 2 for q in x) / len(x)) ** 0.5 for k, x in cols.items()}
    parts = {k: mean[k] for k in TERMS}
    dom = max(parts, key=lambda k: parts[k])
    h = len(cols["total"]) // 2
    a, b = sum(cols["total"][:h]) / h, sum(cols["total"][h:]) / (len(rec) - h)
    out = {k + "_mean": mean[k] for k in cols}
    out.update({k + "_std": std[k] for k in cols})
    out.update(dominant_component=dom, dominance_ratio=parts[dom] / max(min(parts.values()), 1e-8), improvement_ratio=(a - b) / max(a, 1e-8), stability=1 / (1 + std["total"]))
    return out


def diagnostics(chk):
    for name, gen in HISTORIES[: 13 if chk.tier == "quick" else None]:
        for window, extra in ((4, 0), (4, 3), (3, 2)):
            r_ = random.Random(chk.seed * 977 + sum(map(ord, name)))
            rows = [[float(Fraction(x).limit_denominator(10**9)) for x in row] for row in [[50.0, 1e-3, 7.0, 0.2, 9.0]] * extra + gen(r_)]
            rows = rows[: extra + 4]
            it = chk.interp()
            m = it.load(SF + "loss_functions")
            o = it.call(anchor(m, "LossAggregator"), [], dict(params=new(it, "drdmannturb.parameters", "LossParameters"), k1space=k1tens(3), zref=pos("zref")))
            d = it.getattr(o, "component_losses")
            for i, k in enumerate(TERMS):
                d.d[k] = List([N.const(Fraction(r[i])) for r in rows])
            d.d["total"] = List([N.const(Fraction(sum(r))) for r in rows])
            where = loc(it, it.getattr(o, "get_loss_diagnostics"))
            what = "%s, window %d of %d records" % (name, window, len(rows))
            chk.scen.append(what)
            vals = chk.vals(it, 1)
            want = statistics(rows, window)
            got = it.resolve(call(it, o, "get_loss_diagnostics", window))
            chk.no_failure(it, "diagnostics are defined for any recorded history", what, vals)
            top = sorted((want[k + "_mean"] for k in TERMS), reverse=True)
            for k, x in want.items():
                if not chk.fact("every statistic is reported", isinstance(got, Dict) and k in got.d, where, "%s: no %s" % (what, k)):
                    continue
                y = got.d[k]
                if isinstance(x, str):
                    if top[0] > top[1] * (1 + 1e-9):
                        chk.fact("the dominant term is the largest", y == x, where, "%s: %r, the largest mean is %s" % (what, y, x))
                else:
                    chk.holds("statistics are those of the last records", where, "%s, %s:" % (what, k), vals, lambda v: (abs(F(v, y) - x) <= 1e-6 * max(abs(x), 1e-3 * abs(want["total_mean"]) if k.endswith("_std") else 0, 1e-9), "%.9g, the records give %.9g" % (F(v, y), x)))
            few = it.resolve(call(it, o, "get_loss_diagnostics", len(rows) + 1))
            chk.fact("no diagnostics before the window is filled", isinstance(few, Dict) and not few.d, where, "%s: %r" % (what, few))
            dec = call(it, o, "should_adjust_learning_rate", N.const(len(rows)), window=window)
            bad = want["improvement_ratio"] < -0.05 or (want["improvement_ratio"] < 0.0 and want["stability"] > 0.9)
            good = want["improvement_ratio"] > 0.1 and want["stability"] > 0.6 and want["dominance_ratio"] < 50
            shaky = want["stability"] < 0.1
            lop = want["dominance_ratio"] > 1000
            for c_, a in flat(it, dec, N.TRUE):
                adj = a.d.get("adjust", False) if isinstance(a, Dict) else None
                if bad or shaky or lop or good:
                    chk.holds("the rate is lowered for stagnating, unstable or one-sided losses only", where, what, vals, lambda v: (
                        not on(v, c_) or (on(v, adj) if isinstance(adj, N.Node) else bool(adj)) == (not good), "adjust %r with improvement %.3g, stability %.3g, dominance %.3g" % (adj, want["improvement_ratio"], want["stability"], want["dominance_ratio"])))
            early = flat(it, call(it, o, "should_adjust_learning_rate", N.const(window - 1), window=window), N.TRUE)
            for c_, a in early:
                chk.fact("no adjustment before the window is filled", a.d.get("adjust") is False, where, what)
            for c_, a in flat(it, call(it, o, "should_adjust_learning_rate", N.const(10 * len(rows)), window=len(rows) + 1), N.TRUE):
                chk.fact("no adjustment before the window is filled", a.d.get("adjust") is False, where, "%s: late epoch, one record short of the window" % what)




def destination(chk):
    """Calibration logs into the configured directory, under the given comment."""
    for d, comment in (("some/dir", "note"), (None, "")):
        it = chk.interp()
        cp = it.resolve(problem(it, "CONST", prob=dict(nepochs=1, num_components=3), **({} if d is None else dict(logging_directory=d))))
        n0 = len(it.calllog)
        call(it, cp, "calibrate", Dict({"k1": k1tens(2), "ops": tens((2, 3, 3), lambda i: N.app("P:dat", *i))}), **({"tb_comment": comment} if comment else {}))
        where = loc(it, it.getattr(cp, "calibrate"))
        ws = [c_ for c_ in it.calllog[n0:] if c_[0].split(".")[-1] == "SummaryWriter"]
        what = "logging_directory=%r, tb_comment=%r" % (d, comment)
        chk.scen.append(what)
        if chk.fact("one log writer per calibration", len(ws) == 1, where, "%s: %d writers" % (what, len(ws))):
            a, k = list(ws[0][1]), dict(ws[0][2])
            got = (a[0] if a else k.get("log_dir"), a[1] if len(a) > 1 else k.get("comment", ""))
            chk.fact("logs go to the configured directory", got == (d, comment), where, "%s: writer opened with %r" % (what, got))


PARTS = [logs, diagnostics, destination]


RUNS = ["events.out.tfevents.1700000300.host.1.0", "events.out.tfevents.1700000100.host.1.0", "events.out.tfevents.1700000200.host.1.0"]


def history(it, tags, opened):
    """An event reader whose runs hold unknown values per tag and record."""

    def make(it, a, k):
        path = it.resolve(a[0] if a else k["path"])
        opened.append(path)
        o = Opaque("reader")
        return Reader(it, str(path), tags)

    return ExtFn("EventAccumulator", make)


class Reader:
    N = 5

    def __init__(self, it, path, tags):
        self.path, self.tags = path, tags
        m = it.load("drdmannturb.common")
        self.event = Class("ScalarEvent", [], m)
        self.event.dataclass = ([(n, None, None, False) for n in ("wall_time", "step", "value")],)

    def attr(self, it, name):
        if name == "Reload":
            return ExtFn("Reload", lambda it, a, k: self)
        if name == "Tags":
            return ExtFn("Tags", lambda it, a, k: Dict({"scalars": List(list(self.tags))}))
        if name == "Scalars":
            return ExtFn("Scalars", lambda it, a, k: List([self.make(it, it.resolve(a[0] if a else k["tag"]), j) for j in range(self.N)]))
        raise Broken("event reader: " + name)

    def make(self, it, tag, j):
        o = Obj(self.event)
        o.attrs.update(wall_time=N.app("P:wall", N.const(j)), step=j, value=value(self.path, tag, j))
        return o


def value(path, tag, j):
    return N.app("P:log:%s:%s" % (str(path).split("/")[-1], tag), N.const(j))


def figures(chk):
    """The figure of a run shows each logged term by its own records, in order."""
    for tags in (["MSE Loss", "Coherence Loss/Total", "Regularization"], ["b", "a"], ["only"]):
        it = chk.interp()
        opened = []
        it.load("drdmannturb.common").vars["EventAccumulator"] = history(it, tags, opened)
        f = anchor(it.load("drdmannturb.common"), "plot_loss_logs")
        n0 = len(it.calllog)
        where = loc(it, f)
        it.call(f, ["some/dir/run"], {})
        what = "%d logged terms" % len(tags)
        chk.scen.append("plot_loss_logs, " + what)
        vals = chk.vals(it, 3)
        chk.no_failure(it, "the loss figure is defined", what, vals)
        chk.fact("the given run is read", opened == ["some/dir/run"], where, "%s: reads %r" % (what, opened))
        ls = [(c_[0].rsplit(".", 1)[0], list(c_[1]), c_[4]) for c_ in it.calllog[n0:] if c_[0].rsplit(".", 1)[-1] in ("plot", "semilogy")]
        titles = {c_[0].rsplit(".", 1)[0]: it.resolve(c_[1][0]) for c_ in it.calllog[n0:] if c_[0].endswith(".set_title")}
        chk.fact("one panel per logged term", sorted(titles.get(p, "?") for p, _, _ in ls) == sorted(tags) and len({p for p, _, _ in ls}) == len(tags), where, "%s: panels %s" % (what, sorted((p, titles.get(p)) for p, _, _ in ls)))
        for p, a, w in ls:
            y = list(it.iterate(a[-1]))
            n = len(y)
            if not chk.fact("the records of a run are drawn", Reader.N - 2 <= n <= Reader.N, w, "%s: %d of %d records" % (what, n, Reader.N)):
                continue
            for j in range(n):
                chk.same("a panel shows the term in its title", w, "%s %s record %d" % (what, titles.get(p), j), vals, y[j], value("run", titles.get(p), Reader.N - n + j))


def numbered(chk):
    """plot_losses(n) shows the n-th run of the logging directory, however the file system lists it."""
    old = EXT.get("os.listdir")
    try:
        for order in (RUNS, RUNS[::-1]):
            for n in range(3):
                it = chk.interp()
                opened, asked = [], []
                it.load("drdmannturb.common").vars["EventAccumulator"] = history(it, ["MSE Loss", "x"], opened)
                cp = it.resolve(problem(it, "CONST", prob=dict(num_components=3), logging_directory="some/logs"))

                def ls(it, a, k):
                    q = it.resolve(a[0]) if a else "."
                    asked.append(getattr(q, "s", q))
                    return List(list(order))

                EXT["os.listdir"] = ExtFn("os.listdir", ls)
                where = loc(it, it.getattr(cp, "plot_losses"))
                call(it, cp, "plot_losses", n)
                want = "some/logs/" + sorted(RUNS)[n]
                chk.fact("runs are numbered in the order they were recorded", [str(x) for x in opened] == [want] and [str(x) for x in asked] == ["some/logs"], where, "run %d of %s: reads %r" % (n, order, opened))
                chk.scen.append("plot_losses(%d)" % n)
    finally:
        if old is None:
            EXT.pop("os.listdir", None)
        else:
            EXT["os.listdir"] = old


PARTS = [logs, diagnostics, destination, figures, numbered]
