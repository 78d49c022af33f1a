"""Check harness: obligations over the value graph, verdicts, evidence."""
import json
import os
import time
import traceback

from . import node as N, arr as A
from .arr import AbsRaise, Arr
from .evalr import Valuation, Unmodelled, Reject, close, tofloat
from .interp import Interp, Func, Bound, Obj, ROOT

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """The analysis cannot decide: anchor missing or construct not modelled."""


class Stop(Exception):
    """Enough violations were found in this rule."""


def loc(it, f):
    """file:line in function of a callable of the analysed program."""
    if isinstance(f, Bound):
        f = f.func
    if isinstance(f, Func):
        p = getattr(f.module, "path", "?")
        p = os.path.relpath(p, it.root) if os.path.isabs(p) else p
        return "%s:%d in %s" % (p, f.node.lineno, f.qual)
    return repr(f)


class Check:
    def __init__(self, pid, tier, seed, floor=0):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.viol = []  # (rule, construct, detail)
        self.rules = {}
        self.interps = []
        self.scen = []
        self.t0 = time.time()
        self.nvals = 8 if tier == "quick" else 40
        self.known = load_known(pid)
        self.notes = []
        self.evals = 0
        self.cov = {}  # branch condition -> sides seen
        self.conds = {}  # id of the interpretation -> [scanned node ids, closed branch conditions]
        self.flips = {}  # id of the interpretation -> valuations that take branch sides not seen otherwise
        self.tried = set()
        self.narrow = set()  # unknowns whose magnitude is not spread (grid exponents, ...)
        self.budget = 12.0 if tier == "quick" else 120.0
        self.explored = 0

    # ---- bookkeeping
    def rule(self, name):
        return self.rules.setdefault(name, {"obligations": 0, "evaluations": 0, "violations": 0})

    def interp(self):
        it = Interp()
        self.interps.append(it)
        return it

    def violate(self, rule, construct, detail):
        r = self.rule(rule)
        v = (rule, str(construct), str(detail)[:600])
        k = match_known(self.known, v)
        if k is not None:  # a recorded finding: reported once, never stops the analysis
            if not any(match_known([k], w) for w in self.viol):
                self.viol.append(v)
            return
        r["violations"] += 1
        self.viol.append(v)
        if r["violations"] >= 6:
            raise Stop(rule)

    def ok(self, rule, n=1):
        self.rule(rule)["obligations"] += n

    def fact(self, rule, cond, construct, detail):
        """A syntactic / effect fact decided without valuations."""
        self.rule(rule)["obligations"] += 1
        if not cond:
            self.violate(rule, construct, detail)
        return bool(cond)

    # ---- valuations
    def vals(self, it, n=None, pinned=None, zero_bias=0.3, extra=None, base=0, wide=0.0):
        """Valuations admissible for the interpretation (assumptions hold)."""
        n = n or self.nvals
        out, s, tries = [], 0, 0
        while len(out) < n and tries < 40 * n + 200:
            tries += 1
            s += 1
            p = pinned(s) if callable(pinned) else pinned
            v = Valuation(self.seed * 100003 + base * 7919 + s, pinned=p, zero_bias=zero_bias)
            v.wide = wide
            v.narrow = self.narrow
            v.cov = self.cov
            v.origin = (it, zero_bias, extra)
            try:
                bad = False
                for a in it.assumptions:
                    a = a[0] if isinstance(a, tuple) else a
                    if not v.truth(N.nd(a), {}):
                        bad = True
                        break
                if bad or (extra is not None and not extra(v)):
                    continue
            except Reject:
                continue
            out.append(v)
        if not out:
            raise Broken("no admissible valuation")
        return out

    # ---- branch sides
    def sides(self, vals):
        """Further admissible valuations, taking the branch sides that `vals` did not take (magnitudes over decades, larger sizes)."""
        vals = [v for v in vals if getattr(v, "origin", None)]
        if not vals:
            return []
        it, zero_bias, extra = vals[0].origin
        if any(v.origin[0] is not it for v in vals):
            return []
        scanned, conds = self.conds.setdefault(id(it), (set(), {}))
        for v in vals:
            for r in v.roots.values():
                if r.id not in scanned:
                    for n in N.walk(r, scanned):
                        if n.op == "ite" and not n.args[0].bound:
                            conds[n.args[0].id] = n.args[0]
        grp = (id(it), tuple(sorted({repr(sorted(v.pinned.items())) for v in vals})))
        flips = self.flips.setdefault(grp, [])
        todo = [c for i, c in conds.items() if self.cov.get(i, 0) in (1, 2) and (grp, i) not in self.tried]
        if todo and self.budget > 0 and len(flips) < 12:
            t0 = time.time()
            for c in todo:
                self.tried.add((grp, c.id))
            for t in range(36 if self.tier == "quick" else 300):
                if time.time() - t0 > min(self.budget, 2.0 if self.tier == "quick" else 20.0) or not todo or len(flips) >= 12:
                    break
                v0 = vals[t % len(vals)]
                w = Valuation(self.seed * 7368787 + 31 * t, pinned=v0.pinned, zero_bias=zero_bias)
                w.wide, w.grow = (0.0, 0.5, 1.0)[t % 3], (0, 0, 1, 3)[t % 4]
                w.deadline = time.time() + 2.0
                w.narrow = self.narrow
                w.exact_dft = v0.exact_dft
                try:
                    if not all(w.truth(N.nd(a[0] if isinstance(a, tuple) else a), {}) for a in it.assumptions):
                        continue
                    if extra is not None and not extra(w):
                        continue
                except Reject:
                    continue
                new = []
                for c in todo:
                    try:
                        m = 2 if w.truth(c, {}) else 1
                    except (Reject, Unmodelled):
                        continue
                    if not self.cov[c.id] & m:
                        new.append((c, m))
                if new:
                    for c, m in new:
                        self.cov[c.id] |= m
                    todo = [c for c in todo if self.cov[c.id] != 3]
                    w.deadline = None
                    flips.append(w)
            self.budget -= time.time() - t0
        return flips

    def explore(self, vals, test):
        """Run an obligation again where other branch sides are taken; False if it fails there."""
        for w in self.sides(vals):
            w.deadline = time.time() + (4.0 if self.tier == "quick" else 30.0)
            try:
                if test(w) is False:
                    return False
                self.explored += 1
            except (Reject, Unmodelled, Broken, OverflowError, ZeroDivisionError):
                pass
        return True

    def no_failure(self, it, rule, what, vals=None, since=0, osince=0, allow=()):
        """No conditional raise and no failing shape obligation is reachable."""
        vals = vals or self.vals(it)
        r = self.rule(rule)
        for rr in it.raises[since:]:
            if rr.exc in allow:
                continue
            r["obligations"] += 1
            for v in vals:
                r["evaluations"] += 1
                try:
                    t = v.truth(N.nd(rr.cond), {})
                except Reject:
                    continue
                if t:
                    self.violate(rule, rr.where, "%s: %s raised for a valid input: %s" % (what, rr.exc, rr.msg))
                    break
        for pc, c, text, where in it.obligations[osince:]:
            r["obligations"] += 1
            for v in vals:
                r["evaluations"] += 1
                try:
                    bad = v.truth(N.nd(pc), {}) and not v.truth(N.nd(c), {})
                except Reject:
                    continue
                if bad:
                    self.violate(rule, where, "%s: incompatible shapes (%s)" % (what, text))
                    break
        return vals

    def same(self, rule, construct, what, vals, a, b, tol=1e-6, scale=0.0, min_evals=1):
        """The value numbers of a and b agree in every valuation."""
        r = self.rule(rule)
        r["obligations"] += 1
        a, b = N.nd(a), N.nd(b)
        if a is b:
            return True
        done = 0

        def test(v):
            x, y = v.ev(a), v.ev(b)
            sc = scale(v) if callable(scale) else scale
            r["evaluations"] += 1
            if not close(x, y, tol, sc):
                self.violate(rule, construct, "%s: %s differs from %s" % (what, fmt(x), fmt(y)))
                return False

        for v in vals:
            try:
                if test(v) is False:
                    return False
            except Reject:
                continue
            done += 1
        if done < min_evals:
            raise Broken("%s: %s could not be evaluated" % (rule, what))
        return self.explore(vals, test)

    def holds(self, rule, construct, what, vals, f):
        """f(v) is true (or a (bool, detail) pair) in every valuation."""
        r = self.rule(rule)
        r["obligations"] += 1
        done = 0

        def test(v):
            x = f(v)
            r["evaluations"] += 1
            d = ""
            if isinstance(x, tuple):
                x, d = x
            if not x:
                self.violate(rule, construct, "%s %s" % (what, d))
                return False

        for v in vals:
            try:
                if test(v) is False:
                    return False
            except Reject:
                continue
            done += 1
        if not done:
            raise Broken("%s: %s could not be evaluated" % (rule, what))
        return self.explore(vals, test)


def fmt(x):
    try:
        c = complex(tofloat(x))
        return "%.10g" % c.real if c.imag == 0 else "%.8g%+.8gj" % (c.real, c.imag)
    except Exception:
        return repr(x)[:120]


# ------------------------------------------------------------------------------ runner
def run(pid, tier, seed, func, meta):
    chk = Check(pid, tier, seed)
    status = 0
    err = None
    try:
        for part in func:
            try:
                part(chk)
            except Stop:
                pass
            except AbsRaise as e:
                # a valid scenario of the property raises on every path
                if not e.where or e.where == "?":  # raised by the check's own access: an anchor is gone
                    raise Broken("%s: %s: %s" % (part.__name__, e.exc, e.msg))
                try:
                    chk.violate("no-exception", e.where or "?", "%s: raises %s: %s" % (part.__name__, e.exc, e.msg))
                except Stop:
                    pass
    except (Broken, Unmodelled) as e:
        err = "%s: %s" % (type(e).__name__, e)
        if os.environ.get("VG_DEBUG"):
            traceback.print_exc()
    except Exception as e:  # an analysis defect, never a verdict about the code
        err = "%s: %s at %s" % (type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1])
        if os.environ.get("VG_DEBUG"):
            traceback.print_exc()
    nobl = sum(r["obligations"] for r in chk.rules.values())
    nev = sum(r["evaluations"] for r in chk.rules.values())
    floor = meta.get("floor", 1)
    if err is None and not chk.viol and nobl < floor:
        err = "only %d obligations were generated, expected at least %d" % (nobl, floor)
    known = chk.known
    fresh, hit = [], []
    for v in chk.viol:
        k = match_known(known, v)
        (hit if k else fresh).append((v, k))
    for k in known:
        if any(h[1] is k for h in hit):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    files, funcs, nst = {}, set(), 0
    for it in chk.interps:
        nst += it.nstmts
        for k, n in it.analysed.items():
            funcs.add(k)
    cov = {
        "explanation": meta["explanation"],
        "method": meta["technique"],
        "rules": {k: dict(v) for k, v in chk.rules.items()},
        "obligations": nobl,
        "value_comparisons": nev,
        "branch_conditions": {
            "evaluated": len(chk.cov),
            "both_sides": sum(1 for m in chk.cov.values() if m == 3),
            "one_side_only": sum(1 for m in chk.cov.values() if m != 3),
            "extra_evaluations_on_rare_sides": chk.explored,
        },
        "scenarios": chk.scen,
        "functions_analysed": len(funcs),
        "functions": sorted(str(f) for f in funcs)[:200],
        "statements_interpreted": nst,
        "joins": sum(it.njoins for it in chk.interps),
        "loop_summaries": sum(it.nloops for it in chk.interps),
        "notes": chk.notes,
        "known_findings_seen": [k["what"] for k in known if any(h[1] is k for h in hit)],
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": meta["level"],
        "coverage": cov,
        "wall_s": round(time.time() - chk.t0, 3),
        "violations": [{"rule": v[0], "construct": v[1], "detail": v[2]} for v, _ in fresh],
    }
    if err:
        ev["coverage"]["analysis_error"] = err
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        "%s %s: %d obligations under %d rules, %d value comparisons, %d functions and %d statements analysed, %.1fs"
        % (pid, tier, nobl, len(chk.rules), nev, len(funcs), nst, time.time() - chk.t0)
    )
    if fresh:
        rp = os.path.join(d, pid + ".replay.txt")
        with open(rp, "w") as f:
            f.write("property %s: %s\nre-run: python3-vt /verif/check.py %s %s\n" % (pid, meta["title"], pid, tier))
            for (rule, cons, det), _ in fresh:
                f.write("rule %s\n  at   %s\n  what %s\n" % (rule, cons, det))
        for (rule, cons, det), _ in fresh:
            print("  [%s] %s: %s" % (rule, cons, det))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if err:
        print("ANALYSIS-ERROR property=%s %s" % (pid, err))
        return 2
    return 0


def load_known(pid):
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            k = json.loads(line)
            if k.get("property") == pid and k.get("status", "open") == "open":
                out.append(k)
    return out


def match_known(known, v):
    for k in known:
        m = [k["match"]] if isinstance(k["match"], str) else k["match"]
        if k["rule"] == v[0] and all(x in v[1] + " | " + v[2] for x in m):
            return k
    return None
