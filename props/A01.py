import glob
import os

from vg.chk import Broken
from vg.interp import ROOT
from vg.names import World

META = dict(
    title="Every name, attribute and call in the package resolves, on every path",
    technique="whole-program name, attribute, enumeration-member and call-signature resolution over the syntax trees of the package and its examples (flow-insensitive class typing)",
    level="other",
    floor=3000,
    explanation="Every import, exported name, identifier use, attribute of an expression whose class is determined, enumeration member, unpacking and call with a resolved callee in the package and in the shipped examples is matched "
    "with a definition. Expressions whose class cannot be determined are left alone, so every report is a use that cannot succeed when reached.",
    note="The typing is flow-insensitive: an attribute that some method assigns counts as present in all of them; names of numpy, torch and other libraries are not looked up.",
)


class Seen:
    def __init__(self, w):
        self.analysed = {f: 1 for f in w.funcs_seen}
        self.nstmts, self.njoins, self.nloops = w.count.get("every name is bound", 0), 0, 0


def resolve(chk):
    site = glob.glob("/opt/venv/lib/python3*/site-packages")
    try:
        w = World(ROOT, site=site)
        w.check()
    except SyntaxError as e:
        raise Broken("the source does not parse: %s" % e)
    if not any(m.startswith("drdmannturb") for m in w.mods):
        raise Broken("package not found")
    for k, n in w.count.items():
        chk.ok(k, n)
    chk.interps.append(Seen(w))
    chk.scen += sorted(os.path.relpath(m.path, ROOT) for m in w.mods.values())
    n = 0
    for rule, where, what in sorted(w.viol):
        before = len(chk.viol)
        chk.violate(rule, where, what)


PARTS = [resolve]
