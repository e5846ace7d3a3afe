"""Obligation registry."""
import importlib
import os
import sys


class Ob:
    """One solver obligation: harness fn(ctx[, case]).

    cases  - list of shape parameters; each case is explored on its own
    bounds - what is symbolic and within which bounds (goes to the evidence)
    quick  - included in the quick tier
    known  - id of a listed known finding that this obligation isolates
    rand   - number of seeded concrete validation runs on the unpatched code
    """

    def __init__(self, name, fn, bounds="", cases=None, tcases=None, quick=True, known=None,
                 rand=2, **opts):
        self.name, self.fn, self.bounds = name, fn, bounds
        self.cases = cases
        self.tcases = tcases  # extra cases of the thorough tier
        self.quick, self.known, self.rand, self.opts = quick, known, rand, opts

    def units(self, tier):
        """[(unit id, callable(ctx))]"""
        if tier == "quick" and not self.quick:
            return []
        if self.cases is None:
            return [(self.name, self.fn)]
        cs = list(self.cases)
        if tier == "thorough" and self.tcases:
            cs += list(self.tcases)
        return [(f"{self.name}[{_cname(c)}]", (lambda c: lambda ctx: self.fn(ctx, c))(c)) for c in cs]


def _cname(c):
    return str(c).replace("'", "").replace(" ", "")


def load(prop):
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if root not in sys.path:
        sys.path.insert(0, root)
    return importlib.import_module(f"checks.{prop.lower()}")


def units(mod, tier):
    out = []
    for ob in mod.OBLIGATIONS:
        for uid, fn in ob.units(tier):
            out.append((uid, fn, ob))
    return out
