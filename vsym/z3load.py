"""Import z3 from the tooling venv into the interpreter that runs mergekit.

Only the `z3` package is taken from there (by file location), so no other
package of the tooling venv can shadow one of mergekit's dependencies.
"""
import importlib.util
import os
import sys

_CANDIDATES = [
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3",
]


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    for p in _CANDIDATES:
        init = os.path.join(p, "__init__.py")
        if os.path.exists(init):
            spec = importlib.util.spec_from_file_location(
                "z3", init, submodule_search_locations=[p]
            )
            m = importlib.util.module_from_spec(spec)
            sys.modules["z3"] = m
            spec.loader.exec_module(m)
            return m
    import z3  # pragma: no cover

    return z3


z3 = load()
