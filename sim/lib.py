"""Loading (and re-loading: a simulated process restart) the code under test from /repo."""

import importlib
import os
import sys
import warnings

REPO = os.environ.get("DST_REPO", "/repo")
MODULES = [
    "interpolation",
    "interpolation.cartesian",
    "interpolation.complete_poly",
    "interpolation.smolyak",
    "interpolation.smolyak.grid",
    "interpolation.smolyak.interp",
    "interpolation.splines",
    "interpolation.splines.eval_cubic",
    "interpolation.splines.eval_cubic_numba",
    "interpolation.splines.eval_splines",
    "interpolation.splines.filter_cubic",
    "interpolation.splines.hermite",
    "interpolation.splines.multilinear",
    "interpolation.splines.multilinear_numba",
    "interpolation.splines.prefilter_cubic",
]


class Lib:
    """names of the public API, looked up in the freshly imported modules"""


def load():
    warnings.filterwarnings("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    mods = {m: importlib.import_module(m) for m in MODULES}
    # every other module of the package as well, so that no import happens inside a simulated run
    root = os.path.join(REPO, "interpolation")
    assert os.path.realpath(mods["interpolation"].__file__) == os.path.realpath(os.path.join(root, "__init__.py"))
    for dirpath, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
        for f in sorted(files):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(dirpath, f), REPO)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                try:
                    importlib.import_module(rel)
                except Exception:
                    if rel in mods:
                        raise
    L = Lib()
    L.mods = mods
    s = mods["interpolation.splines"]
    for n in ("CubicSpline", "CubicSplines", "LinearSpline", "LinearSplines", "eval_linear", "eval_spline",
              "prefilter", "extrap_options", "UCGrid", "CGrid", "nodes"):
        setattr(L, n, getattr(s, n))
    # the package attributes eval_cubic / filter_cubic are shadowed by the submodules of the same name once those are imported
    L.eval_cubic = mods["interpolation.splines.eval_splines"].eval_cubic
    L.filter_cubic = mods["interpolation.splines.prefilter_cubic"].filter_cubic
    L.interp = mods["interpolation"].interp
    L.mlinterp = mods["interpolation"].mlinterp
    L.cp = mods["interpolation.complete_poly"]
    L.CompletePolynomial = L.cp.CompletePolynomial
    L.sm = mods["interpolation.smolyak.grid"]
    L.SmolyakGrid = L.sm.SmolyakGrid
    L.SmolyakInterp = mods["interpolation.smolyak.interp"].SmolyakInterp
    L.cart = mods["interpolation.cartesian"]
    L.ec = mods["interpolation.splines.eval_cubic"]
    L.ml = mods["interpolation.splines.multilinear_numba"]
    L.fc = mods["interpolation.splines.filter_cubic"]
    L.hm = mods["interpolation.splines.hermite"]
    return L


def purge():
    for m in [m for m in sys.modules if m == "interpolation" or m.startswith("interpolation.")]:
        del sys.modules[m]


def restart(keep_compiled=False):
    """process-level state of the package is lost, numba and numpy stay

    keep_compiled: the machine code of functions whose source is the same is taken over instead of being compiled again
    (where compilation is not what the run is about)
    """
    import gc

    old = compiled() if keep_compiled else {}
    purge()
    gc.collect()
    L = load()
    for k, d in dispatchers():
        for c in old.get(k, ()):
            if tuple(c.signature.args) not in d.overloads:
                d.add_overload(c)
    return L


def dispatchers():
    from numba.core.dispatcher import Dispatcher

    for m in sorted(m for m in sys.modules if m == "interpolation" or m.startswith("interpolation.")):
        for n, d in sorted(vars(sys.modules[m]).items()):
            if isinstance(d, Dispatcher) and d.py_func.__module__ == m:
                c = d.py_func.__code__
                yield (m, n, c.co_code, repr(c.co_consts), c.co_names), d


def compiled():
    out = {}
    for k, d in dispatchers():
        out[k] = list(d.overloads.values())
        d.overloads.clear()  # or numba forgets the code when the old dispatcher goes
    return out
