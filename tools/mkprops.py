"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to review)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=qtext),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=list(observe),
                hook_needed=hook,
            ),
        )
    )


S = "interpolation/splines/"

# ---------------------------------------------------------------- claimed
prop(
    "C01",
    "A spline object always answers for its last accepted values",
    "Over every sequence of constructions, value updates and evaluations on any number of linear or cubic, scalar "
    "or vector-valued spline objects (1 to 4 dimensions), each evaluation - one point or many, or with first "
    "derivatives inside the grid where the object offers them - returns the interpolant (multilinear, or natural cubic "
    "spline; linearly extended outside the grid) of the values most recently accepted by that very object. Earlier "
    "values, earlier evaluations and other objects never show through, and the object's node list is always the "
    "cartesian enumeration of its own grid.",
    ["histories", "inputs"],
    "every interleaved history of construct / set values / evaluate / read nodes over several objects in one process",
    "Each test builds one object, evaluates it at most three times and looks only at the shape of the result; no test "
    "ever updates the values of an object, uses two objects in turn, or looks at a number.",
    [S + "splines.py", S + "multilinear.py", S + "filter_cubic.py", S + "eval_splines.py", S + "eval_cubic_numba.py"],
    [
        ("set_values filters the values and replaces the stored coefficients", S + "splines.py, " + S + "multilinear.py"),
        ("evaluation reads bounds, orders and coefficients of self only", S + "splines.py"),
        ("node list built lazily and memoised per object", S + "splines.py, " + S + "multilinear.py"),
    ],
    [
        ("coefficients", "filtered B-spline coefficients (cubic)", S + "splines.py"),
        ("values", "node values (linear)", S + "multilinear.py"),
        ("node list memo", "cached enumeration of the nodes", S + "splines.py"),
    ],
    ["return value of calls/interpolate", "grid attribute"],
)
prop(
    "C02",
    "Spline objects shared between threads are linearizable",
    "When several threads evaluate one spline object (linear or cubic, scalar or vector-valued) while others update its "
    "values - including updates that change the number of functions - every operation takes effect at one instant between its "
    "call and its return, and so do operations that a signal handler or finaliser performs in the middle of another one: "
    "each evaluation returns the interpolant of exactly one accepted set of values that was "
    "current at some moment of that call, never a mixture, a stale set or an out-of-range access. No operation fails "
    "or deadlocks because of the interleaving.",
    ["schedules", "histories"],
    "every interleaving of the Python-level steps of 2-4 caller threads over short histories of updates and evaluations",
    "No test starts a thread.",
    [S + "splines.py", S + "multilinear.py"],
    [
        ("an update publishes the new coefficients with one reference assignment", S + "splines.py, " + S + "multilinear.py"),
        ("an evaluation takes one snapshot of the coefficients", S + "splines.py, " + S + "multilinear.py"),
    ],
    [("coefficients / values", "the shared register", S + "splines.py, " + S + "multilinear.py")],
    ["invocation/response history of each thread"],
)
prop(
    "C03",
    "A rejected, failed or interrupted update leaves an interpolator intact",
    "If an update of an interpolator's data (spline values, Smolyak node values, polynomial fit) is rejected for bad "
    "input (wrong size, or non-finite data where the object refuses them) the call raises and the interpolator "
    "afterwards behaves exactly as before it. If the update or an evaluation is cut short at an arbitrary point by an "
    "interrupt or a failing allocation, the interpolator afterwards behaves exactly as before or exactly as after the "
    "complete operation, and every later operation on it and on other objects works.",
    ["fault_sequences", "crash_points", "histories"],
    "every history of updates and evaluations, with rejected inputs, and with an interrupt or allocation failure at any "
    "Python line or call of any of its operations",
    "No test passes a bad value set, interrupts anything or looks at an object after an exception.",
    [S + "splines.py", S + "multilinear.py", S + "filter_cubic.py", "interpolation/smolyak/interp.py", "interpolation/complete_poly.py"],
    [
        ("validation before any state is replaced", S + "splines.py"),
        ("new coefficients are complete before they are published", S + "splines.py, interpolation/smolyak/interp.py, interpolation/complete_poly.py"),
    ],
    [
        ("coefficients / values / theta / coefs", "state that evaluations read", S + "splines.py, " + S + "multilinear.py, interpolation/smolyak/interp.py, interpolation/complete_poly.py"),
    ],
    ["exception and probe evaluations after it"],
)
prop(
    "C04",
    "Calls never touch caller arrays, and results never alias library state",
    "No evaluation, filtering, fitting or grid-building call of the library ever changes an array it is given as input "
    "(only a buffer passed explicitly for the output is written). Whatever the caller later does to arrays it passed "
    "in (bounds, orders, values, points, coefficients, samples) or to arrays it got back from an evaluation never "
    "changes what any interpolator or any later call returns, and later calls never change arrays returned earlier.",
    ["histories", "inputs"],
    "every history of library calls interleaved with the caller overwriting arrays it passed or received before",
    "No test reuses or inspects an input after a call, keeps a result across calls, or overwrites anything.",
    [S + "splines.py", S + "multilinear.py", S + "filter_cubic.py", S + "prefilter_cubic.py", S + "eval_splines.py", S + "eval_cubic.py", "interpolation/smolyak/grid.py", "interpolation/smolyak/interp.py", "interpolation/complete_poly.py", "interpolation/cartesian.py", "interpolation/multilinear/mlinterp.py"],
    [
        ("constructors and set_values copy", S + "splines.py, " + S + "multilinear.py, interpolation/smolyak/grid.py"),
        ("every allocating call returns a fresh array", S + "codegen.py, " + S + "prefilter_cubic.py, interpolation/complete_poly.py"),
    ],
    [],
    ["bytes of every array ever exchanged with the library"],
)
prop(
    "C05",
    "In-place evaluation overwrites the whole output buffer, and nothing else",
    "Every call that accepts an output buffer (spline, linear, cubic and compatibility evaluation, at one or many "
    "points, scalar- or vector-valued, with or without derivatives and in every extrapolation mode; and cubic "
    "prefiltering) leaves in every cell of it the documented value, the one the allocating form of the same call returns, "
    "whatever the buffer and freshly allocated memory held before and however the buffer was reused across calls (a single "
    "scalar without derivatives has no buffer form). "
    "Memory around the buffer (it may be a strided or Fortran-ordered view) is not written.",
    ["histories", "configurations", "inputs"],
    "every history of in-place calls that reuse dirty buffers, for every option combination, with poisoned allocator memory",
    "Tests pass a zero buffer once and compare two modes of one-dimensional linear evaluation only.",
    [S + "codegen.py", S + "eval_splines.py", S + "eval_cubic.py", S + "multilinear_numba.py", S + "prefilter_cubic.py", S + "eval_cubic_numba.py"],
    [
        ("generated kernels store every output cell on every path", S + "codegen.py"),
        ("in-place and allocating overloads share one template", S + "eval_splines.py"),
    ],
    [],
    ["contents of the output buffer and of guard cells around it"],
)
prop(
    "C06",
    "Results do not depend on what was compiled before, by whom, or what failed",
    "The result of evaluating or prefiltering a spline (any dimension, order 1 or 3, grid kind, value kind, point kind, "
    "memory layout, derivative list, extrapolation mode) or of calling the multilinear interpolation functions, from Python or from "
        "compiled code of the user, depends "
    "on the arguments of that call alone. It is the same documented value whichever specialisations were compiled before "
    "it and in which order, whether two threads triggered compilation at the same time, and whether an earlier compilation "
    "was interrupted or rejected.",
    ["histories", "schedules", "fault_sequences", "configurations"],
    "every order of first uses of specialisations, from one or several threads, with interrupts at any point of code generation",
    "Tests compile each specialisation once, in one fixed order, in one thread, and mostly check that the call returns.",
    [S + "eval_splines.py", S + "codegen.py", S + "option_types.py", S + "prefilter_cubic.py", "interpolation/multilinear/mlinterp.py", "interpolation/multilinear/fungen.py", S + "eval_cubic.py"],
    [
        ("source generated per type signature and executed in its own namespace", S + "eval_splines.py, " + S + "codegen.py"),
        ("generated function published through a module global under the compiler lock", "interpolation/multilinear/mlinterp.py"),
    ],
    [
        ("dispatcher and overload caches", "compiled specialisations", S + "eval_splines.py"),
        ("shared exec namespace", "default namespace of generated functions", S + "codegen.py"),
    ],
    ["return values of calls in a fresh library instance"],
)
prop(
    "C07",
    "The on-disk compile cache never changes results across restarts and faults",
    "Whatever the on-disk compile cache contains - nothing, entries written by earlier processes, entries that lost "
    "or tore files in a crash - and whatever disk errors occur while it is read or written, cubic filtering, cubic "
    "evaluation with derivatives and node enumeration return the documented values or fail with an error. They never return a wrong "
    "number, and once the faults stop and the damaged entries are gone every call succeeds again.",
    ["crash_points", "fault_sequences", "histories"],
    "every history of process restarts over one cache directory, with crash points inside cache writes, lost, torn and "
    "refused writes",
    "Every test run starts from an empty cache directory and never restarts.",
    [S + "filter_cubic.py", S + "eval_cubic_numba.py", "interpolation/cartesian.py"],
    [
        ("functions marked cacheable depend on nothing but their arguments and constants of their own file", S + "filter_cubic.py, " + S + "eval_cubic_numba.py, interpolation/cartesian.py"),
    ],
    [("cache directory", "durable state", "NUMBA_CACHE_DIR or __pycache__")],
    ["return values after each restart"],
)
prop(
    "C08",
    "Refitting a complete polynomial follows the damping recurrence exactly",
    "After any sequence of fits of a complete-polynomial object, its coefficients are the ones obtained by starting "
    "from the first undamped least-squares fit and replacing c by (1-damp)*fit + damp*c at each accepted fit, and every "
    "evaluation and partial derivative is that polynomial's (degrees 0-5, scalar or vector data, one or many samples). Failed or "
    "interrupted fits do not count or count completely, other objects never interfere, and evaluations "
    "running in other threads, or in a signal handler or finaliser, during a fit see the polynomial before it or after it.",
    ["histories", "schedules", "fault_sequences"],
    "every history of damped and undamped fits, evaluations and derivatives on several objects, one fitting thread and any "
    "reading threads per object, with rejected and interrupted fits",
    "Tests fit one object once and once more with damping, and never look at it after the damped fit.",
    ["interpolation/complete_poly.py"],
    [
        ("fit replaces the coefficients with one assignment", "interpolation/complete_poly.py"),
        ("basis matrices are rebuilt from the arguments of each call", "interpolation/complete_poly.py"),
    ],
    [("coefs", "current coefficients", "interpolation/complete_poly.py")],
    ["evaluations, derivatives, coefs"],
)
prop(
    "C09",
    "Smolyak interpolators stay exact and independent while sharing a grid",
    "Over every history of building Smolyak grids (isotropic and anisotropic, any bounds), building several interpolators "
    "on one grid, updating their node values and evaluating them with any combination of value, gradient and weight "
    "outputs, each interpolator returns the Smolyak polynomial through its own last accepted node values, its gradient, and its "
    "sensitivities. Evaluations and updates of one interpolator never change the grid or another interpolator, and "
    "concurrent evaluations during an update (in other threads, a signal handler or a finaliser) see the old or the new values "
    "completely.",
    ["histories", "schedules", "fault_sequences"],
    "every history and interleaving of grid construction, interpolator construction, updates and evaluations over shared grids",
    "Tests build one interpolator per grid, update it in one loop, and look at numbers for a linear function only.",
    ["interpolation/smolyak/grid.py", "interpolation/smolyak/interp.py", "interpolation/smolyak/util.py"],
    [
        ("coefficients recomputed from the shared factorisation at each update", "interpolation/smolyak/interp.py"),
        ("grid object is never written after construction", "interpolation/smolyak/grid.py"),
    ],
    [("theta", "polynomial coefficients", "interpolation/smolyak/interp.py"), ("B, B_L, B_U, pinds", "shared grid data", "interpolation/smolyak/grid.py")],
    ["interpolate outputs", "grid arrays"],
)
prop(
    "C10",
    "Stateless functions called from several threads do not influence each other",
    "Calls of the library's functions (spline and multilinear evaluation, cubic filtering, compatibility calls with "
    "values and derivatives, Hermite interpolation, polynomial bases and their derivatives, Smolyak index, grid and basis construction, node "
    "enumeration) made from several threads at once, from a signal handler or finaliser in the middle of another call, or cut short by an "
    "interrupt in one thread, each return what the same call returns "
    "alone. No call ever waits for, fails because of, or sees data of another one.",
    ["schedules", "fault_sequences", "inputs"],
    "every interleaving of the Python-level steps of 2-4 threads making unrelated calls of equal or different shapes",
    "No test starts a thread.",
    [S + "eval_cubic.py", S + "filter_cubic.py", S + "multilinear_numba.py", "interpolation/complete_poly.py", "interpolation/smolyak/grid.py", "interpolation/smolyak/util.py", "interpolation/cartesian.py", "interpolation/multilinear/mlinterp.py"],
    [("every call works on locals and fresh arrays; no module-level scratch state", "all modules")],
    [],
    ["return values of each thread"],
)

prop(
    "C20",
    "Pickled and copied interpolators are faithful and independent of each other",
    "An interpolator (linear or cubic spline object, complete polynomial, Smolyak interpolator, alone or several at once, also "
    "with the Smolyak grid they share) that is pickled or deep-copied at any moment of its history - after damped, rejected or "
    "interrupted updates, while other threads update or evaluate it - comes back, in the same process or in a process that starts later "
    "from the pickled bytes alone and may have built interpolators of its own, as an interpolator that answers for exactly the accepted state "
    "the original had at that moment. From then on original and copies are independent: each can be evaluated and updated (continuing the "
    "damping recurrence of a polynomial), and no update or evaluation of one ever shows in another one.",
    ["histories", "crash_points", "schedules"],
    "every moment of every history of updates and evaluations at which an object is saved, and every later history of the original and the copies, over process restarts",
    "No test pickles or copies an object; restoring in a fresh process that has state of its own needs two processes.",
    [S + "splines.py", S + "multilinear.py", "interpolation/complete_poly.py", "interpolation/smolyak/interp.py", "interpolation/smolyak/grid.py"],
    [("plain attributes that are replaced, never changed in place; no process-level registry of objects or coefficients", S + "splines.py, interpolation/smolyak/interp.py, interpolation/complete_poly.py")],
    [("__coeffs__ / __mcoeffs__ / mvalues / coefs / theta", "the accepted state", "the classes")],
    ["evaluations of original and restored objects"],
)

# ---------------------------------------------------------------- not applicable (pure functions of one call's input)
PURE = "A single call on a single input decides it: no history, schedule, clock, I/O or fault enters."
prop(
    "C11",
    "Interpolants reproduce the data at the grid nodes",
    "For every grid and every finite data set, multilinear interpolation and prefiltered cubic splines take exactly the "
    "given value at each grid node (up to rounding), scalar- or vector-valued, in every dimension.",
    ["inputs"], "all grids, data sets and dimensions",
    "Tests never compare an interpolated number with data.",
    [S + "codegen.py", S + "prefilter_cubic.py", S + "filter_cubic.py", "interpolation/multilinear/fungen.py"],
    [("prefilter solves the interpolation equations", S + "prefilter_cubic.py")],
)
prop(
    "C12",
    "Interpolation reproduces the polynomials it should reproduce",
    "Multilinear interpolation reproduces every multi-affine function, and cubic splines every affine one, inside the grid "
    "and in linear extrapolation; Smolyak and complete polynomials reproduce every polynomial of their own space.",
    ["inputs"], "all coefficients, grids and points",
    "Only a linear function on one Smolyak grid and one low-degree polynomial fit are checked.",
    [S + "codegen.py", "interpolation/smolyak/interp.py", "interpolation/complete_poly.py"],
    [("basis functions form a partition of unity", S + "codegen.py")],
)
prop(
    "C13",
    "Extrapolation modes mean what the documentation says",
    "Outside the grid, 'constant' gives 0, 'nearest' gives the value at the nearest grid point, 'linear' continues with the "
    "border value and slope, along every dimension, on uniform and array grids, at one or many points; inside, all modes agree.",
    ["inputs", "configurations"], "all points outside, all grids and modes",
    "One-dimensional linear modes are only compared with themselves.",
    [S + "codegen.py", S + "eval_splines.py"],
    [("bounds test and clamping in the generated kernels", S + "codegen.py")],
)
prop(
    "C14",
    "Requested derivatives are the derivatives of the interpolant",
    "Every partial derivative that can be requested (first order for cubic, any order for linear, mixed, several at once) equals "
    "the derivative of the returned interpolant at that point, on uniform and array grids and in physical units.",
    ["inputs", "configurations"], "all points away from kinks, all derivative lists and grids",
    "Linear derivatives are checked on array grids only; cubic ones never.",
    [S + "codegen.py", S + "eval_cubic_numba.py", "interpolation/smolyak/grid.py", "interpolation/complete_poly.py"],
    [("differentiated basis functions", S + "codegen.py")],
)
prop(
    "C15",
    "Vectorised, pointwise, tuple and object interfaces agree",
    "Evaluating a batch of points equals evaluating each point alone, for every interface, value kind, memory layout and "
    "for the compatibility, object and functional entry points of the same interpolant.",
    ["inputs", "configurations"], "all batches and interfaces",
    "Agreement is checked for one-dimensional linear splines only.",
    [S + "eval_splines.py", S + "eval_cubic.py", S + "splines.py", S + "multilinear.py"],
    [("all entry points dispatch to the same generated kernels", S + "eval_splines.py")],
)
prop(
    "C16",
    "Uniform and explicit grids describe the same interpolant",
    "Replacing a uniform dimension (min, max, n) by the array of its nodes, or mixing both kinds of dimensions, changes no "
    "linear interpolation result, inside or outside the grid.",
    ["inputs", "configurations"], "all grids and points",
    "Checked for one two-dimensional grid, inside only.",
    [S + "codegen.py", "interpolation/multilinear/fungen.py"],
    [("index search per dimension kind", S + "codegen.py, interpolation/multilinear/fungen.py")],
)
prop(
    "C17",
    "Flat interp interface clamps to the grid and matches numpy.interp in 1d",
    "The flat interface evaluates scalars, tuples, points, batches and 1d/2d products of coordinates with the nearest value outside the "
    "grid, on any number of dimensions.",
    ["inputs"], "all arguments the interface accepts",
    "Tests only check that something is returned.",
    ["interpolation/multilinear/mlinterp.py", "interpolation/multilinear/fungen.py"],
    [("projection on the grid then multilinear reduction", "interpolation/multilinear/mlinterp.py")],
)
prop(
    "C18",
    "Hermite interpolation matches values and tangents at the nodes",
    "Cubic Hermite interpolation takes the given values and slopes at the nodes, is C1 between them and constant outside.",
    ["inputs"], "all increasing nodes, values, tangents and points",
    "The test only checks that the call returns.",
    [S + "hermite.py"],
    [("Hermite basis on the bracketing interval", S + "hermite.py")],
)
prop(
    "C19",
    "Sparse grids and polynomial bases enumerate exactly the right points and terms",
    "Smolyak grids contain exactly the nested Chebyshev points of the requested (an)isotropic level set, each once, with as many basis "
    "functions as points; complete polynomial bases list every monomial up to the degree once; cartesian products enumerate in C or F order.",
    ["inputs", "configurations"], "all dimensions, levels, degrees and orders",
    "No test looks at the enumeration.",
    ["interpolation/smolyak/grid.py", "interpolation/smolyak/util.py", "interpolation/complete_poly.py", "interpolation/cartesian.py"],
    [("index enumeration", "interpolation/smolyak/grid.py, interpolation/complete_poly.py")],
)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
