"""Writes /verif/MANIFEST.json."""
import json, os

T = "deterministic simulation with fault injection: "
NOTE = ("Seeded search, not proof: the property held on every simulated run of this check. Trusted: the reference model in "
        "sim/model.py, the simulator, numba, numpy and CPython. Preemption happens between executed Python lines, calls and "
        "native returns of library code and at lock operations; a compiled kernel is atomic because it holds the GIL. ")
CHECKS = {
    "C01": ("seeded histories of constructions, updates and evaluations on 2-4 spline objects by 1-3 simulated clients, compared with a reference spline model",
            "Grids up to 4 dimensions and about 7 nodes per dimension (larger now and then), tolerance 1e-9 relative to the size of the data; array bounds checked in most workers."),
    "C02": ("seeded thread schedules (random, PCT, bursts) and re-entrant handlers over shared spline objects, linearizability of each recorded history against a register of value sets",
            "2-4 threads, up to 4 operations each; updates that change the number of functions included; deadlock and runaway detection."),
    "C03": ("interrupts and allocation failures at random executed lines/calls of updates and evaluations, rejected updates, old-or-new check by history linearization",
            "Spline, polynomial and Smolyak objects, sequential and concurrent histories."),
    "C04": ("seeded histories in which the caller overwrites arrays it passed or received; every array ever exchanged compared bit by bit after every call",
            "Object histories (splines, polynomials, Smolyak) and stateless calls with C/F/strided/read-only arrays. Exempt: order-1 prefiltering, documented to return its argument, and attributes (node list memo)."),
    "C05": ("seeded histories of in-place calls with dirty, reused, guarded output buffers in poisoned allocator memory, compared with the reference model",
            "All option combinations for 1 and 2 dimensions, sampled 3 and 4; C, Fortran and strided buffers."),
    "C06": ("package restarts, seeded first-use orders of specialisations from 1-3 threads over a simulated compiler lock, interrupts during code generation, rejected compilations",
            "Each run is one process life; every call compared with the reference model. Native compilation without optimisation (NUMBA_OPT=0)."),
    "C07": ("crash-restart simulation over the compile-cache directory: torn, empty, lost and refused files, crashes at random I/O operations, then recovery",
            "Assumes that losing a function's index loses its data files too and that an update of one function's entry by another process is not half-visible: beyond that numba itself, not this library, confuses entries."),
    "C08": ("seeded histories of damped/undamped, rejected and interrupted fits with concurrent readers, against an executable recurrence model",
            "One fitting thread per object; several concurrent damped writers are outside the property."),
    "C09": ("seeded histories of several Smolyak interpolators over shared grids with interrupts and concurrent readers, against a reference Smolyak model",
            "2-3 dimensions, levels 1-3, isotropic and anisotropic."),
    "C10": ("seeded thread schedules over stateless calls with interrupts and allocation failures in some of them, every completed call compared with the reference model",
            "2-4 threads over the whole stateless API, also in bursts and from re-entrant handlers; specialisations compiled before the simulated phase (C06 covers compilation)."),
    "C20": ("seeded histories over several process lives in which objects are pickled or deep-copied at arbitrary points (also inside other "
            "threads' updates and after cut ones), only pickled bytes survive a restart; joint linearizability of originals, saved states and copies",
            "1-4 objects, 1-3 threads, 1-3 lives. The machine code of unchanged functions is carried over a simulated restart (C06 and C07 cover compilation)."),
}
NA = {
    "C11": "a pure numerical function of one call's arguments: no schedule, fault, time, I/O or history for the simulator to decide (the runs of C01/C06/C10 happen to compare such values, but the property is about all inputs)",
    "C12": "a pure numerical identity over inputs; nothing a scheduler or fault injector controls can affect it",
    "C13": "meaning of an option on the arguments of one call; pure input/output relation without concurrency, faults or history",
    "C14": "pure input/output relation of one call; no nondeterminism to put behind a seam",
    "C15": "equality of pure functions over inputs; no schedule, fault or history involved",
    "C16": "equality of pure functions over inputs; no schedule, fault or history involved",
    "C17": "pure input/output relation of one call; no nondeterminism to put behind a seam",
    "C18": "pure numerical function of one call's arguments",
    "C19": "pure combinatorial construction from one call's arguments",
}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import numba, numpy, scipy' && /opt/venv/bin/python tools/selftest.py",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: the seams are sys.monitoring events, numba's compiler lock, "
              "threading locks and the I/O names of numba's cache module, all replaced from /verif", "source_commits": []},
    "checks": [
        {"property": c, "quick_cmd": "python3 check.py %s --tier quick" % c, "thorough_cmd": "python3 check.py %s --tier thorough" % c,
         "technique": T + t, "level": "exploration", "level_note": NOTE + n}
        for c, (t, n) in CHECKS.items()
    ],
    "not_applicable": [{"property": c, "reason": r} for c, r in NA.items()],
    "notes": "Replay a violation with: python3 check.py --replay <file>. KNOWN_FINDINGS.txt lists the defects found and fixed.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
