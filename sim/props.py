"""What each claimed property runs: generator, world, shards (workers) per tier."""

from . import calls as K
from . import cacheworld, callworld
from . import gen_cache as GH
from . import gen_calls as GC
from . import gen_objects as G
from . import world

BC = {"NUMBA_BOUNDSCHECK": "1"}
POISON = {"MALLOC_PERTURB_": "128"}
OPT0 = {"NUMBA_OPT": "0"}


def shard(cfg, count, *envs):
    e = {}
    for x in envs:
        e.update(x)
    return {"cfg": cfg, "count": count, "env": e}


class Prop:
    def __init__(self, id, gen, quick, thorough=None, nontrivial=None, rule=""):
        self.id, self.gen = id, gen
        self.quick = quick
        self.thorough = thorough
        self._nt = nontrivial
        self.soft = SOFT.get(id, 60)  # seconds of search per worker, quick tier
        self.rule = rule

    def run(self, plan, worker):
        if "objects" in plan:
            return world.run(plan, worker.lib, worker)
        return (cacheworld if "cfg" in plan else callworld).run(plan, worker)

    def nontrivial(self, plan, o):
        return self._nt(plan, o)

    def sample(self, k, o):
        p = o.plan
        return {
            "run": k,
            "threads": [[describe(op) for op in t] for t in p["threads"]],
            "faults": p.get("faults", {}),
            "preemptions": len(p["sched"].get("switches", [])) - 1,
            "history": [e[:6] for e in o.events[:12]],
        }


def describe(op):
    d = {k: v for k, v in op.items() if k in ("op", "o", "id", "damp", "flags", "how", "kind")}
    if "c" in op:
        d["call"] = callworld.spec_key(op["c"])
        d["out"] = op["out"] if isinstance(op.get("out"), bool) else (op.get("out") or {}).get("fill")
    return d


def scale(shards, f):
    return [dict(s, count=int(s["count"] * f)) for s in shards]


def nt_overlap(plan, o):
    return o.stats["overlap"] > 0


def nt_fault(plan, o):
    return bool(o.stats["fired"]) or o.stats["rejected"] > 0


def nt_writes(plan, o):
    return sum(1 for t in plan["threads"] for op in t if op["op"] in ("set", "fit", "update", "new")) >= 2


def nt_any(plan, o):
    return nt_overlap(plan, o) or nt_fault(plan, o) or nt_writes(plan, o)


SOFT = {"C01": 90, "C02": 130, "C03": 90, "C04": 120, "C05": 170, "C06": 200, "C07": 160, "C08": 60, "C09": 60, "C20": 75, "C10": 110}
PROPS = {}


def add(p):
    PROPS[p.id] = p


C12 = {"dims": [1, 2]}
add(Prop(
    "C01", G.c01,
    [
        shard({"dims": [1], "lays": ["C", "C", "F", "R"], "big": True}, 390, BC),
        shard({"dims": [1, 2], "big": True}, 360, BC, POISON),
        shard({"dims": [2], "lays": ["C", "F"]}, 300, BC),
        shard({"dims": [1, 2, 3], "diff": False}, 270, POISON),
        shard({"dims": [3], "diff": True}, 220, BC, OPT0),
        shard({"dims": [2, 3], "kinds": ["LinearSpline", "LinearSplines", "CubicSplines"], "diff": False, "big": True}, 300, BC),
        shard({"dims": [4], "diff": False, "kinds": ["CubicSpline", "LinearSpline", "LinearSplines"]}, 180, OPT0, BC),
        shard({"dims": [4], "kinds": ["CubicSplines"]}, 150, OPT0),
    ],
    nontrivial=nt_writes,
    rule="a run is a seeded history of constructions, value updates and evaluations on 2-4 spline objects by 1-3 clients; "
         "non-trivial: it contains at least two updates/constructions; distinct by the hash of its event sequence",
))
add(Prop(
    "C02", G.c02,
    [
        shard({"dims": [1], "kinds": ["CubicSplines"]}, 3600, BC),
        shard({"dims": [1, 2], "kinds": ["CubicSpline"]}, 3600, BC),
        shard({"dims": [2], "kinds": ["CubicSplines"]}, 3200, BC),
        shard({"dims": [1, 2], "kinds": ["LinearSpline", "LinearSplines"]}, 4000, BC),
        shard({"dims": [1, 2]}, 3200, BC, POISON),
        shard({"dims": [3], "kinds": ["CubicSplines"]}, 2000, BC, OPT0),
        shard({"dims": [3], "kinds": ["CubicSpline", "LinearSplines", "LinearSpline"]}, 2400, BC),
        shard({"dims": [1, 2]}, 3200, POISON),
    ],
    nontrivial=nt_overlap,
    rule="a run is 2-4 threads doing 1-4 updates/evaluations each on 1-2 shared spline objects under a seeded schedule; "
         "non-trivial: at least two operations of different threads overlapped in time; distinct by the hash of the "
         "sequence of (thread, point) events, i.e. by interleaving",
))
add(Prop(
    "C03", G.c03,
    [
        shard({"dims": [1]}, 960, BC),
        shard({"dims": [1, 2], "fams": ["spline"]}, 1120, BC),
        shard({"dims": [2], "fams": ["spline"]}, 960, BC),
        shard({"dims": [1], "fams": ["poly"]}, 800, BC),
        shard({"dims": [1], "fams": ["smol"]}, 640),
        shard({"dims": [1], "fams": ["poly", "smol"]}, 640),
        shard({"dims": [1, 2], "fams": ["spline", "spline", "poly"]}, 960, POISON),
        shard({"dims": [3], "fams": ["spline"], "diff": False}, 640, BC),
    ],
    nontrivial=nt_fault,
    rule="a run is a seeded history on 1-3 interpolators with rejected updates, interrupts at a random executed line or call "
         "and failing calls (MemoryError) inside operations; non-trivial: a fault fired or an update was rejected; distinct "
         "by the hash of the event sequence",
))
def c04(seed, cfg):
    return (GC if cfg.get("world") == "calls" else G).c04(seed, cfg)


def nt_history(plan, o):
    return o.stats["ops"] >= 3


def nt_inplace(plan, o):
    return o.stats.get("in_place_calls", 0) >= 2


LAYS = ["C", "C", "C", "F", "A", "R"]
add(Prop(
    "C04", c04,
    [
        shard({"dims": [1, 2]}, 500, BC),
        shard({"dims": [1, 2, 3]}, 500, BC),
        shard({"dims": [1]}, 500),
        shard({"world": "calls", "names": K.SPLINE_EVAL + K.FLAT, "n": 36, "mseed": 1, "lays": LAYS, "dims": [1, 2]}, 900, OPT0),
        shard({"world": "calls", "names": K.COMPAT + K.FILTER, "n": 36, "mseed": 2, "lays": LAYS, "dims": [1, 2, 3]}, 900, OPT0),
        shard({"world": "calls", "names": K.OTHER + K.SMOL, "n": 40, "mseed": 3, "lays": LAYS, "dims": [1, 2, 4]}, 900, OPT0),
        shard({"world": "calls", "names": K.SPLINE_EVAL + K.FLAT, "n": 36, "mseed": 4, "lays": LAYS, "dims": [1, 2, 3]}, 900, OPT0),
        shard({"world": "calls", "names": K.ALL, "n": 40, "mseed": 5, "lays": LAYS, "dims": [1, 2]}, 900, OPT0),
    ],
    nontrivial=nt_history,
    rule="a run is a seeded history of library calls on objects or of stateless calls, in which the caller overwrites arrays it "
         "passed or received before; every array ever exchanged is compared bit by bit after every call; non-trivial: at least "
         "three calls; distinct by event hash",
))
add(Prop(
    "C05", GC.c05,
    [shard({"enum": [i, 8]}, 150, OPT0, POISON, *([BC] if i % 2 else [])) for i in range(8)],
    nontrivial=nt_inplace,
    rule="a run is a seeded history of 4-9 in-place (and some allocating) calls that share dirty, guarded output buffers and "
         "poisoned allocator memory; non-trivial: at least two in-place calls; distinct by event hash",
))
add(Prop(
    "C06", GC.c06,
    [
        shard({"dims": [1]}, 60, OPT0),
        shard({"dims": [1, 2], "lays": ["C", "C", "F", "A"]}, 60, OPT0),
        shard({"dims": [2]}, 60, OPT0),
        shard({"dims": [1], "lays": ["C", "F", "A", "R"]}, 60, OPT0),
        shard({"dims": [1, 2], "names": ["eval_spline"]}, 60, OPT0),
        shard({"dims": [1, 2], "names": K.FLAT}, 60, OPT0),
        shard({"dims": [1, 2, 3]}, 60, OPT0),
        shard({"dims": [1], "names": ["eval_spline", "eval_linear", "eval_cubic"], "lays": ["C", "F"]}, 60, OPT0),
    ],
    nontrivial=nt_history,
    rule="a run restarts the package and makes 6-10 first uses of specialisations (each one option away from an earlier one) in "
         "1-3 threads, with interrupts during code generation and rejected calls; non-trivial: at least three calls; distinct "
         "by event hash",
))
def nt_lives(plan, o):
    return o.stats["process_lives"] >= 2 and (o.stats["fired"] or any(d != "warm" for d in o.stats["damage"]))


add(Prop(
    "C07", GH.c07,
    [
        shard({"dims": [1], "mseed": 1}, 130, OPT0),
        shard({"dims": [2], "mseed": 2}, 120, OPT0),
        shard({"dims": [1, 2], "mseed": 3, "extra": ["hermite", "complete_polynomial", "mlinterp", "vec_eval_cubic_splines"]}, 100, OPT0),
        shard({"dims": [3], "mseed": 4}, 100, OPT0),
        shard({"dims": [1, 3], "mseed": 5}, 100, OPT0),
        shard({"dims": [2], "mseed": 6, "extra": ["interp", "eval_cubic", "eval_linear", "complete_polynomial_der"]}, 100, OPT0),
        shard({"dims": [1, 2], "mseed": 7, "own": True}, 400),
        shard({"dims": [2, 3], "mseed": 8}, 100, OPT0),
    ],
    nontrivial=nt_lives,
    rule="a run is 2-5 process lives (restarts of the package) over one compile-cache directory, which starts empty or with entries "
         "of earlier processes; crashes and disk errors strike at a random I/O operation and files are torn, emptied or lost between "
         "lives; non-trivial: at least two lives and one fault or damage; distinct by the sequence of (call, outcome, I/O count)",
))
def nt_saved(plan, o):
    return o.stats["restored"] > 0


add(Prop(
    "C20", G.c20,
    [
        shard({"dims": [1, 2], "fams": ["spline"], "kinds": ["CubicSpline", "CubicSplines"]}, 1000, BC),
        shard({"dims": [1, 2], "fams": ["spline"], "kinds": ["CubicSpline", "CubicSplines"], "restarts": [0]}, 2000, BC),
        shard({"dims": [1, 2], "fams": ["spline"], "kinds": ["LinearSpline", "LinearSplines"], "restarts": [0]}, 2000, BC),
        shard({"dims": [1, 2], "fams": ["spline"], "kinds": ["LinearSpline", "LinearSplines"]}, 300, OPT0),
        shard({"dims": [1], "fams": ["poly"]}, 1000),
        shard({"dims": [1], "fams": ["smol"]}, 1000),
        shard({"dims": [1], "fams": ["poly", "smol", "spline"], "kinds": ["CubicSpline", "CubicSplines"]}, 1000, POISON),
        shard({"dims": [3], "fams": ["spline"], "diff": False, "restarts": [0, 0, 0, 1]}, 1000, BC),
    ],
    nontrivial=nt_saved,
    rule="a run is a seeded history of updates, evaluations, rejected and cut updates, pickles and deep copies of 1-4 interpolators "
         "in 1-3 threads and 1-3 process lives, of which only pickled bytes survive; non-trivial: an object was restored; distinct "
         "by event hash",
))
add(Prop(
    "C10", GC.c10,
    [
        shard({"names": K.SPLINE_EVAL + K.FLAT, "n": 18, "mseed": 11, "dims": [1, 2], "lays": LAYS}, 1500, OPT0),
        shard({"names": K.COMPAT + K.FILTER, "n": 22, "mseed": 12, "dims": [1, 2]}, 1500, OPT0),
        shard({"names": K.OTHER + K.SMOL, "n": 24, "mseed": 13}, 1500),
        shard({"names": K.COMPAT + K.FILTER, "n": 18, "mseed": 14, "dims": [3, 4]}, 1200, OPT0),
        shard({"names": K.OTHER + K.FILTER, "n": 24, "mseed": 15, "dims": [1, 2, 3]}, 1500, OPT0, BC),
        shard({"names": K.SMOL, "n": 8, "mseed": 16}, 1200),
        shard({"names": K.SPLINE_EVAL, "n": 18, "mseed": 17, "dims": [1, 2, 3]}, 1500, OPT0, BC),
        shard({"names": K.ALL, "n": 26, "mseed": 18, "dims": [1, 2]}, 1500, OPT0, POISON),
    ],
    nontrivial=nt_overlap,
    rule="a run is 2-4 threads making 1-3 stateless calls each under a seeded schedule, with interrupts and failing calls; "
         "non-trivial: two calls of different threads overlapped; distinct by the hash of the (thread, point) sequence",
))
add(Prop(
    "C08", G.c08,
    [
        shard({"dmax": 5}, 850, BC),
        shard({"dmax": 5}, 850, POISON),
        shard({"dmax": 3}, 1020, BC),
        shard({"dmax": 5}, 850),
        shard({"dmax": 4}, 850, BC),
        shard({"dmax": 5}, 850, BC),
    ],
    nontrivial=nt_any,
    rule="a run is a seeded history of damped and undamped fits, rejected and cut fits and evaluations on 1-3 polynomials, "
         "in 1-3 threads (one writer); non-trivial: two fits or a fault or overlapping operations; distinct by event hash",
))
add(Prop(
    "C09", G.c09,
    [
        shard({}, 650), shard({}, 650, POISON), shard({"cheap": True}, 1000), shard({}, 650), shard({"cheap": True}, 1000),
        shard({}, 650), shard({"cheap": True}, 1000),
    ],
    nontrivial=nt_any,
    rule="a run builds 1-2 Smolyak grids with 1-4 interpolators and evaluates/updates them in 1-3 threads, with interrupts; "
         "non-trivial: two updates or a fault or overlapping operations; distinct by event hash",
))
