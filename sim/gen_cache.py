"""Seeded plans for C07: several process lives over one cache directory."""

import copy
import random

from . import calls as K
from .gen_objects import number

DAMAGE = ["lose-data", "lose-data", "lose-data", "lose-entry", "tear", "tear", "empty", "stray-tmp", "stray-tmp"]
NAMES = ["filter_coeffs", "filter_mcoeffs", "prefilter", "filter_cubic", "vec_eval_cubic_splines_G", "cartesian", "mlinspace", "nodes"]
_menus = {}


def menu(cfg):
    key = str(sorted(cfg.items()))
    if key not in _menus:
        r = random.Random(cfg.get("mseed", 1))
        out = []
        for d in cfg.get("dims", [1, 2]):
            for name in NAMES[:4]:
                for vec in ([False, True] if name not in ("filter_coeffs", "filter_mcoeffs") else [name == "filter_mcoeffs"]):
                    out.append({"call": name, "o": {"d": d, "vec": vec, "Vl": r.choice(["C", "C", "F"])}})
            out.append({"call": "vec_eval_cubic_splines_G", "o": {"d": d, "k": 3, "vec": True, "one": False, "Cl": "C", "Pl": "C"}})
        for name in NAMES[5:]:
            for order in ("C", "F") if name != "nodes" else ("C",):
                out.append({"call": name, "o": {"order": order}})
        for name in cfg.get("extra", []):
            out.append(K.gen_options(r, name, {"dims": cfg.get("dims", [1, 2])}))
        _menus[key] = out
    return _menus[key]


def c07(seed, cfg):
    r = random.Random(seed)
    m = menu(cfg)
    quick = [it for it in m if it["call"] not in ("prefilter", "filter_cubic")]  # (these compile a wrapper in every life)
    own = cfg.get("own", False)  # damage only what the library itself stores: nothing need be compiled again, so runs are short
    if own:
        m = quick
    fav = [r.choice(quick if r.random() < 0.8 else m) for _ in range(r.choice([1, 2, 3] if own else [2, 3, 4]))]
    if r.random() < 0.05:
        damage = ["lose-all"]
    else:
        damage = DAMAGE
    plan = {"cfg": cfg, "threads": [], "faults": {}, "sched": {"switches": []}, "final": []}

    used = []
    same = r.choice([0.4, 0.8, 0.9] if own else [0.0, 0.4, 0.8])

    def call(it):
        old = [c for c in used if c["call"] == it["call"] and c["o"] == it["o"]]
        if old and r.random() < same:  # what an earlier life computed already, or was computing when it died
            op = {"op": "call", "c": copy.deepcopy(r.choice(old))}
        else:
            op = {"op": "call", "c": K.gen_data(r, it)}
            used.append(op["c"])
        if op["c"].get("N", 0) > 100:
            op["c"]["N"] = 30
        if r.random() < 0.2:
            op["out"] = True
        return op

    warm = own or r.random() < 0.85
    for life in range(r.choice([2, 2, 3] if own else [1, 2, 2, 3, 3, 4])):
        ops = []
        if life == 0 and warm:
            ops.append({"op": "golden", "s": r.randrange(1 << 40), "p": r.choice([1.0, 1.0, 0.7]), "lost": r.choice([0.0, 0.0, 0.0, 0.2])})
            if own:
                ops[-1].update(p=1.0, lost=0.0)
        if (life > 0 or warm) and r.random() < 0.5:
            for _ in range(r.choice([1, 1, 2])):
                ops.append({"op": "damage", "kind": r.choice(damage), "which": r.randrange(1 << 20)})
                if own:
                    ops[-1]["own"] = True
        for _ in range(r.randint(1, 4)):
            ops.append(call(r.choice(fav) if r.random() < 0.9 else r.choice(m)))
        plan["threads"].append(ops)
    plan["final"] = [call(it) for it in fav[:2]]
    number(plan)
    ids = [op["id"] for t in plan["threads"] for op in t if op["op"] == "call"]
    for i in ids:
        if r.random() < 0.4:
            plan["faults"][str(i)] = {"kind": r.choice(["eio", "eacces", "enospc", "enospc", "crash", "tear", "tear"]),
                                      "at": int(10 ** r.uniform(0, 1.6))}
            if own:
                plan["faults"][str(i)].update(own=True, at=int(10 ** r.uniform(0, 0.9)))
    for life in range(len(plan["threads"])):  # files read or written while the package is imported
        if r.random() < 0.25 and not own:
            plan["faults"]["start%d" % life] = {"kind": r.choice(["eio", "enospc", "crash", "tear"]), "at": int(10 ** r.uniform(0, 0.8))}
    return plan
