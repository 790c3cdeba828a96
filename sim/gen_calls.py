"""Seeded plans of stateless calls (C04, C05, C06, C10)."""

import random

from . import calls as K
from .callworld import BADS
from .gen_objects import fault, handlers, number, sched

FILLS = ["nan", "nan", "huge", "rand", "keep", "keep", "zero", "inf"]
_menus = {}


def menu(cfg):
    """the specialisations a shard uses: a pure function of its configuration"""
    key = str(sorted(cfg.items()))
    if key not in _menus:
        if "enum" in cfg:
            its = enumerated(cfg)
        else:
            its = K.menu(cfg.get("mseed", 1), cfg.get("names", K.ALL), cfg.get("n", 14), cfg)
        _menus[key] = its
    return _menus[key]


def call_op(r, item, cfg, out=0.0, prev=None, q=0.5):
    """prev: calls generated before; with probability q the data is a relative of one of them"""
    c = K.gen_data(r, item)
    if prev is not None:
        olds = [p for p in prev if p["call"] == c["call"]]
        if olds and r.random() < q:
            same = [p for p in olds if p["o"] == c["o"]]
            c = K.relate(r, c, r.choice((same or olds)[-5:]))
        prev.append(c)
    if cfg.get("nbig") == "all" and c.get("N", 0) > 1:
        c["N"] = r.choice([130, 130, 300, 600, 1100])
    elif cfg.get("nbig") and c.get("N", 0) > 100:
        c["N"] = 40
    op = {"op": "call", "c": c}
    if K.REG[item["call"]].outs(c) and (item.get("out") or r.random() < out):
        op["out"] = {"fill": r.choice(FILLS), "s": r.randrange(1 << 40), "pool": r.choice([None, "p", "p", "q"])}
    if r.random() < cfg.get("slot", 0.3):
        op["slot"] = "s%d" % r.randrange(2)
    return op


# ---------------------------------------------------------------------------------- C05


def enumerated(cfg):
    """every combination of options that accepts an output buffer (cfg['enum'] = [index, of]); d=1,2 completely"""
    r = random.Random(77)
    its = []
    for d in (1, 2):
        kinds = [(1, list(g)) for g in ({1: ["u", "n"], 2: ["uu", "un", "nu", "nn"]}[d])] + [(3, ["u"] * d)]
        for k, gt in kinds:
            for vec in (False, True):
                for one in (False, True):
                    for ex in ("linear", "nearest", "constant"):
                        for diff in (False, True):
                            if one and not vec and not diff:
                                continue
                            o = {"d": d, "k": k, "gt": gt, "vec": vec, "one": one, "ex": ex,
                                 "diff": K.gen_orders(r, d, k) if diff else None, "Cl": "C", "Pl": "C", "style": "pos"}
                            its.append({"call": "eval_spline", "o": o})
                    for ex in (None, "linear", "nearest", "constant"):
                        if one and not vec:
                            continue
                        o = {"d": d, "k": k, "gt": gt, "vec": vec, "one": one, "ex": ex, "Cl": "C", "Pl": "C"}
                        its.append({"call": "eval_linear" if k == 1 else "eval_cubic", "o": o})
    for d in (1, 2, 3, 4):
        for name in K.COMPAT[1:]:
            if name == "vec_eval_cubic_splines_G" and d > 3:
                continue
            R = K.REG[name]
            its.append({"call": name, "o": {"d": d, "k": R.k, "vec": R.vec, "one": R.one, "Cl": "C", "Pl": "C"}})
        for name in ("prefilter", "filter_cubic"):
            for vec in (False, True):
                its.append({"call": name, "o": {"d": d, "vec": vec, "Vl": "C"}})
    for _ in range(24):
        it = K.gen_options(r, "eval_spline", {"dims": [3, 3, 3, 4]})
        if not (it["o"]["one"] and not it["o"]["vec"] and it["o"]["diff"] is None):
            it["o"].pop("tup", None)
            its.append(it)
    for i, it in enumerate(its):
        o = it["o"]
        it["out"] = True
        if it["call"] in ("eval_spline", "eval_linear", "eval_cubic", "prefilter", "filter_cubic") and r.random() < 0.1:
            o["user"] = "call" if it["call"] not in K.SPLINE_EVAL or o["one"] else r.choice(["call", "loop"])
        # layout of the output buffer (and sometimes of the inputs) is part of the specialisation
        if it["call"] != "vec_eval_cubic_splines_G":
            o["Ol"] = r.choice(["C", "C", "F", "A"])
            for k in ("Cl", "Pl", "Vl"):
                if k in o and r.random() < 0.15:
                    o[k] = r.choice(["F", "A"])
    r.shuffle(its)
    i, of = cfg["enum"]
    return its[i::of]


def c05(seed, cfg):
    r = random.Random(seed)
    m = menu(cfg)
    its = [r.choice(m) for _ in range(r.choice([2, 3, 4]))]
    ops, prev = [], []
    for _ in range(r.randint(4, 9)):
        it = r.choice(its)
        op = call_op(r, it, cfg, prev=prev, q=0.3)
        if r.random() < 0.2:
            op.pop("out", None)  # the allocating form, in poisoned memory
        elif ops and r.random() < 0.5:
            # the same sizes as an earlier call of this specialisation, so that the buffer is really reused
            like = [p for p in ops if p["c"]["call"] == it["call"] and p["c"]["o"] == it["o"] and "out" in p]
            if like:
                q = r.choice(like)
                for k in ("g", "N", "n_sp"):
                    if k in q["c"]:
                        op["c"][k] = q["c"][k]
                op["out"]["pool"] = q["out"]["pool"] or "p"
                op["out"]["fill"] = r.choice(["keep", "keep", "nan"])
        ops.append(op)
    nth = r.choice([1, 1, 1, 2])
    threads = [ops] if nth == 1 else [ops[0::2], ops[1::2]]
    plan = {"threads": threads, "sched": sched(r, nth), "faults": {}, "warm": False}
    number(plan)
    if r.random() < 0.3:
        i = r.randrange(len(ops))
        plan["faults"][str(i)] = {"kind": r.choice(["interrupt", "memory"]), "at": r.randint(1, 12)}
    return plan


# ---------------------------------------------------------------------------------- C10


def c10(seed, cfg):
    r = random.Random(seed)
    m = menu(cfg)
    nth = r.choice([2, 2, 3, 3, 4])
    its = [r.choice(m) for _ in range(r.choice([1, 2, 2, 3, 4]))]
    threads = []
    cfg = dict(cfg, nbig="all" if r.random() < 0.12 else True)  # long batches in all calls, or in none
    prev, q = [], r.choice([0.0, 0.5, 0.9, 0.9])
    for _ in range(nth):
        threads.append([call_op(r, r.choice(its), cfg, out=0.35, prev=prev, q=q) for _ in range(r.randint(1, 3))])
    plan = {"threads": threads, "sched": sched(r, nth), "faults": {}, "ledger": r.random() < 0.3,
            "final": [call_op(r, it, cfg) for it in its[:2]]}
    number(plan)
    ids = [op["id"] for t in threads for op in t]
    if r.random() < 0.45:
        for i in r.sample(ids, min(len(ids), r.choice([1, 1, 2]))):
            plan["faults"][str(i)] = fault(r)
    if r.random() < 0.35:
        more = [call_op(r, r.choice(its), cfg, out=0.2, prev=prev, q=max(q, 0.8)) for _ in range(r.choice([1, 1, 2, 3]))]
        for op in more:
            if "out" in op:
                op["out"].update(pool=None, fill="nan")
        plan["threads"].append(more)
        plan["_nested"] = True
        for i, op in enumerate(more):
            op["id"] = 2000 + i
        handlers(r, plan)
    return plan


# ---------------------------------------------------------------------------------- C04 (calls)


def c04(seed, cfg):
    r = random.Random(seed)
    m = menu(cfg)
    its = [r.choice(m) for _ in range(r.choice([1, 2, 3]))]
    ops, prev, q = [], [], r.choice([0.0, 0.5, 0.9])
    nbig = "all" if r.random() < 0.08 else True
    for _ in range(r.randint(3, 8)):
        if ops and r.random() < 0.25:
            ops.append({"op": "scribble", "which": r.randrange(1 << 20), "s": r.randrange(1 << 40)})
        else:
            ops.append(call_op(r, r.choice(its), dict(cfg, nbig=nbig), out=0.25, prev=prev, q=q))
    plan = {"threads": [ops], "sched": sched(r, 1), "faults": {}, "ledger": True}
    if r.random() < 0.3:
        plan["threads"] = [ops[0::2], ops[1::2]]
        plan["sched"] = sched(r, 2)
    return number(plan)


# ---------------------------------------------------------------------------------- C06


def mutate(r, item, cfg):
    """one option of the call changes, everything else stays"""
    name, o = item["call"], dict(item["o"])
    fresh = K.REG[name].options(r, cfg)
    keys = [k for k in fresh if k in o and fresh[k] != o[k]]
    if name in K.SPLINE_EVAL and r.random() < 0.2:
        new = {"eval_spline": "eval_linear" if o["k"] == 1 else "eval_cubic"}.get(name, "eval_spline")
        n = K.REG[new].options(r, cfg)
        for k in n:
            if k in o and k != "k":
                n[k] = o[k]
        n["k"] = o["k"] if new == "eval_spline" else K.REG[new].k
        if n["ex"] is None and new == "eval_spline":
            n["ex"] = "linear"
        return fix(r, {"call": new, "o": n})
    turn = [k for k in ("gt", "diff") if isinstance(o.get(k), list) and o[k][::-1] != o[k]]
    if turn and r.random() < 0.4:  # the same members in another order
        k = r.choice(turn)
        o[k] = o[k][::-1]
        return fix(r, {"call": name, "o": o})
    if isinstance(o.get("diff"), list) and len(o["diff"]) and r.random() < 0.15:  # one member more or less, or turned
        u = r.random()
        t = list(r.choice(o["diff"]))
        o["diff"] = o["diff"][:-1] if u < 0.4 and len(o["diff"]) > 1 else o["diff"] + [t[::-1]]
        return fix(r, {"call": name, "o": o})
    if not keys or r.random() < 0.1:
        return fix(r, {"call": name, "o": fresh})
    k = r.choice(keys)
    o[k] = fresh[k]
    return fix(r, {"call": name, "o": o})


def fix(r, it):
    o = it["o"]
    d = o.get("d")
    if d and "gt" in o and len(o["gt"]) != d:
        o["gt"] = (list(o["gt"]) * d)[:d]
    if o.get("diff") is not None and len(o["diff"][0]) != d:
        o["diff"] = [(list(t) + [0] * d)[:d] for t in o["diff"]]
    if o.get("k") == 3 and "gt" in o:
        o["gt"] = ["u"] * o["d"]
    if o.get("diff") is not None:
        if o["k"] == 3:
            o["diff"] = [[min(1, x) for x in t] for t in o["diff"]]
    if it["call"] == "interp":
        if o["d"] == 1 and o["ev"] == "point":
            o["ev"] = "cartesian"
        if o["d"] > 2 and o["ev"] == "cartesian":
            o["ev"] = "vectorized"
        o["one"] = o["ev"] in ("scalar", "point", "tuple")
    if o.get("tup") and not o.get("one") and it["call"] != "mlinterp":
        o.pop("tup")
    return it


def c06(seed, cfg):
    r = random.Random(seed)
    names = cfg.get("names", K.SPLINE_EVAL * 3 + K.FLAT * 2 + K.FILTER[:2] + ["vec_eval_cubic_splines", "complete_polynomial"])
    nth = r.choice([1, 1, 2, 2, 3])
    n = r.randint(*cfg.get("len", (6, 10)))
    its, ops, prev = [], [], []
    for _ in range(n):
        u = r.random()
        if its and u < 0.65:
            it = mutate(r, r.choice(its), cfg)
        elif its and u < 0.8:
            it = r.choice(its)  # again, later
        else:
            it = K.gen_options(r, r.choice(names), cfg)
        its.append(it)
        op = call_op(r, it, dict(cfg, nbig=True), out=0.3, prev=prev, q=0.4)
        if it["call"] in K.SPLINE_EVAL and r.random() < 0.08:
            op["op"], op["how"] = "bad", r.choice(BADS)
            op.pop("out", None)
        ops.append(op)
    threads = [ops[i::nth] for i in range(nth)]
    # threads that want the same specialisation at the same time
    if nth > 1 and r.random() < 0.5:
        it = r.choice(its)
        for t in threads:
            t.insert(r.randrange(len(t) + 1), call_op(r, it, dict(cfg, nbig=True)))
    plan = {"threads": threads, "sched": sched(r, nth, 1500), "faults": {}, "warm": False, "restart": True,
            "deep": r.random() < 0.06, "final": []}
    number(plan)
    ids = [op["id"] for t in threads for op in t if op["op"] == "call"]
    if r.random() < 0.6 and ids:
        hit = r.sample(ids, min(len(ids), r.choice([1, 1, 2, 3])))
        for i in hit:
            at = int(10 ** r.uniform(0, 4.6 if plan["deep"] else cfg.get("atmax", 2.8)))
            plan["faults"][str(i)] = {"kind": r.choice(["interrupt", "interrupt", "memory"]), "at": at}
        # once the faults are over the interrupted specialisations work
        done = [op for t in threads for op in t if op["id"] in hit]
        plan["final"] = [call_op(r, {"call": op["c"]["call"], "o": op["c"]["o"]}, dict(cfg, nbig=True)) for op in done[:2]]
        for j, op in enumerate(plan["final"]):
            op["id"] = 1000 + j
    return plan
