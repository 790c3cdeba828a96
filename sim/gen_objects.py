"""Seeded plans for the object worlds (C01, C02, C03, C04, C08, C09)."""

import random

from . import model as M
from . import objects as O

SP, PO, SG, SI = O.Splines(), O.Polys(), O.SmolGrids(), O.SmolInterps()


def sched(r, nth, horizon=400):
    if nth == 1:
        return {"seed": 0, "mode": "rand", "p": 0.0}
    u = r.random()
    if u < 0.35:
        return {"seed": r.randrange(1 << 40), "mode": "burst", "horizon": r.choice([40, horizon // 2, horizon])}
    if u < 0.65:
        return {"seed": r.randrange(1 << 40), "mode": "rand", "p": r.choice([0.5, 0.3, 0.15, 0.08, 0.04, 0.02])}
    return {"seed": r.randrange(1 << 40), "mode": "pct", "depth": r.choice([1, 2, 3, 5, 8]),
            "horizon": r.choice([60, 150, horizon, 2 * horizon])}


def number(plan):
    i = 0
    for t in [plan.get("pre", [])] + plan["threads"] + [plan.get("final", [])]:
        for op in t:
            op["id"] = i
            i += 1
    return plan


def orig(plan, o):
    s = plan["objects"][o]
    return orig(plan, s["copy_of"]) if "copy_of" in s else s


def smol_T(gspec):
    return len(M.smol_points(gspec["dim"], gspec["mu"]))


def fault(r):
    f = {"kind": r.choice(["interrupt", "interrupt", "memory"]), "u": r.random()}
    if f["kind"] == "memory" and r.random() < 0.5:
        # a retry fails as well, at once or after a few successful calls
        f["again"] = r.choice([1, 3, 31, r.getrandbits(40)] + [1 << r.randrange(k) for k in (4, 12, 12, 30)])
    return f


def nested(r, plan, make, p):
    """operations for handlers, as one more thread (so that their inputs become relatives of the others too)"""
    if r.random() < p:
        plan["threads"].append([op for op in (make() for _ in range(r.choice([1, 1, 2]))) if op])
        plan["_nested"] = True
    return plan


def handlers(r, plan):
    """the last thread becomes handlers that strike in the middle of operations of the other ones"""
    if not plan.pop("_nested", False):
        return plan
    ops = plan["threads"].pop()
    hosts = [op for t in plan["threads"] for op in t if op["op"] != "scribble"]
    for op in ops:
        op.pop("slot", None)
        if hosts:
            # mostly on the same object, or the same specialisation, or the same function
            like = [h for h in hosts if "c" in h and h["c"]["call"] == op["c"]["call"]] if "c" in op else [h for h in hosts if h.get("o") == op["o"]]
            like = [h for h in like if "c" in h and h["c"]["o"] == op["c"]["o"]] or like
            host = r.choice(like if like and r.random() < 0.85 else hosts)
            k = str(host["id"])
            if k not in plan.setdefault("faults", {}):
                plan["faults"][k] = {"kind": "handler", "u": r.random(), "run": [op]}
    return plan


def read_of(r, plan, o, cfg):
    s = plan["objects"][o]
    if s["fam"] == "spline":
        if r.random() < cfg.get("pgrid", 0.06):
            return {"op": "grid", "o": o}
        return dict(SP.gen_eval(r, s, cfg.get("big", False), cfg.get("lays", ("C",)), cfg.get("diff", True)), o=o)
    if s["fam"] == "poly":
        return dict(PO.gen_read(r, s), o=o)
    return dict(SI.gen_read(r, s), o=o)


def write_of(r, plan, o, cfg, st):
    """st: generator's own notes per object (fitted yet, number of outputs)"""
    s = plan["objects"][o]
    if s["fam"] == "spline":
        op = {"op": "set", "v": SP.gen_values(r, s, cfg.get("n_sp"), lays=cfg.get("vlays", ("C", "C", "F", "A", "R", "N")), plain=cfg.get("plain", False))}
        if r.random() < 0.3:
            op["slot"] = "v%d" % r.randrange(2)
            op["v"]["lay"], op["v"]["dt"] = "C", "f8"
        return dict(op, o=o)
    if s["fam"] == "poly":
        k = st.setdefault(o, {"fit": False, "m": None})
        if not k["fit"] or r.random() < 0.35:
            if not k["fit"] or not cfg.get("keep_m"):  # a cut fit leaves the number of outputs open: keep it fixed
                k["m"] = r.choice([None, None, 1, 2, 3])
            k["fit"] = True
            return dict(PO.gen_fit(r, s, k["m"], 0.0), o=o)
        if cfg.get("nodamp"):
            return dict(PO.gen_fit(r, s, k["m"], 0.0), o=o)
        return dict(PO.gen_fit(r, s, k["m"], r.choice([0.0, 0.1, 0.3, 0.5, 0.5, 0.9, 1.0])), o=o)
    T = smol_T(orig(plan, s["g"]))
    return dict(SI.gen_update(r, T), o=o)


def bad_of(r, plan, o, st):
    s = plan["objects"][o]
    if s["fam"] == "spline":
        if r.random() < 0.2 and s["kind"].startswith("Cubic"):
            return {"op": "badeval", "o": o, "how": r.choice(["nan", "dim"]) if s["kind"] == "CubicSplines" else "nan",
                    "p": {"s": r.randrange(1 << 40), "N": 4, "w": "in", "lay": "C"}}
        return {"op": "badset", "v": SP.gen_bad_values(r, s), "o": o}
    if s["fam"] == "poly":
        return dict(PO.gen_bad(r, s, st.get(o, {"m": None})["m"]), o=o)
    return dict(SI.gen_update(r, smol_T(orig(plan, s["g"])), bad=True), o=o)


def either(r, plan, o, cfg, st):
    return write_of(r, plan, o, cfg, st) if r.random() < 0.4 else read_of(r, plan, o, cfg)


def sprinkle(r, plan, p=0.35):
    """a single client that also overwrites arrays it passed or received before, and checks that none changes by itself"""
    if len(plan["threads"]) > 1 or r.random() > p:
        return plan
    plan["ledger"] = True
    t = plan["threads"][0]
    o = t[0]["o"] if t else 0
    for _ in range(r.choice([0, 1, 2, 4])):
        t.insert(r.randint(1, max(1, len(t))), {"op": "scribble", "o": o, "which": r.randrange(1 << 20), "s": r.randrange(1 << 40)})
    return plan


EPS = [1e-2, 1e-3, 1e-5, 1e-6, 1e-7]


def rel_of(r, arrays=True):
    u = r.random()
    if u < 0.35:
        return None  # the very same numbers
    if u < 0.6:
        return [r.choice(["nudge", "nudge", "col"]) if arrays else "nudge", r.randrange(1 << 40), r.choice(EPS)]
    if u < 0.65 and arrays:
        return ["col", r.randrange(1 << 40), 1.0]
    if u < 0.75:
        return ["cell", r.randrange(1 << 40), r.choice(EPS + [1.0])]
    if u < 0.85:
        return ["flip"]
    if u < 0.92 or not arrays:
        return ["roll"]
    return r.choice([["neg"], ["end", 0, r.choice(EPS + [1.0])]])


def relate(r, plan, q=0.45):
    """turns the inputs of many operations into relatives of inputs used earlier in the run: equal, slightly
    different, permuted (memo tables, skipped updates and shared scratch memory show up there)"""
    objs = plan["objects"]
    pts, vals, fits, smp = {}, {}, [], []

    def link(mine, pool, keys, ok=lambda e: True, arrays=True):
        c = [e for e in pool if ok(e)]
        if c and r.random() < q:
            e = r.choice(c[-6:])
            for k in keys:
                if k in e:
                    mine[k] = e[k]
                else:
                    mine.pop(k, None)
            rel = rel_of(r, arrays)
            if rel:
                mine["rel"] = rel
        pool.append(dict(mine))

    for s in objs:
        if s.get("v"):
            vals.setdefault(tot(s["v"]), []).append(dict(s["v"]))
        if s["fam"] == "smol" and "f" in s:
            vals.setdefault(("f", tot(s["f"])), []).append(dict(s["f"]))
    seq = list(plan.get("pre", []))
    n = max([len(t) for t in plan["threads"]] or [0])
    for i in range(n):
        seq += [t[i] for t in plan["threads"] if i < len(t)]
    seq += plan.get("final", [])
    for op in seq:
        if op["op"] in ("save", "load", "restart"):
            continue
        s = objs[op["o"]]
        while "copy_of" in s:
            s = objs[s["copy_of"]]
        if op["op"] in ("set",):
            link(op["v"], vals.setdefault(tot(op["v"]), []), ("s", "k"), lambda e: e.get("dt", "f8") == op["v"].get("dt", "f8"))
        elif op["op"] == "update":
            link(op["f"], vals.setdefault(("f", tot(op["f"])), []), ("s", "k"))
        elif op["op"] == "fit":
            same = [e for e in fits if e[0] == s["n"] and e[1]["N"] >= 2 * terms(s) + 3]
            if same and r.random() < q:
                e = r.choice(same[-4:])
                op["s"].update({k: e[1][k] for k in ("s", "N")})
                op["x"]["sh"][0] = e[1]["N"]
                rel = rel_of(r) if r.random() < 0.6 else None
                if rel:
                    op["s"]["rel"] = rel
                if r.random() < 0.6 and e[2]["sh"] == op["x"]["sh"]:
                    op["x"].update({k: e[2][k] for k in ("s", "k")})
                    rel = rel_of(r)
                    if rel:
                        op["x"]["rel"] = rel
            fits.append((s["n"], dict(op["s"]), {"s": op["x"]["s"], "k": op["x"]["k"], "sh": list(op["x"]["sh"])}))
        elif s["fam"] == "poly" and op["op"] in ("call", "der"):
            link(op["s"], pts.setdefault(("poly", s["n"]), []), ("s", "N"))
        elif "p" in op and op["op"] != "badeval":
            one = op["op"] in ("call1", "interp1")
            key = (s["fam"], one, len(s["n"]) if "n" in s else s.get("g"))
            link(op["p"], pts.setdefault(key, []), ("s", "N", "w"), arrays=False)
            if op["op"] == "diff" and op["p"]["w"] == "brink":
                op["p"]["w"] = "edge"
    return plan


def terms(s):
    return PO.nterms(s)


def tot(v):
    k = 1
    for m in v["sh"]:
        k *= m
    return k


# ------------------------------------------------------------------------------------------ C01


def c01(seed, cfg):
    r = random.Random(seed)
    plan = {"world": "objects", "objects": [], "threads": [], "final": []}
    nth = r.choice([1, 1, 2, 3])
    nobj = r.randint(max(nth, 2), 4)
    for i in range(nobj):
        d = r.choice(cfg["dims"])
        s = SP.gen_spec(r, d, cfg.get("kinds"), None, ("C", "C", "F", "A", "R"))
        if i and r.random() < 0.4:  # same sizes as an earlier object, other bounds: a twin
            p = plan["objects"][r.randrange(i)]
            s["n"] = list(p["n"])
            s["a"], s["b"] = list(p["a"]), list(p["b"])
            u = r.random()  # the same grid, or one that differs in some of its parameters only
            if u < 0.3:
                k = r.randrange(len(s["n"]))
                s["b"][k] = s["b"][k] + (s["b"][k] - s["a"][k]) * r.choice([0.5, 1.0, 1e-3])
            elif u < 0.5:
                k = r.randrange(len(s["n"]))
                s["a"][k] = s["a"][k] - (s["b"][k] - s["a"][k]) * r.choice([0.5, 1.0, 1e-3])
            elif u < 0.6:
                s["a"], s["b"] = [x + 0.37 for x in s["a"]], [x + 0.9 for x in s["b"]]
            elif u < 0.7:
                s["n"] = s["n"][::-1]
            elif u < 0.8:
                s["n"][r.randrange(len(s["n"]))] += 1
            if r.random() < 0.5:
                s["kind"] = p["kind"]
            old = p.get("v")
            s.pop("v", None)
            s["v"] = SP.gen_values(r, s)
            if old and tot(old) == tot(s["v"]) and r.random() < 0.5:
                s["v"].update(s=old["s"], k=old["k"])
                rel = rel_of(r)
                if rel:
                    s["v"]["rel"] = rel
        s["late"] = r.random() < 0.4
        s["reuse"] = r.random() < 0.3
        plan["objects"].append(s)
    owner = [i if i < nth else r.randrange(nth) for i in range(nobj)]
    st = {}
    for t in range(nth):
        mine = [o for o in range(nobj) if owner[o] == t]
        have = {o for o in mine if not plan["objects"][o].get("late") and plan["objects"][o].get("v")}
        built = {o for o in mine if not plan["objects"][o].get("late")}
        ops = []
        long = nth == 1 and r.random() < 0.06  # many operations on the same objects
        for _ in range(r.randint(40, 90) if long else r.randint(4, 14) if nth == 1 else r.randint(3, 7)):
            o = r.choice(mine)
            if o not in built:
                ops.append({"op": "new", "o": o})
                built.add(o)
                if plan["objects"][o].get("v"):
                    have.add(o)
            elif o not in have or r.random() < 0.35:
                ops.append(write_of(r, plan, o, cfg, st))
                have.add(o)
            else:
                ops.append(read_of(r, plan, o, cfg))
        plan["threads"].append(ops)
        plan["final"] += [read_of(r, plan, o, cfg) for o in mine if o in have]
        if r.random() < 0.3:
            plan["final"] += [{"op": "grid", "o": o} for o in mine if o in built]
    plan["sched"] = sched(r, nth)
    sprinkle(r, plan)
    nested(r, plan, lambda: either(r, plan, r.choice([o for o in range(nobj) if not plan["objects"][o].get("late")] or [0]), cfg, st), 0.15)
    return handlers(r, number(relate(r, plan, r.choice([0.0, 0.5, 0.8]))))


# ------------------------------------------------------------------------------------------ C02


def c02(seed, cfg):
    r = random.Random(seed)
    plan = {"world": "objects", "objects": [], "threads": [], "final": []}
    nobj = r.choice([1, 1, 1, 2])
    for _ in range(nobj):
        plan["objects"].append(SP.gen_spec(r, r.choice(cfg["dims"]), cfg.get("kinds"), True, nmax=5))
    nth = r.choice([2, 2, 3, 3, 4])
    cfg = dict(cfg, plain=True, big=False, pgrid=0.1)
    style = r.choice(["roles", "roles", "mixed", "mixed"])
    if r.random() < 0.5:
        cfg["n_sp"] = r.choice([1, 2, 2, 3])  # updates of one shape
    least = r.choice([1, 1, 2, 3])
    st = {}
    for t in range(nth):
        ops = []
        for _ in range(r.randint(least, 4)):
            o = r.randrange(nobj)
            w = (t == 0 or (t == 1 and nth > 2 and r.random() < 0.5)) if style == "roles" else r.random() < 0.45
            ops.append(write_of(r, plan, o, cfg, st) if w else read_of(r, plan, o, cfg))
        plan["threads"].append(ops)
    plan["final"] = [read_of(r, plan, o, cfg) for o in range(nobj)]
    plan["sched"] = sched(r, nth, 200)
    nested(r, plan, lambda: either(r, plan, r.randrange(nobj), cfg, st), 0.15)
    return handlers(r, number(relate(r, plan, r.choice([0.0, 0.3, 0.6]))))


# ------------------------------------------------------------------------------------------ C03


def add_smol(r, plan, n_interp=1, cheap=True):
    g = len(plan["objects"])
    gs = SG.gen_spec(r, cheap)
    gs["reuse"] = r.random() < 0.3
    twins = [s for s in plan["objects"] if s["fam"] == "smolgrid"]
    if twins and r.random() < 0.6:  # a relative of a grid that exists already
        t = r.choice(twins)
        gs.update(dim=t["dim"], mu=t["mu"], form=t["form"])
        u = r.random()
        if u < 0.35:
            gs["mu"] = [r.choice([1, 2])] * (t["dim"] - 1) + [r.choice([1, 2, 3] if t["dim"] == 2 else [1, 2])] if not isinstance(t["mu"], list) else t["mu"][::-1]
        if u > 0.2 or not isinstance(gs["lb"], (list, type(None))) or (isinstance(gs["lb"], list) and len(gs["lb"]) != t["dim"]):
            gs["lb"], gs["ub"] = t["lb"], t["ub"]
            if u > 0.6 and t["lb"] is not None:
                gs["ub"] = [x + 0.5 for x in t["ub"]] if isinstance(t["ub"], list) else t["ub"] + 0.5
    plan["objects"].append(gs)
    T = smol_T(gs)
    ids = []
    for _ in range(n_interp):
        plan["objects"].append({"fam": "smol", "g": g, "f": SI.gen_f(r, T)})
        ids.append(len(plan["objects"]) - 1)
    return ids


# ------------------------------------------------------------------------------------------ C20


def c20(seed, cfg):
    """objects are saved (pickle) and copied at any moment; the copies live on, in this process or in a later one"""
    r = random.Random(seed)
    plan = {"world": "objects", "objects": [], "threads": [], "final": [], "faults": {}}
    O_ = plan["objects"]
    ids = []
    for _ in range(r.choice([1, 1, 2])):
        f = r.choice(cfg.get("fams", ["spline", "spline", "poly", "smol"]))
        if f == "spline":
            s = SP.gen_spec(r, r.choice(cfg["dims"]), cfg.get("kinds"), True, nmax=5)
            if ids and O_[ids[0]]["fam"] == "spline" and r.random() < 0.5:
                p = O_[ids[0]]
                s.update(kind=p["kind"], n=list(p["n"]), a=list(p["a"]), b=[x + 0.25 for x in p["b"]] if r.random() < 0.5 else list(p["b"]))
                s["v"] = SP.gen_values(r, s)
            O_.append(s)
            ids.append(len(O_) - 1)
        elif f == "poly":
            O_.append(PO.gen_spec(r, nmax=2, dmax=4))
            ids.append(len(O_) - 1)
        else:
            ids += add_smol(r, plan, r.choice([1, 1, 2]))
    cfg = dict(cfg, plain=True, big=False, keep_m=True, n_sp=r.choice([None, 2]))
    st = {}
    root = lambda o: root(O_[o]["copy_of"]) if "copy_of" in O_[o] else o

    def on(f, o, *a):
        """an operation for object o, which may be a restored one"""
        op = f(r, plan, root(o), *a)
        op["o"] = o
        return op

    plan["pre"] = [on(write_of, o, cfg, st) for o in ids if O_[o]["fam"] == "poly"]
    polys = [o for o in ids if O_[o]["fam"] == "poly"]
    nslot = [0]
    saved = []  # (slot, objects, how)
    live = list(ids)

    def save(cands, hows=("pickle2", "pickle4", "pickle5", "pickle5", "deepcopy", "deepcopy")):
        k = r.choice([1, 1, 1, 2])
        os_ = r.sample(cands, min(k, len(cands)))
        smol = [o for o in os_ if O_[root(o)]["fam"] == "smol" and o == root(o)]
        if smol and r.random() < 0.4:
            os_ = os_ + [O_[smol[0]]["g"]]
        s = {"op": "save", "o": os_[0], "os": os_, "slot": "s%d" % nslot[0], "how": r.choice(hows)}
        nslot[0] += 1
        saved.append(s)
        return s

    def load(s):
        to = []
        for o in s["os"]:
            O_.append({"fam": O_[root(o)]["fam"], "copy_of": root(o), "late": True})
            to.append(len(O_) - 1)
        op = {"op": "load", "o": to[0], "to": to, "slot": s["slot"]}
        more = []
        for c in to:
            if O_[c]["fam"] != "smolgrid":
                live.append(c)
            else:  # a new interpolator on the restored grid
                O_.append({"fam": "smol", "g": c, "f": SI.gen_f(r, smol_T(O_[root(c)])), "late": True})
                more.append({"op": "new", "o": len(O_) - 1})
                live.append(len(O_) - 1)
        return [op] + more

    def some(n, pool, ops, p_save=0.25, bad=True, nodamp=False):
        c = dict(cfg, nodamp=True) if nodamp else cfg
        for _ in range(n):
            o = r.choice(pool())
            u = r.random()
            if u < p_save:
                ops.append(save([x for x in pool()]))
                if r.random() < 0.6:
                    ops += load(saved[-1])
            elif u < 0.55:
                ops.append(on(write_of, o, c, st))
                if r.random() < 0.5:
                    ops.append(on(read_of, r.choice([o] + pool()), c))
            elif u < 0.62 and bad:
                ops.append(on(bad_of, o, st))
            else:
                ops.append(on(read_of, o, c))

    nth = r.choice([1, 1, 2, 3]) if len(polys) < len(ids) else 1
    if nth == 1:
        ops = []
        some(r.randint(3, 8), lambda: live, ops)
        plan["threads"].append(ops)
    else:
        for t in range(nth):
            mine = [o for o in ids if o not in polys] + (polys if t == 0 else [])
            ops = []
            some(r.randint(2, 4), lambda m=mine: m, ops, 0.4 if t else 0.15, False, True)
            for x in [x for x in ops if x["op"] == "load"]:  # the thread goes on with its own copy
                for c in x["to"]:
                    if O_[c]["fam"] in ("spline", "smol") and r.random() < 0.7:
                        k = ops.index(x)
                        op = on(read_of, c, cfg) if r.random() < 0.7 else on(write_of, c, cfg, st)
                        ops.insert(r.randint(k + 1, len(ops)), op)
            plan["threads"].append(ops)
    fin = plan["final"]
    fin += [on(read_of, o, cfg) for o in r.sample(live, min(3, len(live)))]
    if not any(s["how"] != "deepcopy" for s in saved) or r.random() < 0.5:
        fin.append(save(live, ("pickle2", "pickle4", "pickle5")))
    back = [s for s in saved if s["how"] != "deepcopy"]
    for _ in range(r.choice(cfg.get("restarts", [0, 1, 1, 2]))):
        fin.append({"op": "restart", "o": ids[0]})
        live.clear()
        if r.random() < 0.4 and any(O_[o]["fam"] == "spline" for o in ids):  # the new process builds objects of its own
            n = len(O_)
            p = O_[r.choice([o for o in ids if O_[o]["fam"] == "spline"])]
            q = SP.gen_spec(r, len(p["n"]), [p["kind"]], True, nmax=5)
            if r.random() < 0.7:  # ... like the saved ones
                q["n"] = list(p["n"])
                q["v"] = dict(p["v"], s=r.randrange(1 << 40))
                q["v"].pop("rel", None)
            O_.append(dict(q, late=True))
            fin.append({"op": "new", "o": n})
            fin.append(on(read_of, n, cfg))
            live.append(n)
        for s in r.sample(back, min(len(back), r.choice([1, 2, 3]))):
            fin += load(s)
        if not live:
            fin += load(back[-1])
        for o in r.sample(live, min(3, len(live))):
            fin.append(on(read_of, o, cfg))
        if r.random() < 0.7:
            some(r.randint(1, 4), lambda: live, fin, 0.2)
            fin += [on(read_of, o, cfg) for o in r.sample(live, min(2, len(live)))]
        back = [s for s in saved if s["how"] != "deepcopy"]
    if not any(op["op"] == "restart" for op in fin):
        for s in r.sample(saved, min(2, len(saved))):
            fin += load(s)
        fin += [on(read_of, o, cfg) for o in r.sample(live, min(3, len(live)))]
    number(relate(r, plan, r.choice([0.0, 0.3, 0.6])))
    victims = [op for t in plan["threads"] for op in t if op["op"] in ("set", "fit", "update", "save", "load", "new")]
    r.shuffle(victims)
    for op in victims[: r.choice([0, 0, 1, 1, 2])]:
        plan["faults"][str(op["id"])] = fault(r)
    plan["sched"] = sched(r, nth, 200)
    return plan


def c03(seed, cfg):
    r = random.Random(seed)
    plan = {"world": "objects", "objects": [], "threads": [], "final": [], "faults": {}}
    ids = []
    for _ in range(r.choice([1, 2, 2, 3])):
        f = r.choice(cfg.get("fams", ["spline", "spline", "poly", "smol"]))
        if f == "spline":
            plan["objects"].append(SP.gen_spec(r, r.choice(cfg["dims"]), cfg.get("kinds"), True, nmax=5))
            ids.append(len(plan["objects"]) - 1)
        elif f == "poly":
            plan["objects"].append(PO.gen_spec(r, nmax=2, dmax=4))
            ids.append(len(plan["objects"]) - 1)
        else:
            ids += add_smol(r, plan, r.choice([1, 1, 2]))
    st = {}
    cfg = dict(cfg, plain=True, big=False, keep_m=True)
    polys = [o for o in ids if plan["objects"][o]["fam"] == "poly"]
    others = [o for o in ids if o not in polys]
    nth = r.choice([1, 1, 1, 2]) if others else 1
    if nth == 2:
        cfg["nodamp"] = True
    victims = []
    plan["pre"] = [write_of(r, plan, o, cfg, st) for o in polys]
    for t in range(nth):
        ops = []
        for _ in range(r.randint(3, 8) if nth == 1 else r.randint(2, 4)):
            o = r.choice(others) if t else r.choice(ids)
            u = r.random()
            if u < 0.35:
                op = write_of(r, plan, o, cfg, st)
                if r.random() < 0.6:
                    victims.append(op)
                ops.append(op)
                if r.random() < 0.7:
                    ops.append(read_of(r, plan, o, cfg))
            elif u < 0.6:
                op = bad_of(r, plan, o, st)
                ops.append(op)
                if r.random() < 0.1:
                    victims.append(op)
                if r.random() < 0.8:
                    ops.append(read_of(r, plan, o, cfg))
            else:
                op = read_of(r, plan, o, cfg)
                if r.random() < 0.3:
                    victims.append(op)
                ops.append(op)
        plan["threads"].append(ops)
    fresh = [o for o in ids if plan["objects"][o]["fam"] == "smol"] if nth == 1 and r.random() < 0.4 else []
    for o in fresh:  # built during the run, perhaps cut while being built; later built again on the same grid
        plan["objects"][o]["late"] = True
        op = {"op": "new", "o": o}
        plan["threads"][0].insert(0, op)
        victims += [op, op]
        plan["final"].append({"op": "new", "o": o})
    for o in ids:
        plan["final"].append(read_of(r, plan, o, cfg))
        if r.random() < 0.5 and (plan["objects"][o]["fam"] != "poly" or nth == 1):
            plan["final"].append(write_of(r, plan, o, cfg, st))
            plan["final"].append(read_of(r, plan, o, cfg))
    for o in ids:  # the enumeration of the nodes, perhaps cut the first time
        if plan["objects"][o]["fam"] == "spline" and r.random() < 0.35:
            op = {"op": "grid", "o": o}
            plan["threads"][0].insert(r.randint(0, len(plan["threads"][0])), op)
            victims += [op, op]
            plan["final"].append({"op": "grid", "o": o})
    number(relate(r, plan, r.choice([0.0, 0.3, 0.6])))
    r.shuffle(victims)
    for op in victims[: r.choice([0, 1, 1, 2, 3])]:
        plan["faults"][str(op["id"])] = fault(r)
    plan["sched"] = sched(r, nth)
    return plan


# ------------------------------------------------------------------------------------------ C04


def c04(seed, cfg):
    """one client that keeps, reuses and scribbles over every array it ever passed or received"""
    r = random.Random(seed)
    plan = {"world": "objects", "objects": [], "threads": [[]], "final": [], "ledger": True}
    ids = []
    for _ in range(r.choice([1, 2, 2])):
        f = r.choice(cfg.get("fams", ["spline", "spline", "spline", "poly", "smol"]))
        if f == "spline":
            s = SP.gen_spec(r, r.choice(cfg["dims"]), cfg.get("kinds"), True, ("C", "C", "C", "F", "R"))
            s["form"] = r.choice(["arr", "arr", "arr32", "list"])
            s["v"]["dt"] = "f8"
            plan["objects"].append(s)
            ids.append(len(plan["objects"]) - 1)
        elif f == "poly":
            plan["objects"].append(PO.gen_spec(r, nmax=2, dmax=3))
            ids.append(len(plan["objects"]) - 1)
        else:
            ids += add_smol(r, plan, r.choice([1, 2]))
    st = {}
    ops = plan["threads"][0]
    cfg = dict(cfg, big=False, vlays=("C", "C", "C", "F", "A", "R"))
    plan["pre"] = [write_of(r, plan, o, cfg, st) for o in ids if plan["objects"][o]["fam"] == "poly"]
    scr = lambda: {"op": "scribble", "o": ids[0], "which": r.randrange(1 << 20), "s": r.randrange(1 << 40)}
    for _ in range(r.randint(4, 9)):
        o = r.choice(ids)
        u = r.random()
        if u < 0.25:
            w = write_of(r, plan, o, cfg, st)
            if r.random() < 0.7:
                for k in ("v", "x", "f"):
                    if k in w:
                        w[k]["dt"] = "f8"
            ops.append(w)
        elif u < 0.6:
            ops.append(read_of(r, plan, o, cfg))
        else:
            for _ in range(r.choice([1, 1, 3])):
                ops.append(scr())
            ops.append(read_of(r, plan, o, cfg))
    for o in ids:
        plan["final"].append(read_of(r, plan, o, cfg))
        plan["final"] += [scr() for _ in range(4)]
        plan["final"].append(read_of(r, plan, o, cfg))
    plan["sched"] = sched(r, 1)
    return number(relate(r, plan, r.choice([0.0, 0.4, 0.8])))


# ------------------------------------------------------------------------------------------ C08


def c08(seed, cfg):
    r = random.Random(seed)
    plan = {"world": "objects", "objects": [], "threads": [], "final": [], "faults": {}}
    nobj = r.choice([1, 1, 2, 3])
    for i in range(nobj):
        s = PO.gen_spec(r, dmax=cfg.get("dmax", 5))
        if i and r.random() < 0.5:
            s = dict(plan["objects"][0])
        plan["objects"].append(s)
    nth = r.choice([1, 1, 1, 2, 2, 3])
    st = {}
    victims = []
    faulty = r.random() < 0.4
    cfg = dict(cfg, keep_m=faulty)
    plan["pre"] = [write_of(r, plan, o, cfg, st) for o in range(nobj)]
    sizes = {}
    for t in range(nth):
        ops = []
        for _ in range(r.randint(4, 10) if nth == 1 else r.randint(2, 4)):
            o = r.randrange(nobj)
            if t == 0 and r.random() < 0.5:
                if r.random() < 0.12:
                    op = bad_of(r, plan, o, st)
                else:
                    op = write_of(r, plan, o, cfg, st)
                    if r.random() < 0.5:  # same samples as before, other data, or the same number of samples
                        if o in sizes:
                            N = sizes[o]
                            op["s"]["N"] = N
                            op["x"]["sh"][0] = N
                        sizes[o] = op["s"]["N"]
                    victims.append(op)
                ops.append(op)
                if nth == 1 and r.random() < 0.6:
                    ops.append(read_of(r, plan, o, cfg))
            else:
                op = read_of(r, plan, o, cfg)
                if r.random() < 0.15:
                    victims.append(op)
                ops.append(op)
        plan["threads"].append(ops)
    plan["final"] = [read_of(r, plan, o, cfg) for o in range(nobj)] + [
        dict(write_of(r, plan, o, cfg, st)) for o in range(nobj)] + [read_of(r, plan, o, cfg) for o in range(nobj)]
    sprinkle(r, plan)
    nested(r, plan, lambda: read_of(r, plan, r.randrange(nobj), cfg), 0.15)
    number(relate(r, plan, r.choice([0.0, 0.4, 0.8])))
    r.shuffle(victims)
    if faulty:
        for op in victims[: r.choice([1, 1, 2])]:
            plan["faults"][str(op["id"])] = fault(r)
    plan["sched"] = sched(r, nth)
    return handlers(r, plan)


# ------------------------------------------------------------------------------------------ C09


def c09(seed, cfg):
    r = random.Random(seed)
    plan = {"world": "objects", "objects": [], "threads": [], "final": [], "faults": {}}
    ids = []
    for _ in range(r.choice([1, 1, 2])):
        ids += add_smol(r, plan, r.choice([1, 2, 2, 3]), cheap=cfg.get("cheap", False))
    nth = r.choice([1, 1, 2, 2, 3])
    st = {}
    cfg = dict(cfg)
    victims = []
    for t in range(nth):
        ops = []
        for _ in range(r.randint(4, 10) if nth == 1 else r.randint(2, 4)):
            o = r.choice(ids)
            u = r.random()
            if u < 0.35:
                op = write_of(r, plan, o, cfg, st)
                victims.append(op)
            elif u < 0.40:
                op = bad_of(r, plan, o, st)
            else:
                op = read_of(r, plan, o, cfg)
                if r.random() < 0.2:
                    victims.append(op)
            ops.append(op)
        plan["threads"].append(ops)
    if r.random() < cfg.get("fresh", 0.4):
        # nobody used the grids before: the clients themselves build the interpolators, often at the same time
        for j, o in enumerate(ids):
            plan["objects"][o]["late"] = True
            op = {"op": "new", "o": o}
            plan["threads"][j % nth].insert(r.choice([0, 0, 0, 1]), op)
            victims += [op] * 3
            plan["final"].append({"op": "new", "o": o})
    for o in ids:
        plan["final"].append(read_of(r, plan, o, cfg))
    # a late interpolator on a shared grid, built while others are in use
    if r.random() < 0.5:
        g = plan["objects"][ids[0]]["g"]
        plan["objects"].append({"fam": "smol", "g": g, "f": SI.gen_f(r, smol_T(plan["objects"][g])), "late": True})
        o = len(plan["objects"]) - 1
        t = r.randrange(nth)
        k = r.randint(0, len(plan["threads"][t]))
        plan["threads"][t][k:k] = [{"op": "new", "o": o}]
        plan["threads"][t].append(read_of(r, plan, o, cfg))
        plan["final"].append(read_of(r, plan, o, cfg))
    sprinkle(r, plan)
    nested(r, plan, lambda: either(r, plan, r.choice(ids), cfg, st), 0.15)
    number(relate(r, plan, r.choice([0.0, 0.5, 0.8])))
    if r.random() < 0.35:
        r.shuffle(victims)
        for op in victims[: r.choice([1, 1, 2])]:
            plan["faults"][str(op["id"])] = fault(r)
    plan["sched"] = sched(r, nth, 800)
    return handlers(r, plan)
