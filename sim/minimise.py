"""Simplifications of a concrete plan, most drastic first."""

import copy
import random


def _ids(plan):
    return {op["id"] for t in [plan.get("pre", [])] + plan["threads"] + [plan.get("final", [])] for op in t}


def _clean(p):
    ids = _ids(p)
    p["faults"] = {k: v for k, v in p.get("faults", {}).items() if not k.isdigit() or int(k) in ids}
    return p


def candidates(plan):
    # whole threads
    for i in range(len(plan["threads"])):
        if len(plan["threads"]) > 1:
            p = copy.deepcopy(plan)
            del p["threads"][i]
            m = lambda t: t - 1 if t > i else t
            p["sched"] = {"switches": [[s, m(t)] for s, t in p["sched"].get("switches", []) if t != i]}
            yield _clean(p)
    # final / pre reads
    for part in ("final", "pre"):
        if plan.get(part):
            p = copy.deepcopy(plan)
            p[part] = []
            yield _clean(p)
    # halves of a thread, then single operations
    for part in ["final"] + list(range(len(plan["threads"]))) + ["pre"]:
        ops = plan.get(part, []) if isinstance(part, str) else plan["threads"][part]
        n = len(ops)
        spans = []
        if n >= 4:
            spans += [(0, n // 2), (n // 2, n)]
        spans += [(j, j + 1) for j in range(n)]
        for a, b in spans:
            p = copy.deepcopy(plan)
            q = p[part] if isinstance(part, str) else p["threads"][part]
            del q[a:b]
            if any(p["threads"]) or p.get("final") or p.get("pre"):
                yield _clean(p)
    for k in list(plan.get("faults", {})):
        p = copy.deepcopy(plan)
        del p["faults"][k]
        yield p
    sw = plan["sched"].get("switches", [])
    n = len(sw)
    if n > 1:
        step = n // 2
        while step >= 1:
            for a in range(0, n, step):
                p = copy.deepcopy(plan)
                p["sched"]["switches"] = sw[:a] + sw[a + step:]
                yield p
            if step == 1:
                break
            step //= 2


def reschedule(plan, n):
    """the same operations under other seeded schedules"""
    r = random.Random(len(str(plan)))
    for _ in range(n):
        p = copy.deepcopy(plan)
        if r.random() < 0.5:
            p["sched"] = {"seed": r.randrange(1 << 40), "mode": "rand", "p": r.choice([0.5, 0.2, 0.05])}
        else:
            p["sched"] = {"seed": r.randrange(1 << 40), "mode": "pct", "depth": r.choice([1, 2, 3, 5]), "horizon": r.choice([60, 150, 400])}
        yield p
