"""One worker process: runs the plans of one shard, minimises and records the first violation.

usage: python -m sim.worker JOB.json      (see check.py)
"""

import copy
import faulthandler
import hashlib
import json
import os
import sys
import time


def seed_of(base, prop, shard, k):
    return int.from_bytes(hashlib.sha256(("%d|%s|%s|%d" % (base, prop, shard, k)).encode()).digest()[:6], "big")


class Worker:
    def __init__(self, job):
        from . import engine, lib, props

        engine.install(os.path.join(lib.REPO, "interpolation"))
        self.job = job
        self.prop = props.PROPS[job["prop"]]
        self.lib = lib.load()

    def run(self, plan):
        out = self.prop.run(plan, self)
        return out

    def plan(self, k):
        j = self.job
        return self.prop.gen(seed_of(j["seed"], j["prop"], j["shard"], k), j["cfg"])


def bug_kind(problems):
    return problems[0]["kind"] if problems else None


def minimise(w, plan, kind, budget):
    """greedy: keep a simplification if some schedule still shows the same kind of violation"""
    from .minimise import candidates, reschedule

    t0 = time.time()
    best = plan
    tried = kept = 0

    def fails(p):
        try:
            o = w.run(copy.deepcopy(p))
        except Exception:
            return None
        for q in o.problems:
            if q["kind"] == kind:
                return o
        return None

    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for c in candidates(best):
            if time.time() - t0 > budget:
                break
            tried += 1
            o = fails(c)
            if o is None and len(c["threads"]) > 1:
                for p in reschedule(c, 12):
                    o = fails(p)
                    if o is not None or time.time() - t0 > budget:
                        break
            if o is not None:
                best = o.plan
                kept += 1
                progress = True
                break
    return best, {"tried": tried, "kept": kept, "seconds": round(time.time() - t0, 1)}


def size(plan):
    return {"threads": len(plan["threads"]), "operations": sum(len(t) for t in plan["threads"]),
            "faults": len(plan.get("faults", {})), "preemptions": len(plan["sched"].get("switches", []))}


def main():
    faulthandler.enable()
    job = json.load(open(sys.argv[1]))
    t_start = time.time()
    w = Worker(job)
    res = {"runs": 0, "stats": {}, "traces": [], "shapes": [], "samples": [], "violation": None, "events": None}
    st = res["stats"]
    traces, shapes = set(), set()
    log = hashlib.sha256()
    mode = job.get("mode", "search")
    if mode == "replay":
        plans = job["plans"]
        o = None
        for i, p in enumerate(plans):
            o = w.run(p)
            if o.problems and i < len(plans) - 1:
                break
        res["problems"] = o.problems
        res["events"] = hashlib.sha256(json.dumps(o.events).encode()).hexdigest()
        json.dump(res, open(job["out"], "w"))
        return
    last_events = []
    ks = job.get("ks") or range(job["count"])
    for k in ks:
        if time.time() - t_start > job["soft"]:
            break
        with open(job["progress"], "w") as f:
            f.write("%d" % k)
        plan = w.plan(k)
        o = w.run(plan)
        res["runs"] += 1
        log.update(json.dumps([k, o.events, o.trace]).encode())
        if job.get("trace"):
            last_events.append([k, o.trace, hashlib.sha256(json.dumps(o.events).encode()).hexdigest()[:16]])
        for key, v in o.stats.items():
            if isinstance(v, list):
                for x in v:
                    st.setdefault(key, {})
                    st[key][x] = st[key].get(x, 0) + 1
            elif isinstance(v, (int, float)):
                st[key] = st.get(key, 0) + v
        nontrivial = w.prop.nontrivial(plan, o)
        if nontrivial:
            st["nontrivial_runs"] = st.get("nontrivial_runs", 0) + 1
            traces.add(o.trace & 0xFFFFFFFFFFFF)
        if nontrivial and len(res["samples"]) < 2 and k >= 1:
            res["samples"].append(w.prop.sample(k, o))
        if o.problems:
            kind = bug_kind(o.problems)
            concrete = o.plan
            conf = w.run(copy.deepcopy(concrete))
            best, info = concrete, {"tried": 0}
            if any(q["kind"] == kind for q in conf.problems):
                best, info = minimise(w, concrete, kind, job.get("min_budget", 40))
            else:
                info = {"note": "the plan alone does not fail again in this process"}
            res["violation"] = {
                "k": k, "kind": kind, "problems": o.problems[:5], "plan": best, "original": concrete,
                "size_before": size(concrete), "size_after": size(best), "minimiser": info,
                "prefix": [x for x in ks if x <= k],
            }
            break
    res["traces"] = sorted(traces)
    res["log"] = log.hexdigest()
    res["per_run"] = last_events
    res["wall"] = time.time() - t_start
    json.dump(res, open(job["out"] + ".tmp", "w"))
    os.rename(job["out"] + ".tmp", job["out"])


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    main()
