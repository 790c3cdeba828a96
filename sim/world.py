"""Runs one plan of operations on shared objects inside the simulator and judges the history."""

import copy
import pickle

import numpy as np

from . import arrays as A
from . import engine, history, objects
from . import lib as libmod
from .objects import BADS, READS, WRITES


class Ledger:
    """every array the caller gave to or got from the library, with its content"""

    def __init__(self):
        self.rows = []  # [array, bytes, what, op id, "in"/"out", alive]
        self.problems = []
        self.busy = set()  # operations in flight: the caller does not overwrite arrays a running call still uses

    def given(self, x, what, op):
        for r in self.rows:
            if r[0] is x:
                r[1], r[3] = A.bits(x), None if op is None else op["id"]
                return
        self.rows.append([x, A.bits(x), what, None if op is None else op["id"], "in"])

    def refreshed(self, x):
        for r in self.rows:
            if r[0] is x:
                r[1] = A.bits(x)

    def got(self, res, op):
        mine = [x for x in (res if isinstance(res, (list, tuple)) else [res]) if isinstance(x, np.ndarray)]
        for x in mine:
            for r in self.rows:
                if (x.flags.writeable or r[0].flags.writeable) and np.may_share_memory(r[0], x) and np.shares_memory(r[0], x):
                    # whoever writes to one of the two changes the other
                    self.problems.append(
                        {"kind": "shared", "msg": "the result of operation %s shares memory with the %s of operation %s" % (
                            op["id"], "input (%s)" % r[2] if r[4] == "in" else "result", r[3])})
                    break
        for x in mine:
            if not any(r[0] is x for r in self.rows):
                self.rows.append([x, A.bits(x), "result", op["id"], "out"])

    def audit(self, after):
        for r in self.rows:
            now = A.bits(r[0])
            if now != r[1]:
                who = "input (%s)" % r[2] if r[4] == "in" else "array returned"
                self.problems.append(
                    {"kind": "input-modified" if r[4] == "in" else "result-modified",
                     "msg": "%s of operation %s changed during operation %s" % (who, r[3], after)})
                r[1] = now

    def scribble(self, which, seed):
        rows = [r for r in self.rows if r[0].flags.writeable and r[0].size and r[0].dtype.kind in "fi"
                and r[3] not in self.busy]
        if not rows:
            return None
        r = rows[which % len(rows)]
        x = r[0]
        g = A.rng_of(seed)
        if x.dtype.kind == "f":
            x[...] = g.choice([1e33, -7.25, 0.0]) + g.standard_normal(x.shape)
        else:
            x[...] = g.integers(1, 3, size=x.shape)
        r[1] = A.bits(x)
        return r[2]


def snapshot(res):
    if isinstance(res, np.ndarray):
        return np.array(res)
    if isinstance(res, (list, tuple)):
        return [snapshot(x) for x in res]
    return res


def stored(obj):
    """the node values a Smolyak interpolator says it holds"""
    x = getattr(obj, "f_on_grid", None)
    return None if x is None else np.array(x)


class Outcome:
    def __init__(self):
        self.problems = []  # dicts kind, msg
        self.stats = {}
        self.plan = None  # concrete: recorded switches, absolute fault positions
        self.trace = 0
        self.events = []


class Run:
    def __init__(self, plan, lib, worker=None):
        self.plan = copy.deepcopy(plan)
        self.lib, self.worker = lib, worker
        self.fams = {k: c() for k, c in objects.FAMS.items()}
        ops = {}
        for t in [self.plan.get("pre", [])] + self.plan["threads"] + [self.plan.get("final", [])]:
            for op in t:
                ops[op["id"]] = op
        for f in self.plan.get("faults", {}).values():
            for op in f.get("run", []):
                ops[op["id"]] = op
        for s in self.plan["objects"]:
            s["_ops"] = ops
        for s in self.plan["objects"]:
            if s["fam"] == "smol" and "g" in s:
                s["_grid"] = self.spec(s["g"])

    def spec(self, o):
        """a restored object has the specification of the one that was saved"""
        s = self.plan["objects"][o]
        while "copy_of" in s:
            s = self.plan["objects"][s["copy_of"]]
        return s

    # -------------------------------------------------------------- objects of one phase
    def build(self, idx, objs, env):
        s = self.plan["objects"][idx]
        if s["fam"] == "smol":
            sg = objs[s["g"]]
            f = env.given(A.values(s["f"]), "node values")
            obj = self.lib.SmolyakInterp(sg, f)
            if "_nodes" not in s:
                self.smol_facts(s, sg)
            return obj
        return self.fams[s["fam"]].build(self.lib, s, env)

    def smol_facts(self, s, sg):
        """the grid's own enumeration of nodes and polynomials (checked against the model as sets)"""
        m = self.fams["smol"].model(s)
        nodes = np.array(sg.grid, dtype=float)
        want = m.to_dom(m.cube)
        if nodes.shape != want.shape or not np.allclose(
            nodes[np.lexsort(np.round(nodes, 9).T)], want[np.lexsort(np.round(want, 9).T)], rtol=0, atol=1e-9
        ):
            self.grid_problem = {"kind": "grid", "msg": "a new Smolyak grid does not have the nodes of %s" % (
                {k: v for k, v in s["_grid"].items() if not k.startswith("_")},)}
            nodes = want
        s["_nodes"] = nodes
        deg = [tuple(int(x) for x in e) for e in m.deg]
        pos = {e: i for i, e in enumerate(deg)}
        try:
            mine = [tuple(int(i) - 1 for i in c) for c in sg.pinds]
        except AttributeError:  # the order of the polynomials is the grid's own business
            mine = None
        if mine is None:
            s["_perm"] = None
        else:
            s["_perm"] = [pos[e] for e in mine] if sorted(mine) == sorted(deg) else list(range(len(deg)))

    # -------------------------------------------------------------- one phase
    def phase(self, sched, faults, monitor, ledger=None, lives=False, warm=False):
        """lives: go on after the first restart of the process (otherwise stop there)"""
        plan = self.plan
        objs = {}
        slots = {}  # what was saved: [objects or bytes, which of them have values, survives the process]
        env0 = objects.Env(ledger)
        hist = []
        handlers = {k: f["run"] for k, f in plan.get("faults", {}).items() if "run" in f} if warm else {}
        valued = {i for i, s in enumerate(plan["objects"]) if s.get("v") is not None and not s.get("late")}
        self.grid_problem = None
        for i, s in enumerate(plan["objects"]):
            if not s.get("late"):
                objs[i] = self.build(i, objs, env0)
        engine.set_deep(False)
        sim = engine.Sim(sched)
        counts = {}
        problems = []

        def execute(op, env, th):
            if op["op"] == "scribble":
                if ledger is not None:
                    ledger.scribble(op["which"], op["s"])
                return
            oi = op["o"]
            if op["op"] == "save":
                if any(o not in objs for o in op["os"]):
                    return
            elif op["op"] == "load":
                if op["slot"] not in slots or any(o in objs for o in op["to"]):
                    return
            elif (op["op"] == "new") == (oi in objs):
                return  # built already, or not built yet
            spec = self.spec(oi)
            if op["op"] == "new" and spec["fam"] == "smol" and spec["g"] not in objs:
                return
            if op["op"] not in ("new", "set", "grid", "badset", "badfit", "save", "load") and spec["fam"] in ("spline", "poly"):
                if oi not in valued and not (op["op"] == "fit" and op["damp"] == 0.0):
                    return  # evaluating (or damping) an object that has no values yet is not specified
            fault = faults.get(str(op["id"]))
            rec = {"op": op, "tid": th.tid if th else -1}
            before = None
            if op["op"] == "badupdate" and len(plan["threads"]) == 1 and "run" not in (fault or {}):
                before = stored(objs[oi])
            rec["inv"] = sim.begin(th, op["id"], fault)
            try:
                if op["op"] == "new":
                    objs[oi] = self.build(oi, objs, env)
                    res = None
                elif op["op"] == "save":
                    slots[op["slot"]] = self.save([objs[o] for o in op["os"]], op["how"]) + [[o in valued for o in op["os"]]]
                    res = None
                elif op["op"] == "load":
                    back, had = self.load(slots[op["slot"]]), slots[op["slot"]][2]
                    for o, x, v in zip(op["to"], back, had):
                        if o is not None:
                            objs[o] = x
                            if v:
                                valued.add(o)
                    res = None
                else:
                    res = self.fams[spec["fam"]].do(self.lib, objs[oi], op, spec, env)
                rec["status"] = "ok"
                if op["op"] in ("set", "fit") or (op["op"] == "new" and spec.get("v") is not None):
                    valued.add(oi)
            except engine.Abandoned:
                raise
            except BaseException as e:
                res = None
                rec["status"] = "raised"
                rec["exc"] = "%s: %s" % (type(e).__name__, " ".join(str(e).split())[:160])
                rec["injected"] = isinstance(e, (engine.InjectedInterrupt, engine.InjectedMemoryError))
            rec["ret"], rec["fired"], n, c = sim.end(th)
            rec["res"] = snapshot(res)
            counts[op["id"]] = (n, c)
            hist.append(rec)
            if ledger is not None:
                if res is not None:
                    if op["op"] not in ("grid",):
                        ledger.got(res, op)
                ledger.audit(op["id"])
            if before is not None and stored(objs[oi]) is not None and rec["status"] == "raised" and rec["fired"] is None:
                if not np.array_equal(before, stored(objs[oi])):
                    problems.append({"kind": "rejected-update", "msg": "operation %d was rejected but replaced the "
                                     "node values (f_on_grid) of object %d" % (op["id"], oi)})

        def body(ops):
            def go(th):
                env = objects.Env(ledger)
                env.slots = env_slots[th.tid]
                th.handler = lambda run: [execute(op, objects.Env(ledger), th) for op in run]
                for op in ops:
                    execute(op, env, th)
                    if not monitor and str(op["id"]) in handlers:  # (compile what the handler needs)
                        th.handler(handlers[str(op["id"])])

            return go

        env_slots = {i: {} for i in range(len(plan["threads"]) + 1)}

        def alone(ops, start):
            """one client, nobody else, no faults"""
            nonlocal sim
            outer = sim
            sim = engine.Sim(engine.Recorded([]))
            sim.step = start
            sim.MAX_POINTS = outer.MAX_POINTS + start
            sim.run([body(ops)], monitor)
            end, verdict, sim = sim.step, sim.verdict, outer
            if verdict:
                sim.verdict = verdict
            return end

        def restart():
            """the process ends; what was written to disk is what is left"""
            objs.clear()
            valued.clear()
            for k in [k for k, v in slots.items() if v[0] == "live"]:
                del slots[k]
            self.restart()

        base = -10000000  # event numbers of the set-up phase are negative: the schedule starts at 0
        if plan.get("pre"):
            alone(plan["pre"], base)
        if sim.verdict is None:
            sim.run([body(t) for t in plan["threads"]], monitor)
        parts = [[]]
        for op in plan.get("final", []):
            if op["op"] == "restart":
                parts.append([])
            else:
                parts[-1].append(op)
        end = sim.step
        for i, ops in enumerate(parts):
            if i:
                if not lives:
                    break
                restart()
                self.lives += 1
                monitor = False
            if sim.verdict is None and ops:
                end = alone(ops, end + 10)
        if ledger is not None:
            problems += ledger.problems
        if self.grid_problem:
            problems.append(self.grid_problem)
        return sim, hist, counts, problems

    def restart(self):
        self.lib = libmod.restart(True)
        if self.worker is not None:
            self.worker.lib = self.lib

    def save(self, xs, how):
        if how == "deepcopy":
            return ["live", copy.deepcopy(xs)]
        return ["disk", pickle.dumps(xs, int(how[-1]))]

    def load(self, slot):
        return copy.deepcopy(slot[1]) if slot[0] == "live" else pickle.loads(slot[1])

    # -------------------------------------------------------------- whole run
    def go(self):
        plan, out = self.plan, Outcome()
        nth = len(plan["threads"])
        self.lives = 1
        faults = {k: dict(v) for k, v in plan.get("faults", {}).items()}
        if plan.get("warm", True):
            try:
                self.phase(engine.Recorded([]), {}, False, warm=True)
            except engine.HarnessError:
                raise
        if any("at" not in f for f in faults.values()):
            _, _, counts, _ = self.phase(engine.make_schedule(plan["sched"], nth), {}, True)
            for k, f in list(faults.items()):
                n, c = counts.get(int(k), (0, 0))
                tot = c if f["kind"] == "memory" else n
                if tot == 0:
                    del faults[k]
                else:
                    f["at"] = 1 + int(f.pop("u") * tot) if "u" in f else f["at"]
        if any(op["op"] == "restart" for op in plan.get("final", [])):
            self.restart()  # the first life starts from nothing as well
        ledger = Ledger() if plan.get("ledger") else None
        sim, hist, counts, problems = self.phase(engine.make_schedule(plan["sched"], nth), faults, True, ledger, True)
        out.problems = list(problems) + self.judge(sim, hist)
        conc = {k: v for k, v in plan.items() if k != "objects"}
        conc["objects"] = [{k: v for k, v in s.items() if not k.startswith("_")} for s in plan["objects"]]
        conc["faults"] = faults
        conc["sched"] = {"switches": sim.switches}
        out.plan = conc
        out.trace = sim.trace
        out.stats = {
            "ops": len(hist),
            "process_lives": self.lives,
            "saves": sum(1 for r in hist if r["op"]["op"] == "save"),
            "restored": sum(1 for r in hist if r["op"]["op"] == "load"),
            "points": sim.step,
            "preemptions": sim.preemptions,
            "fired": [f[2] for f in sim.fault_log],
            "rejected": sum(1 for r in hist if r["op"]["op"] in BADS and r["status"] == "raised"),
            "cut": sum(1 for r in hist if r["fired"] is not None and r["status"] == "raised"),
            "overlap": overlapping(hist),
        }
        out.events = [[r["op"]["id"], r["tid"], r["inv"], r["ret"], r["status"],
                       (r["fired"] or {}).get("kind"), digest(r["res"])] for r in hist]
        return out

    def judge(self, sim, hist):
        P = []
        if sim.verdict == "deadlock":
            return [{"kind": "deadlock", "msg": "no thread can run: all wait for locks"}]
        if sim.verdict == "runaway":
            return [{"kind": "runaway", "msg": "a call does not end (%d points)" % sim.MAX_POINTS}]
        per = {}
        for r in hist:
            op = r["op"]
            if r["status"] == "raised" and r["fired"] is None:
                if op["op"] in BADS:
                    continue
                P.append({"kind": "exception:" + r["exc"].split(":")[0], "msg": "operation %d (%s on object %d) raised %s" % (
                    op["id"], op["op"], op["o"], r["exc"])})
                continue
            if op["op"] in BADS:
                if r["status"] == "ok" and r["fired"] is None:
                    P.append({"kind": "accepted", "msg": "operation %d (%s on object %d) was not rejected" % (
                        op["id"], op["op"], op["o"])})
                continue
            if op["op"] == "new":
                continue
            what = None
            if op["op"] in ("save", "load"):
                what = "write" if r["status"] == "ok" else None
            elif op["op"] in WRITES:
                what = "write" if r["status"] == "ok" else "maybe"
            elif op["op"] in READS and r["status"] == "ok":
                what = "read"
            if what:
                per.setdefault(op["o"], []).append(
                    {"inv": r["inv"], "ret": r["ret"], "what": what, "op": op, "res": r["res"]})
        for members, es in self.families(hist, per):
            o = members[0]
            s = self.spec(o)
            try:
                if len(members) == 1:
                    v = history.linearize(self.fams[s["fam"]], s, es)
                else:
                    f = history.Lineage(members, lambda m: self.fams[self.spec(m)["fam"]], self.spec)
                    v = history.linearize(f, s, es)
            except history.TooLong:
                continue
            if v:
                P.append(v)
        return P


def _families(self, hist, per):
    """objects, or groups of objects that were saved or restored together, with their history"""
    group = {}

    def find(x):
        while group.setdefault(x, x) != x:
            x = group[x]
        return x

    for o in per:
        find(o)
    for r in hist:
        op = r["op"]
        if op["op"] in ("save", "load"):
            ms = [o for o in (op["os"] if op["op"] == "save" else op["to"]) if o is not None]
            ms += ["%s.%d" % (op["slot"], k) for k in range(len(op["os"] if op["op"] == "save" else op["to"]))]
            for m in ms:
                group[find(m)] = find(ms[0])
    out = {}
    for m in list(group):
        out.setdefault(find(m), []).append(m)
    for ms in out.values():
        ms.sort(key=lambda m: (isinstance(m, str), m))
    for ms in sorted(out.values(), key=lambda ms: str(ms)):
        es = [e for m in ms for e in per.get(m, [])]
        if es and not isinstance(ms[0], str):
            yield ms, es


Run.families = _families


def digest(res):
    import hashlib

    h = hashlib.sha1()

    def rec(x):
        if isinstance(x, np.ndarray):
            h.update(str(x.shape).encode() + A.bits(x))
        elif isinstance(x, (list, tuple)):
            for y in x:
                rec(y)
        else:
            h.update(repr(x).encode())

    rec(res)
    return h.hexdigest()[:12]


def overlapping(hist):
    n = 0
    hs = sorted((r["inv"], r["ret"], r["tid"]) for r in hist)
    for i, a in enumerate(hs):
        for b in hs[i + 1:]:
            if b[0] > a[1]:
                break
            if b[2] != a[2]:
                n += 1
    return n


def run(plan, lib, worker=None):
    return Run(plan, lib, worker).go()
