"""Runs one plan of stateless library calls (threads, dirty output buffers, faults, restarts) and judges it."""

import copy

import numpy as np

from . import arrays as A
from . import calls, engine
from . import lib as libmod
from .world import Ledger, Outcome, digest, overlapping, snapshot

GUARD = 3.5527e111


def buffer(shape, lay):
    """(view, parent): an output buffer embedded in guarded memory"""
    n = int(np.prod(shape)) if len(shape) else 1
    if lay == "A":
        big = np.full(tuple(2 * m + 3 for m in shape), GUARD)
        return big[tuple(slice(2, 2 * m + 2, 2) for m in shape)], big
    big = np.full(n + 32, GUARD)
    flat = big[16:16 + n]
    if lay == "F":
        return flat.reshape(tuple(shape)[::-1]).T, big
    return flat.reshape(tuple(shape)), big


def guards_ok(view, parent):
    keep = np.array(view)
    view[...] = GUARD
    ok = bool(np.all(parent == GUARD))
    view[...] = keep
    return ok


def fill(view, how, seed):
    r = A.rng_of(seed)
    if how == "nan":
        view[...] = np.nan
    elif how == "huge":
        view[...] = r.standard_normal(view.shape) * 1e200
    elif how == "rand":
        view[...] = r.standard_normal(view.shape) * 10
    elif how == "zero":
        view[...] = 0.0
    elif how == "inf":
        view[...] = np.inf
    # "keep": whatever the last user left in it


class Env:
    def __init__(self, ledger):
        self.ledger, self.slots, self.pool = ledger, {}, {}

    def arr(self, key, x, op):
        """array actually passed: fresh, or an array object passed before and overwritten in place"""
        if not isinstance(x, np.ndarray):
            return x
        if op.get("slot") is not None:
            k = (op["slot"], key)
            old = self.slots.get(k)
            if (old is not None and old.shape == x.shape and old.dtype == x.dtype and old.strides == x.strides
                    and old.flags.writeable and x.flags.writeable):
                old[...] = x
                if self.ledger is not None:
                    self.ledger.refreshed(old)
                x = old
            else:
                self.slots[k] = x
        if self.ledger is not None:
            self.ledger.given(x, key, op)
        return x

    def inputs(self, x, op):
        out = {}
        for k in sorted(x):
            v = x[k]
            if k == "grid":
                out[k] = tuple(self.arr("grid%d" % i, e, op) for i, e in enumerate(v))
            else:
                out[k] = self.arr(k, v, op)
        return out

    def buffers(self, shapes, op):
        out = []
        for i, sh in enumerate(shapes):
            b = op["out"]
            lay = op["c"]["o"].get("Ol", "C")
            key = (b.get("pool"), i, lay, tuple(sh))
            pair = self.pool.get(key) if b.get("pool") is not None else None
            if pair is None:
                pair = buffer(sh, lay)
                fill(pair[0], "nan" if b["fill"] == "keep" else b["fill"], b["s"] + i)
                if b.get("pool") is not None:
                    self.pool[key] = pair
            else:
                fill(pair[0], b["fill"], b["s"] + i)
            out.append(pair)
        return out


class Run:
    def __init__(self, plan, worker):
        self.plan, self.w = copy.deepcopy(plan), worker

    def restart(self):
        self.w.lib = libmod.restart()

    def phase(self, sched, faults, monitor, ledger=None):
        plan = self.plan
        if plan.get("restart"):
            self.restart()
        lib = self.w.lib
        sim = engine.Sim(sched)
        engine.set_deep(bool(plan.get("deep")))
        if plan.get("restart"):
            sim.MAX_POINTS = 20000000  # code generation runs a template engine
        hist, counts, problems = [], {}, []
        handlers = {k: f["run"] for k, f in plan.get("faults", {}).items() if "run" in f}

        def execute(op, env, th):
            if op["op"] == "scribble":
                if ledger is not None:
                    ledger.scribble(op["which"], op["s"])
                return
            c = op["c"]
            R = calls.REG[c["call"]]
            if ledger is not None:
                ledger.busy.add(op["id"])
            x = env.inputs(R.full(c), op)
            bufs = None
            if op.get("out") is not None:
                shapes = R.outs(c)
                if shapes:
                    bufs = env.buffers(shapes, op)
            rec = {"op": op, "tid": th.tid}
            rec["inv"] = sim.begin(th, op["id"], faults.get(str(op["id"])))
            res = None
            try:
                if op["op"] == "bad":
                    res = bad_call(lib, R, c, x, op["how"])
                else:
                    res = R.do(lib, c, x, None if bufs is None else [b[0] for b in bufs])
                rec["status"] = "ok"
            except engine.Abandoned:
                raise
            except BaseException as e:
                rec["status"] = "raised"
                rec["exc"] = "%s: %s" % (type(e).__name__, " ".join(str(e).split())[-300:])
            rec["ret"], rec["fired"], n, k = sim.end(th)
            counts[op["id"]] = (n, k)
            rec["res"] = snapshot(res)
            rec["bufs"] = None if bufs is None else [np.array(b[0]) for b in bufs]
            hist.append(rec)
            if bufs is not None:
                for b in bufs:
                    if not guards_ok(*b):
                        problems.append({"kind": "guard", "msg": "operation %d (%s) wrote outside its output buffer" % (
                            op["id"], c["call"])})
            if ledger is not None:
                ledger.busy.discard(op["id"])
                if res is not None and op["op"] == "call":
                    ledger.got(res if bufs is None else [y for y in _arrays(res) if not any(y is b[0] for b in bufs)], op)
                ledger.audit(op["id"])

        def body(ops):
            def go(th):
                env = envs.setdefault(th.tid, Env(ledger))
                th.handler = lambda run: [execute(op, Env(ledger), th) for op in run]
                for op in ops:
                    execute(op, env, th)
                    if not monitor and str(op["id"]) in handlers:  # (compile what the handler needs)
                        th.handler(handlers[str(op["id"])])

            return go

        envs = {}
        sim.run([body(t) for t in plan["threads"]], monitor)
        if sim.verdict is None and plan.get("final"):
            outer, sim = sim, engine.Sim(engine.Recorded([]))
            sim.step = outer.step + 10
            sim.MAX_POINTS = outer.MAX_POINTS + sim.step
            sim.run([body(plan["final"])], monitor)
            outer.verdict, outer.step, sim = sim.verdict, sim.step, outer
        if ledger is not None:
            problems += ledger.problems
        return sim, hist, counts, problems

    def go(self):
        plan, out = self.plan, Outcome()
        nth = len(plan["threads"])
        faults = {k: dict(v) for k, v in plan.get("faults", {}).items()}
        if plan.get("warm", True):
            self.phase(engine.Recorded([]), {}, False)
        if any("at" not in f for f in faults.values()):
            _, _, counts, _ = self.phase(engine.make_schedule(plan["sched"], nth), {}, True)
            for k, f in list(faults.items()):
                n, c = counts.get(int(k), (0, 0))
                tot = c if f["kind"] == "memory" else n
                if tot == 0:
                    del faults[k]
                else:
                    f["at"] = 1 + int(f.pop("u") * tot)
        ledger = Ledger() if plan.get("ledger") else None
        sim, hist, counts, problems = self.phase(engine.make_schedule(plan["sched"], nth), faults, True, ledger)
        out.problems = list(problems) + judge(sim, hist)
        out.plan = dict(plan, faults=faults, sched={"switches": sim.switches})
        out.trace = sim.trace
        fills = {}
        for r in hist:
            if r["bufs"] is not None:
                k = r["op"]["out"]["fill"]
                fills[k] = fills.get(k, 0) + 1
        out.stats = {
            "ops": len(hist), "points": sim.step, "preemptions": sim.preemptions,
            "fired": [f[2] for f in sim.fault_log],
            "rejected": sum(1 for r in hist if r["op"]["op"] == "bad" and r["status"] == "raised"),
            "cut": sum(1 for r in hist if r["fired"] is not None and r["status"] == "raised"),
            "overlap": overlapping(hist),
            "in_place_calls": sum(fills.values()),
            "restarts": 1 if plan.get("restart") else 0,
            "calls": [r["op"]["c"]["call"] for r in hist],
            "specialisations": [spec_key(r["op"]["c"]) for r in hist],
        }
        out.events = [[r["op"]["id"], r["tid"], r["inv"], r["ret"], r["status"], (r["fired"] or {}).get("kind"),
                       digest(r["bufs"] if r["bufs"] is not None else r["res"])] for r in hist]
        return out


def spec_key(c):
    return c["call"] + ":" + ",".join("%s=%s" % (k, v) for k, v in sorted(c["o"].items()))


def _arrays(res):
    if isinstance(res, np.ndarray):
        return [res]
    if isinstance(res, (list, tuple)):
        return [y for x in res for y in _arrays(x)]
    return []


def bad_call(lib, R, c, x, how):
    """calls that the library (or numba's typing of its overloads) rejects"""
    g, C, P = x["grid"], x["C"], x["P"]
    k = c["o"].get("k", 1)
    if how == "mode":
        return lib.eval_spline(g, C, P, out=None, k=k, diff="None", extrap_mode="elsewhere")
    if how == "order":
        return lib.eval_spline(g, C, P, out=None, k=7, diff="None", extrap_mode="linear")
    if how == "diff":
        return lib.eval_spline(g, C, P, out=None, k=k, diff="((1,0", extrap_mode="linear")
    if how == "string":
        return lib.eval_linear(g, C, "here")
    if how == "grid":
        return lib.eval_linear(5.0, C, P)
    if how == "values":
        return lib.eval_cubic(g, 1.0, P)
    if how == "mlinterp":
        return lib.mlinterp(g, C, {"x": 1})
    if how == "interp":
        return lib.interp(C)
    raise ValueError(how)


BADS = ["mode", "order", "diff", "string", "grid", "values", "mlinterp", "interp"]


def judge(sim, hist):
    if sim.verdict == "deadlock":
        return [{"kind": "deadlock", "msg": "no thread can run: all wait for locks"}]
    if sim.verdict == "runaway":
        return [{"kind": "runaway", "msg": "a call does not end (%d points)" % sim.MAX_POINTS}]
    P = []
    for r in hist:
        op = r["op"]
        if op["op"] == "bad":
            continue
        c = op["c"]
        if r["status"] == "raised":
            if r["fired"] is None:
                P.append({"kind": "exception:" + r["exc"].split(":")[0], "msg": "operation %d (%s) raised %s" % (
                    op["id"], spec_key(c), r["exc"])})
            continue
        e = calls.REG[c["call"]].check(c, r["res"], r["bufs"])
        if e:
            how = "" if op.get("out") is None else " into a buffer"
            P.append({"kind": "wrong", "msg": "operation %d (%s%s): %s" % (op["id"], spec_key(c), how, e)})
    return P


def run(plan, worker):
    return Run(plan, worker).go()
