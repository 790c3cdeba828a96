"""Deterministic simulator for a Python library used by several threads.

The code under test runs unmodified, on real threads, but exactly one of them holds the *baton*
at any time and only this module decides who gets it next.  The seams are

* `sys.monitoring` events of code under /repo/interpolation: every executed line, every call made by
  (or native call returning to) library code, every entry of a library function and every turn of a
  loop is one *point* where the seeded scheduler may hand the baton to another thread.  Faults are
  delivered where CPython can deliver them: not between two lines without a call or a turn of a loop
  in between, and not at calls that cannot fail (`lock.release()`, the exit of a `with` block), so
  that `with lock:` and `try / finally` protect what they protect in reality;
* numba's global compiler lock and every lock the library creates (`threading.Lock/RLock` called
  from library code): simulated locks whose waiters are known to the scheduler; taking and giving
  back the outermost level of such a lock is a point as well (scheduling only, no fault).

One run is a pure function of its plan (threads, operations, faults, schedule) and of the code.
The schedule is either drawn from a seeded generator or read back from the recorded list of
preemptions `[[point number, thread], ...]`, which is what replay files contain.
"""

import gc
import math
import random
import sys
import threading as _threading
import time
import _thread

PKG = None  # set by install(): prefix of the file names that belong to the code under test

TEMPITA = None

_real_lock = _thread.allocate_lock
_RealLock, _RealRLock = _threading.Lock, _threading.RLock
_TOOL = 4
_installed = False
_current = None  # the Sim that is running, if any
_compiler_lock = None


class InjectedInterrupt(KeyboardInterrupt):
    """a signal handler raising at an arbitrary point"""


class InjectedMemoryError(MemoryError):
    """an allocation that fails"""


class HarnessError(Exception):
    pass


class Abandoned(BaseException):
    """used to unwind simulated threads when a run is given up"""


# ----------------------------------------------------------------------------- locks


class SimLock:
    """mutex whose waiters the scheduler knows about (re-entrant or not)"""

    def __init__(self, reentrant):
        self.reentrant, self.owner, self.count = reentrant, None, 0
        self._real = _real_lock()  # used only by threads that are not simulated

    def acquire(self, blocking=True, timeout=-1):
        sim, me = _current, _thread.get_ident()
        if self.owner == me and self.reentrant:
            self.count += 1
            return True
        th = sim.by_ident.get(me) if sim is not None else None
        if th is not None:
            sim.point("K", False)
        if th is None:
            while self.owner is not None and self.owner != me:  # no simulation: plain spinning lock
                if not blocking:
                    return False
                self._real.acquire(timeout=0.01) and self._real.release()
        else:
            while self.owner is not None:
                if not blocking or timeout == 0:
                    return False
                if timeout is not None and timeout > 0:
                    # simulated time: a timed wait expires only if nobody else can run
                    if not sim.block(th, self, timed=True):
                        return False
                else:
                    sim.block(th, self)
        self.owner, self.count = me, 1
        return True

    def release(self):
        me = _thread.get_ident()
        if self.owner is None or (self.reentrant and self.owner != me):
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count <= 0:
            self.owner, self.count = None, 0
            if _current is not None:
                _current.point("K", False)

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        st = (self.owner, self.count)
        self.owner, self.count = None, 0
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.count = st[1]

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _called_from_library():
    f = sys._getframe(2)
    for _ in range(5):
        if f is None:
            return False
        if f.f_code.co_filename.startswith(PKG):
            return True
        f = f.f_back
    return False


def _lock_factory(*a, **k):
    return SimLock(False) if _called_from_library() else _RealLock(*a, **k)


def _rlock_factory(*a, **k):
    return SimLock(True) if _called_from_library() else _RealRLock(*a, **k)


# ----------------------------------------------------------------------------- monitoring

_OFF = sys.monitoring.DISABLE


_deep = False  # points inside the vendored template engine too (tens of thousands per generated kernel)


def _relevant(code):
    f = code.co_filename
    return f.startswith(PKG) and code.co_name != "<module>" and (_deep or not f.startswith(TEMPITA))


def set_deep(flag):
    global _deep
    if flag != _deep:
        _deep = flag
        sys.monitoring.restart_events()


def _on_line(code, line):
    if not _relevant(code):
        return _OFF
    sim = _current
    if sim is not None:
        sim.point("L", None)


def _on_start(code, offset):
    if not _relevant(code):
        return _OFF
    sim = _current
    if sim is not None:
        sim.point("S")


def _on_jump(code, offset, dest):
    if dest >= offset or not _relevant(code):
        return _OFF
    sim = _current
    if sim is not None:
        sim.point("J")


# calls of cleaning up, which neither fail nor can be interrupted before they have done their work
CLEANUP = {"__exit__", "release", "discard", "remove", "pop", "popitem", "clear", "close", "notify", "notify_all"}


_plain = {}
_CALL = __import__("dis").opmap["CALL"]


def _plain_call(code, offset):
    k = _plain.get(id(code))
    if k is None:
        k = _plain[id(code)] = (code, code.co_code)  # (keeps the code object alive: its id stays unique)
    return k[1][offset] == _CALL


def _on_call(code, offset, func, arg0):
    if not _relevant(code):
        return _OFF
    sim = _current
    if sim is not None:
        if getattr(func, "__name__", None) in CLEANUP:
            sim.point("C", None)
            return
        if _plain_call(code, offset):
            sim.point("C")
            return
        # CPython 3.12 frees the arguments twice when a CALL callback raises at `f(*args)`: raise at the next point
        try:
            sim.point("C")
        except BaseException as e:
            sim.late(e)


def _on_creturn(code, offset, func, arg0):
    if not _relevant(code):
        return None  # (cannot be disabled on its own: goes with the CALL event)
    sim = _current
    if sim is not None:
        sim.point("R")


def install(pkg_dir):
    """call once per process, before the package is imported"""
    global PKG, TEMPITA, _installed
    if _installed:
        return
    _installed = True
    PKG = pkg_dir.rstrip("/") + "/"
    TEMPITA = PKG + "tempita/"
    _threading.Lock, _threading.RLock = _lock_factory, _rlock_factory
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "dst")
    ev = mon.events
    mon.register_callback(_TOOL, ev.LINE, _on_line)
    mon.register_callback(_TOOL, ev.PY_START, _on_start)
    mon.register_callback(_TOOL, ev.JUMP, _on_jump)
    mon.register_callback(_TOOL, ev.CALL, _on_call)
    mon.register_callback(_TOOL, ev.C_RETURN, _on_creturn)
    mon.register_callback(_TOOL, ev.C_RAISE, _on_creturn)
    # numba: one lock serialises compilation; its waiters must be known to the scheduler
    from numba.core.compiler_lock import global_compiler_lock

    global _compiler_lock
    _compiler_lock = global_compiler_lock._lock = SimLock(True)


def monitoring(on):
    ev = sys.monitoring.events
    sys.monitoring.set_events(_TOOL, (ev.LINE | ev.PY_START | ev.JUMP | ev.CALL | ev.C_RETURN | ev.C_RAISE) if on else 0)


# ----------------------------------------------------------------------------- schedules


class Seeded:
    """switch with probability p at every point, optionally only during bursts"""

    def __init__(self, seed, mode="rand", p=0.1, depth=3, horizon=300, nthreads=2):
        self.r = random.Random(seed)
        self.mode, self.p = mode, p
        if mode == "pct":
            self.prio = list(range(nthreads))
            self.r.shuffle(self.prio)
            self.change = sorted(self.r.randrange(1, horizon) for _ in range(depth))
            self.low = -1
        elif mode == "burst":
            self.horizon = horizon
            self.left = self._burst()

    def _burst(self):
        # lengths over all orders of magnitude: a few points, part of a call, several whole calls
        return int(math.exp(self.r.uniform(0.0, math.log(self.horizon))))

    def want(self, step, cur, runnable):
        """thread to run next, or None to go on with `cur`"""
        if self.mode == "rand":
            if self.r.random() < self.p:
                others = [t for t in runnable if t != cur]
                return self.r.choice(others) if others else None
            return None
        if self.mode == "burst":
            self.left -= 1
            if self.left > 0:
                return None
            self.left = self._burst()
            others = [t for t in runnable if t != cur]
            return self.r.choice(others) if others else None
        if self.change and step >= self.change[0]:
            self.change.pop(0)
            self.prio[cur] = self.low
            self.low -= 1
        best = max(runnable, key=lambda t: self.prio[t])
        return best if best != cur else None

    def forced(self, step, runnable):
        if self.mode == "pct":
            return max(runnable, key=lambda t: self.prio[t])
        return self.r.choice(runnable)


class Recorded:
    def __init__(self, switches):
        self.at = {int(s): int(t) for s, t in switches}

    def want(self, step, cur, runnable):
        t = self.at.get(step)
        return t if t is not None and t != cur and t in runnable else None

    def forced(self, step, runnable):
        t = self.at.get(step)
        return t if t in runnable else runnable[0]


def make_schedule(spec, nthreads):
    if "switches" in spec:
        return Recorded(spec["switches"])
    return Seeded(
        spec["seed"], spec.get("mode", "rand"), spec.get("p", 0.1), spec.get("depth", 3),
        spec.get("horizon", 300), nthreads,
    )


# ----------------------------------------------------------------------------- simulation


class _Thread:
    __slots__ = ("tid", "fn", "gate", "state", "lock", "timed", "expired", "ident", "op", "op_points",
                 "op_calls", "fault", "error", "fired", "more", "late", "handler")

    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.gate = _real_lock()
        self.gate.acquire()
        self.state, self.lock, self.timed, self.expired = "ready", None, False, False
        self.ident, self.op, self.op_points, self.op_calls = None, None, 0, 0
        self.fault, self.fired, self.error, self.more, self.late = None, None, None, 0, None
        self.handler = None


class Sim:
    """`run(bodies, schedule)`: bodies are functions f(thread) executed by simulated threads.

    A body marks operations with `thread_begin(op, fault)` / `thread_end()`; a fault is
    `{"kind": "interrupt"|"memory", "at": n}`: delivered at the n-th point of that operation
    (interrupt: any point; memory: the n-th call made by library code, and, if the operation goes on,
    those of the later calls whose bits are set in `again`).  `{"kind": "handler", "at": n, "run": [...]}`:
    a signal handler or finaliser that itself uses the library runs in the middle of the operation, in the
    same thread (`th.handler(run)`, set by the body); not while that thread compiles, which numba does not allow.
    """

    MAX_POINTS = 400000

    def __init__(self, schedule):
        self.sched = schedule
        self.step = 0  # global event sequence number
        self.switches = []
        self.preemptions = 0
        self.trace = 0  # rolling hash of (thread, point kind) -> identifies the interleaving
        self.by_ident = {}
        self.threads = []
        self.cur = None
        self.verdict = None  # "deadlock" | "runaway"
        self.fault_log = []
        self.abandon = False
        self._in_point = False

    # -- called by simulated threads only, always by the one holding the baton
    def point(self, kind, faults=True):
        """faults: may one strike here?  (None: the point only counts; False: not even that)"""
        th = self.by_ident.get(_thread.get_ident())
        if th is None or self._in_point:
            return
        if self.abandon:
            if faults is False:
                return  # inside a lock operation: unwind at the next ordinary point
            raise Abandoned()
        if th.late is not None and faults:
            e, th.late = th.late, None
            raise e
        self._in_point = True
        fault = None
        try:
            self.step += 1
            if th.op is not None and faults is not False:
                th.op_points += 1
                if kind == "C" and faults:
                    th.op_calls += 1
                f = th.fault if faults else None
                if f is not None and th.fired is None:
                    if f["kind"] == "handler":
                        if th.op_points >= f["at"] and _compiler_lock.owner != th.ident:
                            th.fired = fault = f
                            self.fault_log.append([self.step, th.tid, f["kind"]])
                    elif (f["kind"] == "interrupt" and th.op_points >= f["at"]) or (
                        f["kind"] == "memory" and kind == "C" and th.op_calls == f["at"]
                    ):
                        th.fired = f
                        fault = f
                        self.fault_log.append([self.step, th.tid, f["kind"]])
                elif f is not None and "again" in f and kind == "C":
                    if f["again"] >> th.more & 1:  # memory is still (or once more) short
                        fault = f
                        self.fault_log.append([self.step, th.tid, f["kind"]])
                    th.more += 1
            self.trace = (self.trace * 1000003 + th.tid * 4 + ord(kind)) & 0xFFFFFFFFFFFFFFFF
            if self.step > self.MAX_POINTS:
                self.verdict = "runaway"
                self.abandon = True
                raise Abandoned()
            if fault is None and len(self.threads) > 1:
                runnable = self._runnable()
                if len(runnable) > 1:
                    nxt = self.sched.want(self.step, th.tid, runnable)
                    if nxt is not None and nxt != th.tid:
                        self.switches.append([self.step, nxt])
                        self.preemptions += 1
                        self._pass_to(th, nxt)
        finally:
            self._in_point = False
        if fault is not None:
            if fault["kind"] == "handler":
                self.nest(th, fault["run"])
                return
            if fault["kind"] == "interrupt":
                raise InjectedInterrupt("injected")
            raise InjectedMemoryError("injected")

    def nest(self, th, ops):
        keep = th.op, th.op_points, th.op_calls, th.fault, th.fired, th.more, th.late
        try:
            th.handler(ops)
        finally:
            th.op, th.op_points, th.op_calls, th.fault, th.fired, th.more, th.late = keep

    def late(self, e):
        """an exception that could not be raised where it was due"""
        self.by_ident[_thread.get_ident()].late = e

    def _runnable(self):
        return [
            t.tid for t in self.threads
            if t.state == "ready" or (t.state == "blocked" and t.lock.owner is None)
        ]

    def _pass_to(self, th, tid):
        """give the baton to `tid`, wait to get it back"""
        nxt = self.threads[tid]
        if nxt.state == "blocked":
            nxt.state = "ready"
        self.cur = tid
        self._in_point = False
        nxt.gate.release()
        th.gate.acquire()
        if self.abandon:
            raise Abandoned()

    def block(self, th, lock, timed=False):
        """current thread waits for `lock`; returns False if a timed wait expired"""
        if self.abandon:
            raise Abandoned()
        th.state, th.lock, th.timed, th.expired = "blocked", lock, timed, False
        self.step += 1
        runnable = self._runnable()
        if not runnable:
            timers = [t for t in self.threads if t.state == "blocked" and t.timed]
            if not timers:
                self.verdict = "deadlock"
                self.abandon = True
                raise Abandoned()
            t = timers[0]  # nothing else can happen: let simulated time pass
            t.state, t.expired = "ready", True
            runnable = [t.tid]
        nxt = self.sched.forced(self.step, runnable)
        self.switches.append([self.step, nxt])
        if nxt != th.tid:
            self._pass_to(th, nxt)
        th.state = "ready"
        return not th.expired

    def _finish(self, th):
        th.state = "done"
        if self.abandon:
            self._abandon_next()
            return
        self.step += 1
        live = [t for t in self.threads if t.state != "done"]
        if not live:
            self.done.release()
            return
        runnable = self._runnable()
        if not runnable:
            timers = [t for t in live if t.timed]
            if timers:
                timers[0].state, timers[0].expired = "ready", True
                runnable = [timers[0].tid]
            else:
                self.verdict = "deadlock"
                self.abandon = True
                self._abandon_next()
                return
        nxt = self.sched.forced(self.step, runnable)
        self.switches.append([self.step, nxt])
        t = self.threads[nxt]
        t.state = "ready"
        self.cur = nxt
        t.gate.release()

    def _abandon_next(self):
        for t in self.threads:
            if t.state != "done":
                t.gate.release()
                return
        self.done.release()

    def _main(self, th):
        th.ident = _thread.get_ident()
        self.by_ident[th.ident] = th
        th.gate.acquire()
        try:
            if not self.abandon:
                th.fn(th)
        except Abandoned:
            pass
        except BaseException as e:  # harness problem: bodies catch what operations raise
            th.error = e
        finally:
            self.by_ident.pop(th.ident, None)
            self._finish(th)

    def run(self, bodies, monitor=True):
        global _current
        self.threads = [_Thread(i, f) for i, f in enumerate(bodies)]
        self.done = _real_lock()
        self.done.acquire()
        _threading.Lock, _threading.RLock = _RealLock, _RealRLock
        ts = [_threading.Thread(target=self._main, args=(t,), daemon=True) for t in self.threads]
        for t in ts:
            t.start()
        _threading.Lock, _threading.RLock = _lock_factory, _rlock_factory
        while len(self.by_ident) < len(ts):  # all threads parked at their gate
            time.sleep(0)
        gc_was = gc.isenabled()
        gc.disable()  # finalisers run when references go away, never at a moment of the collector's choosing
        _current = self
        if monitor:
            monitoring(True)
        try:
            first = self.sched.forced(0, [t.tid for t in self.threads])
            self.switches.append([0, first])
            self.cur = first
            self.threads[first].gate.release()
            self.done.acquire()
        finally:
            if monitor:
                monitoring(False)
            _current = None
            if gc_was:
                gc.enable()
        for t in ts:
            t.join()
        for t in self.threads:
            if t.error is not None:
                raise HarnessError("simulated thread failed: %r" % (t.error,)) from t.error
        return self

    # -- used by bodies
    def begin(self, th, op, fault=None):
        self.point("B")  # operation boundaries are points too
        th.op, th.op_points, th.op_calls, th.fault, th.fired = op, 0, 0, fault, None
        th.more = 0
        self.step += 1
        return self.step

    def end(self, th):
        """returns (event number, fault that fired or None, number of points, calls)"""
        fired, n, c = th.fired, th.op_points, th.op_calls
        if th.late is not None and th.more == 0:
            fired = None  # the operation was over before the fault could be delivered
        if fired is not None and fired["kind"] == "handler":
            fired = None  # a handler is no excuse for failing
        th.op, th.fault, th.fired, th.late = None, None, None, None
        self.step += 1
        return self.step, fired, n, c
